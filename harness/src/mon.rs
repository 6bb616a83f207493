//! The monitors: allocator, transports, executor, panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use crate::rng::Rng;

// ---------------------------------------------------------------- allocator

pub struct MonAlloc;

#[derive(Clone, Copy, Default, Debug)]
pub struct AllocStats {
    /// bytes live now, relative to the start of the observation
    pub live: i64,
    pub peak: i64,
    pub max_req: u64,
    pub count: u64,
    pub total: u64,
    pub refused: u64,
}

thread_local! {
    static A_ON: Cell<bool> = const { Cell::new(false) };
    static A: Cell<AllocStats> = const { Cell::new(AllocStats{live:0,peak:0,max_req:0,count:0,total:0,refused:0}) };
    static A_CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Live bytes one observed call into the code under test may hold before the
/// allocator starts to answer "out of memory".
pub const DEFAULT_CAP: i64 = 40 << 20;

#[inline]
fn on_alloc(sz: usize) -> bool {
    A_ON.try_with(|on| {
        if !on.get() {
            return true;
        }
        A.with(|a| {
            let mut s = a.get();
            s.count += 1;
            s.max_req = s.max_req.max(sz as u64);
            // memory runs out for large requests first: small ones (which no
            // code can be asked to survive) still succeed for a good while
            let cap = A_CAP.with(|c| c.get());
            let after = s.live.saturating_add(sz as i64);
            if after > cap && (sz >= 1 << 15 || after > cap.saturating_mul(4)) {
                s.refused += 1;
                a.set(s);
                return false;
            }
            s.total += sz as u64;
            s.live += sz as i64;
            s.peak = s.peak.max(s.live);
            a.set(s);
            true
        })
    })
    .unwrap_or(true)
}
#[inline]
fn on_free(sz: usize) {
    let _ = A_ON.try_with(|on| {
        if on.get() {
            A.with(|a| {
                let mut s = a.get();
                s.live -= sz as i64;
                a.set(s);
            })
        }
    });
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !on_alloc(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            on_free(n);
        } else {
            on_free(l.size());
        }
        q
    }
}

// ---------------------------------------------------- entering the code under test

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static DEPTH_PAUSE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|c| c.get()) > 0 {
            // do not charge the message to the code under test
            let on = A_ON.with(|c| c.replace(false));
            let s = format!("{}", info);
            PANIC.with(|p| *p.borrow_mut() = Some(s));
            A_ON.with(|c| c.set(on));
        } else {
            default(info);
        }
    }));
}

/// Runs `f` - a call into the code under test - with panics captured and its
/// allocations observed.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    sut_cap(DEFAULT_CAP, f).0
}

pub fn sut_cap<T>(cap: i64, f: impl FnOnce() -> T) -> (Result<T, String>, AllocStats) {
    let nested = A_ON.with(|c| c.get());
    if !nested {
        A.with(|a| a.set(AllocStats::default()));
        A_CAP.with(|c| c.set(cap));
    }
    IN_SUT.with(|c| c.set(c.get() + 1));
    A_ON.with(|c| c.set(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    if !nested {
        A_ON.with(|c| c.set(false));
        A_CAP.with(|c| c.set(i64::MAX));
    }
    IN_SUT.with(|c| c.set(c.get() - 1));
    let st = A.with(|a| a.get());
    match r {
        Ok(v) => (Ok(v), st),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            (Err(format!("panicked: {}", m.replace('\n', " "))), st)
        }
    }
}

/// Code of the monitors running inside `sut` (transports): not charged.
pub fn uncharged<T>(f: impl FnOnce() -> T) -> T {
    let on = A_ON.with(|c| c.replace(false));
    let r = f();
    A_ON.with(|c| c.set(on));
    r
}

// ---------------------------------------------------------------- transports

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
    Full,
    One,
    Fixed(usize),
    Rand,
}

/// What a transport does at its fault offset.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Err(io::ErrorKind),
    /// write: accept nothing (`Ok(0)`)
    Zero,
    /// panic inside the transport
    Panic,
    /// claim to have read or written more bytes than asked for
    Lie(usize),
    /// never ready again, no wake-up (only for cancellation workloads)
    Hang,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// interrupted calls out of 16 (blocking only)
    pub intr: u8,
    /// not-ready polls out of 16 (async only)
    pub pending: u8,
    /// wake at once (true) or later, by the executor's reactor
    pub wake_now: bool,
    pub fault: Option<(usize, Fault)>,
    /// fault only once, then go on normally
    pub once: bool,
    /// fill the part of the read buffer beyond the returned count with junk
    pub scribble: bool,
    pub seed: u64,
}

impl Plan {
    pub fn plain() -> Plan {
        Plan {
            chunk: Chunk::Full,
            intr: 0,
            pending: 0,
            wake_now: true,
            fault: None,
            once: false,
            scribble: false,
            seed: 0,
        }
    }
    /// No faults, but arbitrary splitting.
    pub fn rough(r: &mut Rng) -> Plan {
        if crate::v::tiny() {
            return Plan {
                chunk: *r.pick(&[Chunk::Full, Chunk::Fixed(5), Chunk::Fixed(16), Chunk::Rand]),
                intr: *r.pick(&[0, 0, 3]),
                pending: *r.pick(&[0, 0, 3]),
                wake_now: r.chance(1, 2),
                fault: None,
                once: false,
                scribble: r.chance(1, 4),
                seed: r.u64(),
            };
        }
        Plan {
            chunk: *r.pick(&[Chunk::Full, Chunk::One, Chunk::Fixed(2), Chunk::Fixed(3), Chunk::Fixed(7), Chunk::Rand, Chunk::Rand]),
            intr: *r.pick(&[0, 4, 8]),
            pending: *r.pick(&[0, 4, 8, 12]),
            wake_now: r.chance(1, 2),
            fault: None,
            once: false,
            scribble: r.chance(1, 2),
            seed: r.u64(),
        }
    }
    pub fn with_fault(mut self, at: usize, f: Fault) -> Plan {
        self.fault = Some((at, f));
        self
    }
    pub fn no_intr(mut self) -> Plan {
        self.intr = 0;
        self
    }
}

/// transports look at the whole buffer they are given before they fill it
/// (sanitizers then see buffers that were never initialised)
pub static PEEK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn peek(b: &[u8]) {
    if PEEK.load(Ordering::Relaxed) {
        let mut s = 0u8;
        let n = b.len();
        let (h, t) = if n > 512 || n > 64 && cfg!(miri) { (&b[..32], &b[n - 32..]) } else { (b, &b[..0]) };
        for x in h.iter().chain(t) {
            s = s.wrapping_mul(31).wrapping_add(*x);
        }
        if std::hint::black_box(s) == 77 {
            std::hint::black_box(());
        }
    }
}

pub const FAULT_MSG: &str = "injected transport fault #4711";

/// A message a `transport` fault carries; the kind's own text if simple.
pub fn fault_error(k: io::ErrorKind) -> io::Error {
    uncharged(|| io::Error::new(k, FAULT_MSG))
}

#[derive(Debug)]
pub struct MonReader {
    pub data: Arc<[u8]>,
    pub pos: usize,
    pub plan: Plan,
    rng: Rng,
    pub calls: u64,
    pub intrs: u64,
    pub pendings: u64,
    pub faults: u64,
    pub eofs: u64,
    /// logical-step bound; exceeding it is reported as a runaway read
    pub max_calls: u64,
    pub runaway: bool,
    pub seeks: u64,
    streak: u8,
    /// mirror of `pos`, observable while a protocol borrows the reader
    pub watch: Option<Arc<AtomicU64>>,
}

impl MonReader {
    pub fn new(data: impl Into<Arc<[u8]>>, plan: Plan) -> Self {
        let data = data.into();
        let mut plan = plan;
        // futures' read_to_end clears the rest of its buffer on every poll:
        // tiny pieces of huge strings that are also not ready would be slow
        if plan.pending > 0 && data.len() > 16_384 {
            if let Chunk::One | Chunk::Fixed(_) = plan.chunk {
                plan.chunk = Chunk::Fixed(1 + data.len() / 256);
            }
        }
        let max_calls = 2_000 + 64 * data.len() as u64;
        let rng = Rng::new(plan.seed);
        MonReader {
            data,
            pos: 0,
            plan,
            rng,
            calls: 0,
            intrs: 0,
            pendings: 0,
            faults: 0,
            eofs: 0,
            max_calls,
            runaway: false,
            seeks: 0,
            streak: 0,
            watch: None,
        }
    }
    pub fn plain(data: impl Into<Arc<[u8]>>) -> Self {
        MonReader::new(data, Plan::plain())
    }
    fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        peek(buf);
        if self.calls > self.max_calls {
            self.runaway = true;
            if self.calls > self.max_calls + 100_000 {
                panic!("runaway read: more than {} transport calls for {} bytes", self.max_calls, self.data.len());
            }
            return Err(fault_error(io::ErrorKind::Other));
        }
        if self.pos > self.data.len() {
            self.eofs += 1;
            return Ok(0);
        }
        let mut avail = self.data.len() - self.pos;
        if let Some((at, f)) = self.plan.fault {
            if at >= self.pos {
                avail = avail.min(at - self.pos);
                if avail == 0 && at == self.pos {
                    self.faults += 1;
                    if self.plan.once {
                        self.plan.fault = None;
                    }
                    match f {
                        Fault::Err(k) => return Err(fault_error(k)),
                        Fault::Zero => return Ok(0),
                        Fault::Panic => panic!("{}", FAULT_MSG),
                        Fault::Lie(k) => return Ok(buf.len() + k),
                        Fault::Hang => return Err(fault_error(io::ErrorKind::Other)),
                    }
                }
            }
        }
        if avail == 0 {
            self.eofs += 1;
            return Ok(0);
        }
        let mut n = avail.min(buf.len());
        n = match self.plan.chunk {
            Chunk::Full => n,
            Chunk::One => n.min(1),
            Chunk::Fixed(k) => n.min(k),
            Chunk::Rand => {
                if n > 1 {
                    1 + self.rng.below(n as u64) as usize
                } else {
                    n
                }
            }
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        if self.plan.scribble {
            for b in buf[n..].iter_mut().take(64) {
                *b = 0xA5;
            }
        }
        self.pos += n;
        if let Some(w) = &self.watch {
            w.store(self.pos as u64, Ordering::Relaxed);
        }
        Ok(n)
    }
    fn not_yet(&mut self, prob: u8) -> bool {
        // at most 3 in a row: a transport that is never ready is no transport
        if prob > 0 && self.streak < 3 && self.rng.below(16) < prob as u64 {
            self.streak += 1;
            true
        } else {
            self.streak = 0;
            false
        }
    }
}

impl io::Read for MonReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let p = self.plan.intr;
        if self.not_yet(p) {
            self.intrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.step(buf)
    }
}

impl io::Seek for MonReader {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        let base = match p {
            io::SeekFrom::Start(n) => n as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            io::SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if base < 0 || base > u32::MAX as i128 {
            return Err(fault_error(io::ErrorKind::InvalidInput));
        }
        self.pos = base as usize;
        if let Some(w) = &self.watch {
            w.store(self.pos as u64, Ordering::Relaxed);
        }
        Ok(base as u64)
    }
}

#[derive(Debug)]
pub struct MonWriter {
    pub out: Vec<u8>,
    pub plan: Plan,
    rng: Rng,
    pub calls: u64,
    pub intrs: u64,
    pub pendings: u64,
    pub faults: u64,
    pub flushes: u64,
    pub flush_err: Option<io::ErrorKind>,
    pub max_calls: u64,
    pub closed: u64,
    streak: u8,
    pub watch: Option<Arc<AtomicU64>>,
}

impl MonWriter {
    pub fn new(plan: Plan) -> Self {
        let rng = Rng::new(plan.seed);
        MonWriter {
            out: vec![],
            plan,
            rng,
            calls: 0,
            intrs: 0,
            pendings: 0,
            faults: 0,
            flushes: 0,
            flush_err: None,
            max_calls: u64::MAX,
            closed: 0,
            streak: 0,
            watch: None,
        }
    }
    pub fn plain() -> Self {
        MonWriter::new(Plan::plain())
    }
    pub fn watched() -> (Self, Arc<AtomicU64>) {
        let a = Arc::new(AtomicU64::new(0));
        let mut w = MonWriter::plain();
        w.watch = Some(a.clone());
        (w, a)
    }
    fn step(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        peek(buf);
        if self.calls > self.max_calls {
            panic!("runaway write: more than {} transport calls", self.max_calls);
        }
        let mut n = buf.len();
        if n == 0 {
            return Ok(0);
        }
        if let Some((at, f)) = self.plan.fault {
            if at >= self.out.len() {
                n = n.min(at - self.out.len());
                if n == 0 {
                    self.faults += 1;
                    if self.plan.once {
                        self.plan.fault = None;
                    }
                    match f {
                        Fault::Err(k) => return Err(fault_error(k)),
                        Fault::Zero => return Ok(0),
                        Fault::Panic => panic!("{}", FAULT_MSG),
                        Fault::Lie(k) => return Ok(buf.len() + k),
                        Fault::Hang => return Err(fault_error(io::ErrorKind::Other)),
                    }
                }
            }
        }
        n = match self.plan.chunk {
            Chunk::Full => n,
            Chunk::One => n.min(1),
            Chunk::Fixed(k) => n.min(k),
            Chunk::Rand => {
                if n > 1 {
                    1 + self.rng.below(n as u64) as usize
                } else {
                    n
                }
            }
        };
        uncharged(|| self.out.extend_from_slice(&buf[..n]));
        if let Some(w) = &self.watch {
            w.store(self.out.len() as u64, Ordering::Relaxed);
        }
        Ok(n)
    }
    fn not_yet(&mut self, prob: u8) -> bool {
        if prob > 0 && self.streak < 3 && self.rng.below(16) < prob as u64 {
            self.streak += 1;
            true
        } else {
            self.streak = 0;
            false
        }
    }
}

impl io::Write for MonWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let p = self.plan.intr;
        if self.not_yet(p) {
            self.intrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.step(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        match self.flush_err {
            Some(k) => Err(fault_error(k)),
            None => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- async side

#[cfg(feature = "async")]
pub mod aio {
    use super::*;
    use futures::io::{AsyncRead, AsyncSeek, AsyncWrite};
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, AtomicU32};
    use std::task::{Context, Poll, Wake, Waker};

    thread_local! {
        /// wakers of transports that answered Pending and will be ready later
        static REACTOR: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
    }

    fn park(cx: &mut Context<'_>, now: bool) {
        uncharged(|| {
            if now {
                cx.waker().wake_by_ref();
            } else {
                REACTOR.with(|r| r.borrow_mut().push(cx.waker().clone()));
            }
        })
    }

    impl AsyncRead for MonReader {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let p = self.plan.pending;
            if self.not_yet(p) {
                self.pendings += 1;
                park(cx, self.plan.wake_now);
                return Poll::Pending;
            }
            if let Some((at, Fault::Hang)) = self.plan.fault {
                if at == self.pos {
                    self.faults += 1;
                    return Poll::Pending;
                }
            }
            Poll::Ready(self.step(buf))
        }
    }

    impl AsyncSeek for MonReader {
        fn poll_seek(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, pos: io::SeekFrom) -> Poll<io::Result<u64>> {
            Poll::Ready(io::Seek::seek(&mut *self, pos))
        }
    }

    impl AsyncWrite for MonWriter {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            let p = self.plan.pending;
            if self.not_yet(p) {
                self.pendings += 1;
                park(cx, self.plan.wake_now);
                return Poll::Pending;
            }
            if let Some((at, Fault::Hang)) = self.plan.fault {
                if at == self.out.len() {
                    self.faults += 1;
                    return Poll::Pending;
                }
            }
            Poll::Ready(self.step(buf))
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let p = self.plan.pending;
            if self.not_yet(p) {
                self.pendings += 1;
                park(cx, self.plan.wake_now);
                return Poll::Pending;
            }
            self.flushes += 1;
            Poll::Ready(match self.flush_err {
                Some(k) => Err(fault_error(k)),
                None => Ok(()),
            })
        }
        fn poll_close(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.closed += 1;
            Poll::Ready(Ok(()))
        }
    }

    pub struct Flag {
        pub set: AtomicBool,
        pub wakes: AtomicU32,
    }
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.set.store(true, Ordering::SeqCst);
            self.wakes.fetch_add(1, Ordering::SeqCst);
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.set.store(true, Ordering::SeqCst);
            self.wakes.fetch_add(1, Ordering::SeqCst);
        }
    }
    pub fn flag() -> Arc<Flag> {
        Arc::new(Flag {
            set: AtomicBool::new(false),
            wakes: AtomicU32::new(0),
        })
    }

    /// lets all parked transports become ready
    pub fn reactor_turn() -> usize {
        let v: Vec<Waker> = REACTOR.with(|r| std::mem::take(&mut *r.borrow_mut()));
        let n = v.len();
        for w in v {
            w.wake();
        }
        n
    }

    pub const LOST: &str = "lost wake-up: the future is pending but no transport was asked to wake it";

    /// Drives one future to completion. A future that is pending although no
    /// transport is, is reported (it would hang any executor).
    pub fn block_on<F: Future>(f: F) -> Result<F::Output, String> {
        block_on_polls(f).map(|x| x.0)
    }
    pub fn block_on_polls<F: Future>(f: F) -> Result<(F::Output, u64), String> {
        let (r, polls) = uncharged(|| {
            let fl = flag();
            let w = Waker::from(fl.clone());
            let mut cx = Context::from_waker(&w);
            let mut f = charged(|| Box::pin(f));
            let mut polls = 0u64;
            loop {
                polls += 1;
                fl.set.store(false, Ordering::SeqCst);
                match charged(|| f.as_mut().poll(&mut cx)) {
                    Poll::Ready(v) => {
                        charged(|| drop(f));
                        return (Ok(v), polls);
                    }
                    Poll::Pending => {
                        if fl.set.load(Ordering::SeqCst) {
                            continue;
                        }
                        reactor_turn();
                        if !fl.set.load(Ordering::SeqCst) {
                            return (Err(LOST.to_string()), polls);
                        }
                    }
                }
            }
        });
        r.map(|v| (v, polls))
    }

    /// counterpart of `uncharged`: back in the code under test
    fn charged<T>(f: impl FnOnce() -> T) -> T {
        if IN_SUT.with(|c| c.get()) > 0 {
            let on = A_ON.with(|c| c.replace(true));
            let r = f();
            A_ON.with(|c| c.set(on));
            r
        } else {
            f()
        }
    }
}
