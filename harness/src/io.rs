//! Runs one read or write of the code under test, monitored.
use std::sync::atomic::AtomicU64;
use std::sync::Arc;

use pfs::thrift::protocol::*;
use pfs::thrift::{Error, Result as TRes};

use crate::model::*;
#[cfg(feature = "async")]
use crate::mon::aio;
use crate::mon::*;
use crate::v::RE;

/// Kind of an error, as a user can match on it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    T(i32),
    P(i32),
    A(i32),
}
pub const EOF: EK = EK::T(4);
pub const SIZE: EK = EK::P(3);
pub const DEPTH: EK = EK::P(6);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E {
    pub k: EK,
    pub msg: String,
}

pub fn e_of(e: Error) -> E {
    match e {
        Error::Transport(t) => E { k: EK::T(t.kind as i32), msg: t.message },
        Error::Protocol(t) => E { k: EK::P(t.kind as i32), msg: t.message },
        Error::Application(t) => E { k: EK::A(t.kind as i32), msg: t.message },
    }
}

/// What `errors.rs` documents for I/O errors.
pub fn ek_of_io(k: std::io::ErrorKind) -> EK {
    use std::io::ErrorKind::*;
    EK::T(match k {
        ConnectionReset | ConnectionRefused | NotConnected => 1,
        AlreadyExists => 2,
        TimedOut => 3,
        UnexpectedEof => 4,
        _ => 0,
    })
}

pub const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    &[
        ConnectionReset, ConnectionRefused, NotConnected, AlreadyExists, TimedOut, UnexpectedEof, Other, NotFound,
        PermissionDenied, ConnectionAborted, AddrInUse, AddrNotAvailable, BrokenPipe, WouldBlock, InvalidInput,
        InvalidData, WriteZero, Unsupported, OutOfMemory,
    ]
};

/// Does the observed error agree with what the reference reader found?
pub fn agrees(re: RE, k: EK, may_oom: bool) -> bool {
    (may_oom && k == SIZE)
        || match re {
            RE::Eof => k == EOF,
            RE::Size => k == SIZE,
            RE::Depth => k == DEPTH,
            RE::Proto => matches!(k, EK::P(_)),
            RE::Any | RE::Unspec => true,
        }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Sync,
    Async,
}
#[cfg(feature = "async")]
pub const MODES: &[Mode] = &[Mode::Sync, Mode::Async];
#[cfg(not(feature = "async"))]
pub const MODES: &[Mode] = &[Mode::Sync];

pub struct Out {
    pub r: Result<Box<dyn DynVal>, E>,
    pub pos: usize,
    pub alloc: AllocStats,
    pub rd: MonReader,
}

impl Out {
    pub fn kind(&self) -> String {
        match &self.r {
            Ok(v) => format!("Ok({})", crate::v::V::short(&v.tree())),
            Err(e) => format!("Err({:?} {:?})", e.k, e.msg),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(160);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Any read: `f` for the blocking, `g` for the asynchronous protocol.
pub fn read_with<T>(
    m: Mode,
    data: &Arc<[u8]>,
    plan: &Plan,
    limit: usize,
    f: impl FnOnce(&mut SyncIn) -> TRes<T>,
    #[cfg(feature = "async")] g: impl for<'a, 'b> FnOnce(&'a mut AsyncIn<'b>) -> BoxFut<'a, TRes<T>>,
) -> Result<(Result<T, E>, AllocStats, MonReader), String> {
    let mut plan = plan.clone();
    if m == Mode::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut rd = MonReader::new(data.clone(), plan);
    let (r, alloc) = match m {
        Mode::Sync => {
            let (r, a) = sut_cap(DEFAULT_CAP, || {
                let mut p = TCompactInputProtocol::new(&mut rd, limit);
                f(&mut p)
            });
            (r?, a)
        }
        #[cfg(feature = "async")]
        Mode::Async => {
            let (r, a) = sut_cap(DEFAULT_CAP, || {
                aio::block_on(async {
                    let mut p = TCompactInputStreamProtocol::new(&mut rd, limit);
                    g(&mut p).await
                })
            });
            (r??, a)
        }
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    };
    if rd.runaway {
        return Err(format!("read does not terminate: {} transport calls for {} bytes", rd.calls, rd.data.len()));
    }
    Ok((r.map_err(e_of), alloc, rd))
}

#[cfg(feature = "async")]
#[macro_export]
macro_rules! reading {
    ($m:expr, $d:expr, $plan:expr, $lim:expr, $f:expr, $g:expr) => {
        $crate::io::read_with($m, $d, $plan, $lim, $f, $g)
    };
}
#[cfg(not(feature = "async"))]
#[macro_export]
macro_rules! reading {
    ($m:expr, $d:expr, $plan:expr, $lim:expr, $f:expr, $g:expr) => {
        $crate::io::read_with($m, $d, $plan, $lim, $f)
    };
}

pub fn read_t(t: &'static dyn DynType, m: Mode, data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<Out, String> {
    let (r, alloc, rd) = reading!(m, data, plan, limit, |p| t.read(p), |p| t.aread(p))
        .map_err(|e| format!("{:?} read of {} with limit {} from {} ({:?}): {}", m, t.name(), limit, hex(data), plan, e))?;
    Ok(Out { r, pos: rd.pos, alloc, rd })
}

pub fn read_plain(t: &'static dyn DynType, m: Mode, data: &Arc<[u8]>) -> Result<Out, String> {
    read_t(t, m, data, &Plan::plain(), usize::MAX)
}

pub struct WOut {
    pub r: Result<usize, E>,
    pub w: MonWriter,
}

pub fn write_v(v: &dyn DynVal, m: Mode, plan: &Plan) -> Result<WOut, String> {
    let mut plan = plan.clone();
    if m == Mode::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut w = MonWriter::new(plan);
    let r = match m {
        Mode::Sync => sut_cap(i64::MAX, || {
            let mut p = TCompactOutputProtocol::new(&mut w);
            v.write(&mut p)
        })
        .0,
        #[cfg(feature = "async")]
        Mode::Async => sut_cap(i64::MAX, || {
            aio::block_on(async {
                let mut p = TCompactOutputStreamProtocol::new(&mut w);
                v.awrite(&mut p).await
            })
        })
        .0
        .and_then(|x| x),
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    };
    let r = r.map_err(|e| format!("{:?} write of {}: {}", m, v.dbg().chars().take(300).collect::<String>(), e))?;
    Ok(WOut { r: r.map_err(e_of), w })
}

/// A plain write that must succeed; the bytes.
pub fn bytes_of(v: &dyn DynVal, m: Mode) -> Result<Vec<u8>, String> {
    let w = write_v(v, m, &Plan::plain())?;
    match w.r {
        Ok(_) => Ok(w.w.out),
        Err(e) => Err(format!("{:?} write of a legitimate value failed: {:?}; value {}", m, e, v.tree().short())),
    }
}

pub fn arc(b: &[u8]) -> Arc<[u8]> {
    Arc::from(b)
}

pub fn watch() -> Arc<AtomicU64> {
    Arc::new(AtomicU64::new(0))
}

// thread CPU time in nanoseconds, as the kernel counts it
#[cfg(not(miri))]
pub fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.s as u64 * 1_000_000_000 + t.n as u64
}
#[cfg(miri)]
pub fn cpu_ns() -> u64 {
    0
}
