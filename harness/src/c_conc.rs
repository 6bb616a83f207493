//! C20: operations do not influence each other - over threads, interleaved
//! tasks, cancelled, failed and panicking predecessors.
use std::sync::{Arc, Barrier};

use pfs::thrift::protocol::*;

use crate::c_hostile::{any_plan, attack, observe, Sig, Tgt};
use crate::c_limits::variant;
use crate::c_values::{decode_items, mk};
use crate::io::*;
use crate::model::*;
#[cfg(feature = "async")]
use crate::mon::aio;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

/// What an operation did, as far as its caller can tell.
#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Read(Result<Sig, EK>, usize),
    Wrote(Result<usize, EK>, Vec<u8>),
    /// the injected panic of the transport came through
    Panicked,
}

impl Outcome {
    fn short(&self) -> String {
        match self {
            Outcome::Read(r, p) => format!("read {} up to {}", format!("{:?}", r).chars().take(300).collect::<String>(), p),
            Outcome::Wrote(r, b) => format!("wrote {:?} {}", r, hex(b)),
            Outcome::Panicked => "panic of the transport".into(),
        }
    }
}

#[derive(Clone)]
enum Kind {
    Read(Tgt, Arc<[u8]>, usize),
    Write(&'static dyn DynType, Arc<dyn DynVal>),
    WriteOps(Arc<Vec<Op>>),
}

#[derive(Clone)]
struct Act {
    kind: Kind,
    plan: Plan,
    sync_only: bool,
    want: Outcome,
}

impl Act {
    fn what(&self) -> String {
        match &self.kind {
            Kind::Read(t, b, l) => format!("read of {:?} with limit {} from {} ({:?})", t, l, hex(b), self.plan),
            Kind::Write(t, v) => format!("write of {} {} ({:?})", t.name(), v.tree().short(), self.plan),
            Kind::WriteOps(o) => format!("writing of {} calls ({:?})", o.len(), self.plan),
        }
    }
    fn judge(&self, got: &Outcome, ctx: &str) -> Res {
        ensure!(got == &self.want, "{}: {} gives {}; on its own it gives {}", ctx, self.what(), got.short(), self.want.short());
        Ok(())
    }
}

fn ek(o: &crate::c_hostile::Obs) -> Outcome {
    Outcome::Read(o.r.clone().map_err(|e| e.k), o.pos)
}

fn run_sync(a: &Act, m: Mode) -> Result<Outcome, String> {
    let panics = matches!(a.plan.fault, Some((_, Fault::Panic)));
    let r = match &a.kind {
        Kind::Read(t, b, l) => observe(t, m, b, &a.plan, *l).map(|o| ek(&o)),
        Kind::Write(_, v) => write_v(&**v, m, &a.plan).map(|o| Outcome::Wrote(o.r.map_err(|e| e.k), o.w.out)),
        Kind::WriteOps(ops) => write_ops(wm(m), ops, &a.plan, false)
            .map(|o| Outcome::Wrote(match o.err {
                Some(e) => Err(e.k),
                None => Ok(o.log.iter().map(|x| x.0).sum()),
            }, o.w.out)),
    };
    match r {
        Err(e) if panics && e.contains(FAULT_MSG) => Ok(Outcome::Panicked),
        r => r,
    }
}

/// An operation and what it must do: from the model where the model says,
/// else as first observed.
fn act(r: &mut Rng, calm: bool) -> Result<Act, String> {
    let t = pick_type(r);
    let small = |r: &mut Rng| gen_v(t.ty(), &mut G::simple(r, Opt::Rand));
    let mut plan = Plan::rough(r);
    let kind = r.below(if calm { 6 } else { 10 });
    Ok(match kind {
        0 | 1 | 2 => {
            // a valid encoding: whole, cut, or with too small a limit
            let v = small(r);
            let (b, ch) = variant(r, &v, t.ty());
            let n = b.len();
            let b = arc(&b);
            match r.below(if calm { 1 } else { 3 }) {
                1 => {
                    let at = r.below(n as u64) as usize;
                    let k = *r.pick(KINDS);
                    let f = match r.below(4) {
                        0 => Fault::Zero,
                        1 => Fault::Panic,
                        _ => Fault::Err(k),
                    };
                    plan.fault = Some((at, f));
                    let want = match f {
                        Fault::Zero => Outcome::Read(Err(EOF), at),
                        Fault::Panic => Outcome::Panicked,
                        _ => Outcome::Read(Err(ek_of_io(k)), at),
                    };
                    Act { kind: Kind::Read(Tgt::Type(t), b, usize::MAX), plan, sync_only: false, want }
                }
                2 if ch > 0 => {
                    let l = r.below(ch) as usize;
                    let mut a = Act { kind: Kind::Read(Tgt::Type(t), b, l), plan, sync_only: false, want: Outcome::Panicked };
                    a.want = run_sync(&a, Mode::Sync)?;
                    ensure!(matches!(&a.want, Outcome::Read(Err(SIZE), _)), "{} gives {} although it charges {}", a.what(), a.want.short(), ch);
                    a
                }
                _ => Act {
                    kind: Kind::Read(Tgt::Type(t), b, if r.chance(1, 2) { ch as usize } else { usize::MAX }),
                    plan,
                    sync_only: false,
                    want: Outcome::Read(Ok(Sig::Tree(v)), n),
                },
            }
        }
        3 | 4 | 6 => {
            let v = small(r);
            let x = mk(t, &v);
            let b = bytes_of(&*x, Mode::Sync)?;
            let mut d = Dec::new(&b);
            let got = d.val(t.ty().code()).map_err(|e| format!("{} written as {}: {}", v.short(), hex(&b), e))?;
            ensure!(got.sorted() == v.clone().sorted() && d.pos == b.len(), "{} written as {}", v.short(), hex(&b));
            let want = if !calm && r.chance(1, 2) && !b.is_empty() {
                let at = r.below(b.len() as u64) as usize;
                let k = *r.pick(KINDS);
                let f = match r.below(4) {
                    0 => Fault::Panic,
                    _ => Fault::Err(k),
                };
                plan.fault = Some((at, f));
                match f {
                    Fault::Panic => Outcome::Panicked,
                    _ => Outcome::Wrote(Err(ek_of_io(k)), b[..at].to_vec()),
                }
            } else {
                Outcome::Wrote(Ok(b.len()), b)
            };
            Act { kind: Kind::Write(t, Arc::from(x)), plan, sync_only: false, want }
        }
        5 => {
            // calls, written or read
            let mut items = gen_items(r);
            items.truncate(2);
            let s = seq(items, r);
            if r.chance(1, 2) {
                let o = write_ops(WM::Sync, &s.ops, &Plan::plain(), false)?;
                ensure!(o.err.is_none(), "write fails: {:?}", o.err);
                decode_items(&s.items, &o.w.out)?;
                Act {
                    want: Outcome::Wrote(Ok(o.w.out.len()), o.w.out),
                    kind: Kind::WriteOps(Arc::new(s.ops)),
                    plan,
                    sync_only: false,
                }
            } else {
                let mut a = Act { kind: Kind::Read(Tgt::Calls(s.ops.clone()), s.bytes, usize::MAX), plan, sync_only: false, want: Outcome::Panicked };
                a.want = run_sync(&a, Mode::Sync)?;
                if let Outcome::Read(Ok(Sig::Calls(g)), _) = &a.want {
                    if let Some(d) = diff_ops(&s.ops, g) {
                        return Err(d);
                    }
                } else {
                    return Err(format!("{} gives {}", a.what(), a.want.short()));
                }
                a
            }
        }
        7 => {
            // a skip, within or beyond the depth limit
            let d = r.range(1, 12) as usize;
            let v = gen_deep(r, d, &[9, 10, 11, 12]);
            let b = encode(&v);
            let lim = r.below(14) as i8;
            let mut a = Act {
                kind: Kind::Read(Tgt::Skip(v.code(), Some(lim)), arc(&b), usize::MAX),
                plan,
                sync_only: false,
                want: Outcome::Read(Ok(Sig::Unit), b.len()),
            };
            if v.depth() > lim as usize {
                a.want = run_sync(&a, Mode::Sync)?;
                ensure!(matches!(&a.want, Outcome::Read(Err(DEPTH), _)), "{} of depth {} gives {}", a.what(), v.depth(), a.want.short());
            }
            a
        }
        8 => {
            let s = gen_utf8(r, 12);
            let k = r.below(11) as i32;
            let b = encode(&V::St(vec![(1, V::Bin(s.clone())), (2, V::I32(k))]));
            let n = b.len();
            let lim = if r.chance(1, 3) { s.len() + 1 } else { usize::MAX };
            let mut a = Act { kind: Kind::Read(Tgt::App, arc(&b), lim), plan, sync_only: true, want: Outcome::Read(Ok(Sig::App(k, String::from_utf8(s).unwrap())), n) };
            if lim != usize::MAX {
                a.want = run_sync(&a, Mode::Sync)?;
                ensure!(matches!(&a.want, Outcome::Read(Err(SIZE), _)), "{} gives {}", a.what(), a.want.short());
            }
            a
        }
        _ => {
            let (tgt, b, _) = attack(r);
            let mut b = b;
            b.truncate(4_000);
            let lim = 10_000;
            plan = any_plan(r, b.len());
            plan.once = false;
            let sync_only = matches!(tgt, Tgt::App);
            let mut a = Act { kind: Kind::Read(tgt, arc(&b), lim), plan, sync_only, want: Outcome::Panicked };
            a.want = run_sync(&a, Mode::Sync)?;
            a
        }
    })
}

fn fp(a: &[Act]) -> u64 {
    let mut h = 0;
    for x in a {
        h = mix(h ^ match &x.kind {
            Kind::Read(_, b, l) => fnv(b) ^ mix(*l as u64),
            Kind::Write(t, _) => fnv(t.name().as_bytes()) ^ fnv(x.want.short().as_bytes()),
            Kind::WriteOps(o) => 77 ^ o.len() as u64 ^ fnv(x.want.short().as_bytes()),
        });
    }
    h
}

fn mode_of(a: &Act, r: &mut Rng) -> Mode {
    if a.sync_only {
        Mode::Sync
    } else {
        *r.pick(MODES)
    }
}

// --------------------------------------------------------------- as tasks

#[cfg(feature = "async")]
type Task = std::pin::Pin<Box<dyn std::future::Future<Output = Outcome> + Send>>;

#[cfg(feature = "async")]
fn task(a: &Act) -> Task {
    let a = a.clone();
    let mut plan = a.plan.clone();
    plan.intr = 0;
    Box::pin(async move {
        match &a.kind {
            Kind::Read(t, b, l) => {
                let mut rd = MonReader::new(b.clone(), plan);
                let r = {
                    let mut p = TCompactInputStreamProtocol::new(&mut rd, *l);
                    match t {
                        Tgt::Type(t) => t.aread(&mut p).await.map(|v| Sig::Tree(v.tree())),
                        Tgt::Many(t) => t.aread_many(&mut p).await.map(|v| Sig::List(v.iter().map(|x| x.tree()).collect())),
                        Tgt::Skip(c, Some(d)) => p.skip_till_depth(tt(*c), *d).await.map(|_| Sig::Unit),
                        Tgt::Skip(c, None) => p.skip(tt(*c)).await.map(|_| Sig::Unit),
                        Tgt::Calls(ops) => {
                            // positions cannot be watched from outside: as `observe` does
                            drop(p);
                            let wt = watch();
                            rd.watch = Some(wt.clone());
                            let mut p = TCompactInputStreamProtocol::new(&mut rd, *l);
                            let mut got = vec![];
                            let mut err = None;
                            for op in ops {
                                match get_async(&mut p, op).await {
                                    Ok(x) => got.push((x, wt.load(std::sync::atomic::Ordering::Relaxed))),
                                    Err(e) => {
                                        err = Some(e);
                                        break;
                                    }
                                }
                            }
                            match err {
                                Some(e) => Err(e),
                                None => Ok(Sig::Calls(got)),
                            }
                        }
                        Tgt::App => unreachable!(),
                    }
                };
                Outcome::Read(r.map_err(|e| e_of(e).k), rd.pos)
            }
            Kind::Write(_, v) => {
                let mut w = MonWriter::new(plan);
                let r = {
                    let mut p = TCompactOutputStreamProtocol::new(&mut w);
                    v.awrite(&mut p).await
                };
                Outcome::Wrote(r.map_err(|e| e_of(e).k), w.out)
            }
            Kind::WriteOps(ops) => {
                let mut w = MonWriter::new(plan);
                let mut n = Ok(0);
                {
                    let mut p = TCompactOutputStreamProtocol::new(&mut w);
                    for op in ops.iter() {
                        match put_async(&mut p, op).await {
                            Ok(k) => n = n.map(|x| x + k),
                            Err(e) => {
                                n = Err(e_of(e).k);
                                break;
                            }
                        }
                    }
                }
                Outcome::Wrote(n, w.out)
            }
        }
    })
}

#[cfg(feature = "async")]
struct Live {
    i: usize,
    f: Option<Task>,
    polls: u64,
    cancel: Option<u64>,
}

#[cfg(feature = "async")]
enum Step {
    Again,
    Done,
    Cancelled,
}

#[cfg(feature = "async")]
impl Live {
    fn new(a: &Act, i: usize, r: &mut Rng) -> Live {
        let cancel = if r.chance(1, 5) { Some(r.range(1, 12)) } else { None };
        Live { i, f: Some(task(a)), polls: 0, cancel }
    }
    fn max_polls(a: &Act) -> u64 {
        1_000
            + 64 * match &a.kind {
                Kind::Read(_, b, _) => b.len() as u64,
                _ => match &a.want {
                    Outcome::Wrote(_, b) => b.len() as u64,
                    _ => 200_000,
                },
            }
    }
    /// one poll; ready or not is up to the transports
    fn step(&mut self, a: &Act, ctx: &dyn Fn() -> String) -> Result<Step, String> {
        use std::task::{Context, Poll, Waker};
        self.polls += 1;
        let fl = aio::flag();
        let wk = Waker::from(fl);
        let f = self.f.as_mut().unwrap();
        let r = sut_cap(i64::MAX, || f.as_mut().poll(&mut Context::from_waker(&wk))).0;
        let done = match r {
            Ok(Poll::Pending) => {
                ensure!(self.polls < Live::max_polls(a), "{}: {} does not finish", ctx(), a.what());
                if self.cancel.is_some_and(|n| self.polls >= n) {
                    let f = self.f.take();
                    sut_cap(i64::MAX, || drop(f)).0.map_err(|e| format!("{}: dropping an unfinished {}: {}", ctx(), a.what(), e))?;
                    return Ok(Step::Cancelled);
                }
                return Ok(Step::Again);
            }
            Ok(Poll::Ready(o)) => o,
            Err(e) => {
                ensure!(matches!(a.plan.fault, Some((_, Fault::Panic))) && e.contains(FAULT_MSG), "{}: {}: {}", ctx(), a.what(), e);
                Outcome::Panicked
            }
        };
        let f = self.f.take();
        sut_cap(i64::MAX, || drop(f)).0.map_err(|e| format!("{}: dropping a finished {}: {}", ctx(), a.what(), e))?;
        a.judge(&done, &ctx())?;
        Ok(Step::Done)
    }
}

pub fn c20(ctx: &Ctx) {
    // one thread, one operation after another; whatever happened before
    ctx.group("histories", ctx.n(150_000, 3_000_000), |c| {
        let n = c.rng.range(2, 14) as usize;
        let mut acts = vec![];
        for _ in 0..n {
            acts.push(act(&mut c.rng, false)?);
        }
        c.seen(fp(&acts));
        c.sample(|| format!("history of {}; first: {}", n, acts[0].what()));
        for (i, a) in acts.iter().enumerate() {
            let m = mode_of(a, &mut c.rng);
            let got = run_sync(a, m)?;
            c.eval();
            if got == Outcome::Panicked {
                c.count("panics", 1);
            }
            a.judge(&got, &format!("operation {} of a history, {:?}", i, m))?;
        }
        // and the first ones again, at the end
        for (i, a) in acts.iter().enumerate().take(3) {
            let m = mode_of(a, &mut c.rng);
            let got = run_sync(a, m)?;
            a.judge(&got, &format!("operation {} of a history, repeated at its end, {:?}", i, m))?;
        }
        Ok(())
    });
    // the same operation very often: counters that run over
    ctx.group("repeats", ctx.n(8, 64), |c| {
        let n = match c.tier {
            Tier::Mini => 20,
            Tier::Quick => 150_000,
            Tier::Thorough => 3_000_000,
        };
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G { ..G::simple(&mut c.rng, Opt::None) });
        let x = mk(t, &v);
        let b = bytes_of(&*x, Mode::Sync)?;
        let d = arc(&b);
        c.seen_bytes(3, &b);
        let fail = c.idx % 2 == 1 && b.len() > 1;
        for i in 0..n {
            let m = MODES[i % MODES.len()];
            let o = read_plain(t, m, &d)?;
            match &o.r {
                Ok(g) => ensure!(g.eq_dyn(&*x), "read {} of the same bytes gives {} instead of {}", i, g.tree().short(), v.short()),
                Err(e) => return Err(format!("read {} of the same bytes fails: {:?}", i, e)),
            }
            let y = bytes_of(&*x, m)?;
            ensure!(y == b, "write {} of the same value gives {} instead of {}", i, hex(&y), hex(&b));
            if fail {
                let cut = arc(&b[..b.len() - 1]);
                let o = read_plain(t, m, &cut)?;
                ensure!(matches!(&o.r, Err(e) if e.k == EOF), "read {} of the same truncated bytes gives {}", i, o.kind());
            }
            c.eval();
        }
        Ok(())
    });
    // tasks on one thread, polled in random order, with blocking operations,
    // cancellations and panics in between
    #[cfg(feature = "async")]
    ctx.group("interleaved", ctx.n(80_000, 2_000_000), |c| {
        let n = c.rng.range(2, 7) as usize;
        let mut acts = vec![];
        while acts.len() < n {
            let mut a = act(&mut c.rng, false)?;
            if a.sync_only {
                continue;
            }
            a.plan.pending = *c.rng.pick(&[4, 8, 12]);
            if c.rng.chance(2, 3) {
                a.plan.chunk = *c.rng.pick(&[Chunk::One, Chunk::Fixed(3), Chunk::Rand]);
            }
            acts.push(a);
        }
        let mut live: Vec<Live> = acts.iter().enumerate().map(|(i, a)| Live::new(a, i, &mut c.rng)).collect();
        let mut h = fp(&acts);
        let mut last = usize::MAX;
        let mut polls = 0u64;
        c.sample(|| format!("{} tasks on one thread; first: {}", n, acts[0].what()));
        while !live.is_empty() {
            let k = c.rng.below(live.len() as u64) as usize;
            let l = &mut live[k];
            h = mix(h ^ l.i as u64);
            polls += 1;
            if last != l.i {
                c.count("switches", 1);
            }
            last = l.i;
            let (i, seed) = (l.i, polls);
            match l.step(&acts[i], &|| format!("task {} of {} interleaved ones (poll {} of all)", i, n, seed))? {
                Step::Again => {}
                Step::Done => {
                    c.eval();
                    live.swap_remove(k);
                }
                Step::Cancelled => {
                    c.count("cancelled", 1);
                    live.swap_remove(k);
                }
            }
            if c.rng.chance(1, 40) {
                let a = act(&mut c.rng, false)?;
                let m = mode_of(&a, &mut c.rng);
                let got = run_sync(&a, m)?;
                a.judge(&got, &format!("{:?} operation between the polls of {} other tasks", m, live.len()))?;
                c.count("operations_between_polls", 1);
            }
        }
        c.count("polls", polls);
        c.seen(h);
        aio::reactor_turn();
        Ok(())
    });
    // several threads at once, on data of their own and on shared values
    ctx.group("threads", ctx.n(6_000, 100_000), |c| {
        let nt = c.rng.range(2, 6) as usize;
        let shared: Vec<Act> = {
            let mut v = vec![];
            for _ in 0..3 {
                let calm = c.rng.chance(1, 2);
                v.push(act(&mut c.rng, calm)?);
            }
            v
        };
        let mut lists: Vec<(Vec<Act>, u64)> = vec![];
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..6 {
                v.push(if c.rng.chance(1, 3) { c.rng.pick(&shared).clone() } else { act(&mut c.rng, false)? });
            }
            c.seen(fp(&v));
            lists.push((v, c.rng.u64()));
        }
        let bar = Barrier::new(nt);
        let reps = if c.tier == Tier::Mini { 1 } else { 8 };
        let rs: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = lists
                .iter()
                .enumerate()
                .map(|(k, (l, seed))| {
                    let bar = &bar;
                    s.spawn(move || {
                        let mut r = Rng::new(*seed);
                        bar.wait();
                        for _ in 0..reps {
                            for a in l {
                                let m = mode_of(a, &mut r);
                                let got = run_sync(a, m)?;
                                a.judge(&got, &format!("on thread {} of {}, {:?}", k, nt, m))?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a monitor thread panicked".into()))).collect()
        });
        for r in rs {
            r?;
        }
        c.st.evals += (nt * 6 * reps) as u64;
        c.count("threads", nt as u64);
        Ok(())
    });
    // tasks that move between threads while they run
    #[cfg(feature = "async")]
    ctx.group("migrating", ctx.n(6_000, 100_000), |c| {
        use std::collections::VecDeque;
        use std::sync::Mutex;
        let n = c.rng.range(3, 10) as usize;
        let mut acts = vec![];
        while acts.len() < n {
            let mut a = act(&mut c.rng, false)?;
            if !a.sync_only {
                a.plan.pending = *c.rng.pick(&[4, 8, 12]);
                a.plan.wake_now = true;
                acts.push(a);
            }
        }
        c.seen(fp(&acts));
        let q: Mutex<VecDeque<(Live, usize)>> = Mutex::new(acts.iter().enumerate().map(|(i, a)| (Live::new(a, i, &mut c.rng), usize::MAX)).collect());
        let left = std::sync::atomic::AtomicUsize::new(n);
        let moves = std::sync::atomic::AtomicU64::new(0);
        let done = std::sync::atomic::AtomicU64::new(0);
        let nt = c.rng.range(2, 4) as usize;
        let bar = Barrier::new(nt);
        use std::sync::atomic::Ordering::SeqCst;
        let rs: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|k| {
                    let (q, left, acts, bar, moves, done) = (&q, &left, &acts, &bar, &moves, &done);
                    s.spawn(move || {
                        bar.wait();
                        while left.load(SeqCst) > 0 {
                            let Some((mut l, before)) = q.lock().unwrap().pop_front() else {
                                std::thread::yield_now();
                                continue;
                            };
                            if before != k && before != usize::MAX {
                                moves.fetch_add(1, SeqCst);
                            }
                            let i = l.i;
                            match l.step(&acts[i], &|| format!("task {} of {}, moving over {} threads", i, n, nt)) {
                                Ok(Step::Again) => q.lock().unwrap().push_back((l, k)),
                                Ok(x) => {
                                    if let Step::Done = x {
                                        done.fetch_add(1, SeqCst);
                                    }
                                    left.fetch_sub(1, SeqCst);
                                }
                                Err(e) => {
                                    left.store(0, SeqCst);
                                    return Err(e);
                                }
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a monitor thread panicked".into()))).collect()
        });
        for r in rs {
            r?;
        }
        c.st.evals += done.into_inner();
        c.count("migrations", moves.into_inner());
        Ok(())
    });
}
