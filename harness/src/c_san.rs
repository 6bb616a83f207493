//! C21: the workloads of all checks under sanitizers, and memory accounting.
use crate::c_hostile::{any_plan, attack, observe, Sig, Tgt};
use crate::c_values::mk;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

pub const WORKLOADS: &[&str] = &[
    "C21", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C22", "C23", "C24", "C25", "C26", "C28",
];

/// strings of the value that are not valid UTF-8 although their type says so
fn bad_string(v: &V, ty: &Ty) -> Option<Vec<u8>> {
    match (v, ty) {
        (V::Bin(b), Ty::Str) => std::str::from_utf8(b).is_err().then(|| b.clone()),
        (V::List(_, e), Ty::List(t)) => e.iter().find_map(|x| bad_string(x, t)),
        (V::St(f), Ty::St(s)) => f.iter().find_map(|(id, x)| s.fields.iter().find(|d| d.id == *id).and_then(|d| bad_string(x, &d.ty))),
        _ => None,
    }
}

/// Does `f` give back everything it allocates? The first run may fill caches.
fn leak(c: &mut Case, what: &dyn Fn() -> String, mut f: impl FnMut()) -> Res {
    for k in 0..4 {
        let (r, a) = sut_cap(DEFAULT_CAP, || {
            // the payload of a panic is released here as well
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f));
        });
        r?;
        c.eval();
        c.max("bytes_allocated_in_one_call", a.total);
        if k > 0 {
            ensure!(a.live <= 0, "{}{} bytes are never released by {}", SAN_MARK, a.live, what());
        }
    }
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    // strings are strings
    ctx.group("strings", ctx.n(60_000, 1_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, _) = crate::c_san::strings_input(&mut c.rng, t);
        let d = arc(&b);
        c.seen_bytes(1, &b);
        for m in MODES {
            let plan = any_plan(&mut c.rng, b.len());
            let o = read_t(t, *m, &d, &plan, if tiny() { 4_000 } else { 1 << 20 })?;
            c.eval();
            if let Ok(v) = &o.r {
                if let Some(s) = bad_string(&v.tree(), t.ty()) {
                    return Err(format!("{}{:?} read of {} returned a String that is not UTF-8: {}; input {}", SAN_MARK, m, t.name(), hex(&s), hex(&b)));
                }
                c.count("values_with_strings_checked", 1);
            }
        }
        Ok(())
    });
    ctx.group("string-calls", ctx.n(20_000, 300_000), |c| {
        let ops = vec![if c.rng.chance(1, 2) { Op::Str(String::new()) } else { Op::MsgBegin(String::new(), 1, 1) }];
        let n = c.rng.range(1, 12) as usize;
        let s = if c.rng.chance(1, 2) { crate::c_limits::bad_utf8(&mut c.rng) } else { c.rng.bytes(n) };
        let mut b = if let Op::Str(_) = ops[0] { vec![] } else { vec![0x82, 0x21, 1] };
        put_uv(&mut b, s.len() as u64);
        b.extend(&s);
        let d = arc(&b);
        c.seen_bytes(2, &b);
        for m in MODES {
            let o = read_ops(rm(*m), &ops, &d, &Plan::rough(&mut c.rng), usize::MAX)?;
            c.eval();
            let got = match o.got.first() {
                Some((Op::Str(s), _)) | Some((Op::MsgBegin(s, _, _), _)) => s.as_bytes().to_vec(),
                _ => continue,
            };
            ensure!(std::str::from_utf8(&got).is_ok(), "{}{:?} read returned a String that is not UTF-8: {}", SAN_MARK, m, hex(&got));
        }
        Ok(())
    });
    // nothing is kept for ever
    ctx.group("leaks", ctx.n(60_000, 1_000_000), |c| {
        let (tgt, mut b, _) = attack(&mut c.rng);
        b.truncate(20_000);
        let d = arc(&b);
        let mut plan = any_plan(&mut c.rng, b.len());
        if c.rng.chance(1, 8) {
            plan.fault = Some((c.rng.below(b.len() as u64 + 1) as usize, Fault::Panic));
        }
        c.seen_bytes(3, &b);
        let lim = *c.rng.pick(&[10usize, 1000, if tiny() { 4_000 } else { 1 << 16 }]);
        for m in MODES {
            if matches!(tgt, Tgt::App) && *m != MODES[0] {
                continue;
            }
            leak(c, &|| format!("{:?} {:?} with limit {} of {} ({:?})", m, tgt, lim, hex(&b), plan), || {
                if let Ok(o) = observe(&tgt, *m, &d, &plan, lim) {
                    drop::<Result<Sig, E>>(o.r)
                }
            })?;
        }
        Ok(())
    });
    ctx.group("leaks-valid", ctx.n(10_000, 300_000), |c| {
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
        let x = mk(t, &v);
        let d = arc(&encode(&v));
        c.seen_bytes(4, &d);
        for m in MODES {
            let plan = Plan::rough(&mut c.rng);
            leak(c, &|| format!("{:?} read of {} from {}", m, t.name(), hex(&d)), || drop(read_t(t, *m, &d, &plan, usize::MAX)))?;
            let mut plan = Plan::rough(&mut c.rng);
            if c.rng.chance(1, 4) {
                plan.fault = Some((c.rng.below(d.len() as u64 + 1) as usize, *c.rng.pick(&[Fault::Panic, Fault::Zero, Fault::Err(std::io::ErrorKind::TimedOut)])));
            }
            leak(c, &|| format!("{:?} write of {}", m, v.short()), || drop(write_v(&*x, *m, &plan)))?;
        }
        Ok(())
    });
    #[cfg(feature = "async")]
    ctx.group("leaks-cancelled", ctx.n(10_000, 300_000), |c| {
        use pfs::thrift::protocol::*;
        use std::task::{Context, Waker};
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let x = mk(t, &v);
        let b = encode(&v);
        let at = c.rng.below(b.len() as u64) as usize;
        let d = arc(&b);
        c.seen_bytes(5, &b);
        let plan = Plan::plain().with_fault(at, Fault::Hang);
        leak(c, &|| format!("a cancelled read of {} ({} of {} bytes there) of {}", t.name(), at, b.len(), hex(&b)), || {
            let mut rd = MonReader::new(d.clone(), plan.clone());
            let mut p = TCompactInputStreamProtocol::new(&mut rd, usize::MAX);
            let mut f = t.aread(&mut p);
            let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        })?;
        leak(c, &|| format!("a cancelled write of {}", v.short()), || {
            let mut w = MonWriter::new(plan.clone());
            let mut p = TCompactOutputStreamProtocol::new(&mut w);
            let mut f = x.awrite(&mut p);
            let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
        })
    });
    // transports that break the contract of the io traits: anything but
    // undefined behaviour is allowed
    ctx.group("lying-transports", ctx.n(40_000, 500_000), |c| {
        let (tgt, mut b, _) = attack(&mut c.rng);
        b.truncate(5_000);
        let d = arc(&b);
        let mut plan = Plan::rough(&mut c.rng);
        let k = *c.rng.pick(&[1usize, 2, 7, 100, 4096, usize::MAX / 2]);
        plan.fault = Some((c.rng.below(b.len() as u64 + 1) as usize, Fault::Lie(k)));
        plan.once = c.rng.chance(1, 2);
        c.seen_bytes(6, &b);
        for m in MODES {
            if matches!(tgt, Tgt::App) && *m != MODES[0] {
                continue;
            }
            let _ = observe(&tgt, *m, &d, &plan, if tiny() { 4_000 } else { 1 << 16 });
            c.eval();
        }
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let x = mk(t, &v);
        plan.fault = Some((c.rng.below(30) as usize, Fault::Lie(k)));
        for m in MODES {
            let _ = write_v(&*x, *m, &plan);
            c.eval();
        }
        Ok(())
    });
}

/// an encoding some of whose strings have other bytes
fn strings_input(r: &mut Rng, t: &'static dyn DynType) -> (Vec<u8>, ()) {
    if r.chance(1, 4) {
        return (crate::hostile::hostile(r, t).0, ());
    }
    let mut v = gen_v(t.ty(), &mut G::simple(r, Opt::All));
    visit_leaves(&mut v, t.ty(), &mut |x, ty| {
        if let (V::Bin(b), Ty::Str) = (x, ty) {
            if r.chance(1, 2) {
                *b = crate::c_limits::bad_utf8(r);
            } else if r.chance(1, 2) {
                b.push(0x80 | r.below(128) as u8);
            }
        }
    });
    (encode(&v), ())
}
