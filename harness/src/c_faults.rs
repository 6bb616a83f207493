//! C14, C15, C16: truncation and transport faults at every offset.
use std::io::ErrorKind;

use pfs::thrift::protocol::*;

use crate::c_hostile::{attack, observe, Tgt};
use crate::c_limits::variant;
use crate::c_proto::{read_varint, ref_bytes, short, write_varint, Int};
use crate::c_values::{mk, op_ends};
use crate::corpus::*;
use crate::hostile::limit;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

/// All offsets below `n`, or when there are many, the first and last ones and
/// a sample of the others.
fn offsets(c: &mut Case, n: usize, budget: usize) -> Vec<usize> {
    let max = (budget / n.max(1)).clamp(10, 400);
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..n.min(max / 4)).collect();
    v.extend(n - max / 4..n);
    for _ in 0..max / 2 {
        v.push(c.rng.below(n as u64) as usize);
    }
    v.sort();
    v.dedup();
    v
}

fn budget(c: &Case) -> usize {
    match c.tier {
        Tier::Mini => 300,
        Tier::Quick => 40_000,
        Tier::Thorough => 200_000,
    }
}

fn modes(t: &Tgt) -> &'static [Mode] {
    match t {
        Tgt::App => &MODES[..1],
        _ => MODES,
    }
}

/// no read of a proper prefix may succeed
fn cuts(c: &mut Case, t: &Tgt, b: &[u8], charge: u64) -> Res {
    let n = b.len();
    let whole = arc(b);
    let bu = budget(c);
    let lim = if c.rng.chance(1, 3) { charge as usize } else { usize::MAX };
    for at in offsets(c, n, bu) {
        let plan = if c.rng.chance(1, 2) { Plan::plain() } else { Plan::rough(&mut c.rng) };
        // the data really ends, or the transport says so
        let (data, plan) = if n < 300 { (arc(&b[..at]), plan) } else { (whole.clone(), plan.with_fault(at, Fault::Zero)) };
        for m in modes(t) {
            let o = observe(t, *m, &data, &plan, lim)?;
            c.eval();
            match &o.r {
                Err(e) if e.k == EOF => {}
                _ => return Err(format!("{:?} read of {:?} from the first {} of {} bytes gives {} instead of an end-of-file error; input {}", m, t, at, n, o.show(), hex(b))),
            }
            ensure!(o.pos <= at, "read past the end");
        }
        c.count("cuts", 1);
    }
    Ok(())
}

/// where each read call ends (a bool field is over with its header)
fn read_ends(ops: &[Op]) -> Result<Vec<u64>, String> {
    let mut e = op_ends(ops)?;
    for i in 0..ops.len() {
        if let Op::FieldBegin(1, _) = ops[i] {
            e[i] = e[i + 1];
        }
    }
    Ok(e)
}

pub fn c14(ctx: &Ctx) {
    values(ctx, 20_000, 800_000, |c, t, v| {
        let (b, ch) = variant(&mut c.rng, v, t.ty());
        cuts(c, &Tgt::Type(t), &b, ch)
    });
    ctx.group("lists", ctx.n(3_000, 100_000), |c| {
        let t = pick_type(&mut c.rng);
        let n = c.rng.range(1, 20) as usize;
        let vs: Vec<V> = (0..n).map(|_| gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand))).collect();
        let b = encode(&V::List(t.ty().code(), vs));
        c.seen_bytes(1, &b);
        cuts(c, &Tgt::Many(t), &b, u64::MAX)
    });
    ctx.group("skips", ctx.n(15_000, 500_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let v = if c.rng.chance(1, 8) {
            let d = c.rng.range(1, 60) as usize;
            gen_deep(&mut c.rng, d, &[9, 10, 11, 12])
        } else {
            gen_any(&mut c.rng, code, 4)
        };
        let b = encode(&v);
        c.seen_bytes(2, &b);
        c.sample(|| format!("skip of {}", v.short()));
        cuts(c, &Tgt::Skip(v.code(), None), &b, u64::MAX)
    });
    ctx.group("application-errors", ctx.n(2_000, 60_000), |c| {
        let n = len_edge(&mut c.rng, 300);
        let mut f = vec![(1, V::Bin(gen_utf8(&mut c.rng, n))), (2, V::I32(c.rng.below(12) as i32))];
        if c.rng.chance(1, 2) {
            let code = *c.rng.pick(&ELEMS);
            f.push((c.rng.range(3, 400) as i16, gen_any(&mut c.rng, code, 3)));
        }
        let b = encode(&V::St(f));
        c.seen_bytes(3, &b);
        cuts(c, &Tgt::App, &b, u64::MAX)
    });
    // single calls: exactly those succeed whose bytes are all there
    ctx.group("calls", ctx.n(15_000, 500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        let ends = read_ends(&s.ops)?;
        let bu = budget(c) / 4;
        c.seen_bytes(4, &s.bytes);
        for at in offsets(c, s.bytes.len(), bu) {
            let data = arc(&s.bytes[..at]);
            let n = ends.iter().position(|e| *e > at as u64).ok_or("harness: no call is cut")?;
            let plan = Plan::rough(&mut c.rng);
            for m in MODES {
                let o = read_ops(rm(*m), &s.ops, &data, &plan, usize::MAX)?;
                c.eval();
                if let Some(d) = diff_ops(&s.ops, &o.got) {
                    return Err(format!("{:?}, first {} bytes: {}", m, at, d));
                }
                ensure!(
                    o.got.len() == n && o.err.as_ref().map_or(false, |e| e.k == EOF),
                    "{:?} from the first {} of {} bytes: {} calls succeed instead of {}, then {:?}; call {:?} of {}",
                    m, at, s.bytes.len(), o.got.len(), n, o.err, s.ops[n.min(o.got.len())], short(&s.items)
                );
            }
            c.count("cuts", 1);
        }
        Ok(())
    });
    // claimed lengths and nothing there
    ctx.group("nothing-there", ctx.n(4_000, 150_000), |c| {
        let len = int_in(&mut c.rng, 1, u32::MAX as i64) as u64;
        let have = c.rng.below(len.min(40));
        let mut b = vec![];
        put_uv(&mut b, len);
        b.extend(gen_utf8(&mut c.rng, have as usize));
        c.seen_bytes(5, &b);
        for op in [Op::Bytes(vec![]), Op::Str(String::new())] {
            for m in MODES {
                let o = read_ops(rm(*m), &[op.clone()], &arc(&b), &Plan::rough(&mut c.rng), usize::MAX)?;
                c.eval();
                let k = o.err.as_ref().map(|e| e.k);
                // (or it cannot allocate that much)
                ensure!(k == Some(EOF) || k == Some(SIZE) && len > 1 << 20, "{:?} read of {:?} with {} of {} bytes: {:?}", m, op, have, len, o.err);
            }
        }
        Ok(())
    });
    ctx.group("varints", ctx.n(10_000, 400_000), |c| {
        fn one<T: Int>(x: i64, c: &mut Case) -> Res {
            let mut b = [0; 10];
            let n = ref_bytes(T::of(x).wire(), &mut b);
            for at in 0..n {
                for m in MODES {
                    let plan = Plan::rough(&mut c.rng);
                    let (r, rd) = read_varint::<T>(*m, &arc(&b[..at]), &plan)?;
                    c.eval();
                    ensure!(matches!(&r, Err(e) if e.k == EOF), "{:?} read_varint::<{}> from the first {} bytes of {}: {:?}", m, T::NAME, at, hex(&b[..n]), r);
                    ensure!(rd.pos <= at, "read past the end");
                }
            }
            Ok(())
        }
        let x = int_in(&mut c.rng, i64::MIN, i64::MAX);
        crate::each_int!(one(x, c));
        c.seen(x as u64);
        Ok(())
    });
}

// ------------------------------------------------------------------ C15

fn read_faults(c: &mut Case, t: &Tgt, b: &[u8]) -> Res {
    let n = b.len();
    let data = arc(b);
    let bu = budget(c);
    for at in offsets(c, n, bu) {
        let kind = *c.rng.pick(KINDS);
        let mut plan = if c.rng.chance(1, 2) { Plan::plain() } else { Plan::rough(&mut c.rng) }.with_fault(at, Fault::Err(kind));
        // the data goes on after the fault: it must not be taken up again
        plan.once = c.rng.chance(3, 4);
        for m in modes(t) {
            let o = observe(t, *m, &data, &plan, usize::MAX)?;
            c.eval();
            match &o.r {
                Err(e) => {
                    ensure!(e.k == ek_of_io(kind), "{:?} read of {:?} with {:?} at offset {} of {} fails with {:?} instead of {:?}; input {}", m, t, kind, at, n, e, ek_of_io(kind), hex(b));
                    ensure!(e.msg.contains(FAULT_MSG), "{:?} read of {:?} with {:?} at offset {} loses the transport's message: {:?}", m, t, kind, at, e);
                }
                Ok(_) => return Err(format!("{:?} read of {:?} with {:?} at offset {} of {} gives {}; input {}", m, t, kind, at, n, o.show(), hex(b))),
            }
            ensure!(o.pos == at, "{:?} read of {:?} with {:?} at offset {} goes on to offset {}; input {}", m, t, kind, at, o.pos, hex(b));
        }
        c.count("faults", 1);
    }
    // a fault right after the value is none of its business
    let kind = *c.rng.pick(KINDS);
    let plan = Plan::rough(&mut c.rng).with_fault(n, Fault::Err(kind));
    for m in modes(t) {
        let o = observe(t, *m, &data, &plan, usize::MAX)?;
        c.eval();
        ensure!(o.r.is_ok() && o.pos == n, "{:?} read of {:?} with {:?} right after its {} bytes gives {}; input {}", m, t, kind, n, o.show(), hex(b));
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    values(ctx, 20_000, 800_000, |c, t, v| {
        let (b, _) = variant(&mut c.rng, v, t.ty());
        read_faults(c, &Tgt::Type(t), &b)?;
        // no splitting changes a value
        let d = arc(&b);
        for _ in 0..3 {
            let plan = Plan::rough(&mut c.rng);
            for m in MODES {
                let o = read_t(t, *m, &d, &plan, usize::MAX)?;
                c.eval();
                c.count("interruptions_and_not_ready", o.rd.intrs + o.rd.pendings);
                match &o.r {
                    Ok(g) => ensure!(g.tree() == *v && o.pos == b.len(), "{:?} read of {} under {:?}: {} instead of {}", m, t.name(), plan, o.kind(), v.short()),
                    Err(e) => return Err(format!("{:?} read of {} under {:?} fails: {:?}; input {}", m, t.name(), plan, e, hex(&b))),
                }
            }
        }
        Ok(())
    });
    ctx.group("lists", ctx.n(3_000, 100_000), |c| {
        let t = pick_type(&mut c.rng);
        let n = c.rng.range(1, 20) as usize;
        let vs: Vec<V> = (0..n).map(|_| gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand))).collect();
        let b = encode(&V::List(t.ty().code(), vs));
        c.seen_bytes(1, &b);
        read_faults(c, &Tgt::Many(t), &b)
    });
    ctx.group("skips", ctx.n(15_000, 500_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let v = if c.rng.chance(1, 8) {
            let d = c.rng.range(1, 60) as usize;
            gen_deep(&mut c.rng, d, &[9, 10, 11, 12])
        } else {
            gen_any(&mut c.rng, code, 4)
        };
        let b = encode(&v);
        c.seen_bytes(2, &b);
        read_faults(c, &Tgt::Skip(v.code(), None), &b)
    });
    ctx.group("application-errors", ctx.n(2_000, 60_000), |c| {
        let n = len_edge(&mut c.rng, 300);
        let mut f = vec![(1, V::Bin(gen_utf8(&mut c.rng, n))), (2, V::I32(c.rng.below(12) as i32))];
        if c.rng.chance(1, 2) {
            let code = *c.rng.pick(&ELEMS);
            f.push((c.rng.range(3, 400) as i16, gen_any(&mut c.rng, code, 3)));
        }
        let b = encode(&V::St(f));
        c.seen_bytes(3, &b);
        read_faults(c, &Tgt::App, &b)
    });
    ctx.group("calls", ctx.n(15_000, 500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        let ends = read_ends(&s.ops)?;
        let bu = budget(c) / 4;
        c.seen_bytes(4, &s.bytes);
        c.sample(|| short(&s.items));
        for at in offsets(c, s.bytes.len(), bu) {
            let kind = *c.rng.pick(KINDS);
            let mut plan = Plan::rough(&mut c.rng).with_fault(at, Fault::Err(kind));
            plan.once = true;
            let n = ends.iter().position(|e| *e > at as u64).ok_or("harness: no call is hit")?;
            for m in MODES {
                let o = read_ops(rm(*m), &s.ops, &s.bytes, &plan, usize::MAX)?;
                c.eval();
                if let Some(d) = diff_ops(&s.ops, &o.got) {
                    return Err(format!("{:?}, {:?} at {}: {}", m, kind, at, d));
                }
                ensure!(
                    o.got.len() == n && o.err.as_ref().map_or(false, |e| e.k == ek_of_io(kind) && e.msg.contains(FAULT_MSG)),
                    "{:?} with {:?} at offset {} of {}: {} calls succeed instead of {}, then {:?}; call {:?} of {}",
                    m, kind, at, s.bytes.len(), o.got.len(), n, o.err, s.ops[n.min(o.got.len())], short(&s.items)
                );
            }
            c.count("faults", 1);
        }
        Ok(())
    });
    // whatever the input, the splitting decides nothing
    ctx.group("hostile-splits", ctx.n(150_000, 6_000_000), |c| {
        let (t, b, _) = attack(&mut c.rng);
        let d = arc(&b);
        let lim = limit(&mut c.rng, b.len());
        c.seen_bytes(5, &b);
        let mut p0 = Plan::plain();
        if c.rng.chance(1, 4) {
            let at = c.rng.below(b.len() as u64 + 1) as usize;
            p0 = p0.with_fault(at, Fault::Err(*c.rng.pick(KINDS)));
        }
        let mut p1 = Plan::rough(&mut c.rng);
        p1.fault = p0.fault;
        for m in modes(&t) {
            let x = observe(&t, *m, &d, &p0, lim)?;
            let y = observe(&t, *m, &d, &p1, lim)?;
            c.eval();
            let same = match (&x.r, &y.r) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.k == b.k,
                _ => false,
            };
            ensure!(same && x.pos == y.pos && x.before == y.before, "{:?} read of {:?} from {} gives {}, but {} under {:?}", m, t, hex(&b), x.show(), y.show(), p1);
        }
        Ok(())
    });
    ctx.group("varints", ctx.n(6_000, 200_000), |c| {
        fn one<T: Int>(x: i64, c: &mut Case) -> Res {
            let mut b = [0; 10];
            let n = ref_bytes(T::of(x).wire(), &mut b);
            for at in 0..=n {
                for m in MODES {
                    let kind = *c.rng.pick(KINDS);
                    let plan = Plan::rough(&mut c.rng).with_fault(at, Fault::Err(kind));
                    let (r, rd) = read_varint::<T>(*m, &arc(&b[..n]), &plan)?;
                    c.eval();
                    if at < n {
                        ensure!(
                            matches!(&r, Err(e) if e.k == ek_of_io(kind) && e.msg.contains(FAULT_MSG)) && rd.pos == at,
                            "{:?} read_varint::<{}> of {} with {:?} at {}: {:?} at {}", m, T::NAME, hex(&b[..n]), kind, at, r, rd.pos
                        );
                    } else {
                        ensure!(matches!(&r, Ok(y) if *y == T::of(x)), "{:?} read_varint::<{}> of {} with {:?} after it: {:?}", m, T::NAME, hex(&b[..n]), kind, r);
                    }
                }
            }
            Ok(())
        }
        let x = int_in(&mut c.rng, i64::MIN, i64::MAX);
        crate::each_int!(one(x, c));
        c.seen(x as u64);
        Ok(())
    });
    // the conversion itself: every kind, with every sort of message
    ctx.group("conversion", ctx.n(500, 20_000), |c| {
        let msg = crate::c_proto::gen_string(&mut c.rng);
        let mut kinds = KINDS.to_vec();
        kinds.push(ErrorKind::Interrupted);
        for k in kinds {
            let e = sut(|| e_of(std::io::Error::new(k, msg.clone()).into()))?;
            ensure!(e.k == ek_of_io(k) && e.msg.contains(&msg), "{:?} {:?} becomes {:?}", k, msg, e);
            let simple = std::io::Error::from(k).to_string();
            let e = sut(|| e_of(std::io::Error::from(k).into()))?;
            ensure!(e.k == ek_of_io(k) && e.msg.contains(&simple), "{:?} becomes {:?}", k, e);
            c.eval();
        }
        if !cfg!(miri) {
            for os in 1..135 {
                let k = std::io::Error::from_raw_os_error(os).kind();
                let m = std::io::Error::from_raw_os_error(os).to_string();
                let e = sut(|| e_of(std::io::Error::from_raw_os_error(os).into()))?;
                ensure!(e.k == ek_of_io(k) && e.msg.contains(&m), "OS error {} ({:?}) becomes {:?}", os, k, e);
            }
        }
        c.seen_bytes(9, msg.as_bytes());
        Ok(())
    });
}

// ------------------------------------------------------------------ C16

fn some_fault(r: &mut Rng) -> (Fault, EK) {
    if r.chance(1, 3) {
        (Fault::Zero, EK::T(0))
    } else {
        let k = *r.pick(KINDS);
        (Fault::Err(k), ek_of_io(k))
    }
}

fn write_plan(c: &mut Case, at: usize, f: Fault) -> Plan {
    let mut p = if c.rng.chance(1, 2) { Plan::plain() } else { Plan::rough(&mut c.rng) }.with_fault(at, f);
    // the transport may work again afterwards: nothing more may arrive
    p.once = c.rng.chance(1, 2);
    p
}

fn write_faults(c: &mut Case, x: &dyn DynVal, full: &[u8], what: &dyn Fn() -> String) -> Res {
    let n = full.len();
    let bu = budget(c);
    for at in offsets(c, n, bu) {
        let (f, ek) = some_fault(&mut c.rng);
        let plan = write_plan(c, at, f);
        for m in MODES {
            let o = write_v(x, *m, &plan)?;
            c.eval();
            match &o.r {
                Ok(k) => return Err(format!("{:?} write of {} with {:?} at offset {} of {} returns Ok({}) after {} bytes", m, what(), f, at, n, k, o.w.out.len())),
                Err(e) => {
                    ensure!(e.k == ek, "{:?} write of {} with {:?} at offset {} fails with {:?} instead of {:?}", m, what(), f, at, e, ek);
                    if let Fault::Err(_) = f {
                        ensure!(e.msg.contains(FAULT_MSG), "{:?} write of {} with {:?} at offset {} loses the message: {:?}", m, what(), f, at, e);
                    }
                }
            }
            ensure!(o.w.out == full[..at], "{:?} write of {} with {:?} at offset {}: the transport got {} instead of {}", m, what(), f, at, hex(&o.w.out), hex(&full[..at]));
        }
        c.count("faults", 1);
        // a buffer with room for so many bytes
        if c.rng.chance(1, 4) {
            let mut buf = vec![0xEE; at];
            let r = sut(|| {
                let w: Box<dyn std::io::Write> = Box::new(&mut buf[..]);
                let mut p = TCompactOutputProtocol::new(w);
                x.write_w(&mut p).map_err(e_of)
            })?;
            c.eval();
            ensure!(matches!(&r, Err(e) if matches!(e.k, EK::T(_))), "write of {} into {} bytes instead of {} gives {:?}", what(), at, n, r);
            ensure!(buf == full[..at], "write of {} into {} bytes leaves {} instead of {}", what(), at, hex(&buf), hex(&full[..at]));
            let mut buf = vec![0xEE; at];
            let r = sut(|| {
                let w: Box<dyn std::io::Write> = Box::new(std::io::Cursor::new(&mut buf[..]));
                let mut p = TCompactOutputProtocol::new(w);
                x.write_w(&mut p).map_err(e_of)
            })?;
            ensure!(matches!(&r, Err(e) if matches!(e.k, EK::T(_))) && buf == full[..at], "write of {} into a cursor over {} bytes instead of {} gives {:?} and {}", what(), at, n, r, hex(&buf));
            c.count("full_buffers", 2);
        }
    }
    // room for exactly everything
    let mut buf = vec![0xEE; n];
    let r = sut(|| {
        let w: Box<dyn std::io::Write> = Box::new(&mut buf[..]);
        let mut p = TCompactOutputProtocol::new(w);
        x.write_w(&mut p).map_err(e_of)
    })?;
    ensure!(r.as_ref().ok() == Some(&n) && buf == full, "write of {} into exactly {} bytes gives {:?} and {}", what(), n, r, hex(&buf));
    let (f, _) = some_fault(&mut c.rng);
    for m in MODES {
        let plan = Plan::rough(&mut c.rng).with_fault(n, f);
        let o = write_v(x, *m, &plan)?;
        c.eval();
        ensure!(o.r.is_ok() && o.w.out == full, "{:?} write of {} with {:?} right after its {} bytes: {:?} and {}", m, what(), f, n, o.r, hex(&o.w.out));
        c.count("interruptions_and_not_ready", o.w.intrs + o.w.pendings);
    }
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    values(ctx, 20_000, 800_000, |c, t, v| {
        let x = mk(t, v);
        // what a write without faults delivers
        let full = bytes_of(&*x, Mode::Sync)?;
        write_faults(c, &*x, &full, &|| format!("{} {}", t.name(), v.short()))?;
        // any splitting delivers everything
        let plan = Plan::rough(&mut c.rng);
        for m in MODES {
            let o = write_v(&*x, *m, &plan)?;
            c.eval();
            ensure!(o.r.as_ref().ok() == Some(&full.len()) && o.w.out == full, "{:?} write of {} under {:?}: {:?} and {}", m, t.name(), plan, o.r, hex(&o.w.out));
        }
        Ok(())
    });
    ctx.group("calls", ctx.n(20_000, 700_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        // what writes without faults deliver, and when
        let free = write_ops(WM::Sync, &s.ops, &Plan::plain(), false)?;
        ensure!(free.err.is_none(), "write without faults: {:?}", free.err);
        let (ends, full): (Vec<u64>, Vec<u8>) = (free.log.iter().map(|x| x.1).collect(), free.w.out);
        let bu = budget(c) / 4;
        c.seen_bytes(4, &s.bytes);
        c.sample(|| short(&s.items));
        for at in offsets(c, full.len(), bu) {
            let (f, ek) = some_fault(&mut c.rng);
            let plan = write_plan(c, at, f);
            let n = ends.iter().position(|e| *e > at as u64).ok_or("harness: no call is hit")?;
            let mut ways = vec![WM::Sync, WM::BoxDyn, WM::DynW];
            if MODES.len() > 1 {
                ways.push(WM::Async);
            }
            let ways = [ways[0], *ways.last().unwrap(), *c.rng.pick(&ways)];
            for w in ways {
                let o = write_ops(w, &s.ops, &plan, false)?;
                c.eval();
                ensure!(
                    o.log.len() == n && o.err.as_ref().map_or(false, |e| e.k == ek),
                    "{:?} with {:?} at offset {} of {}: {} calls succeed instead of {}, then {:?}; call {:?} of {}",
                    w, f, at, full.len(), o.log.len(), n, o.err, s.ops.iter().zip(&ends).skip(n.min(o.log.len()).saturating_sub(2)).take(5).collect::<Vec<_>>(), short(&s.items)
                );
                for (i, (_, pos)) in o.log.iter().enumerate() {
                    ensure!(*pos == ends[i], "{:?} with {:?} at {}: after call {} ({:?}) the transport has {} bytes instead of {}", w, f, at, i, s.ops[i], pos, ends[i]);
                }
                ensure!(o.w.out == full[..at], "{:?} with {:?} at {}: the transport got {} instead of {}", w, f, at, hex(&o.w.out), hex(&full[..at]));
            }
            c.count("faults", 1);
        }
        Ok(())
    });
    // flushing
    ctx.group("flush", ctx.n(10_000, 300_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        c.seen_bytes(5, &s.bytes);
        let free = write_ops(WM::Sync, &s.ops, &Plan::plain(), false)?;
        ensure!(free.err.is_none(), "write without faults: {:?}", free.err);
        let full = free.w.out;
        for w in WMS {
            let bad = c.rng.chance(1, 2).then(|| *c.rng.pick(KINDS));
            // BufWriter delivers on flush only
            let mut plan = Plan::rough(&mut c.rng);
            if *w == WM::Async {
                plan.intr = 0;
            } else {
                plan.pending = 0;
            }
            let mut mw = MonWriter::new(plan);
            mw.flush_err = bad;
            let (log, err, fl) = write_ops_to(*w, &s.ops, &mut mw, true)?;
            c.eval();
            ensure!(err.is_none() && log.len() == s.ops.len(), "{:?}: {:?}", w, err);
            ensure!(mw.out == full, "{:?}: after a flush the transport has {} instead of {}", w, hex(&mw.out), hex(&full));
            ensure!(mw.flushes >= 1, "{:?}: flush does not reach the transport", w);
            match (bad, &fl) {
                (None, Some(Ok(()))) => {}
                (Some(k), Some(Err(e))) if e.k == ek_of_io(k) && e.msg.contains(FAULT_MSG) => {}
                _ => return Err(format!("{:?}: flush gives {:?} when the transport says {:?}", w, fl, bad)),
            }
            c.count("flushes", 1);
        }
        Ok(())
    });
    ctx.group("varints", ctx.n(6_000, 200_000), |c| {
        fn one<T: Int>(x: i64, c: &mut Case) -> Res {
            let mut b = [0; 10];
            let n = ref_bytes(T::of(x).wire(), &mut b);
            for at in 0..=n {
                for m in MODES {
                    let (f, ek) = some_fault(&mut c.rng);
                    let plan = write_plan(c, at, f);
                    let (r, w) = write_varint::<T>(*m, T::of(x), &plan)?;
                    c.eval();
                    ensure!(w.out == b[..at], "{:?} write_varint::<{}> with {:?} at {}: delivered {} of {}", m, T::NAME, f, at, hex(&w.out), hex(&b[..n]));
                    if at < n {
                        ensure!(matches!(&r, Err(k) if ek_of_io(*k) == ek), "{:?} write_varint::<{}> with {:?} at {} of {}: {:?}", m, T::NAME, f, at, n, r);
                    } else {
                        ensure!(r == Ok(n), "{:?} write_varint::<{}> with {:?} after it: {:?}", m, T::NAME, f, r);
                    }
                }
            }
            Ok(())
        }
        let x = int_in(&mut c.rng, i64::MIN, i64::MAX);
        crate::each_int!(one(x, c));
        c.seen(x as u64);
        Ok(())
    });
    // several values through one writer, one of which fails: the transport
    // has a prefix of all of them
    ctx.group("runs", ctx.n(4_000, 150_000), |c| {
        let n = c.rng.range(2, if tiny() { 2 } else { 8 }) as usize;
        let mut full = vec![];
        let mut ends = vec![];
        let mut xs = vec![];
        for _ in 0..n {
            let t = pick_type(&mut c.rng);
            let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
            full.extend(bytes_of(&*mk(t, &v), Mode::Sync)?);
            ends.push(full.len());
            xs.push(mk(t, &v));
        }
        c.seen_bytes(6, &full);
        for _ in 0..20 {
            let at = c.rng.below(full.len() as u64) as usize;
            let (f, ek) = some_fault(&mut c.rng);
            for m in MODES {
                let mut plan = Plan::rough(&mut c.rng).with_fault(at, f);
                if *m == Mode::Async {
                    plan.intr = 0
                } else {
                    plan.pending = 0
                }
                let mut w = MonWriter::new(plan);
                let mut rs: Vec<Result<usize, E>> = vec![];
                match m {
                    Mode::Sync => sut_cap(i64::MAX, || {
                        let mut p = TCompactOutputProtocol::new(&mut w);
                        for x in &xs {
                            rs.push(x.write(&mut p).map_err(e_of));
                            if rs.last().unwrap().is_err() {
                                break;
                            }
                        }
                    })
                    .0?,
                    #[cfg(feature = "async")]
                    Mode::Async => sut_cap(i64::MAX, || {
                        aio::block_on(async {
                            let mut p = TCompactOutputStreamProtocol::new(&mut w);
                            for x in &xs {
                                rs.push(x.awrite(&mut p).await.map_err(e_of));
                                if rs.last().unwrap().is_err() {
                                    break;
                                }
                            }
                        })
                    })
                    .0??,
                    #[cfg(not(feature = "async"))]
                    Mode::Async => unreachable!(),
                }
                c.eval();
                let bad = ends.iter().position(|e| *e > at).unwrap();
                ensure!(
                    rs.len() == bad + 1 && rs[..bad].iter().all(|r| r.is_ok()) && matches!(&rs[bad], Err(e) if e.k == ek),
                    "{:?} write of a run ending at {:?} with {:?} at {}: {:?}", m, ends, f, at, rs
                );
                ensure!(w.out == full[..at], "{:?} write of a run with {:?} at {}: the transport got {}", m, f, at, hex(&w.out));
            }
        }
        Ok(())
    });
}
