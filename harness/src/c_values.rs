//! C01-C07, C13, C19, C24, C28: what values mean.
use std::cmp::Ordering;
use std::sync::Arc;

use crate::corpus::*;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

pub fn mk(t: &dyn DynType, v: &V) -> Box<dyn DynVal> {
    match t.make(v) {
        Some(x) => x,
        None => panic!("harness: cannot build {} from {}", t.name(), v.short()),
    }
}

fn same(want: &dyn DynVal, got: &Out, ctx: impl Fn() -> String) -> Res {
    match &got.r {
        Err(e) => Err(format!("{}: read failed: {:?}; value {}", ctx(), e, want.tree().short())),
        Ok(g) => {
            ensure!(g.tree() == want.tree(), "{}: read back {} instead of {}", ctx(), g.tree().short(), want.tree().short());
            ensure!(g.eq_dyn(want), "{}: read back a value that compares unequal: {} vs {}", ctx(), g.dbg(), want.dbg());
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C01

pub fn c01(ctx: &Ctx) {
    values(ctx, 300_000, 12_000_000, |c, t, v| {
        let x = mk(t, v);
        let mut enc: Vec<Arc<[u8]>> = vec![];
        for m in MODES {
            enc.push(arc(&bytes_of(&*x, *m)?));
        }
        for (i, m) in MODES.iter().enumerate() {
            for (j, e) in enc.iter().enumerate() {
                let o = read_plain(t, *m, e)?;
                c.eval();
                same(&*x, &o, || format!("{} written {:?}, read {:?} from {}", t.name(), MODES[j], MODES[i], hex(e)))?;
            }
        }
        c.max("largest_encoding_bytes", enc[0].len() as u64);
        Ok(())
    });
    // several values through one writer and one reader, also long runs
    ctx.group("runs", ctx.n(4_000, 100_000), |c| {
        let n = if c.idx % 1000 == 7 && c.tier != Tier::Mini { 70_000 } else { c.rng.range(2, if tiny() { 3 } else { 30 }) as usize };
        let mut xs = vec![];
        for _ in 0..n {
            let t = if n > 1000 { &*types()[c.rng.range(8, 57) as usize] } else { pick_type(&mut c.rng) };
            let v = if n > 1000 {
                gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand))
            } else {
                gen_v(t.ty(), &mut G::new(&mut c.rng))
            };
            xs.push((t, mk(t, &v)));
        }
        for m in MODES {
            let bytes = write_run(&xs, *m)?;
            for r in MODES {
                let got = read_run(&xs, *r, &arc(&bytes), &Plan::plain(), usize::MAX)?;
                c.eval();
                for (i, g) in got.vals.iter().enumerate() {
                    let g = match g {
                        Ok(g) => g,
                        Err(e) => return Err(format!("value {} of a run of {} ({}): {:?} read failed: {:?}", i, n, xs[i].0.name(), r, e)),
                    };
                    ensure!(g.eq_dyn(&*xs[i].1), "value {} of a run of {} ({}): {:?} wrote {}, {:?} read {}", i, n, xs[i].0.name(), m, xs[i].1.tree().short(), r, g.tree().short());
                }
                ensure!(got.vals.len() == n, "run stopped early");
            }
        }
        c.count("values_in_runs", n as u64);
        c.seen(c.idx);
        Ok(())
    });
}

pub type Typed = (&'static dyn DynType, Box<dyn DynVal>);

/// all values through one writer
pub fn write_run(xs: &[Typed], m: Mode) -> Result<Vec<u8>, String> {
    use pfs::thrift::protocol::*;
    let mut w = MonWriter::plain();
    match m {
        Mode::Sync => sut_cap(i64::MAX, || {
            let mut p = TCompactOutputProtocol::new(&mut w);
            for x in xs {
                x.1.write(&mut p).map_err(|e| format!("{:?}", e))?;
            }
            Ok(())
        })
        .0
        .and_then(|x: Result<(), String>| x)?,
        #[cfg(feature = "async")]
        Mode::Async => sut_cap(i64::MAX, || {
            aio::block_on(async {
                let mut p = TCompactOutputStreamProtocol::new(&mut w);
                for x in xs {
                    x.1.awrite(&mut p).await.map_err(|e| format!("{:?}", e))?;
                }
                Ok::<(), String>(())
            })
        })
        .0
        .and_then(|x| x)
        .and_then(|x| x)?,
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    }
    Ok(w.out)
}

pub struct RunOut {
    pub vals: Vec<Result<Box<dyn DynVal>, E>>,
    /// transport position after each value
    pub pos: Vec<u64>,
}

/// all values through one reader, up to the first error
pub fn read_run(xs: &[Typed], m: Mode, data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<RunOut, String> {
    use std::sync::atomic::Ordering;
    use pfs::thrift::protocol::*;
    let mut plan = plan.clone();
    if m == Mode::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut rd = MonReader::new(data.clone(), plan);
    let wt = watch();
    rd.watch = Some(wt.clone());
    let mut vals = Vec::with_capacity(xs.len());
    let mut pos = Vec::with_capacity(xs.len());
    let rdr = &mut rd;
    match m {
        Mode::Sync => {
            sut_cap(i64::MAX, || {
                let mut p = TCompactInputProtocol::new(rdr, limit);
                for x in xs {
                    let r = x.0.read(&mut p).map_err(e_of);
                    let bad = r.is_err();
                    vals.push(r);
                    pos.push(wt.load(Ordering::Relaxed));
                    if bad {
                        break;
                    }
                }
            })
            .0?
        }
        #[cfg(feature = "async")]
        Mode::Async => sut_cap(i64::MAX, || {
            aio::block_on(async {
                let mut p = TCompactInputStreamProtocol::new(rdr, limit);
                for x in xs {
                    let r = x.0.aread(&mut p).await.map_err(e_of);
                    let bad = r.is_err();
                    vals.push(r);
                    pos.push(wt.load(Ordering::Relaxed));
                    if bad {
                        break;
                    }
                }
            })
        })
        .0??,
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    }
    ensure!(!rd.runaway, "run read does not terminate");
    Ok(RunOut { vals, pos })
}

// ------------------------------------------------------------------ C02

pub fn c02(ctx: &Ctx) {
    use pfs::thrift::protocol::*;
    values(ctx, 120_000, 5_000_000, |c, t, v| {
        let bytes = encode(v);
        let n = bytes.len();
        let mut all = bytes;
        let k = c.rng.below(9) as usize;
        let tail = match c.rng.below(3) {
            0 => vec![0; k],
            1 => vec![0xff; k],
            _ => c.rng.bytes(k),
        };
        all.extend_from_slice(&tail);
        let all = arc(&all);
        let plan = Plan::rough(&mut c.rng);
        let x = mk(t, v);
        for m in MODES {
            let o = read_t(t, *m, &all, &plan, usize::MAX)?;
            c.eval();
            same(&*x, &o, || format!("{} {:?} followed by {} bytes", t.name(), m, k))?;
            ensure!(o.pos == n, "{} {:?}: read took {} bytes of an encoding of {} followed by {}: {}", t.name(), m, o.pos, n, hex(&tail), hex(&all));
        }
        Ok(())
    });
    ctx.group("sequences", ctx.n(40_000, 1_500_000), |c| {
        let n = c.rng.range(1, 8) as usize;
        let mut xs: Vec<Typed> = vec![];
        let mut bytes = vec![];
        let mut ends = vec![];
        for _ in 0..n {
            let t = pick_type(&mut c.rng);
            let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
            // foreign encodings and unknown fields do not change the rule
            let v2 = if c.rng.chance(1, 3) { inject(&v, t.ty(), &mut c.rng, 2, 5, &mut 0) } else { v.clone() };
            let b = if c.rng.chance(1, 3) {
                let mut e = Enc::wild(&mut c.rng);
                e.val(&v2);
                e.out
            } else {
                encode(&v2)
            };
            bytes.extend_from_slice(&b);
            ends.push(bytes.len() as u64);
            xs.push((t, mk(t, &v)));
        }
        let k = c.rng.below(6) as usize;
        bytes.extend(c.rng.bytes(k));
        let data = arc(&bytes);
        let plan = Plan::rough(&mut c.rng);
        c.sample(|| format!("{:?} ending at {:?}", xs.iter().map(|x| x.0.name()).collect::<Vec<_>>(), ends));
        c.seen_bytes(0, &bytes);
        for m in MODES {
            let got = read_run(&xs, *m, &data, &plan, usize::MAX)?;
            c.eval();
            for (i, g) in got.vals.iter().enumerate() {
                let g = g.as_ref().map_err(|e| format!("{:?}: value {} of {} read back to back failed: {:?}", m, i, n, e))?;
                ensure!(g.eq_dyn(&*xs[i].1), "{:?}: value {} of {} ({}) read back to back is {} instead of {}", m, i, n, xs[i].0.name(), g.tree().short(), xs[i].1.tree().short());
                ensure!(got.pos[i] == ends[i], "{:?}: after value {} the transport is at {} instead of {}", m, i, got.pos[i], ends[i]);
            }
            // a fresh reader per value on the rest of the data
            let mut at = 0usize;
            for (i, (t, x)) in xs.iter().enumerate() {
                let o = read_t(*t, *m, &arc(&bytes[at..]), &plan, usize::MAX)?;
                same(&**x, &o, || format!("fresh {:?} reader, value {}", m, i))?;
                at += o.pos;
                ensure!(at as u64 == ends[i], "fresh {:?} reader after value {}: at {} instead of {}", m, i, at, ends[i]);
            }
        }
        // the same through a plain slice reader
        let mut s: &[u8] = &bytes;
        for (i, (t, x)) in xs.iter().enumerate() {
            let r = sut(|| {
                let mut p = TCompactInputProtocol::new(&mut s, usize::MAX);
                t.read_slice(&mut p)
            })?;
            let g = r.map_err(|e| format!("slice read of value {} failed: {:?}", i, e))?;
            ensure!(g.eq_dyn(&**x), "slice read of value {} differs", i);
            ensure!(bytes.len() - s.len() == ends[i] as usize, "slice read of value {} left {} bytes", i, s.len());
        }
        // seeking: position and value
        let mut rd = MonReader::plain(data.clone());
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        let mut here = 0i64;
        let mut rng = c.rng.clone();
        let res: Result<Result<(), String>, String> = sut(|| {
            use std::io::{Seek, SeekFrom};
            let mut p = TCompactInputProtocol::new(&mut rd, usize::MAX);
            for i in order.iter().copied() {
                let start = if i == 0 { 0 } else { ends[i - 1] } as i64;
                let to = match rng.below(3) {
                    0 => SeekFrom::Start(start as u64),
                    1 => SeekFrom::Current(start - here),
                    _ => SeekFrom::End(start - bytes.len() as i64),
                };
                let q = p.seek(to).map_err(|e| format!("seek failed: {}", e))?;
                ensure!(q == start as u64, "seek({:?}) from {} returned {} instead of {}", to, here, q, start);
                let g = xs[i].0.read(&mut p).map_err(|e| format!("read after seek to {} failed: {:?}", start, e))?;
                ensure!(g.eq_dyn(&*xs[i].1), "read after seek to {} gave {} instead of {}", start, g.tree().short(), xs[i].1.tree().short());
                let q = p.stream_position().map_err(|e| format!("stream_position failed: {}", e))?;
                ensure!(q == ends[i], "position after reading value {} is {} instead of {}", i, q, ends[i]);
                here = q as i64;
            }
            Ok(())
        });
        res??;
        ensure!(rd.pos as i64 == here, "seeking moved the transport to {} instead of {}", rd.pos, here);
        c.count("seeks", n as u64);
        Ok(())
    });
    // single protocol elements
    ctx.group("elements", ctx.n(40_000, 1_500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        let mut b = s.bytes.to_vec();
        let k = c.rng.below(6) as usize;
        b.extend(c.rng.bytes(k));
        let data = arc(&b);
        // the reference position after each call, taken from a plain writer
        let ends = op_ends(&s.ops)?;
        c.seen_bytes(1, &s.bytes);
        c.sample(|| format!("{:?}", s.items).chars().take(300).collect());
        for m in MODES {
            let plan = Plan::rough(&mut c.rng);
            let o = read_ops(rm(*m), &s.ops, &data, &plan, usize::MAX)?;
            c.eval();
            ensure!(o.err.is_none(), "{:?} read of {:?} failed: {:?}", m, s.items, o.err);
            if let Some(d) = diff_ops(&s.ops, &o.got) {
                return Err(format!("{:?}: {}", m, d));
            }
            for (i, (_, pos)) in o.got.iter().enumerate() {
                if matches!(s.ops[i], Op::FieldBegin(1, _)) {
                    continue;
                }
                ensure!(*pos == ends[i], "{:?}: after call {} ({:?}) the transport is at {} instead of {}", m, i, s.ops[i], pos, ends[i]);
            }
        }
        c.count("calls_observed", s.ops.len() as u64);
        Ok(())
    });
    skip_consumption(ctx);
}

/// Where each call's element ends, by the independent encoder.
pub fn op_ends(ops: &[Op]) -> Result<Vec<u64>, String> {
    let mut e = Enc::canonical();
    let mut ends = vec![];
    let mut stack: Vec<i16> = vec![];
    let mut last = 0i16;
    let mut pend: Option<i16> = None;
    for op in ops {
        match op {
            Op::MsgBegin(n, t, s) => {
                e.out.push(0x82);
                e.out.push(t << 5 | 1);
                put_uv(&mut e.out, *s as u64);
                e.val(&V::Bin(n.clone().into_bytes()));
            }
            Op::StructBegin => {
                stack.push(last);
                last = 0;
            }
            Op::StructEnd => last = stack.pop().unwrap(),
            Op::FieldBegin(1, id) => pend = Some(*id),
            Op::FieldBegin(c, id) => e.field_hdr(&mut last, *id, *c),
            Op::FieldStop => e.out.push(0),
            Op::Bool(b) => match pend.take() {
                Some(id) => e.field_hdr(&mut last, id, if *b { 1 } else { 2 }),
                None => e.val(&V::Bool(*b)),
            },
            Op::Bytes(b) => e.val(&V::Bin(b.clone())),
            Op::Str(s) => e.val(&V::Bin(s.clone().into_bytes())),
            Op::I8(x) => e.val(&V::I8(*x)),
            Op::Byte(x) => e.val(&V::I8(*x as i8)),
            Op::I16(x) => e.val(&V::I16(*x)),
            Op::I32(x) => e.val(&V::I32(*x)),
            Op::I64(x) => e.val(&V::I64(*x)),
            Op::Dbl(x) => e.val(&V::Dbl(*x)),
            Op::ListBegin(c, n) | Op::SetBegin(c, n) => e.list_hdr(*c, *n as u64),
            Op::MapBegin(k, t, n) => {
                put_uv(&mut e.out, *n as u64);
                if *n > 0 {
                    e.out.push(k.unwrap() << 4 | t.unwrap());
                }
            }
            _ => {}
        }
        ends.push(e.out.len() as u64);
    }
    Ok(ends)
}

fn skip_consumption(ctx: &Ctx) {
    ctx.group("skips", ctx.n(40_000, 1_500_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let v = gen_any(&mut c.rng, code, 4);
        let mut b = encode(&v);
        let n = b.len();
        let k = c.rng.below(6) as usize;
        b.extend(c.rng.bytes(k));
        let data = arc(&b);
        c.seen_bytes(2, &b[..n]);
        for m in MODES {
            let plan = Plan::rough(&mut c.rng);
            let (r, rd, _) = skip_one(*m, code, None, &data, &plan, usize::MAX)?;
            c.eval();
            ensure!(r.is_ok(), "{:?} skip of {} failed: {:?}", m, v.short(), r);
            ensure!(rd.pos == n, "{:?} skip of {} took {} bytes instead of {}", m, v.short(), rd.pos, n);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C03

pub fn c03(ctx: &Ctx) {
    use pfs::thrift::protocol::*;
    values(ctx, 150_000, 6_000_000, |c, t, v| {
        let x = mk(t, v);
        for m in MODES {
            let plan = Plan::rough(&mut c.rng);
            let o = write_v(&*x, *m, &plan)?;
            c.eval();
            let n = o.r.map_err(|e| format!("{:?} write of {} failed: {:?}", m, t.name(), e))?;
            ensure!(n == o.w.out.len(), "{:?} write of {} returned {} but delivered {} bytes: {}", m, t.name(), n, o.w.out.len(), v.short());
        }
        // boxed protocol, trait object, boxed transport, plain Vec
        let (r, out) = {
            let mut w = MonWriter::plain();
            let r = sut_cap(i64::MAX, || {
                let mut p = Box::new(TCompactOutputProtocol::new(&mut w));
                x.write_box(&mut p)
            })
            .0?;
            (r, w.out)
        };
        ensure!(r.as_ref().ok() == Some(&out.len()), "boxed write of {} returned {:?} but delivered {} bytes", t.name(), r, out.len());
        let (r, out) = {
            let mut w = MonWriter::plain();
            let r = sut_cap(i64::MAX, || {
                let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(&mut w));
                x.write_dyn(&mut p)
            })
            .0?;
            (r, w.out)
        };
        ensure!(r.as_ref().ok() == Some(&out.len()), "boxed dyn write of {} returned {:?} but delivered {} bytes", t.name(), r, out.len());
        let mut out = vec![];
        let r = sut_cap(i64::MAX, || {
            let mut p = TCompactOutputProtocol::new(&mut out);
            x.write_vec(&mut p)
        })
        .0?;
        ensure!(r.as_ref().ok() == Some(&out.len()), "write of {} to a Vec returned {:?} but delivered {} bytes", t.name(), r, out.len());
        Ok(())
    });
    ctx.group("calls", ctx.n(60_000, 2_500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        c.seen_bytes(1, &s.bytes);
        c.sample(|| format!("{:?}", s.items).chars().take(300).collect());
        for m in WMS {
            if *m == WM::BufW {
                continue;
            }
            let plan = Plan::rough(&mut c.rng);
            let o = write_ops(*m, &s.ops, &plan, false)?;
            c.eval();
            ensure!(o.err.is_none(), "{:?} write of {:?} failed: {:?}", m, s.items, o.err);
            let mut before = 0;
            let mut total = 0;
            for (i, (n, after)) in o.log.iter().enumerate() {
                ensure!(*n as u64 == after - before, "{:?}: call {} ({:?}) returned {} but delivered {} bytes", m, i, s.ops[i], n, after - before);
                before = *after;
                total += n;
            }
            ensure!(total == o.w.out.len(), "{:?}: counts add up to {} of {} bytes", m, total, o.w.out.len());
        }
        c.count("calls_observed", (s.ops.len() * (WMS.len() - 1)) as u64);
        Ok(())
    });
    // container headers of every size, without their elements
    let sizes: Vec<u32> = {
        let mut v: Vec<u32> = edge_ints(0, u32::MAX as i64).iter().map(|x| *x as u32).collect();
        v.extend(0..40);
        v
    };
    ctx.group("headers", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize % sizes.len()];
        let a = *c.rng.pick(&ELEMS);
        let b = *c.rng.pick(&ELEMS);
        let id = int_in(&mut c.rng, -32768, 32767) as i16;
        let id2 = int_in(&mut c.rng, -32768, 32767) as i16;
        // a distance of 15 may be written in either form
        let id = if id == 15 { 16 } else { id };
        let id2 = if id2 as i32 - id as i32 == 15 { id } else { id2 };
        let ops = vec![
            Op::ListBegin(a, n),
            Op::SetBegin(b, n),
            Op::MapBegin(Some(a), Some(b), n),
            Op::MsgBegin("x".into(), 1, n),
            Op::StructBegin,
            Op::FieldBegin(8, id),
            Op::FieldBegin(1, id2),
            Op::Bool(true),
            Op::I32(n as i32),
            Op::I64(n as i64),
        ];
        let want = op_ends(&ops)?;
        for m in WMS {
            if *m == WM::BufW {
                continue;
            }
            let o = write_ops(*m, &ops, &Plan::rough(&mut c.rng), false)?;
            c.eval();
            let mut before = 0;
            for (i, (k, after)) in o.log.iter().enumerate() {
                ensure!(*k as u64 == after - before, "{:?}: {:?} returned {} but delivered {} bytes", m, ops[i], k, after - before);
                ensure!(*after == want[i], "{:?}: {:?} delivered bytes up to {} instead of {}", m, ops[i], after, want[i]);
                before = *after;
            }
        }
        c.seen(n as u64);
        Ok(())
    });
    crate::c_proto::varint_counts(ctx);
}

// ------------------------------------------------------------------ C04

pub fn c04(ctx: &Ctx) {
    values(ctx, 200_000, 8_000_000, |c, t, v| {
        let x = mk(t, v);
        let want = v.clone().sorted();
        for m in MODES {
            let b = bytes_of(&*x, *m)?;
            c.eval();
            let mut d = Dec::new(&b);
            let code = t.ty().code();
            let got = d.val(code).map_err(|e| format!("{:?} encoding of {} is not valid Thrift compact ({}): {} for {}", m, t.name(), e, hex(&b), v.short()))?;
            ensure!(d.pos == b.len(), "{:?} encoding of {} has {} bytes too many: {}", m, t.name(), b.len() - d.pos, hex(&b));
            if let Some(id) = dup(&got) {
                return Err(format!("{:?} encoding of {} has field {} twice: {}", m, t.name(), id, hex(&b)));
            }
            let got = got.sorted();
            ensure!(got == want, "{:?} encoding of {} denotes {} instead of {}", m, t.name(), got.short(), want.short());
        }
        Ok(())
    });
    // elements and messages
    ctx.group("elements", ctx.n(40_000, 1_500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        c.seen_bytes(1, &s.bytes);
        for m in MODES {
            let o = write_ops(wm(*m), &s.ops, &Plan::plain(), false)?;
            c.eval();
            decode_items(&s.items, &o.w.out).map_err(|e| format!("{:?}: {}", m, e))?;
        }
        Ok(())
    });
}

/// Are `b` encodings of exactly these items, for an independent decoder?
pub fn decode_items(items: &[Item], b: &[u8]) -> Res {
    let mut d = Dec::new(b);
    for (i, it) in items.iter().enumerate() {
        let at = d.pos;
        if let Item::Msg(n, t, s, _) = it {
            let h = (d.byte()?, d.byte()?);
            ensure!(h.0 == 0x82, "item {}: protocol id {:#x}", i, h.0);
            ensure!(h.1 & 0x1f == 1 && h.1 >> 5 == *t, "item {}: version/type byte {:#x} for type {}", i, h.1, t);
            let q = d.uv(5)?;
            ensure!(q == *s as u64, "item {}: sequence number {} instead of {}", i, q, s);
            let name = d.bin()?;
            ensure!(name == n.as_bytes(), "item {}: name {:?} instead of {:?}", i, name, n);
        }
        let got = d.val(it.value().code()).map_err(|e| format!("item {} at {}: {} in {}", i, at, e, hex(b)))?;
        ensure!(&got == it.value(), "item {} at {}: {} instead of {}", i, at, got.short(), it.value().short());
    }
    ensure!(d.pos == b.len(), "{} bytes too many after the last item: {}", b.len() - d.pos, hex(b));
    Ok(())
}

fn dup(v: &V) -> Option<i16> {
    match v {
        V::List(_, e) | V::Set(_, e) => e.iter().find_map(dup),
        V::Map(_, _, e) => e.iter().find_map(|(a, b)| dup(a).or_else(|| dup(b))),
        V::St(f) => {
            for (i, x) in f.iter().enumerate() {
                if f[..i].iter().any(|y| y.0 == x.0) {
                    return Some(x.0);
                }
            }
            f.iter().find_map(|x| dup(&x.1))
        }
        _ => None,
    }
}

// ------------------------------------------------------------------ C05

pub fn c05(ctx: &Ctx) {
    values(ctx, 250_000, 10_000_000, |c, t, v| {
        let x = mk(t, v);
        for round in 0..2 {
            let b = if round == 0 {
                let mut e = Enc::wild(&mut c.rng);
                e.val(v);
                e.out
            } else {
                encode(v)
            };
            let data = arc(&b);
            for m in MODES {
                let o = read_plain(t, *m, &data)?;
                c.eval();
                same(&*x, &o, || format!("{:?} read of a foreign encoding of {}: {}", m, t.name(), hex(&b)))?;
                ensure!(o.pos == b.len(), "{:?} read of a foreign encoding of {} took {} of {} bytes", m, t.name(), o.pos, b.len());
            }
        }
        Ok(())
    });
    // every permutation of small structs' fields
    let small: Vec<usize> = (0..types().len()).filter(|i| matches!(types()[*i].ty(), Ty::St(s) if !s.union && (2..=9).contains(&s.fields.len()))).collect();
    ctx.group("orders", ctx.n(20_000, 600_000), |c| {
        let t = &*types()[small[c.idx as usize % small.len()]];
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let V::St(mut f) = v.clone() else { return Ok(()) };
        c.rng.shuffle(&mut f);
        let b = encode(&V::St(f));
        c.seen_bytes(c.idx % small.len() as u64, &b);
        for m in MODES {
            let o = read_plain(t, *m, &arc(&b))?;
            c.eval();
            same(&*mk(t, &v), &o, || format!("{:?} read of permuted {}: {}", m, t.name(), hex(&b)))?;
        }
        Ok(())
    });
    // lists read through the list entry point
    ctx.group("lists", ctx.n(10_000, 300_000), |c| {
        let t = pick_type(&mut c.rng);
        let n = len_edge(&mut c.rng, 40);
        let es: Vec<V> = (0..n).map(|_| gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand))).collect();
        let mut e = Enc::wild(&mut c.rng);
        e.val(&V::List(t.ty().code(), es.clone()));
        let data = arc(&e.out);
        c.seen_bytes(9, &data);
        for m in MODES {
            let (r, _, rd) = reading!(*m, &data, &Plan::plain(), usize::MAX, |p| t.read_many(p), |p| t.aread_many(p))?;
            c.eval();
            let got = r.map_err(|e| format!("{:?} list<{}> of {}: {:?}", m, t.name(), n, e))?;
            ensure!(got.len() == n, "{:?} list<{}> of {} has {} elements", m, t.name(), n, got.len());
            for (a, b) in got.iter().zip(&es) {
                ensure!(a.eq_dyn(&*mk(t, b)), "{:?} list<{}> element {} instead of {}", m, t.name(), a.tree().short(), b.short());
            }
            ensure!(rd.pos == data.len(), "{:?} list<{}> took {} of {} bytes", m, t.name(), rd.pos, data.len());
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C06

pub fn c06(ctx: &Ctx) {
    values(ctx, 150_000, 6_000_000, |c, t, v| {
        if !matches!(t.ty(), Ty::St(_)) {
            return Ok(());
        }
        let x = mk(t, v);
        let big = v.nodes() > 2000;
        let mut n = 0;
        let density = if big { 1 } else { c.rng.range(1, 4) };
        let depth = if big { 2 } else { *c.rng.pick(&[1, 3, 10, 63, 64]) };
        let iv = inject(v, t.ty(), &mut c.rng, density, depth, &mut n);
        let b = {
            let mut e = Enc::wild(&mut c.rng);
            if c.idx % 2 == 0 {
                // fields in the order they came
                e.shuffle = false;
            }
            e.val(&iv);
            e.out
        };
        let data = arc(&b);
        for m in MODES {
            let o = read_plain(t, *m, &data)?;
            c.eval();
            same(&*x, &o, || format!("{:?} read of {} with {} unknown fields: {}", m, t.name(), n, hex(&b)))?;
            ensure!(o.pos == b.len(), "{:?} read of {} with unknown fields took {} of {} bytes: {}", m, t.name(), o.pos, b.len(), hex(&b));
        }
        c.count("unknown_fields", n);
        Ok(())
    });
    // every wire type as the only unknown field, before, between and after all fields
    let sts: Vec<usize> = (0..types().len()).filter(|i| matches!(types()[*i].ty(), Ty::St(s) if !s.union)).collect();
    let n = sts.len() as u64 * ELEMS.len() as u64;
    ctx.group("placements", n * if ctx.mini() { 1 } else { 24 }, |c| {
        let t = &*types()[sts[c.idx as usize % sts.len()]];
        let code = ELEMS[c.idx as usize / sts.len() % ELEMS.len()];
        let Ty::St(s) = t.ty() else { return Ok(()) };
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, if c.idx & 1 == 0 { Opt::All } else { Opt::Rand }));
        let V::St(f) = v.clone() else { return Ok(()) };
        let x = mk(t, &v);
        let u = gen_any(&mut c.rng, code, 3);
        for at in 0..=f.len() {
            let id = loop {
                let id = match c.rng.below(4) {
                    0 => int_in(&mut c.rng, -32768, 32767) as i16,
                    1 if at > 0 => f[at - 1].0.wrapping_add(c.rng.below(15) as i16),
                    _ => c.rng.below(300) as i16,
                };
                if !s.fields.iter().any(|q| q.id == id) {
                    break id;
                }
            };
            let mut g = f.clone();
            g.insert(at, (id, u.clone()));
            let b = encode(&V::St(g));
            let data = arc(&b);
            c.seen_bytes(3, &b);
            for m in MODES {
                let o = read_plain(t, *m, &data)?;
                c.eval();
                same(&*x, &o, || format!("{:?} read of {} with unknown field {} ({}) at place {}: {}", m, t.name(), id, u.short(), at, hex(&b)))?;
                ensure!(o.pos == b.len(), "{:?} read of {} with unknown field took {} of {} bytes", m, t.name(), o.pos, b.len());
            }
        }
        Ok(())
    });
    // unknown fields with very many children
    ctx.group("wide", ctx.n(600, 24_000), |c| {
        let t = &*types()[sts[c.rng.below(sts.len() as u64) as usize]];
        let Ty::St(s) = t.ty() else { return Ok(()) };
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, if c.idx & 1 == 0 { Opt::All } else { Opt::Rand }));
        let V::St(mut f) = v.clone() else { return Ok(()) };
        let x = mk(t, &v);
        let mut u = gen_wide(&mut c.rng, 75_000);
        c.count("wide_children", u.nodes() as u64);
        if c.rng.chance(1, 4) {
            u = V::List(u.code(), vec![u.clone(), u]);
        }
        let at = c.rng.below(f.len() as u64 + 1) as usize;
        let id = loop {
            let id = int_in(&mut c.rng, -32768, 32767) as i16;
            if !s.fields.iter().any(|q| q.id == id) {
                break id;
            }
        };
        let what = format!("type {} with {} values", u.code(), u.nodes());
        f.insert(at, (id, u));
        let b = encode(&V::St(f));
        let data = arc(&b);
        c.seen_bytes(4, &b);
        for m in MODES {
            let o = read_plain(t, *m, &data)?;
            c.eval();
            same(&*x, &o, || format!("{:?} read of {} with unknown field {} ({}) at place {}", m, t.name(), id, what, at))?;
            ensure!(o.pos == b.len(), "{:?} read of {} with an unknown field ({}) took {} of {} bytes", m, t.name(), what, o.pos, b.len());
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C07

/// Applies `f` to the k-th struct (or union) inside `v`; None past the last.
fn at_struct(v: &V, ty: &Ty, k: &mut usize, f: &mut dyn FnMut(&[(i16, V)], &'static Schema) -> V) -> Option<V> {
    match (v, ty) {
        (V::List(c, e), Ty::List(t)) => {
            for (i, x) in e.iter().enumerate() {
                if let Some(y) = at_struct(x, t, k, f) {
                    let mut e = e.clone();
                    e[i] = y;
                    return Some(V::List(*c, e));
                }
            }
            None
        }
        (V::St(fs), Ty::St(s)) => {
            if *k == 0 {
                return Some(f(fs, s));
            }
            *k -= 1;
            for (i, (id, x)) in fs.iter().enumerate() {
                let t = &s.fields.iter().find(|q| q.id == *id).unwrap().ty;
                if let Some(y) = at_struct(x, t, k, f) {
                    let mut fs = fs.clone();
                    fs[i].1 = y;
                    return Some(V::St(fs));
                }
            }
            None
        }
        _ => None,
    }
}
fn n_structs(v: &V, ty: &Ty) -> usize {
    match (v, ty) {
        (V::List(_, e), Ty::List(t)) => e.iter().map(|x| n_structs(x, t)).sum(),
        (V::St(fs), Ty::St(s)) => 1 + fs.iter().map(|(id, x)| n_structs(x, &s.fields.iter().find(|q| q.id == *id).unwrap().ty)).sum::<usize>(),
        _ => 0,
    }
}

pub fn c07(ctx: &Ctx) {
    let reject = |c: &mut Case, t: &'static dyn DynType, bad: &V, why: &dyn Fn() -> String| -> Res {
        let wild = c.rng.chance(1, 3);
        let b = if wild {
            let mut e = Enc::wild(&mut c.rng);
            e.val(bad);
            e.out
        } else {
            encode(bad)
        };
        c.seen_bytes(1, &b);
        for m in MODES {
            let o = read_plain(t, *m, &arc(&b))?;
            c.eval();
            match &o.r {
                Ok(v) => return Err(format!("{:?} read of {} {}: accepted as {}; input {}", m, t.name(), why(), v.tree().short(), hex(&b))),
                Err(e) => ensure!(matches!(e.k, EK::P(_)), "{:?} read of {} {}: {:?} instead of a protocol error", m, t.name(), why(), e),
            }
        }
        Ok(())
    };
    let sts: Vec<usize> = (0..types().len()).filter(|i| matches!(types()[*i].ty(), Ty::St(_))).collect();
    // every struct node of a full value of every type; every violation there
    ctx.group("systematic", sts.len() as u64 * ctx.n(60, 2000), |c| {
        let t = &*types()[sts[c.idx as usize % sts.len()]];
        let opt = match c.idx as usize / sts.len() % 3 {
            0 => Opt::All,
            1 => Opt::None,
            _ => Opt::Rand,
        };
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, opt));
        c.sample(|| format!("{}: {}", t.name(), v.short()));
        // the unmodified value is fine
        for m in MODES {
            let o = read_plain(t, *m, &arc(&encode(&v)))?;
            c.eval();
            same(&*mk(t, &v), &o, || format!("{:?} read of {} with {:?} optional fields", m, t.name(), opt))?;
        }
        for k in 0..n_structs(&v, t.ty()) {
            let mut sch: Option<(&'static Schema, Vec<(i16, V)>)> = None;
            at_struct(&v, t.ty(), &mut { k }, &mut |f, s| {
                sch = Some((s, f.to_vec()));
                V::St(f.to_vec())
            });
            let (s, f) = sch.unwrap();
            let with = |c: &mut Case, g: Vec<(i16, V)>, ok: bool, why: &str| -> Res {
                let mut done = false;
                let bad = at_struct(&v, t.ty(), &mut { k }, &mut |_, _| {
                    done = true;
                    V::St(g.clone())
                })
                .unwrap();
                if ok {
                    for m in MODES {
                        let o = read_plain(t, *m, &arc(&encode(&bad)))?;
                        c.eval();
                        same(&*mk(t, &bad.clone()), &o, || format!("{:?} read of {} with {} {}", m, t.name(), s.name, why))?;
                    }
                    c.count("accepted_as_required", 1);
                    return Ok(());
                }
                c.count("rejections_required", 1);
                reject(c, t, &bad, &|| format!("with {} {}", s.name, why))
            };
            if s.union {
                let known: Vec<(i16, V)> = s.fields.iter().map(|q| (q.id, gen_v(&q.ty, &mut G::simple(&mut Rng::new(q.id as u64), Opt::None)))).collect();
                let mut unk = 20i16;
                while known.iter().any(|q| q.0 == unk) {
                    unk += 1;
                }
                let uv = *c.rng.pick(&ELEMS);
                let uval = gen_any(&mut c.rng, uv, 2);
                let u = (*c.rng.pick(&[unk, -1, 0, 32767]), uval);
                with(c, vec![], false, "without a member")?;
                with(c, vec![u.clone()], false, &format!("with the unknown member {:?}", u))?;
                with(c, vec![f[0].clone(), f[0].clone()], false, "with its member twice")?;
                with(c, vec![u.clone(), f[0].clone()], false, "with an unknown and a known member")?;
                with(c, vec![f[0].clone(), u.clone()], false, "with a known and an unknown member")?;
                for a in &known {
                    if a.0 != f[0].0 {
                        with(c, vec![f[0].clone(), a.clone()], false, "with two members")?;
                        with(c, vec![a.clone(), f[0].clone()], false, "with two members")?;
                        with(c, vec![a.clone(), a.clone(), f[0].clone()], false, "with three members")?;
                    }
                }
            } else {
                for q in &s.fields {
                    let g: Vec<(i16, V)> = f.iter().filter(|x| x.0 != q.id).cloned().collect();
                    if g.len() == f.len() {
                        continue;
                    }
                    with(c, g.clone(), !q.req, &format!("without field {} ({})", q.id, q.name))?;
                    if q.req && c.rng.chance(1, 2) {
                        // an unknown field in its place does not help
                        let mut g2 = g.clone();
                        let mut id = 50i16;
                        while s.fields.iter().any(|q| q.id == id) {
                            id += 1;
                        }
                        let x = f.iter().find(|x| x.0 == q.id).unwrap().1.clone();
                        g2.push((id, x));
                        with(c, g2, false, &format!("without field {} ({}) but an unknown one", q.id, q.name))?;
                    }
                }
                if f.len() > 1 && s.fields.iter().any(|q| q.req) {
                    with(c, vec![], false, "without any field")?;
                }
            }
        }
        Ok(())
    });
    // random subsets
    ctx.group("subsets", ctx.n(1_000_000, 40_000_000), |c| {
        let t = &*types()[*c.rng.pick(&sts)];
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let n = n_structs(&v, t.ty());
        if n == 0 {
            return Ok(());
        }
        let k = c.rng.below(n as u64) as usize;
        let mut missing = false;
        let mask = c.rng.u64() | if c.rng.chance(1, 2) { c.rng.u64() } else { 0 };
        let bad = at_struct(&v, t.ty(), &mut { k }, &mut |f, s| {
            let g: Vec<(i16, V)> = f.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone()).collect();
            missing = if s.union { g.len() != 1 } else { s.fields.iter().any(|q| q.req && !g.iter().any(|x| x.0 == q.id)) };
            V::St(g)
        })
        .unwrap();
        if missing {
            reject(c, t, &bad, &|| "with missing fields".into())
        } else {
            for m in MODES {
                let o = read_plain(t, *m, &arc(&encode(&bad)))?;
                c.eval();
                same(&*mk(t, &bad), &o, || format!("{:?} read of {} with absent optional fields", m, t.name()))?;
            }
            Ok(())
        }
    });
}

// ------------------------------------------------------------------ C13

pub fn c13(ctx: &Ctx) {
    if MODES.len() < 2 {
        return;
    }
    values(ctx, 150_000, 6_000_000, |c, t, v| {
        let x = mk(t, v);
        let a = write_v(&*x, Mode::Sync, &Plan::plain())?;
        for _ in 0..2 {
            let plan = Plan::rough(&mut c.rng);
            let b = write_v(&*x, Mode::Async, &plan)?;
            c.eval();
            c.count("not_ready_polls", b.w.pendings);
            ensure!(a.w.out == b.w.out, "{}: asynchronous output {} differs from synchronous {} ({:?})", t.name(), hex(&b.w.out), hex(&a.w.out), plan);
            ensure!(a.r == b.r, "{}: asynchronous count {:?}, synchronous {:?}", t.name(), b.r, a.r);
        }
        let a2 = write_v(&*x, Mode::Sync, &Plan::rough(&mut c.rng))?;
        c.eval();
        ensure!(a.w.out == a2.w.out && a.r == a2.r, "{}: writing the same value again gives other bytes: {} / {}", t.name(), hex(&a.w.out), hex(&a2.w.out));
        Ok(())
    });
    ctx.group("calls", ctx.n(60_000, 2_500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        c.seen_bytes(1, &s.bytes);
        c.sample(|| format!("{:?}", s.items).chars().take(300).collect());
        let a = write_ops(WM::Sync, &s.ops, &Plan::plain(), true)?;
        let b = write_ops(WM::Async, &s.ops, &Plan::rough(&mut c.rng), true)?;
        c.eval();
        c.count("not_ready_polls", b.w.pendings);
        ensure!(a.err == b.err, "results differ: {:?} / {:?}", a.err, b.err);
        ensure!(a.flush == b.flush && a.w.flushes == b.w.flushes, "flush differs");
        for (i, (x, y)) in a.log.iter().zip(&b.log).enumerate() {
            ensure!(x.0 == y.0, "call {} ({:?}): synchronous count {}, asynchronous {}", i, s.ops[i], x.0, y.0);
            ensure!(x.1 == y.1, "call {} ({:?}): synchronous output up to {}, asynchronous {}", i, s.ops[i], x.1, y.1);
        }
        ensure!(a.w.out == b.w.out, "outputs differ: {} / {} for {:?}", hex(&a.w.out), hex(&b.w.out), s.items);
        Ok(())
    });
    ctx.group("runs", ctx.n(3_000, 100_000), |c| {
        let n = c.rng.range(2, if tiny() { 3 } else { 20 }) as usize;
        let xs: Vec<Typed> = (0..n)
            .map(|_| {
                let t = pick_type(&mut c.rng);
                (t, mk(t, &gen_v(t.ty(), &mut G::new(&mut c.rng))))
            })
            .collect();
        let a = write_run(&xs, Mode::Sync)?;
        let b = write_run(&xs, Mode::Async)?;
        c.eval();
        c.seen_bytes(0, &a);
        ensure!(a == b, "run of {} values: outputs differ", n);
        Ok(())
    });
    // container headers of every size and elements of every kind
    let sizes: Vec<u32> = {
        let mut v: Vec<u32> = edge_ints(0, u32::MAX as i64).iter().map(|x| *x as u32).collect();
        v.extend(0..40);
        v
    };
    ctx.group("headers", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize % sizes.len()];
        for a in ELEMS {
            let b = *c.rng.pick(&ELEMS);
            let ops = vec![Op::ListBegin(a, n), Op::SetBegin(a, n), Op::MapBegin(Some(a), Some(b), n), Op::MsgBegin("".into(), 2, n)];
            let x = write_ops(WM::Sync, &ops, &Plan::plain(), false)?;
            let y = write_ops(WM::Async, &ops, &Plan::rough(&mut c.rng), false)?;
            c.eval();
            ensure!(x.w.out == y.w.out && x.log == y.log && x.err == y.err, "{:?}: {} {:?} / {} {:?}", ops, hex(&x.w.out), x.log, hex(&y.w.out), y.log);
        }
        c.seen(n as u64);
        Ok(())
    });
}

// ------------------------------------------------------------------ C19

fn enum_check<T: EnumOps>(x: i32) -> Res {
    let v = T::from_raw(x);
    ensure!(v.raw() == x, "{}({}) holds {}", T::NAME, x, v.raw());
    for c in T::conv(x) {
        ensure!(c.raw() == x && c == v, "{}::from({}) is {}", T::NAME, x, c.raw());
    }
    for b in v.back() {
        ensure!(b == x, "i32::from({}({})) is {}", T::NAME, x, b);
    }
    let y = x.wrapping_add(1);
    let w = T::from_raw(y);
    ensure!(v != w && !(v == w), "{}({}) equals {}({})", T::NAME, x, T::NAME, y);
    ensure!(v.cmp(&w) == x.cmp(&y), "{}({}) and {}({}) are ordered {:?}", T::NAME, x, T::NAME, y, v.cmp(&w));
    let z = (crate::rng::mix(x as u32 as u64) >> 8) as i32;
    ensure!((T::from_raw(z) == v) == (z == x), "{}({}) vs {}", T::NAME, x, z);
    Ok(())
}

fn enum_names<T: EnumOps>() -> Res {
    for (n, x, c) in T::NAMED {
        ensure!(c.raw() == *x, "{}::{} is {} instead of {}", T::NAME, n, c.raw(), x);
    }
    let mut k: Vec<i32> = T::known().iter().map(|x| x.raw()).collect();
    k.sort();
    let mut w: Vec<i32> = T::NAMED.iter().map(|x| x.1).collect();
    w.sort();
    ensure!(k == w, "{}::ENUM_VALUES lists {:?} instead of {:?}", T::NAME, k, w);
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    use pfs::*;
    ctx.group("names", 1, |c| {
        enum_names::<Type>()?;
        enum_names::<ConvertedType>()?;
        enum_names::<FieldRepetitionType>()?;
        enum_names::<Encoding>()?;
        enum_names::<CompressionCodec>()?;
        enum_names::<PageType>()?;
        enum_names::<BoundaryOrder>()?;
        c.count("named_values", 57);
        c.eval();
        Ok(())
    });
    // conversions: in blocks of 2^16 numbers; thorough: all 2^32
    let edges = edge_ints(i32::MIN as i64, i32::MAX as i64);
    let blocks: Vec<u64> = match ctx.tier {
        Tier::Thorough => (0..65536).collect(),
        Tier::Mini => vec![0],
        Tier::Quick => {
            let mut b: Vec<u64> = edges.iter().map(|x| (*x as i32 as u32 >> 16) as u64).collect();
            let mut r = Rng::new(mix(ctx.seed) ^ 19);
            for _ in 0..3000 {
                b.push(r.below(65536));
            }
            b.sort();
            b.dedup();
            b
        }
    };
    let span = if ctx.mini() { 512 } else { 65536u32 };
    ctx.group("conversions", blocks.len() as u64, |c| {
        let hi = (blocks[c.idx as usize % blocks.len()] as u32) << 16;
        for lo in 0..span {
            let x = (hi | lo) as i32;
            enum_check::<Type>(x)?;
            enum_check::<ConvertedType>(x)?;
            enum_check::<FieldRepetitionType>(x)?;
            enum_check::<Encoding>(x)?;
            enum_check::<CompressionCodec>(x)?;
            enum_check::<PageType>(x)?;
            enum_check::<BoundaryOrder>(x)?;
        }
        c.st.evals += 7 * span as u64;
        c.seen(hi as u64);
        Ok(())
    });
    // through writer and reader, bare and as fields and list elements
    let io = |c: &mut Case, x: i32| -> Res {
        for t in types().iter().filter(|t| matches!(t.ty(), Ty::Enum)) {
            let v = mk(&**t, &V::I32(x));
            for m in MODES {
                let b = bytes_of(&*v, *m)?;
                let mut want = vec![];
                put_uv(&mut want, zz(x as i64));
                ensure!(b == want, "{}({}) written {:?} as {} instead of {}", t.name(), x, m, hex(&b), hex(&want));
                for m2 in MODES {
                    let o = read_plain(&**t, *m2, &arc(&b))?;
                    c.eval();
                    same(&*v, &o, || format!("{}({}) {:?} / {:?}", t.name(), x, m, m2))?;
                }
            }
            ensure!(v.dbg().contains(&x.to_string()), "{}({}) prints as {}", t.name(), x, v.dbg());
        }
        c.seen(x as u32 as u64 | 1 << 40);
        Ok(())
    };
    let near: Vec<i32> = (-1000..3000).chain(edges.iter().map(|x| *x as i32)).collect();
    let nn = if ctx.mini() { 40 } else { near.len() as u64 };
    ctx.group("io-near", nn, |c| {
        let x = near[c.idx as usize % near.len()];
        c.sample(|| format!("number {}", x));
        io(c, x)
    });
    ctx.group("io-random", ctx.n(100_000, 8_000_000), |c| {
        let x = c.rng.u64() as i32;
        io(c, x)
    });
    ctx.group("fields", ctx.n(60_000, 2_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let mut v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::All));
        let x = if c.rng.chance(1, 2) { int_in(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32 } else { c.rng.below(64) as i32 - 8 };
        let k = c.rng.below(40) as usize;
        if !set_leaf(&mut v, t.ty(), k, &|t| matches!(t, Ty::Enum), &mut |v, _| *v = V::I32(x)) {
            return Ok(());
        }
        let a = mk(t, &v);
        ensure!(Field::tree_of(&*a) == v, "harness tree");
        c.seen_bytes(3, &encode(&v));
        for m in MODES {
            let b = arc(&bytes_of(&*a, *m)?);
            for m2 in MODES {
                let o = read_plain(t, *m2, &b)?;
                c.eval();
                same(&*a, &o, || format!("{} with enum {} {:?} / {:?}", t.name(), x, m, m2))?;
            }
        }
        Ok(())
    });
}

struct Field;
impl Field {
    fn tree_of(a: &dyn DynVal) -> V {
        a.tree()
    }
}

// ------------------------------------------------------------------ C24

/// Lexicographic order in declaration order, from the definition.
fn ord(ty: &Ty, a: &V, b: &V) -> Ordering {
    match (ty, a, b) {
        (Ty::List(t), V::List(_, x), V::List(_, y)) => {
            for (p, q) in x.iter().zip(y) {
                let o = ord(t, p, q);
                if o != Ordering::Equal {
                    return o;
                }
            }
            x.len().cmp(&y.len())
        }
        (Ty::St(s), V::St(x), V::St(y)) => {
            if s.union {
                let i = s.fields.iter().position(|q| q.id == x[0].0);
                let j = s.fields.iter().position(|q| q.id == y[0].0);
                return i.cmp(&j).then_with(|| ord(&s.fields[i.unwrap()].ty, &x[0].1, &y[0].1));
            }
            for q in &s.fields {
                let p = x.iter().find(|w| w.0 == q.id).map(|w| &w.1);
                let r = y.iter().find(|w| w.0 == q.id).map(|w| &w.1);
                let o = match (p, r) {
                    (None, None) => Ordering::Equal,
                    (None, Some(_)) => Ordering::Less,
                    (Some(_), None) => Ordering::Greater,
                    (Some(p), Some(r)) => ord(&q.ty, p, r),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            Ordering::Equal
        }
        _ => a.cmp(b),
    }
}

/// A value that differs from `v` in one leaf (or one optional field).
fn tweak(v: &V, ty: &Ty, r: &mut Rng) -> V {
    match (v, ty) {
        (V::St(f), Ty::St(s)) => {
            let mut f = f.clone();
            if s.union {
                let q = s.fields.iter().find(|q| q.id == f[0].0).unwrap();
                if r.chance(1, 3) {
                    let q = r.pick(&s.fields);
                    return V::St(vec![(q.id, gen_v(&q.ty, &mut G::simple(r, Opt::Rand)))]);
                }
                f[0].1 = tweak(&f[0].1, &q.ty, r);
                return V::St(f);
            }
            if s.fields.is_empty() {
                return v.clone();
            }
            let q = r.pick(&s.fields);
            match f.iter().position(|x| x.0 == q.id) {
                None => {
                    f.push((q.id, gen_v(&q.ty, &mut G::simple(r, Opt::Rand))));
                    f.sort_by_key(|x| x.0);
                }
                Some(i) => {
                    if !q.req && r.chance(1, 3) {
                        f.remove(i);
                    } else {
                        f[i].1 = tweak(&f[i].1, &q.ty, r);
                    }
                }
            }
            V::St(f)
        }
        (V::List(c, e), Ty::List(t)) => {
            let mut e = e.clone();
            match r.below(3) {
                0 => e.push(gen_v(t, &mut G::simple(r, Opt::Rand))),
                1 if !e.is_empty() => {
                    e.pop();
                }
                _ => {
                    if !e.is_empty() {
                        let i = r.below(e.len() as u64) as usize;
                        e[i] = tweak(&e[i], t, r);
                    }
                }
            }
            V::List(*c, e)
        }
        (V::Bin(b), Ty::Bin) => {
            let mut b = b.clone();
            if b.is_empty() || r.chance(1, 2) {
                b.push(r.u64() as u8);
            } else {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
            V::Bin(b)
        }
        (V::Bin(b), _) => {
            let mut s = String::from_utf8(b.clone()).unwrap();
            if r.chance(1, 2) {
                s.push('x');
            } else {
                s.pop();
            }
            V::Bin(s.into_bytes())
        }
        (V::Bool(b), _) => V::Bool(!b),
        (V::I8(x), _) => V::I8(x.wrapping_add(1 << r.below(8))),
        (V::I16(x), _) => V::I16(x.wrapping_add(1 << r.below(16))),
        (V::I32(x), _) => V::I32(x.wrapping_add(1 << r.below(32))),
        (V::I64(x), _) => V::I64(x.wrapping_add(1 << r.below(64))),
        _ => v.clone(),
    }
}

pub fn c24(ctx: &Ctx) {
    let pair = |c: &mut Case, t: &'static dyn DynType, a: &V, b: &V| -> Res {
        let (x, y) = (mk(t, a), mk(t, b));
        let r = sut(|| {
            let e = a == b;
            ensure!(x.eq_dyn(&*y) == e && y.eq_dyn(&*x) == e, "{}: == says {} for {} and {}", t.name(), x.eq_dyn(&*y), a.short(), b.short());
            let o = ord(t.ty(), a, b);
            ensure!(x.cmp_dyn(&*y) == o, "{}: cmp says {:?} instead of {:?} for {} and {}", t.name(), x.cmp_dyn(&*y), o, a.short(), b.short());
            ensure!(y.cmp_dyn(&*x) == o.reverse(), "{}: cmp is not antisymmetric for {} and {}", t.name(), a.short(), b.short());
            ensure!(x.pcmp_dyn(&*y) == Some(o), "{}: partial_cmp says {:?} instead of {:?} for {} and {}", t.name(), x.pcmp_dyn(&*y), o, a.short(), b.short());
            if e {
                ensure!(x.hash64() == y.hash64(), "{}: equal values hash differently: {}", t.name(), a.short());
            }
            Ok(())
        });
        c.eval();
        r.and_then(|x| x)
    };
    values(ctx, 150_000, 6_000_000, |c, t, v| {
        let x = mk(t, v);
        ensure!(x.tree() == *v, "{}: fields do not hold what was put in: {} instead of {}", t.name(), x.tree().short(), v.short());
        pair(c, t, v, v)?;
        let y = sut(|| x.clone_dyn())?;
        ensure!(y.tree() == *v && y.eq_dyn(&*x), "{}: clone {} of {}", t.name(), y.tree().short(), v.short());
        ensure!(y.hash64() == x.hash64(), "{}: clone hashes differently", t.name());
        if let Some(n) = sut(|| x.via_new())? {
            ensure!(n.tree() == *v, "{}::new gave {} for {}", t.name(), n.tree().short(), v.short());
            c.count("constructor_calls", 1);
        }
        if v.nodes() < 3000 {
            for _ in 0..3 {
                let w = tweak(v, t.ty(), &mut c.rng);
                c.count(if w == *v { "equal_pairs" } else { "unequal_pairs" }, 1);
                pair(c, t, v, &w)?;
                let w2 = tweak(&w, t.ty(), &mut c.rng);
                pair(c, t, &w, &w2)?;
                pair(c, t, v, &w2)?;
            }
        }
        Ok(())
    });
    ctx.group("independent-pairs", ctx.n(100_000, 3_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let a = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let b = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        c.seen_bytes(5, &encode(&a));
        pair(c, t, &a, &b)
    });
    // every single field decides: two values equal but for one field
    let sts: Vec<usize> = (0..types().len()).filter(|i| matches!(types()[*i].ty(), Ty::St(s) if !s.union && !s.fields.is_empty())).collect();
    ctx.group("each-field", sts.len() as u64 * ctx.n(40, 400), |c| {
        let t = &*types()[sts[c.idx as usize % sts.len()]];
        let Ty::St(s) = t.ty() else { return Ok(()) };
        let V::St(f) = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::All)) else { return Ok(()) };
        for q in &s.fields {
            let mut g = f.clone();
            let i = g.iter().position(|x| x.0 == q.id).unwrap();
            if !q.req && c.rng.chance(1, 2) {
                g.remove(i);
            } else {
                g[i].1 = tweak(&g[i].1, &q.ty, &mut c.rng);
            }
            // and later fields pull the other way
            let mut h = g.clone();
            for p in &s.fields {
                if p.id > q.id {
                    if let Some(j) = h.iter().position(|x| x.0 == p.id) {
                        h[j].1 = tweak(&h[j].1, &p.ty, &mut c.rng);
                    }
                }
            }
            c.seen_bytes(6, &encode(&V::St(g.clone())));
            pair(c, t, &V::St(f.clone()), &V::St(g))?;
            pair(c, t, &V::St(f.clone()), &V::St(h))?;
        }
        Ok(())
    });
    // defaults of the empty structs
    ctx.group("defaults", 1, |c| {
        for t in types() {
            if let Some(d) = sut(|| t.default_tree())? {
                c.count("defaults", 1);
                ensure!(d == V::St(vec![]), "{}::default() is {}", t.name(), d.short());
            }
        }
        c.eval();
        Ok(())
    });
}
