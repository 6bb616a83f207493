//! C10, C11, C26: what is refused, and exactly what.
use std::sync::Arc;

use crate::c_hostile::{observe, Obs, Sig, Tgt};
use crate::c_proto::short;
use crate::c_values::{mk, read_run, Typed};
use crate::corpus::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

const WORD: u64 = std::mem::size_of::<usize>() as u64;

/// an encoding of `v`: canonical or foreign, perhaps with unknown fields
pub fn variant(r: &mut Rng, v: &V, ty: &Ty) -> (Vec<u8>, u64) {
    let v2 = if r.chance(1, 3) { inject(v, ty, r, 2, 6, &mut 0) } else { v.clone() };
    let mut e = if r.chance(1, 3) { Enc::wild(r) } else { Enc::canonical() };
    e.val(&v2);
    let c = e.charge(WORD);
    (e.out, c)
}

/// one read per limit: within the limit it must succeed, else be refused
fn at_limits(c: &mut Case, t: &Tgt, d: &Arc<[u8]>, charge: u64, want: Option<&V>) -> Res {
    let mut ls: Vec<u64> = vec![charge];
    if charge > 0 {
        ls.push(charge - 1);
    }
    if d.len() < 20_000 || c.rng.chance(1, 4) {
        ls.push(usize::MAX as u64);
        ls.push(charge + c.rng.below(40));
        if charge == 0 {
            ls.push(c.rng.below(40));
        } else {
            ls.push(c.rng.below(charge));
            ls.push(charge - 1 - c.rng.below(charge.min(3)));
            if c.rng.chance(1, 4) {
                ls.push(0);
            }
        }
    }
    let modes = if let Tgt::App = t { &MODES[..1] } else { MODES };
    for l in ls {
        let plan = if c.rng.chance(1, 2) { Plan::rough(&mut c.rng) } else { Plan::plain() };
        for m in modes {
            let o = observe(t, *m, d, &plan, l as usize)?;
            c.eval();
            judge(t, *m, d, charge, l, &o)?;
            if let (Ok(Sig::Tree(g)), Some(w)) = (&o.r, want) {
                ensure!(g == w, "{:?} read of {:?} under limit {} returned {} instead of {}", m, t, l, g.short(), w.short());
            }
            c.count(if charge <= l { "within_limit" } else { "refused" }, 1);
            if l == charge {
                c.count("exactly_at_limit", 1);
            }
            if charge > 0 && l == charge - 1 {
                c.count("one_below", 1);
            }
        }
    }
    Ok(())
}

fn judge(t: &Tgt, m: Mode, d: &Arc<[u8]>, charge: u64, l: u64, o: &Obs) -> Res {
    if charge <= l {
        ensure!(o.r.is_ok(), "{:?} read of {:?} that charges {} fails under limit {}: {}; input {}", m, t, charge, l, o.show(), hex(d));
    } else {
        match &o.r {
            Err(e) if e.k == SIZE => {}
            _ => return Err(format!("{:?} read of {:?} that charges {} under limit {} gives {} instead of a size-limit error; input {}", m, t, charge, l, o.show(), hex(d))),
        }
    }
    Ok(())
}

/// what each call charges
fn op_charge(o: &Op) -> u64 {
    match o {
        Op::MsgBegin(n, _, _) => n.len() as u64,
        Op::Bytes(b) => b.len() as u64,
        Op::Str(s) => s.len() as u64,
        Op::StructBegin => 2,
        Op::ListBegin(_, n) | Op::SetBegin(_, n) | Op::MapBegin(_, _, n) => *n as u64 * WORD,
        _ => 0,
    }
}

/// the reference reader's verdict without a limit, and the charge so far
fn judged(b: &[u8], f: impl Fn(&mut RefRd) -> Result<V, RE>) -> (Result<V, RE>, u64) {
    let mut r = RefRd::new(b, usize::MAX);
    let v = f(&mut r);
    if r.may_oom {
        return (Err(RE::Unspec), 0);
    }
    (v, r.used as u64)
}

pub fn c10(ctx: &Ctx) {
    values(ctx, 60_000, 2_500_000, |c, t, v| {
        let (b, charge) = variant(&mut c.rng, v, t.ty());
        c.max("largest_charge", charge);
        at_limits(c, &Tgt::Type(t), &arc(&b), charge, Some(v))
    });
    ctx.group("lists", ctx.n(20_000, 800_000), |c| {
        let t = pick_type(&mut c.rng);
        let n = if c.rng.chance(1, 8) { len_edge(&mut c.rng, 3000) } else { c.rng.below(6) as usize };
        let mut e = if c.rng.chance(1, 2) { Enc::canonical() } else { Enc::wild(&mut c.rng) };
        let mut r = Rng::new(mix(c.idx));
        let vs: Vec<V> = (0..n).map(|_| gen_v(t.ty(), &mut G::simple(&mut r, Opt::Rand))).collect();
        e.val(&V::List(t.ty().code(), vs));
        let (b, charge) = (std::mem::take(&mut e.out), e.charge(WORD));
        drop(e);
        c.seen_bytes(5, &b);
        at_limits(c, &Tgt::Many(t), &arc(&b), charge, None)
    });
    // skipped values, alone
    ctx.group("skips", ctx.n(40_000, 1_600_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let v = if c.rng.chance(1, 4) {
            let d = c.rng.range(1, 60) as usize;
            gen_deep(&mut c.rng, d, &[9, 10, 11, 12])
        } else {
            gen_any(&mut c.rng, code, 5)
        };
        let code = v.code();
        let mut e = if c.rng.chance(1, 2) { Enc::canonical() } else { Enc::wild(&mut c.rng) };
        e.val(&v);
        let (b, charge) = (std::mem::take(&mut e.out), e.charge(WORD));
        drop(e);
        c.seen_bytes(1, &b);
        let d = if c.rng.chance(1, 2) { None } else { Some(127) };
        at_limits(c, &Tgt::Skip(code, d), &arc(&b), charge, None)
    });
    // whatever is accepted without a limit, however odd
    ctx.group("hostile", ctx.n(150_000, 6_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (mut b, how) = hostile(&mut c.rng, t);
        b.truncate(20_000);
        let (tgt, r) = if c.rng.chance(1, 4) {
            let code = *c.rng.pick(&ELEMS);
            (Tgt::Skip(code, None), judged(&b, |r| r.skip(code, 64).map(|_| V::Bool(true))))
        } else {
            (Tgt::Type(t), judged(&b, |r| r.val(t.ty())))
        };
        if let (Ok(v), used) = r {
            c.sample(|| format!("{:?} ({}) charges {}: {}", tgt, how, used, hex(&b)));
            c.seen_bytes(9, &b);
            let b = arc(&b);
            return at_limits(c, &tgt, &b, used, matches!(tgt, Tgt::Type(_)).then_some(&v));
        }
        Ok(())
    });
    ctx.group("application-errors", ctx.n(4_000, 150_000), |c| {
        let mut f = vec![];
        if c.rng.chance(3, 4) {
            let n = len_edge(&mut c.rng, 2000);
            f.push((1, V::Bin(gen_utf8(&mut c.rng, n))));
        }
        if c.rng.chance(3, 4) {
            f.push((2, V::I32(c.rng.below(12) as i32)));
        }
        if c.rng.chance(1, 2) {
            let code = *c.rng.pick(&ELEMS);
            f.push((c.rng.range(3, 400) as i16, gen_any(&mut c.rng, code, 4)));
        }
        let mut e = if c.rng.chance(1, 2) { Enc::canonical() } else { Enc::wild(&mut c.rng) };
        e.val(&V::St(f));
        let (b, charge) = (std::mem::take(&mut e.out), e.charge(WORD));
        drop(e);
        c.seen_bytes(2, &b);
        at_limits(c, &Tgt::App, &arc(&b), charge, None)
    });
    // several values through one reader: refused exactly where the sum of all
    // charges so far exceeds the limit
    ctx.group("cumulative", ctx.n(40_000, 1_500_000), |c| {
        let n = c.rng.range(2, 10) as usize;
        let mut xs: Vec<Typed> = vec![];
        let mut bytes = vec![];
        let mut sums = vec![];
        let mut sum = 0;
        for _ in 0..n {
            let t = pick_type(&mut c.rng);
            let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
            let (b, ch) = variant(&mut c.rng, &v, t.ty());
            bytes.extend_from_slice(&b);
            sum += ch;
            sums.push(sum);
            xs.push((t, mk(t, &v)));
        }
        let data = arc(&bytes);
        c.seen_bytes(3, &bytes);
        let k = c.rng.below(n as u64) as usize;
        let at = sums[k];
        let mut ls = vec![at, c.rng.below(sum + 2), sum];
        if at > 0 {
            ls.push(at - 1);
        }
        if sum > 0 {
            ls.push(sum - 1);
        }
        c.sample(|| format!("{:?} charging {:?} in all, limits {:?}", xs.iter().map(|x| x.0.name()).collect::<Vec<_>>(), sums, ls));
        for l in ls {
            // the first value that exceeds the limit
            let bad = sums.iter().position(|s| *s > l);
            let plan = Plan::rough(&mut c.rng);
            for m in MODES {
                let got = read_run(&xs, *m, &data, &plan, l as usize)?;
                c.eval();
                for (i, g) in got.vals.iter().enumerate() {
                    match (g, Some(i) == bad) {
                        (Ok(g), false) => ensure!(g.eq_dyn(&*xs[i].1), "{:?}, limit {}: value {} differs", m, l, i),
                        (Err(e), true) if e.k == SIZE => {}
                        (Ok(_), true) => return Err(format!("{:?}: value {} of a run charging {:?} in all was accepted under limit {}; types {:?}; {}", m, i, sums, l, xs.iter().map(|x| x.0.name()).collect::<Vec<_>>(), hex(&bytes))),
                        (Err(e), _) => return Err(format!("{:?}: value {} of a run charging {:?} in all failed with {:?} under limit {}; types {:?}; {}", m, i, sums, e, l, xs.iter().map(|x| x.0.name()).collect::<Vec<_>>(), hex(&bytes))),
                    }
                }
                let n_exp = bad.map_or(n, |b| b + 1);
                ensure!(got.vals.len() == n_exp, "{:?}: {} values instead of {}", m, got.vals.len(), n_exp);
                c.count("cumulative_decisions", got.vals.len() as u64);
            }
        }
        Ok(())
    });
    // single calls
    ctx.group("calls", ctx.n(40_000, 1_500_000), |c| {
        let items = gen_items(&mut c.rng);
        let s = seq(items, &mut c.rng);
        let mut sums = vec![];
        let mut sum = 0;
        for o in &s.ops {
            sum += op_charge(o);
            sums.push(sum);
        }
        ensure!(sum == s.charge, "harness: charges of calls and of values disagree: {} {}", sum, s.charge);
        c.seen_bytes(4, &s.bytes);
        let k = c.rng.below(sums.len() as u64) as usize;
        let mut ls = vec![sums[k], sum, c.rng.below(sum + 2)];
        if sums[k] > 0 {
            ls.push(sums[k] - 1);
        }
        if sum > 0 {
            ls.push(sum - 1);
        }
        for l in ls {
            let bad = sums.iter().position(|s| *s > l);
            let plan = Plan::rough(&mut c.rng);
            for m in MODES {
                let o = read_ops(rm(*m), &s.ops, &s.bytes, &plan, l as usize)?;
                c.eval();
                if let Some(d) = diff_ops(&s.ops, &o.got) {
                    return Err(format!("{:?}, limit {}: {}", m, l, d));
                }
                let n = bad.unwrap_or(s.ops.len());
                ensure!(
                    o.got.len() == n,
                    "{:?}: {} of {} calls succeed under limit {}, but {} charge no more; stopped by {:?} at {:?} ({:?}) in {}",
                    m, o.got.len(), s.ops.len(), l, n, o.err, s.ops.get(o.got.len()), sums, short(&s.items)
                );
                match (&o.err, bad) {
                    (None, None) => {}
                    (Some(e), Some(_)) if e.k == SIZE => {}
                    (e, _) => return Err(format!("{:?}: {:?} under limit {} for calls charging {}", m, e, l, sum)),
                }
            }
        }
        Ok(())
    });
    // headers that announce many elements
    let heads: Vec<u32> = edge_ints(0, u32::MAX as i64).iter().map(|x| *x as u32).collect();
    ctx.group("headers", heads.len() as u64 * 3, |c| {
        let n = heads[c.idx as usize / 3 % heads.len()];
        if (n as u64) * WORD > usize::MAX as u64 {
            return Ok(());
        }
        let a = *c.rng.pick(&ELEMS);
        let b = *c.rng.pick(&ELEMS);
        let op = match c.idx % 3 {
            0 => Op::ListBegin(a, n),
            1 => Op::SetBegin(a, n),
            _ if n == 0 => Op::MapBegin(None, None, 0),
            _ => Op::MapBegin(Some(a), Some(b), n),
        };
        let mut e = Enc::canonical();
        if let Op::MapBegin(..) = op {
            put_uv(&mut e.out, n as u64);
            if n > 0 {
                e.out.push(a << 4 | b);
            }
        } else {
            e.list_hdr(a, n as u64);
        }
        // a second, small one shows what is left
        let mut bytes = e.out.clone();
        bytes.extend_from_slice(&[0x11]);
        let data = arc(&bytes);
        c.seen_bytes(6, &bytes);
        let ch = n as u64 * WORD;
        let ops = vec![op.clone(), Op::ListBegin(1, 1)];
        let mut ls = vec![(ch, 1), (ch + WORD, 2), (ch + WORD - 1, 1), (usize::MAX as u64, 2)];
        if ch > 0 {
            ls.push((ch - 1, 0));
            ls.push((0, 0));
            ls.push((ch / 2, 0));
            ls.push((n as u64 - (n > 0) as u64, 0));
        }
        for (l, n_ok) in ls {
            let n_ok = if l >= ch.saturating_add(WORD) { 2 } else { n_ok };
            for m in MODES {
                let o = read_ops(rm(*m), &ops, &data, &Plan::plain(), l as usize)?;
                c.eval();
                ensure!(
                    o.got.len() == n_ok && o.err.as_ref().map_or(n_ok == 2, |e| e.k == SIZE && n_ok < 2),
                    "{:?}: {:?} then a list of one under limit {}: {} succeed, then {:?}; expected {}",
                    m, op, l, o.got.len(), o.err, n_ok
                );
            }
        }
        // the same, skipped: with a limit the header alone exceeds nothing else matters
        if ch > 0 {
            let code = match c.idx % 3 {
                0 => 9,
                1 => 10,
                _ => 11,
            };
            let data = arc(&e.out);
            for m in MODES {
                let (r, _, _) = skip_one(*m, code, None, &data, &Plan::plain(), ch as usize - 1)?;
                c.eval();
                ensure!(matches!(&r, Err(e) if e.k == SIZE), "{:?} skip of {:?} under limit {}: {:?}", m, op, ch - 1, r);
                let (r, _, _) = skip_one(*m, code, None, &data, &Plan::plain(), (ch + 2) as usize)?;
                // (a struct among the elements charges two before it is read)
                ensure!(matches!(&r, Err(e) if e.k == EOF), "{:?} skip of {:?} (without its elements) under limit {}: {:?}", m, op, ch + 2, r);
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C11

fn skip_depth_case(c: &mut Case, v: &V, limit: Option<i8>) -> Res {
    let d = v.depth();
    let code = v.code();
    let mut e = if c.rng.chance(1, 2) { Enc::canonical() } else { Enc::wild(&mut c.rng) };
    e.val(v);
    let mut b = std::mem::take(&mut e.out);
    drop(e);
    let n = b.len();
    c.seen_bytes(limit.map_or(200, |x| x as u64), &b);
    let k = c.rng.below(4) as usize;
    b.extend(c.rng.bytes(k));
    let data = arc(&b);
    let plan = if c.rng.chance(1, 2) { Plan::rough(&mut c.rng) } else { Plan::plain() };
    let lim = limit.map_or(64, |x| x as usize);
    for m in MODES {
        let (r, rd, _) = skip_one(*m, code, limit, &data, &plan, usize::MAX)?;
        c.eval();
        if d <= lim {
            ensure!(r.is_ok(), "{:?} skip with depth limit {:?} of a value of depth {} failed: {:?}; {}", m, limit, d, r, hex(&b));
            ensure!(rd.pos == n, "{:?} skip of a value of depth {} took {} bytes of {}; {}", m, d, rd.pos, n, hex(&b));
            c.count("skipped", 1);
        } else {
            ensure!(matches!(&r, Err(e) if e.k == DEPTH), "{:?} skip with depth limit {:?} of a value of depth {}: {:?} instead of a depth-limit error; {}", m, limit, d, r, hex(&b));
            ensure!(rd.pos <= n, "{:?} skip read beyond the value", m);
            c.count("refused_as_too_deep", 1);
        }
        if d == lim || d == lim + 1 {
            c.count("at_the_boundary", 1);
        }
    }
    Ok(())
}

/// a value in which several branches reach different depths
fn bushy(r: &mut Rng, depth: usize) -> V {
    if depth <= 1 {
        let c = *r.pick(&ELEMS[..7]);
        return gen_any(r, c, 1);
    }
    let mut deep = bushy(r, depth - 1);
    let c = deep.code();
    let small = |r: &mut Rng, c: u8| gen_any(r, c, 2);
    match r.below(4) {
        0 | 1 => {
            let mut e = vec![];
            let n = r.below(3);
            // siblings of the same wire type, not deeper than the deep one
            for _ in 0..n {
                let mut s = small(r, c);
                if s.depth() > depth - 1 {
                    s = deep.clone();
                }
                e.push(s);
            }
            let i = r.below(e.len() as u64 + 1) as usize;
            e.insert(i, std::mem::replace(&mut deep, V::Bool(true)));
            if r.chance(1, 2) {
                V::List(c, e)
            } else {
                V::Set(c, e)
            }
        }
        2 => {
            let k = *r.pick(&ELEMS[..7]);
            let kv = gen_any(r, k, 1);
            if r.chance(1, 2) {
                V::Map(k, c, vec![(kv, deep)])
            } else {
                V::Map(c, k, vec![(deep, kv)])
            }
        }
        _ => {
            let mut f = vec![];
            let n = r.below(4);
            let at = r.below(n + 1);
            let mut id = r.range(1, 20) as i16;
            for i in 0..=n {
                if i == at {
                    f.push((id, std::mem::replace(&mut deep, V::Bool(true))));
                } else {
                    let c = *r.pick(&ELEMS);
                    let mut s = small(r, c);
                    if s.depth() > depth - 1 {
                        s = V::Bool(r.chance(1, 2));
                    }
                    f.push((id, s));
                }
                id += r.range(1, 20) as i16;
            }
            V::St(f)
        }
    }
}

pub fn c11(ctx: &Ctx) {
    // one kind of container
    let kinds: [&[u8]; 5] = [&[9], &[10], &[11], &[12], &[9, 10, 11, 12]];
    let full = ctx.tier == Tier::Thorough;
    let depths: Vec<usize> = if ctx.mini() { vec![1, 2, 3, 63, 64, 65] } else { (1..=130).collect() };
    ctx.group("default-limit", depths.len() as u64 * 5 * if full { 60 } else { 6 }, |c| {
        let d = depths[c.idx as usize / 5 % depths.len()];
        let v = gen_deep(&mut c.rng, d, kinds[c.idx as usize % 5]);
        ensure!(v.depth() == d, "harness: depth {} instead of {}", v.depth(), d);
        skip_depth_case(c, &v, None)
    });
    // all pairs of depth and limit around the diagonal, and far from it
    ctx.group("given-limits", 128 * 5 * if full { 20 } else { 4 }, |c| {
        let l = (c.idx / 5 % 128) as i8;
        let k = kinds[c.idx as usize % 5];
        for d in [l as i64 - 1, l as i64, l as i64 + 1, l as i64 + 2, c.rng.range(1, 130) as i64] {
            if d < 1 {
                continue;
            }
            let v = gen_deep(&mut c.rng, d as usize, k);
            skip_depth_case(c, &v, Some(l))?;
        }
        Ok(())
    });
    // width is not depth
    ctx.group("wide", ctx.n(500, 20_000), |c| {
        let mut v = gen_wide(&mut c.rng, 75_000);
        if c.rng.chance(1, 4) {
            v = V::List(v.code(), vec![v.clone(), v]);
        }
        c.count("wide_children", v.nodes() as u64);
        let d = v.depth();
        let l = match c.rng.below(4) {
            0 => None,
            1 => Some(d as i8 - 1),
            _ => Some(d as i8),
        };
        skip_depth_case(c, &v, l)
    });
    ctx.group("bushy", ctx.n(30_000, 1_200_000), |c| {
        let d = if c.rng.chance(1, 3) { c.rng.range(62, 66) } else { c.rng.range(1, 12) } as usize;
        let v = bushy(&mut c.rng, d);
        let d = v.depth();
        c.sample(|| format!("depth {}: {}", d, v.short()));
        let l = match c.rng.below(4) {
            0 => None,
            1 => Some(c.rng.below(128) as i8),
            2 => Some((d as i64 - 1).clamp(0, 127) as i8),
            _ => Some(d.min(127) as i8),
        };
        skip_depth_case(c, &v, l)
    });
    ctx.group("random", ctx.n(30_000, 1_200_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let k = c.rng.range(1, 6) as usize;
        let v = gen_any(&mut c.rng, code, k);
        let d = v.depth();
        let l = match c.rng.below(4) {
            0 => None,
            1 => Some(c.rng.below(8) as i8),
            2 => Some((d as i64 - 1).clamp(0, 127) as i8),
            _ => Some(d.min(127) as i8),
        };
        skip_depth_case(c, &v, l)
    });
    // every kind of value at depth limit 0 and 1
    ctx.group("tiny-limits", ctx.n(2_000, 60_000), |c| {
        let v = gen_any(&mut c.rng, ELEMS[c.idx as usize % ELEMS.len()], 2);
        for l in 0..=3 {
            skip_depth_case(c, &v, Some(l))?;
        }
        Ok(())
    });
    // unknown fields of Parquet values
    ctx.group("unknown-fields", ctx.n(40_000, 1_500_000), |c| {
        let structs: Vec<&'static dyn DynType> = types().iter().map(|t| &**t).filter(|t| matches!(t.ty(), Ty::St(s) if !s.union)).collect();
        let t = *c.rng.pick(&structs);
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let d = match c.rng.below(4) {
            0 => c.rng.range(1, 130),
            1 => c.rng.range(1, 5),
            _ => c.rng.range(62, 67),
        } as usize;
        let u = if c.rng.chance(1, 3) {
            bushy(&mut c.rng, d)
        } else {
            let k = *c.rng.pick(&kinds);
            gen_deep(&mut c.rng, d, k)
        };
        let d = u.depth();
        // at a random struct of the value
        let mut w = v.clone();
        let n = count_structs(&w, t.ty());
        let k = c.rng.below(n as u64) as usize;
        let id = c.rng.range(100, 3000) as i16;
        let mut i = 0;
        add_at(&mut w, t.ty(), k, &mut i, &mut c.rng, id, &u);
        let b = {
            let mut e = if c.rng.chance(1, 3) { Enc::wild(&mut c.rng) } else { Enc::canonical() };
            e.val(&w);
            e.out
        };
        c.seen_bytes(300, &b);
        let data = arc(&b);
        let x = mk(t, &v);
        for m in MODES {
            let o = read_plain(t, *m, &data)?;
            c.eval();
            if d <= 64 {
                match &o.r {
                    Ok(g) => ensure!(g.eq_dyn(&*x), "{:?}: unknown field of depth {} changes the value: {} for {}", m, d, g.tree().short(), v.short()),
                    Err(e) => return Err(format!("{:?} read of {} fails on an unknown field of depth {}: {:?}; {}", m, t.name(), d, e, hex(&b))),
                }
                ensure!(o.pos == b.len(), "{:?}: {} bytes of {}", m, o.pos, b.len());
                c.count("skipped", 1);
            } else {
                ensure!(matches!(&o.r, Err(e) if e.k == DEPTH), "{:?} read of {} with an unknown field of depth {}: {} instead of a depth-limit error; {}", m, t.name(), d, o.kind(), hex(&b));
                c.count("refused_as_too_deep", 1);
            }
            if d == 64 || d == 65 {
                c.count("at_the_boundary", 1);
            }
        }
        // application errors have the same rule
        let f = vec![(1, V::Bin(b"m".to_vec())), (2, V::I32(3)), (id, u)];
        let b = encode(&V::St(f));
        let o = observe(&Tgt::App, Mode::Sync, &arc(&b), &Plan::plain(), usize::MAX)?;
        c.eval();
        if d <= 64 {
            ensure!(o.r.is_ok() && o.pos == b.len(), "application error with an unknown field of depth {}: {}", d, o.show());
        } else {
            ensure!(matches!(&o.r, Err(e) if e.k == DEPTH), "application error with an unknown field of depth {}: {}", d, o.show());
        }
        Ok(())
    });
}

/// structs (not unions) of the schema inside `v`
fn count_structs(v: &V, ty: &Ty) -> usize {
    match (v, ty) {
        (V::St(f), Ty::St(s)) => {
            (!s.union) as usize + f.iter().map(|(id, x)| s.fields.iter().find(|q| q.id == *id).map_or(0, |q| count_structs(x, &q.ty))).sum::<usize>()
        }
        (V::List(_, e), Ty::List(t)) => e.iter().map(|x| count_structs(x, t)).sum(),
        _ => 0,
    }
}
fn add_at(v: &mut V, ty: &Ty, k: usize, i: &mut usize, r: &mut Rng, id: i16, u: &V) {
    match (v, ty) {
        (V::St(f), Ty::St(s)) => {
            let here = !s.union && {
                *i += 1;
                *i - 1 == k
            };
            for (id, x) in f.iter_mut() {
                if let Some(q) = s.fields.iter().find(|q| q.id == *id) {
                    add_at(x, &q.ty, k, i, r, 0, u);
                }
            }
            if here {
                let at = r.below(f.len() as u64 + 1) as usize;
                f.insert(at, (if id == 0 { 777 } else { id }, u.clone()));
            }
        }
        (V::List(_, e), Ty::List(t)) => e.iter_mut().for_each(|x| add_at(x, t, k, i, r, id, u)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C26

pub fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let bad: &[&[u8]] = &[
        &[0x80], &[0xbf], &[0xff], &[0xfe], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xe1, 0x80],
        &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf0, 0x90, 0x80], &[0xf4, 0x90, 0x80, 0x80],
        &[0xf5, 0x80, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc2, 0x41], &[0xe1, 0x80, 0x41],
    ];
    let b = *r.pick(bad);
    let pre = match r.below(5) {
        0 => 0,
        1 => r.below(4) as usize,
        2 => *r.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000]),
        _ => r.below(40) as usize,
    };
    let pre = if r.chance(1, 60) {
        // long ones, also around every number the sources know
        let d = r.pick(&dict().ints).unsigned_abs() as usize;
        let d2 = d.saturating_add(r.below(40) as usize);
        let q = *r.pick(&[d, d2, 4096, 16_384, 32_768, 65_536, 70_000, 100_000]);
        q.saturating_sub(r.below(3) as usize).min(150_000)
    } else {
        pre
    };
    let pre = if tiny() { pre.min(12) } else { pre };
    let post = if r.chance(1, 2) { 0 } else { r.below(30) as usize };
    let mut s = gen_utf8(r, pre);
    s.extend_from_slice(b);
    // what follows is ASCII, so that it cannot complete the sequence
    s.extend((0..post).map(|_| b'a'));
    debug_assert!(std::str::from_utf8(&s).is_err());
    s
}

/// applies `f` to the k-th string (not binary) of the value
fn kth_str(v: &mut V, ty: &Ty, k: &mut i64, f: &mut dyn FnMut(&mut V)) {
    match (v, ty) {
        (V::St(fs), Ty::St(s)) => {
            for (id, x) in fs {
                if let Some(q) = s.fields.iter().find(|q| q.id == *id) {
                    kth_str(x, &q.ty, k, f);
                }
            }
        }
        (V::List(_, e), Ty::List(t)) => e.iter_mut().for_each(|x| kth_str(x, t, k, f)),
        (v, Ty::Str) => {
            if *k == 0 {
                f(v);
            }
            *k -= 1;
        }
        _ => {}
    }
}
fn count_str(v: &V, ty: &Ty) -> i64 {
    let mut k = i64::MAX;
    kth_str(&mut v.clone(), ty, &mut k, &mut |_| {});
    i64::MAX - k
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Proto,
    Any,
}

/// Damages one token so that the encoding is malformed there: the new bytes,
/// what error it must give and how far a reader may have gone.
fn malform(r: &mut Rng, b: &[u8], toks: &[Span], i: usize) -> Option<(Vec<u8>, Must, usize, String)> {
    let t = toks[i];
    let mut o = b.to_vec();
    let (must, end);
    match t.tok {
        Tok::FieldHdr | Tok::Stop => {
            // field type codes 13 to 15, or a field id beyond i16
            if t.tok == Tok::FieldHdr && r.chance(3, 4) {
                let bad = r.range(13, 15) as u8;
                o[t.at] = o[t.at] & 0xf0 | bad;
                must = Must::Proto;
                end = t.at + 1 + 3;
            } else {
                let k = r.below(15) as i64;
                let d = r.range(k as u64 + 1, 15) as u8;
                let mut x = vec![3];
                put_uv(&mut x, zz(32767 - k));
                x.push(r.u64() as u8);
                x.push(d << 4 | *r.pick(&[1u8, 2, 3, 5, 12]));
                end = t.at + x.len();
                o.splice(t.at..t.at, x);
                must = Must::Proto;
            }
        }
        Tok::ListHdr => {
            o[t.at] = o[t.at] & 0xf0 | r.range(13, 15) as u8;
            must = Must::Proto;
            end = t.at + 1 + 5;
        }
        Tok::MapTypes => {
            let bad = r.range(13, 15) as u8;
            o[t.at] = match r.below(3) {
                0 => o[t.at] & 0xf0 | bad,
                1 => o[t.at] & 0x0f | bad << 4,
                _ => bad << 4 | bad,
            };
            must = Must::Proto;
            end = t.at + 1;
        }
        Tok::BoolElem => {
            o[t.at] = *r.pick(&[0u8, 3, 4, 5, 0x7f, 0x80, 0x81, 0x82, 0xff, 0x11, 0x12]);
            must = Must::Proto;
            end = t.at + 1;
        }
        Tok::IntVar | Tok::StrLen | Tok::ListLen | Tok::MapLen | Tok::FieldId => {
            let max = match (t.tok, t.code) {
                (Tok::FieldId, _) => 3,
                (Tok::IntVar, 4) => 3,
                (Tok::IntVar, 6) => 10,
                _ => 5,
            };
            let n = max + 1 + r.below(3) as usize * r.below(6) as usize;
            let style = r.below(3);
            let mut x: Vec<u8> = (0..n)
                .map(|_| match style {
                    0 => 0x80,
                    1 => 0xff,
                    _ => r.u64() as u8 | 0x80,
                })
                .collect();
            if r.chance(3, 4) {
                x[n - 1] &= 0x7f;
                if r.chance(1, 2) {
                    x[n - 1] = 0;
                }
            }
            // keep the number itself where possible: only its length is wrong
            if r.chance(1, 3) {
                let w = &b[t.at..t.at + t.len];
                x[..w.len()].copy_from_slice(w);
                x[w.len() - 1] |= 0x80;
                for y in &mut x[w.len()..] {
                    *y = 0x80;
                }
                x[n - 1] = 0;
            }
            end = t.at + max + 1;
            o.splice(t.at..t.at + t.len, x);
            must = Must::Any;
        }
        Tok::Byte | Tok::Dbl | Tok::StrData => return None,
    }
    Some((o, must, end, format!("{:?} at {}", t.tok, t.at)))
}

fn refused(c: &mut Case, t: &Tgt, b: &[u8], must: Must, end: usize, what: &str) -> Res {
    // more data follows, so that the end of the data is no way out
    let mut b = b.to_vec();
    b.extend_from_slice(&[1, 1, 1, 1, 1, 1, 0, 0]);
    let d = arc(&b);
    let plan = if c.rng.chance(1, 2) { Plan::plain() } else { Plan::rough(&mut c.rng) };
    let modes = if let Tgt::App = t { &MODES[..1] } else { MODES };
    for m in modes {
        let o = observe(t, *m, &d, &plan, usize::MAX)?;
        c.eval();
        match &o.r {
            Ok(_) => return Err(format!("{:?} read of {:?} accepts an encoding with {}: {}; input {}", m, t, what, o.show(), hex(&b))),
            Err(e) => {
                if must == Must::Proto {
                    ensure!(matches!(e.k, EK::P(_)), "{:?} read of {:?} with {} fails with {:?} instead of a protocol error; input {}", m, t, what, e, hex(&b));
                }
                ensure!(o.pos <= end, "{:?} read of {:?} notices {} only at offset {} instead of {}; input {}", m, t, what, o.pos, end, hex(&b));
            }
        }
    }
    Ok(())
}

fn encode_toks(r: &mut Rng, v: &V) -> (Vec<u8>, Vec<Span>) {
    let mut e = if r.chance(1, 3) { Enc::wild(r) } else { Enc::canonical() };
    e.keep_toks = true;
    e.val(v);
    (e.out, e.toks)
}

fn tok_name(t: Tok) -> &'static str {
    match t {
        Tok::FieldHdr => "bad_field_headers",
        Tok::Stop => "field_id_overflows",
        Tok::ListHdr => "bad_list_headers",
        Tok::MapTypes => "bad_map_types",
        Tok::BoolElem => "bad_booleans",
        Tok::IntVar => "overlong_integers",
        _ => "overlong_lengths_or_ids",
    }
}

pub fn c26(ctx: &Ctx) {
    // every place of a full value of every type
    let reps = match ctx.tier {
        Tier::Quick => 12,
        Tier::Thorough => 400,
        Tier::Mini => 1,
    };
    ctx.group("every-place", types().len() as u64 * reps, |c| {
        let t = &*types()[c.idx as usize % types().len()];
        let opt = if c.idx % 2 == 0 { Opt::All } else { Opt::Rand };
        let mut v = gen_v(t.ty(), &mut G::simple(&mut c.rng, opt));
        if c.rng.chance(1, 2) {
            v = inject(&v, t.ty(), &mut c.rng, 2, 4, &mut 0);
        }
        let (b, k) = encode_toks(&mut c.rng, &v);
        for i in 0..k.len() {
            if ctx.mini() && i % 7 != 0 {
                continue;
            }
            if let Some((x, must, end, what)) = malform(&mut c.rng, &b, &k, i) {
                refused(c, &Tgt::Type(t), &x, must, end, &what)?;
                c.seen_bytes(1, &x);
                c.count(tok_name(k[i].tok), 1);
            }
        }
        Ok(())
    });
    ctx.group("random", ctx.n(120_000, 5_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, k, _) = victim(&mut c.rng, t);
        let i = c.rng.below(k.len() as u64) as usize;
        if let Some((x, must, end, what)) = malform(&mut c.rng, &b, &k, i) {
            c.sample(|| format!("{} with {}: {}", t.name(), what, hex(&x)));
            c.seen_bytes(1, &x);
            c.count(tok_name(k[i].tok), 1);
            refused(c, &Tgt::Type(t), &x, must, end, &what)?;
        }
        Ok(())
    });
    // hostile input of any kind that the reference reader refuses
    ctx.group("judged", ctx.n(300_000, 12_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (mut b, how) = hostile(&mut c.rng, t);
        b.truncate(20_000);
        let (tgt, r) = if c.rng.chance(1, 4) {
            let code = *c.rng.pick(&ELEMS);
            (Tgt::Skip(code, None), judged(&b, |r| r.skip(code, 64).map(|_| V::Bool(true))).0)
        } else {
            (Tgt::Type(t), judged(&b, |r| r.val(t.ty())).0)
        };
        match r {
            Err(RE::Proto) => c.count("judged_malformed", 1),
            Err(RE::Any) => c.count("judged_overlong", 1),
            Err(RE::Eof) => c.count("judged_truncated", 1),
            _ => return Ok(()),
        }
        c.sample(|| format!("{:?} ({}): {}", tgt, how, hex(&b)));
        c.seen_bytes(9, &b);
        let b = arc(&b);
        let plan = Plan::rough(&mut c.rng);
        for m in MODES {
            let o = observe(&tgt, *m, &b, &plan, 1 << 20)?;
            c.eval();
            ensure!(o.r.is_err(), "{:?} read of {:?} accepts {}, which is malformed ({:?}): {}", m, tgt, hex(&b), r, o.show());
        }
        Ok(())
    });
    // anything skipped
    ctx.group("skipped", ctx.n(60_000, 2_500_000), |c| {
        let code = *c.rng.pick(&[4u8, 5, 6, 8, 9, 9, 10, 10, 11, 11, 11, 12, 12, 12]);
        let v = gen_any(&mut c.rng, code, 4);
        let (b, k) = encode_toks(&mut c.rng, &v);
        let i = c.rng.below(k.len() as u64) as usize;
        if let Some((x, must, end, what)) = malform(&mut c.rng, &b, &k, i) {
            c.seen_bytes(2, &x);
            c.count(tok_name(k[i].tok), 1);
            refused(c, &Tgt::Skip(v.code(), None), &x, must, end, &what)?;
        }
        Ok(())
    });
    // containers of stops, at any place where something is skipped
    ctx.group("stop-containers", ctx.n(20_000, 800_000), |c| {
        let n = match c.rng.below(3) {
            0 => 1,
            1 => c.rng.range(1, 20),
            _ => c.rng.range(1, 70_000),
        };
        let (code, bad): (u8, Vec<u8>) = match c.rng.below(5) {
            k @ 0..=1 => {
                let mut e = Enc::canonical();
                e.list_hdr(0, n);
                (if k == 0 { 9 } else { 10 }, e.out)
            }
            k => {
                let mut b = vec![];
                put_uv(&mut b, n);
                let o = *c.rng.pick(&[1u8, 3, 5, 8, 12]);
                b.push(match k {
                    2 => 0,
                    3 => o,
                    _ => o << 4,
                });
                if k == 4 {
                    // the first key is there
                    b.extend_from_slice(match o {
                        8 => &[2, b'a', b'b'],
                        12 => &[0],
                        _ => &[1],
                    });
                }
                (11, b)
            }
        };
        let end = bad.len();
        refused(c, &Tgt::Skip(code, None), &bad, Must::Proto, end, "a container of stops")?;
        // within a struct, before its own fields
        let mut x = vec![code];
        put_uv(&mut x, zz(900));
        x.extend_from_slice(&bad);
        let end = x.len();
        let structs: Vec<&'static dyn DynType> = types().iter().map(|t| &**t).filter(|t| matches!(t.ty(), Ty::St(_))).collect();
        let t = *c.rng.pick(&structs);
        c.seen_bytes(3, &x);
        c.count("stop_containers", 1);
        refused(c, &Tgt::Type(t), &x, Must::Proto, end, "an unknown container of stops")?;
        refused(c, &Tgt::App, &x, Must::Proto, end, "an unknown container of stops")?;
        refused(c, &Tgt::Skip(12, None), &x, Must::Proto, end, "a nested container of stops")?;
        // skipping a stop is refused before anything is read
        refused(c, &Tgt::Skip(0, None), &x, Must::Proto, 1, "a stop to be skipped")
    });
    // text
    ctx.group("text", ctx.n(60_000, 2_500_000), |c| {
        let texts: Vec<&'static dyn DynType> = ["FileMetaData", "SchemaElement", "KeyValue", "ColumnMetaData", "ColumnChunk", "RowGroup", "EncryptionWithColumnKey", "ColumnCryptoMetaData"]
            .iter()
            .map(|n| &**types().iter().find(|t| t.name() == *n).unwrap())
            .collect();
        let t = *c.rng.pick(&texts);
        let opt = *c.rng.pick(&[Opt::All, Opt::All, Opt::Rand]);
        let mut v = if c.rng.chance(2, 3) { gen_v(t.ty(), &mut G::simple(&mut c.rng, opt)) } else { gen_v(t.ty(), &mut G::new(&mut c.rng)) };
        let n = count_str(&v, t.ty());
        if n == 0 {
            return Ok(());
        }
        let mut bad = bad_utf8(&mut c.rng);
        // recognisable, to know where it ends
        let mark = b"<zq4711>".to_vec();
        bad.splice(0..0, mark.iter().copied());
        let mut k = c.rng.below(n as u64) as i64;
        let k0 = k;
        kth_str(&mut v, t.ty(), &mut k, &mut |x| *x = V::Bin(bad.clone()));
        let (b, _) = encode_toks(&mut c.rng, &v);
        let at = b.windows(bad.len()).position(|w| w == bad).ok_or("harness: string not found")?;
        c.seen_bytes(4, &b);
        c.count("bad_strings", 1);
        refused(c, &Tgt::Type(t), &b, Must::Proto, at + bad.len(), &format!("string number {} not UTF-8 ({})", k0, hex(&bad)))
    });
    ctx.group("text-calls", ctx.n(20_000, 800_000), |c| {
        let bad = bad_utf8(&mut c.rng);
        let mut b = vec![];
        put_uv(&mut b, bad.len() as u64);
        b.extend_from_slice(&bad);
        c.seen_bytes(5, &b);
        c.count("bad_strings", 3);
        let end = b.len();
        refused(c, &Tgt::Calls(vec![Op::Str(String::new())]), &b, Must::Proto, end, "a string that is not UTF-8")?;
        // as bytes it is fine
        for m in MODES {
            let o = read_ops(rm(*m), &[Op::Bytes(vec![])], &arc(&b), &Plan::plain(), usize::MAX)?;
            ensure!(o.err.is_none() && o.got[0].0 == Op::Bytes(bad.clone()), "{:?}: bytes that are not UTF-8: {:?} {:?}", m, o.err, o.got);
        }
        let mut x = vec![0x82, (c.rng.range(1, 4) << 5) as u8 | 1];
        put_uv(&mut x, c.rng.below(1 << 32));
        x.extend_from_slice(&b);
        let end = x.len();
        refused(c, &Tgt::Calls(vec![Op::MsgBegin(String::new(), 0, 0)]), &x, Must::Proto, end, "a message name that is not UTF-8")?;
        let mut x = vec![0x18];
        x.extend_from_slice(&b);
        x.extend_from_slice(&[0x15, 2, 0]);
        refused(c, &Tgt::App, &x, Must::Proto, 1 + end, "an error message that is not UTF-8")
    });
    // message headers: all bytes
    ctx.group("messages", 65536 / 64, |c| {
        for k in 0..64u64 {
            let x = c.idx * 64 + k;
            let (p, q) = ((x >> 8) as u8, x as u8);
            let mut b = vec![p, q];
            put_uv(&mut b, c.rng.below(1 << 32));
            b.extend_from_slice(&[2, b'o', b'k']);
            let good = p == 0x82 && q & 31 == 1 && (1..=4).contains(&(q >> 5));
            let t = Tgt::Calls(vec![Op::MsgBegin(String::new(), 0, 0)]);
            if good {
                for m in MODES {
                    let o = observe(&t, *m, &arc(&b), &Plan::plain(), usize::MAX)?;
                    c.eval();
                    ensure!(matches!(&o.r, Ok(Sig::Calls(v)) if matches!(&v[0].0, Op::MsgBegin(n, t, _) if n == "ok" && *t == q >> 5)), "{:?}: good message header {}: {}", m, hex(&b), o.show());
                    c.count("good_message_headers", 1);
                }
            } else {
                c.count("bad_message_headers", 1);
                refused(c, &t, &b, Must::Proto, 2, "a bad message header")?;
            }
        }
        c.seen(c.idx);
        Ok(())
    });
    // call by call
    ctx.group("calls", ctx.n(40_000, 1_500_000), |c| {
        let r = &mut c.rng;
        let (op, b, must, end, what): (Op, Vec<u8>, Must, usize, &str) = match r.below(8) {
            0 => (Op::FieldBegin(0, 0), vec![(r.below(16) << 4) as u8 | r.range(13, 15) as u8, 2], Must::Proto, 4, "a bad field type"),
            k @ 1..=2 => {
                let h = (r.below(16) << 4) as u8 | r.range(13, 15) as u8;
                (if k == 1 { Op::ListBegin(0, 0) } else { Op::SetBegin(0, 0) }, vec![h, 2], Must::Proto, 6, "a bad element type")
            }
            3 => {
                let mut b = vec![];
                put_uv(&mut b, r.range(1, 1 << 31));
                let (x, y) = (r.range(13, 15) as u8, r.below(16) as u8);
                b.push(if r.chance(1, 2) { x << 4 | y } else if y == 2 { x << 4 | 1 } else { y << 4 | x });
                let n = b.len();
                (Op::MapBegin(None, None, 0), b, Must::Proto, n, "a bad map type")
            }
            4 => (Op::Bool(true), vec![*r.pick(&[0u8, 3, 9, 0x7f, 0x80, 0x81, 0xff])], Must::Proto, 1, "a bad boolean"),
            _ => {
                let (op, max) = r.pick(&[(Op::I16(0), 3), (Op::I32(0), 5), (Op::I64(0), 10), (Op::Bytes(vec![]), 5), (Op::Str(String::new()), 5), (Op::MapBegin(None, None, 0), 5)]).clone();
                let n = max + 1 + r.below(8) as usize;
                let mut b: Vec<u8> = (0..n).map(|_| r.u64() as u8 | 0x80).collect();
                if r.chance(1, 2) {
                    b = vec![0x80; n];
                }
                if r.chance(3, 4) {
                    b[n - 1] &= 0x7f;
                }
                (op, b, Must::Any, max + 1, "an over-long integer")
            }
        };
        c.seen_bytes(6, &b);
        refused(c, &Tgt::Calls(vec![op]), &b, must, end, what)
    });
}
