//! C27: the same operations in every build; what they do is summed up in
//! digests that the driver compares.
use std::sync::atomic::{AtomicU64, Ordering};

use crate::c_hostile::{any_plan, attack, observe, Obs, Sig, Tgt};
use crate::c_proto::{read_varint, write_varint, Int};
use crate::c_values::mk;
use crate::hostile;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

/// The observations of one case: those that must be the same everywhere, and
/// those that may depend on the size of the machine word.
struct D {
    /// [blocking, asynchronous]
    everywhere: [String; 2],
    here: [String; 2],
    any_native: bool,
}

impl D {
    fn all(&mut self, m: Mode, s: String) {
        let k = (m == Mode::Async) as usize;
        self.everywhere[k].push_str(&s);
        self.everywhere[k].push(';');
    }
    fn native(&mut self, m: Mode, s: String) {
        let k = (m == Mode::Async) as usize;
        self.here[k].push_str(&s);
        self.here[k].push(';');
        self.any_native = true;
    }
}

const BLOCKS: u64 = 64;

fn dig(ctx: &Ctx, name: &str, n: u64, f: impl Fn(&mut Case, &mut D) -> Res + Sync) {
    let sums: Vec<[AtomicU64; 4]> = (0..BLOCKS).map(|_| Default::default()).collect();
    let seen: Vec<AtomicU64> = (0..BLOCKS).map(|_| AtomicU64::new(0)).collect();
    ctx.group(name, n, |c| {
        // consecutive cases go to different blocks, and so to different processes
        let block = c.idx % BLOCKS;
        if let (Some((k, of)), None) = (ctx.part, &ctx.only) {
            if block % of != k {
                return Ok(());
            }
        }
        let mut d = D { everywhere: Default::default(), here: Default::default(), any_native: false };
        let idx = c.idx;
        if let Err(e) = f(c, &mut d) {
            d.all(Mode::Sync, format!("broken: {}", e.split(':').next().unwrap_or("")));
        }
        let parts = [&d.everywhere[0], &d.everywhere[1], &d.here[0], &d.here[1]];
        for (s, p) in sums[block as usize].iter().zip(parts) {
            s.fetch_add(mix(mix(idx) ^ fnv(p.as_bytes())), Ordering::Relaxed);
        }
        seen[block as usize].fetch_add(1, Ordering::Relaxed);
        c.seen(mix(fnv(name.as_bytes()) ^ idx) ^ fnv(d.everywhere[0].as_bytes()));
        c.count("observations_compared", parts.iter().filter(|p| !p.is_empty()).count() as u64);
        c.sample(|| format!("{} case {}: {}", name, idx, d.everywhere[0]));
        if ctx.dump.as_ref().is_some_and(|k| *k == format!("{}.{}", name, block)) {
            let mut o = String::new();
            for (k, p) in ["all", "all+async", "native", "native+async"].iter().zip(parts) {
                o += &format!("OBS {:08} {} {}\n", idx, k, p.replace('\n', " "));
            }
            print!("{}", o);
        }
        Ok(())
    });
    let mut g = ctx.digest.lock().unwrap();
    for b in 0..BLOCKS as usize {
        if seen[b].load(Ordering::Relaxed) == 0 {
            continue;
        }
        for (k, s) in ["all", "all+async", "native", "native+async"].iter().zip(&sums[b]) {
            if k.ends_with("+async") && MODES.len() < 2 || k.starts_with("native") && tiny() {
                continue;
            }
            g.insert(format!("{}.{}/{}", name, b, k), s.load(Ordering::Relaxed));
        }
    }
}

/// The Debug form of a String depends on the standard library's version (it
/// knows which characters are assigned), which is not the code under test.
fn op_text(o: &Op) -> String {
    match o {
        Op::Str(s) => format!("Str({})", hex(s.as_bytes())),
        Op::MsgBegin(s, t, n) => format!("MsgBegin({}, {}, {})", hex(s.as_bytes()), t, n),
        o => format!("{:?}", o),
    }
}
fn ops_text(o: &[(Op, u64)]) -> String {
    o.iter().map(|(o, p)| format!("{}@{} ", op_text(o), p)).collect()
}
fn sig_text(s: &Sig) -> String {
    match s {
        Sig::Calls(o) => ops_text(o),
        Sig::App(k, m) => format!("App({}, {})", k, hex(m.as_bytes())),
        s => format!("{:?}", s),
    }
}

fn show(o: &Result<Obs, String>) -> String {
    match o {
        Ok(o) => {
            let r = match &o.r {
                Ok(s) => sig_text(s),
                Err(e) => format!("Err {:?} after {}", e.k, ops_text(&o.before)),
            };
            format!("{} at {}", r, o.pos)
        }
        Err(_) => "panic or no end".into(),
    }
}

/// What the protocol says of an input, if it says the same for a 32- and a
/// 64-bit word, and the memory needed is modest.
fn settled(b: &[u8], limit: usize, f: impl Fn(&mut RefRd) -> Result<Option<V>, RE>) -> Option<(Result<Option<V>, RE>, usize)> {
    let run = |word: u128, max: u128| {
        let mut r = RefRd::new(b, 0);
        r.word = word;
        r.sat = max;
        r.left = if limit == usize::MAX { max } else { limit as u128 };
        let x = f(&mut r);
        (x, r.pos, r.big)
    };
    let x = run(4, u32::MAX as u128);
    let y = run(8, u64::MAX as u128);
    if x.0 != y.0 || x.1 != y.1 || x.2.max(y.2) > if tiny() { 64 } else { 2048 } || x.0 == Err(RE::Unspec) {
        return None;
    }
    Some((x.0, x.1))
}

pub fn c27(ctx: &Ctx) {
    let k = |full: u64, thorough: u64, mini: u64| match ctx.tier {
        _ if tiny() => ((mini as f64 * ctx.scale) as u64).max(1),
        Tier::Thorough => thorough,
        _ => full,
    };
    // values: written, read back from other encodings, formatted, compared
    dig(ctx, "values", k(24_000, 400_000, 400), |c, d| {
        let t = if (c.idx as usize) < types().len() { &*types()[c.idx as usize] } else { pick_type(&mut c.rng) };
        let v = if tiny() { gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand)) } else { gen_v(t.ty(), &mut G::new(&mut c.rng)) };
        let x = mk(t, &v);
        let plan = Plan::rough(&mut c.rng);
        for m in MODES {
            let s = match write_v(&*x, *m, &plan) {
                Ok(w) => format!("{:?} {} {:x}", w.r.map_err(|e| e.k), w.w.out.len(), fnv(&w.w.out)),
                Err(_) => "panic".into(),
            };
            d.all(*m, s);
            c.eval();
        }
        let mut r2 = c.rng.clone();
        let mut e = Enc::wild(&mut r2);
        e.val(&v);
        let b = arc(&e.out);
        for m in MODES {
            d.all(*m, show(&observe(&Tgt::Type(t), *m, &b, &plan, usize::MAX)));
            c.eval();
        }
        if !tiny() {
            d.all(Mode::Sync, x.dbg());
        }
        let w = mk(t, &gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand)));
        d.all(Mode::Sync, format!("{:?} {:?} {}", x.cmp_dyn(&*w), x.pcmp_dyn(&*w), x.eq_dyn(&*x.clone_dyn())));
        Ok(())
    });
    // the same with transports that fail
    dig(ctx, "faults", k(60_000, 1_500_000, 200), |c, d| {
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let x = mk(t, &v);
        let b = encode(&v);
        let at = c.rng.below(b.len() as u64) as usize;
        let mut plan = Plan::rough(&mut c.rng).with_fault(at, if c.rng.chance(1, 4) { Fault::Zero } else { Fault::Err(*c.rng.pick(KINDS)) });
        plan.once = c.rng.chance(1, 2);
        let b = arc(&b);
        for m in MODES {
            d.all(*m, show(&observe(&Tgt::Type(t), *m, &b, &plan, usize::MAX)));
            let s = match write_v(&*x, *m, &plan) {
                Ok(w) => format!("{:?} {} {:x}", w.r.map_err(|e| e.k), w.w.out.len(), fnv(&w.w.out)),
                Err(_) => "panic".into(),
            };
            d.all(*m, s);
            c.eval();
        }
        Ok(())
    });
    // hostile input
    dig(ctx, "hostile", k(300_000, 6_000_000, 900), |c, d| {
        let (tgt, mut b, _) = attack(&mut c.rng);
        b.truncate(if tiny() { 80 } else { 4000 });
        let plan = any_plan(&mut c.rng, b.len());
        let lim = if c.rng.chance(1, 2) { usize::MAX } else { hostile::limit(&mut c.rng, b.len()) };
        // (asynchronous reads clear what they reserve again and again)
        let lim = if c.idx % 64 == 0 { lim } else { lim.min(1 << 18) };
        let data = arc(&b);
        let portable = match &tgt {
            Tgt::Type(t) => settled(&b, usize::MAX, |r| r.val(t.ty()).map(Some)),
            Tgt::Skip(code, depth) if *depth != Some(0) || *code != 0 => settled(&b, usize::MAX, |r| r.skip(*code, depth.unwrap_or(64) as i32).map(|_| None)),
            _ => None,
        };
        for m in MODES {
            if matches!(tgt, Tgt::App) && *m != MODES[0] {
                continue;
            }
            if portable.is_some() {
                d.all(*m, show(&observe(&tgt, *m, &data, &plan, usize::MAX)));
                c.count("hostile_inputs_compared_everywhere", 1);
                c.eval();
            }
            if !tiny() {
                d.native(*m, show(&observe(&tgt, *m, &data, &plan, lim)));
                c.eval();
            }
        }
        Ok(())
    });
    // counts and lengths that only a limit refuses, or the input's end
    dig(ctx, "claims", k(60_000, 1_000_000, 500), |c, d| {
        let lim = *c.rng.pick(&[0usize, 64, 1000, 1 << 12, 1 << 18]);
        let r = &mut c.rng;
        let (tgt, b) = match r.below(8) {
            0..=2 => {
                let t = pick_type(r);
                (Tgt::Type(t), hostile::liar(r, t.ty()))
            }
            3..=5 => {
                let code = *r.pick(&[8u8, 9, 10, 11]);
                let mut b = vec![];
                match code {
                    8 => put_uv(&mut b, hostile::claim(r)),
                    11 => {
                        put_uv(&mut b, hostile::claim(r));
                        b.push(*r.pick(&ELEMS) << 4 | *r.pick(&ELEMS));
                    }
                    _ => {
                        b.push(0xf0 | *r.pick(&ELEMS));
                        put_uv(&mut b, hostile::claim(r));
                    }
                }
                let n = r.below(20) as usize;
                b.extend(r.bytes(n));
                (Tgt::Skip(code, None), b)
            }
            _ => {
                // the calls themselves, refused whatever the word's size
                let n = hostile::claim(r);
                let mut b = vec![];
                let map = r.chance(1, 2);
                if !map {
                    b.push(0xf0 | *r.pick(&ELEMS));
                }
                put_uv(&mut b, n);
                b.push(*r.pick(&ELEMS) << 4 | *r.pick(&ELEMS));
                let op = if map { Op::MapBegin(None, None, 0) } else if r.chance(1, 2) { Op::ListBegin(0, 0) } else { Op::SetBegin(0, 0) };
                (Tgt::Calls(vec![op]), b)
            }
        };
        let plan = Plan::rough(&mut c.rng);
        let data = arc(&b);
        let portable = match &tgt {
            Tgt::Type(t) => settled(&b, lim, |r| r.val(t.ty()).map(Some)).is_some(),
            Tgt::Skip(code, _) => settled(&b, lim, |r| r.skip(*code, 64).map(|_| None)).is_some(),
            _ => {
                let n = (|| {
                    let mut r = RefRd::new(&b, 0);
                    if !matches!(&tgt, Tgt::Calls(o) if matches!(o[0], Op::MapBegin(..))) {
                        r.pos = 1;
                    }
                    r.uv(5).ok().map(|n| n as u32 as u128)
                })();
                n.is_none_or(|n| n * 4 > lim as u128 || n * 8 <= lim as u128)
            }
        };
        for m in MODES {
            if portable {
                d.all(*m, show(&observe(&tgt, *m, &data, &plan, lim)));
                c.count("claims_compared_everywhere", 1);
                c.eval();
            } else if !tiny() {
                d.native(*m, show(&observe(&tgt, *m, &data, &plan, lim)));
                c.eval();
            }
        }
        Ok(())
    });
    // limits, in machine words
    dig(ctx, "limits", k(24_000, 600_000, 1), |c, d| {
        if tiny() {
            return Ok(());
        }
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
        let (b, charge) = crate::c_limits::variant(&mut c.rng, &v, t.ty());
        let b = arc(&b);
        for lim in [charge, charge.saturating_sub(1), c.rng.below(charge + 1), charge / 2] {
            for m in MODES {
                d.native(*m, show(&observe(&Tgt::Type(t), *m, &b, &Plan::plain(), lim as usize)));
                c.eval();
            }
        }
        Ok(())
    });
    // protocol elements
    dig(ctx, "elements", k(40_000, 1_000_000, 300), |c, d| {
        let mut s = seq(gen_items(&mut c.rng), &mut c.rng);
        while tiny() && s.bytes.len() > 40 {
            let i = gen_item(&mut c.rng);
            s = seq(vec![i], &mut c.rng);
        }
        let plan = Plan::rough(&mut c.rng);
        for m in MODES {
            let o = match write_ops(wm(*m), &s.ops, &plan, true) {
                Ok(o) => format!("{:?} {:?} {} {:x}", o.log, o.err.map(|e| e.k), o.w.out.len(), fnv(&o.w.out)),
                Err(_) => "panic".into(),
            };
            d.all(*m, o);
            let o = match read_ops(rm(*m), &s.ops, &s.bytes, &plan, usize::MAX) {
                Ok(o) => format!("{} {:?} {}", ops_text(&o.got), o.err.map(|e| e.k), o.rd.pos),
                Err(_) => "panic".into(),
            };
            d.all(*m, o);
            c.eval();
        }
        Ok(())
    });
    // single calls
    dig(ctx, "calls", k(150_000, 3_000_000, 1300), |c, d| {
        let r = &mut c.rng;
        let bin = |r: &mut Rng| {
            let n = if tiny() { r.below(6) as usize } else { len_edge(r, 300) };
            gen_utf8(r, n)
        };
        let op = match c.idx / BLOCKS % 13 {
            0 => Op::I8(r.u64() as i8),
            1 => Op::I16(int_in(r, -32768, 32767) as i16),
            2 => Op::I32(int_in(r, i32::MIN as i64, i32::MAX as i64) as i32),
            3 => Op::I64(int_in(r, i64::MIN, i64::MAX)),
            4 | 5 => Op::Dbl(if r.chance(1, 2) { r.u64() } else { (int_in(r, i64::MIN, i64::MAX) as f64).to_bits() }),
            6 => Op::Str(String::from_utf8(bin(r)).unwrap()),
            7 => Op::Bytes(bin(r)),
            8 => Op::Bool(r.chance(1, 2)),
            9 => Op::Byte(r.u64() as u8),
            10 => Op::MsgBegin(String::from_utf8(bin(r)).unwrap(), r.range(1, 4) as u8, int_in(r, 0, u32::MAX as i64) as u32),
            11 => Op::ListBegin(*r.pick(&ELEMS), int_in(r, 0, 1 << 20) as u32),
            _ => Op::MapBegin(Some(*r.pick(&ELEMS)), Some(*r.pick(&ELEMS)), int_in(r, 1, 1 << 20) as u32),
        };
        let ops = vec![op];
        let plan = Plan::rough(r);
        for m in MODES {
            let (b, s) = match write_ops(wm(*m), &ops, &plan, true) {
                Ok(o) => {
                    let s = format!("{:?} {:?} {}", o.log, o.err.map(|e| e.k), hex(&o.w.out));
                    (o.w.out, s)
                }
                Err(_) => (vec![], "panic".into()),
            };
            d.all(*m, s);
            let o = match read_ops(rm(*m), &ops, &arc(&b), &plan, usize::MAX) {
                Ok(o) => format!("{} {:?} {}", ops_text(&o.got), o.err.map(|e| e.k), o.rd.pos),
                Err(_) => "panic".into(),
            };
            d.all(*m, o);
            c.eval();
        }
        Ok(())
    });
    // skipping to a depth
    dig(ctx, "depths", k(40_000, 800_000, 150), |c, d| {
        let depth = c.rng.range(1, if tiny() { 20 } else { 130 }) as usize;
        let v = gen_deep(&mut c.rng, depth, &[9, 10, 11, 12]);
        let b = arc(&encode(&v));
        let max = *c.rng.pick(&[None, Some(depth.min(127) as i8), Some((depth - 1).min(127) as i8), Some(1), Some(127)]);
        for m in MODES {
            d.all(*m, show(&observe(&Tgt::Skip(v.code(), max), *m, &b, &Plan::plain(), usize::MAX)));
            c.eval();
        }
        Ok(())
    });
    // integers
    dig(ctx, "varints", k(150_000, 3_000_000, 1600), |c, d| {
        fn one<T: Int>(c: &mut Case, d: &mut D) -> Res {
            let x = T::of(if T::HI < T::LO { int_in(&mut c.rng, i64::MIN, i64::MAX) } else { int_in(&mut c.rng, T::LO, T::HI) });
            let plan = Plan::rough(&mut c.rng);
            let mut buf = [0u8; 10];
            let n = x.encode_var(&mut buf);
            d.all(Mode::Sync, format!("{} {} {:?} {:?} {:?}", T::NAME, n, &buf[..n], x.required_space(), T::decode_var(&buf)));
            // any bytes
            let k = c.rng.below(13) as usize;
            let mut b = c.rng.bytes(k);
            let cont = c.rng.below(12) as usize;
            for y in b.iter_mut().take(cont) {
                *y |= 0x80;
            }
            d.all(Mode::Sync, format!("{:?}", T::decode_var(&b)));
            let data = arc(&b);
            for m in MODES {
                match write_varint(*m, x, &plan) {
                    Ok((r, w)) => d.all(*m, format!("{:?} {:?}", r, w.out)),
                    Err(_) => d.all(*m, "panic".into()),
                }
                match read_varint::<T>(*m, &data, &plan) {
                    Ok((r, rd)) => d.all(*m, format!("{:?} {}", r.map_err(|e| e.k), rd.pos)),
                    Err(_) => d.all(*m, "panic".into()),
                }
                c.eval();
            }
            Ok(())
        }
        if tiny() {
            return match c.idx / BLOCKS % 8 {
                0 => one::<u8>(c, d),
                1 => one::<u16>(c, d),
                2 => one::<u32>(c, d),
                3 => one::<u64>(c, d),
                4 => one::<i8>(c, d),
                5 => one::<i16>(c, d),
                6 => one::<i32>(c, d),
                _ => one::<i64>(c, d),
            };
        }
        crate::each_int!(one(c, d));
        Ok(())
    });
    // numbers of errors and enums
    dig(ctx, "numbers", k(40_000, 1_000_000, 300), |c, d| {
        use pfs::thrift::*;
        use std::convert::TryFrom;
        let x = if c.idx < 64 { c.idx as i32 - 8 } else { int_in(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32 };
        d.all(
            Mode::Sync,
            format!(
                "{} {:?} {:?} {:?}",
                x,
                ApplicationErrorKind::try_from(x).ok(),
                TransportErrorKind::try_from(x).ok(),
                ProtocolErrorKind::try_from(x).ok()
            ),
        );
        for t in types().iter().filter(|t| matches!(t.ty(), Ty::Enum)) {
            let v = mk(&**t, &V::I32(x));
            d.all(Mode::Sync, format!("{} {:?}", v.dbg(), bytes_of(&*v, Mode::Sync).ok()));
            c.eval();
        }
        Ok(())
    });
    // application errors
    dig(ctx, "application-errors", k(40_000, 1_000_000, 100), |c, d| {
        let msg = crate::c_proto::gen_string(&mut c.rng);
        let mut e = Enc::canonical();
        let mut f = vec![(1, V::Bin(msg.into_bytes())), (2, V::I32(int_in(&mut c.rng, -3, 14) as i32))];
        if c.rng.chance(1, 3) {
            f.remove(c.rng.below(2) as usize);
        }
        if c.rng.chance(1, 2) {
            let code = *c.rng.pick(&ELEMS);
            f.push((7, gen_any(&mut c.rng, code, 3)));
        }
        e.val(&V::St(f));
        let mut b = e.out;
        if c.rng.chance(1, 4) {
            let n = c.rng.below(b.len() as u64) as usize;
            b.truncate(n);
        }
        d.all(Mode::Sync, show(&observe(&Tgt::App, Mode::Sync, &arc(&b), &Plan::plain(), usize::MAX)));
        c.eval();
        Ok(())
    });
}
