//! C08, C09, C12, C22, C28: hostile inputs.
use std::sync::Arc;


use crate::c_proto::read_app;
use crate::corpus::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

/// One way of reading a byte string.
#[derive(Clone)]
pub enum Tgt {
    Type(&'static dyn DynType),
    Many(&'static dyn DynType),
    Skip(u8, Option<i8>),
    Calls(Vec<Op>),
    App,
}

impl std::fmt::Debug for Tgt {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Tgt::Type(t) => write!(f, "{}", t.name()),
            Tgt::Many(t) => write!(f, "list<{}>", t.name()),
            Tgt::Skip(c, d) => write!(f, "skip({:?}, {:?})", tt(*c), d),
            Tgt::Calls(o) => write!(f, "calls {:?}", o),
            Tgt::App => write!(f, "application error"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sig {
    Tree(V),
    List(Vec<V>),
    Unit,
    Calls(Vec<(Op, u64)>),
    App(i32, String),
}

pub struct Obs {
    pub r: Result<Sig, E>,
    /// the calls that succeeded before the error
    pub before: Vec<(Op, u64)>,
    pub val: Option<Box<dyn DynVal>>,
    pub pos: usize,
    pub alloc: AllocStats,
    pub calls: u64,
    pub cpu: u64,
}

impl Obs {
    pub fn show(&self) -> String {
        let s = match &self.r {
            Ok(x) => format!("Ok({:?})", x),
            Err(e) => format!("Err({:?} {:?})", e.k, e.msg),
        };
        let mut s: String = s.chars().take(300).collect();
        s += &format!(" at {}", self.pos);
        s
    }
}

pub fn observe(t: &Tgt, m: Mode, data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<Obs, String> {
    let t0 = cpu_ns();
    let mut o = observe_(t, m, data, plan, limit).map_err(|e| format!("{:?} {:?} limit {} of {} ({:?}): {}", m, t, limit, hex(data), plan, e))?;
    o.cpu = cpu_ns() - t0;
    Ok(o)
}

fn observe_(t: &Tgt, m: Mode, data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<Obs, String> {
    Ok(match t {
        Tgt::Type(t) => {
            let (r, alloc, rd) = crate::reading!(m, data, plan, limit, |p| t.read(p), |p| t.aread(p))?;
            let (r, val) = match r {
                Ok(v) => (Ok(Sig::Tree(v.tree())), Some(v)),
                Err(e) => (Err(e), None),
            };
            Obs { r, before: vec![], val, pos: rd.pos, alloc, calls: rd.calls, cpu: 0 }
        }
        Tgt::Many(t) => {
            let (r, alloc, rd) = crate::reading!(m, data, plan, limit, |p| t.read_many(p), |p| t.aread_many(p))?;
            let r = r.map(|v| Sig::List(v.iter().map(|x| x.tree()).collect()));
            Obs { r, before: vec![], val: None, pos: rd.pos, alloc, calls: rd.calls, cpu: 0 }
        }
        Tgt::Skip(c, d) => {
            let (r, rd, alloc) = skip_one(m, *c, *d, data, plan, limit)?;
            Obs { r: r.map(|_| Sig::Unit), before: vec![], val: None, pos: rd.pos, alloc, calls: rd.calls, cpu: 0 }
        }
        Tgt::Calls(ops) => {
            // which calls are made is a function of the input, not of the mode
            let via = if (data.len() + ops.len()) % 3 == 0 { rm_trait(m) } else { rm(m) };
            let o = read_ops(via, ops, data, plan, limit)?;
            let pos = o.rd.pos;
            let (r, before) = match o.err {
                Some(e) => (Err(e), o.got),
                None => (Ok(Sig::Calls(o.got)), vec![]),
            };
            Obs { r, before, val: None, pos, alloc: o.alloc, calls: o.rd.calls, cpu: 0 }
        }
        Tgt::App => {
            let (r, pos, alloc, calls) = read_app(data, plan, limit)?;
            Obs { r: r.map(|a| Sig::App(a.kind as i32, a.message)), before: vec![], val: None, pos, alloc, calls, cpu: 0 }
        }
    })
}

/// something to read and a hostile input for it
pub fn attack(r: &mut Rng) -> (Tgt, Vec<u8>, &'static str) {
    let t = pick_type(r);
    match r.below(16) {
        0 => {
            let (mut b, how) = hostile(r, t);
            let h = if r.chance(1, 2) { 0xf0 } else { (r.below(15) << 4) as u8 };
            let mut x = vec![h | t.ty().code()];
            if h == 0xf0 {
                put_uv(&mut x, claim(r));
            }
            x.append(&mut b);
            (Tgt::Many(t), x, how)
        }
        1 | 2 => {
            let (b, how) = hostile(r, t);
            let c = *r.pick(&[0u8, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 9, 13]);
            let d = match r.below(4) {
                0 => None,
                1 => Some(r.below(5) as i8),
                2 => Some(*r.pick(&[0i8, 1, 63, 64, 65, 126, 127])),
                _ => Some(r.below(128) as i8),
            };
            (Tgt::Skip(c, d), b, how)
        }
        3 | 4 => {
            let ops = random_calls(r);
            let b = data_for_calls(r, &ops);
            (Tgt::Calls(ops), b, "calls")
        }
        5 => {
            let mut e = Enc::canonical();
            e.keep_toks = true;
            e.val(&V::St(vec![(1, V::Bin(gen_utf8(r, 5))), (2, V::I32(r.below(12) as i32))]));
            let (mut b, k) = (e.out, e.toks);
            damage(r, &mut b, &k);
            (Tgt::App, b, "application error")
        }
        _ => {
            let (b, how) = hostile(r, t);
            (Tgt::Type(t), b, how)
        }
    }
}

fn modes(t: &Tgt) -> &'static [Mode] {
    match t {
        Tgt::App => &MODES[..1],
        _ => MODES,
    }
}

/// a transport that may do anything the io contracts allow
pub fn any_plan(r: &mut Rng, n: usize) -> Plan {
    let mut p = if r.chance(1, 3) { Plan::plain() } else { Plan::rough(r) };
    if r.chance(1, 8) {
        let at = r.below(n as u64 + 2) as usize;
        p = p.with_fault(at, if r.chance(1, 4) { Fault::Zero } else { Fault::Err(*r.pick(KINDS)) });
        p.once = r.chance(1, 2);
    }
    p
}

// ------------------------------------------------------- all short inputs

/// every byte string of up to `k` bytes, in blocks
fn short_inputs(ctx: &Ctx, f: impl Fn(&mut Case, &[u8]) -> Res + Sync) {
    if ctx.mini() {
        ctx.group("short", 3, |c| {
            let a = c.rng.u64().to_le_bytes();
            f(c, &a[..c.idx as usize])
        });
        return;
    }
    let k = if ctx.tier == Tier::Thorough { 3u32 } else { 2 };
    // block = all but the last byte, plus one block for the empty string
    let blocks: u64 = (0..k).map(|j| 256u64.pow(j)).sum();
    ctx.group("all-short-inputs", blocks + 1, |c| {
        let mut i = c.idx;
        if i == blocks {
            return f(c, &[]);
        }
        let mut len = 0;
        while i >= 256u64.pow(len) {
            i -= 256u64.pow(len);
            len += 1;
        }
        let mut b: Vec<u8> = i.to_le_bytes()[..len as usize].to_vec();
        b.push(0);
        let l = b.len();
        for x in 0..=255u8 {
            b[l - 1] = x;
            f(c, &b)?;
        }
        c.seen(mix(c.idx) ^ 0xA11);
        Ok(())
    });
}

fn all_targets() -> Vec<Tgt> {
    let mut v: Vec<Tgt> = types().iter().map(|t| Tgt::Type(&**t)).collect();
    for c in 0..14 {
        v.push(Tgt::Skip(c, None));
    }
    for i in [0usize, 3, 5, 12, 20, 50] {
        v.push(Tgt::Many(&*types()[i]));
    }
    v.push(Tgt::App);
    for o in [
        Op::MsgBegin(String::new(), 0, 0),
        Op::FieldBegin(0, 0),
        Op::Bool(true),
        Op::Bytes(vec![]),
        Op::Str(String::new()),
        Op::I8(0),
        Op::I16(0),
        Op::I32(0),
        Op::I64(0),
        Op::Dbl(0),
        Op::ListBegin(0, 0),
        Op::SetBegin(0, 0),
        Op::MapBegin(None, None, 0),
    ] {
        v.push(Tgt::Calls(vec![o]));
    }
    v
}

// ------------------------------------------------------------------ C08

pub fn c08(ctx: &Ctx) {
    // `observe` reports panics and runaways; aborts and stack overflows kill
    // the process, which the driver sees
    ctx.group("attacks", ctx.n(1_200_000, 40_000_000), |c| {
        let (t, b, how) = attack(&mut c.rng);
        c.sample(|| format!("{:?} from {} ({})", t, hex(&b), how));
        c.seen_bytes(1, &b);
        let d = arc(&b);
        let lim = limit(&mut c.rng, b.len());
        let plan = any_plan(&mut c.rng, b.len());
        for m in modes(&t) {
            let o = observe(&t, *m, &d, &plan, lim)?;
            c.eval();
            match &o.r {
                Ok(_) => c.count("accepted", 1),
                Err(e) => match e.k {
                    EK::P(3) => c.count("refused_size_limit", 1),
                    EK::P(6) => c.count("refused_depth_limit", 1),
                    EK::P(_) => c.count("refused_protocol_error", 1),
                    EK::T(_) => c.count("refused_transport_error", 1),
                    _ => c.count("refused_otherwise", 1),
                },
            }
            if o.alloc.refused > 0 {
                c.count("out_of_memory_answered", 1);
            }
        }
        Ok(())
    });
    let ts = all_targets();
    short_inputs(ctx, |c, b| {
        let d = arc(b);
        for t in &ts {
            for m in modes(t) {
                observe(t, *m, &d, &Plan::plain(), usize::MAX)?;
                c.eval();
            }
        }
        Ok(())
    });
    // memory is scarce: every allocation that may fail has to be able to
    ctx.group("liars", ctx.n(200_000, 8_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let ty = t.ty();
        let b = {
            // a known list or string that claims more than there is
            let (mut b, toks, _) = victim(&mut c.rng, t);
            let k: Vec<&Span> = toks.iter().filter(|s| matches!(s.tok, Tok::StrLen | Tok::ListLen | Tok::MapLen)).collect();
            if k.is_empty() {
                return Ok(());
            }
            let s = **c.rng.pick(&k);
            let mut x = vec![];
            put_uv(&mut x, claim(&mut c.rng));
            b.splice(s.at..s.at + s.len, x);
            b
        };
        c.seen_bytes(2, &b);
        let d = arc(&b);
        let _ = ty;
        for m in MODES {
            let o = observe(&Tgt::Type(t), *m, &d, &Plan::plain(), usize::MAX)?;
            c.eval();
            if o.alloc.refused > 0 {
                c.count("out_of_memory_answered", 1);
            }
        }
        Ok(())
    });
    // deep towers through every entry point
    ctx.group("towers", ctx.n(20_000, 600_000), |c| {
        let b = towers(&mut c.rng);
        let t = pick_type(&mut c.rng);
        c.seen_bytes(3, &b);
        let d = arc(&b);
        for t in [Tgt::Type(t), Tgt::Skip(*c.rng.pick(&[9u8, 10, 11, 12]), None), Tgt::Skip(12, Some(127)), Tgt::Skip(9, Some(127)), Tgt::App] {
            for m in modes(&t) {
                observe(&t, *m, &d, &Plan::plain(), usize::MAX)?;
                c.eval();
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C09

/// how much memory a read with limit `n` may have held
fn mem_bound(t: &Tgt, n: usize) -> u64 {
    let me = match t {
        Tgt::Type(t) => max_elem(t.ty()),
        Tgt::Many(t) => max_elem(t.ty()).max(t.size()),
        _ => 8,
    } as u64;
    let factor = 4 * (me / 8).max(2);
    (n as u64).saturating_mul(factor).saturating_add(MEM_CONST)
}
const MEM_CONST: u64 = 48 << 10;

pub fn c09(ctx: &Ctx) {
    let probe = |c: &mut Case, t: &Tgt, b: &[u8], lim: usize| -> Res {
        let d = arc(b);
        for m in modes(t) {
            let plan = if c.rng.chance(1, 4) { Plan::rough(&mut c.rng) } else { Plan::plain() };
            let o = observe(t, *m, &d, &plan, lim)?;
            c.eval();
            c.max("largest_peak_bytes", o.alloc.peak as u64);
            if lim <= 64 {
                c.max("largest_peak_bytes_with_limit_up_to_64", o.alloc.peak as u64);
            }
            if lim < u32::MAX as usize {
                c.max("largest_peak_over_bound_permille", o.alloc.peak as u64 * 1000 / mem_bound(t, lim));
            }
            let req = o.alloc.max_req;
            ensure!(o.alloc.peak as u64 <= mem_bound(t, lim), "{:?} {:?}: {} bytes live with limit {} (bound {}); input {}", m, t, o.alloc.peak, lim, mem_bound(t, lim), hex(b));
            ensure!(req <= mem_bound(t, lim), "{:?} {:?}: one allocation of {} bytes asked for with limit {} (bound {}); input {}", m, t, req, lim, mem_bound(t, lim), hex(b));
        }
        Ok(())
    };
    let lim_of = |r: &mut Rng| -> usize {
        match r.below(4) {
            0 => r.below(100) as usize,
            1 => 1 << r.below(18),
            2 => int_in(r, 0, 1 << 18) as usize,
            _ => r.below(1 << 14) as usize,
        }
    };
    ctx.group("attacks", ctx.n(600_000, 20_000_000), |c| {
        let (t, b, how) = attack(&mut c.rng);
        let lim = lim_of(&mut c.rng);
        c.sample(|| format!("limit {}: {:?} from {} ({})", lim, t, hex(&b), how));
        c.seen_bytes(lim as u64, &b);
        probe(c, &t, &b, lim)
    });
    // claims in every string, list and map of every type, known or not
    ctx.group("claims", ctx.n(200_000, 8_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, toks, _) = victim(&mut c.rng, t);
        let k: Vec<Span> = toks.iter().filter(|s| matches!(s.tok, Tok::StrLen | Tok::ListLen | Tok::MapLen | Tok::ListHdr)).copied().collect();
        if k.is_empty() {
            return Ok(());
        }
        let s = *c.rng.pick(&k);
        let mut x = vec![];
        if s.tok == Tok::ListHdr {
            x.push(0xf0 | s.code);
        }
        let lim = lim_of(&mut c.rng);
        let n = if c.rng.chance(1, 2) { lim as u64 / *c.rng.pick(&[1, 2, 4, 7, 8, 9, 16]) } else { claim(&mut c.rng) };
        put_uv(&mut x, n);
        let mut b2 = b.clone();
        b2.splice(s.at..s.at + s.len, x);
        c.seen_bytes(lim as u64, &b2);
        probe(c, &Tgt::Type(t), &b2, lim)
    });
    // honest but large: as much as the limit lets in
    ctx.group("honest", ctx.n(6_000, 200_000), |c| {
        let js = jobs(lvl(ctx));
        let j = &js[c.rng.below(js.len() as u64) as usize];
        let t = &*types()[j.t];
        let v = j.build(&mut c.rng);
        let mut e = Enc::canonical();
        e.val(&v);
        let b = e.out.clone();
        let ch = e.charge(std::mem::size_of::<usize>() as u64) as usize;
        c.seen_bytes(9, &b);
        for lim in [ch, ch / 2, ch.saturating_sub(1)] {
            probe(c, &Tgt::Type(t), &b, lim)?;
        }
        Ok(())
    });
    // many small things: the multiple must hold for every kind of content
    ctx.group("crowds", ctx.n(3_000, 60_000), |c| {
        let n = *c.rng.pick(&[100usize, 1000, 5000]);
        let k = c.rng.below(3) as usize;
        let mk_list = |r: &mut Rng, code: u8| -> V {
            match code {
                8 => V::List(8, (0..n).map(|_| V::Bin(gen_utf8(r, k))).collect()),
                9 => V::List(9, (0..n).map(|_| V::List(8, vec![V::Bin(gen_utf8(r, k)); 2])).collect()),
                _ => V::List(12, (0..n).map(|_| V::St(vec![(1, V::Bin(gen_utf8(r, k))), (2, V::Bin(gen_utf8(r, k)))])).collect()),
            }
        };
        let (t, v) = match c.rng.below(4) {
            0 => {
                // key/value pairs of a file
                let t = &*types()[0];
                let mut v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::None));
                if let V::St(f) = &mut v {
                    f.push((5, mk_list(&mut c.rng, 12)));
                }
                (Tgt::Type(t), v)
            }
            1 => {
                let t = types().iter().find(|t| t.name() == "ColumnIndex").unwrap();
                let v = V::St(vec![
                    (1, V::List(1, vec![V::Bool(true); n])),
                    (2, mk_list(&mut c.rng, 8)),
                    (3, mk_list(&mut c.rng, 8)),
                    (4, V::I32(0)),
                ]);
                (Tgt::Type(&**t), v)
            }
            2 => {
                // unknown ones
                let v = V::St(vec![(500, mk_list(&mut c.rng, 12)), (501, mk_list(&mut c.rng, 9))]);
                (Tgt::Type(&*types()[9]), v)
            }
            _ => {
                let x = V::St(vec![(1, V::I32(1)), (4, V::Bin(gen_utf8(&mut c.rng, k)))]);
                (Tgt::Many(&*types()[5]), V::List(12, vec![x; n]))
            }
        };
        let mut e = Enc::canonical();
        e.val(&v);
        let b = e.out.clone();
        let ch = e.charge(std::mem::size_of::<usize>() as u64) as usize;
        c.seen_bytes(10, &b);
        for lim in [ch, ch / 3] {
            probe(c, &t, &b, lim)?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C12

pub fn c12(ctx: &Ctx) {
    if MODES.len() < 2 {
        return;
    }
    let compare = |c: &mut Case, t: &Tgt, b: &[u8], lim: usize, ps: &Plan, pa: &Plan| -> Res {
        let d = arc(b);
        let a = observe(t, Mode::Sync, &d, ps, lim)?;
        let s = observe(t, Mode::Async, &d, pa, lim)?;
        c.eval();
        if a.alloc.refused > 0 || s.alloc.refused > 0 {
            c.count("skipped_out_of_memory", 1);
            return Ok(());
        }
        match (&a.r, &s.r) {
            (Ok(x), Ok(y)) => {
                c.count("both_accept", 1);
                ensure!(x == y, "{:?}: synchronous {} / asynchronous {}; limit {}, input {}", t, a.show(), s.show(), lim, hex(b))
            }
            (Err(x), Err(y)) => {
                c.count("both_refuse", 1);
                ensure!(x.k == y.k, "{:?}: synchronous {} / asynchronous {}; limit {}, input {}", t, a.show(), s.show(), lim, hex(b))
            }
            _ => return Err(format!("{:?}: synchronous {} / asynchronous {}; limit {}, input {}", t, a.show(), s.show(), lim, hex(b))),
        }
        ensure!(a.before == s.before, "{:?}: calls before the error differ: {:?} / {:?}; limit {}, input {}", t, a.before, s.before, lim, hex(b));
        ensure!(a.pos == s.pos, "{:?}: synchronous consumed {}, asynchronous {}: {} / {}; limit {}, input {}", t, a.pos, s.pos, a.show(), s.show(), lim, hex(b));
        Ok(())
    };
    // well-formed values, at every interesting limit
    values(ctx, 100_000, 4_000_000, |c, t, v| {
        let mut e = Enc::canonical();
        e.val(v);
        let ch = e.charge(std::mem::size_of::<usize>() as u64) as usize;
        let b = e.out.clone();
        let lim = match c.rng.below(4) {
            0 => ch,
            1 => ch.saturating_sub(1),
            2 => c.rng.below(ch as u64 + 1) as usize,
            _ => usize::MAX,
        };
        compare(c, &Tgt::Type(t), &b, lim, &Plan::plain(), &Plan::rough(&mut c.rng.clone()))
    });
    ctx.group("attacks", ctx.n(800_000, 30_000_000), |c| {
        let (t, b, how) = attack(&mut c.rng);
        if let Tgt::App = t {
            return Ok(());
        }
        c.sample(|| format!("{:?} from {} ({})", t, hex(&b), how));
        c.seen_bytes(1, &b);
        let lim = limit(&mut c.rng, b.len());
        let mut pa = Plan::rough(&mut c.rng);
        if b.len() > 4096 {
            pa.pending = 0;
        }
        let ps = if c.rng.chance(1, 2) { Plan::plain() } else { Plan::rough(&mut c.rng) };
        compare(c, &t, &b, lim, &ps, &pa)
    });
    // limits just around the charge, foreign encodings, unknown fields
    ctx.group("foreign", ctx.n(150_000, 5_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, _, v) = victim(&mut c.rng, t);
        let mut e = Enc::canonical();
        e.val(&v);
        let ch = e.charge(std::mem::size_of::<usize>() as u64) as usize;
        c.seen_bytes(2, &b);
        for lim in [ch, ch.saturating_sub(1), c.rng.below(ch as u64 + 2) as usize] {
            let pa = Plan::rough(&mut c.rng);
            compare(c, &Tgt::Type(t), &b, lim, &Plan::plain(), &pa)?;
        }
        Ok(())
    });
    // truncations
    ctx.group("truncated", ctx.n(20_000, 600_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, _, _) = victim(&mut c.rng, t);
        c.seen_bytes(3, &b);
        for _ in 0..8 {
            let i = c.rng.below(b.len() as u64) as usize;
            let pa = Plan::rough(&mut c.rng);
            compare(c, &Tgt::Type(t), &b[..i], usize::MAX, &Plan::plain(), &pa)?;
        }
        Ok(())
    });
    // skips of anything to any depth
    ctx.group("skips", ctx.n(60_000, 2_000_000), |c| {
        let d = c.rng.range(1, 80) as usize;
        let v = gen_deep(&mut c.rng, d, &[9, 10, 11, 12]);
        let b = encode(&v);
        c.seen_bytes(4, &b);
        let lim = c.rng.range(0, 127) as i8;
        let near = [d as i8 - 1, d as i8, lim];
        for depth in near {
            if depth >= 0 {
                let pa = Plan::rough(&mut c.rng);
                compare(c, &Tgt::Skip(v.code(), Some(depth)), &b, usize::MAX, &Plan::plain(), &pa)?;
            }
        }
        let pa = Plan::rough(&mut c.rng);
        let l = limit(&mut c.rng, b.len());
        compare(c, &Tgt::Skip(v.code(), None), &b, l, &Plan::plain(), &pa)
    });
    ctx.group("wide", ctx.n(400, 16_000), |c| {
        let v = gen_wide(&mut c.rng, 75_000);
        let mut b = encode(&v);
        c.count("wide_children", v.nodes() as u64);
        match c.rng.below(4) {
            0 => {
                let n = c.rng.below(b.len() as u64 + 1) as usize;
                b.truncate(n);
            }
            1 => {
                let i = c.rng.below(b.len() as u64) as usize;
                b[i] ^= 1 << c.rng.below(8);
            }
            _ => {}
        }
        c.seen_bytes(5, &b);
        let l = limit(&mut c.rng, b.len());
        compare(c, &Tgt::Skip(v.code(), None), &b, l, &Plan::plain(), &Plan::plain())
    });
    let ts: Vec<Tgt> = all_targets().into_iter().filter(|t| !matches!(t, Tgt::App)).collect();
    short_inputs(ctx, |c, b| {
        for t in &ts {
            compare(c, t, b, usize::MAX, &Plan::plain(), &Plan::plain())?;
        }
        Ok(())
    });
    // faults: same kinds, too
    ctx.group("faults", ctx.n(100_000, 4_000_000), |c| {
        let (t, b, _) = attack(&mut c.rng);
        if let Tgt::App = t {
            return Ok(());
        }
        let at = c.rng.below(b.len() as u64 + 1) as usize;
        let f = Fault::Err(*c.rng.pick(KINDS));
        let mut ps = Plan::rough(&mut c.rng).with_fault(at, f);
        let mut pa = Plan::rough(&mut c.rng).with_fault(at, f);
        if b.len() > 4096 {
            ps = Plan::plain().with_fault(at, f);
            pa = ps.clone();
        }
        compare(c, &t, &b, usize::MAX, &ps, &pa)
    });
}

// ------------------------------------------------------------------ C22

fn named(n: &str) -> Tgt {
    Tgt::Type(&**types().iter().find(|t| t.name() == n).unwrap())
}

pub fn c22(ctx: &Ctx) {
    let probe = |c: &mut Case, t: &Tgt, b: &[u8], lim: usize, ch: Chunk| -> Res {
        let d = arc(b);
        let mut plan = Plan::plain();
        plan.chunk = ch;
        for m in modes(t) {
            let o = observe(t, *m, &d, &plan, lim)?;
            c.eval();
            let n = o.pos as u64;
            // read calls: at least one byte each, but for a constant share of
            // empty and end-of-file ones
            let calls = 32 + 4 * n;
            let allocs = 1_000 + 100 * n;
            c.max("most_transport_calls_per_100_bytes", if n > 50 { o.calls * 100 / n } else { 0 });
            c.max("most_allocations_per_100_bytes", if n > 50 { o.alloc.count * 100 / n } else { 0 });
            c.max("most_allocations_for_up_to_8_bytes", if n <= 8 { o.alloc.count } else { 0 });
            c.max("most_cpu_us_for_one_read", o.cpu / 1000);
            ensure!(o.calls <= calls, "{:?} {:?}: {} transport calls for {} bytes consumed; limit {}, input {}", m, t, o.calls, n, lim, hex(b));
            ensure!(o.alloc.count <= allocs, "{:?} {:?}: {} allocations for {} bytes consumed; limit {}, input {}", m, t, o.alloc.count, n, lim, hex(b));
            // thread CPU time, not wall-clock: 600 ms + 100 us per byte, where
            // a microsecond per byte is already slow
            let cpu = if ctx.mini() { u64::MAX } else { 600_000_000 + 100_000 * n };
            if o.cpu > cpu {
                // once more, to exclude a hiccup
                let o2 = observe(t, *m, &d, &plan, lim)?;
                let o3 = observe(t, *m, &d, &plan, lim)?;
                let best = o.cpu.min(o2.cpu).min(o3.cpu);
                ensure!(best <= cpu, "{:?} {:?}: {} ms of CPU time for {} bytes consumed; limit {}, input {}", m, t, best / 1_000_000, n, lim, hex(b));
            }
        }
        Ok(())
    };
    let chunks = [Chunk::Full, Chunk::One, Chunk::Rand, Chunk::Fixed(3)];
    ctx.group("attacks", ctx.n(500_000, 20_000_000), |c| {
        let (t, b, how) = attack(&mut c.rng);
        c.sample(|| format!("{:?} from {} ({})", t, hex(&b), how));
        c.seen_bytes(1, &b);
        let lim = limit(&mut c.rng, b.len());
        let ch = *c.rng.pick(&chunks);
        probe(c, &t, &b, lim, ch)
    });
    // claims by every list, set and map header with every element type, cut
    // off there or followed by zeros, ones or twos
    ctx.group("claims", ctx.n(40_000, 1_500_000), |c| {
        let n = claim(&mut c.rng);
        let e = c.rng.below(16) as u8;
        let e2 = c.rng.below(16) as u8;
        let mut b = vec![];
        let code = *c.rng.pick(&[8u8, 9, 10, 11]);
        match code {
            8 => put_uv(&mut b, n),
            11 => {
                put_uv(&mut b, n);
                b.push(e << 4 | e2);
            }
            _ => {
                b.push(0xf0 | e);
                put_uv(&mut b, n);
            }
        }
        let k = c.rng.below(64) as usize;
        let fill = match c.rng.below(5) {
            0 => vec![],
            1 => vec![0; k],
            2 => vec![1; k],
            3 => vec![2; k],
            _ => noise(&mut c.rng, k),
        };
        b.extend(fill);
        let skip_code = code;
        let t = match c.rng.below(3) {
            0 => Tgt::Skip(skip_code, None),
            1 => {
                // as an unknown field
                let mut x = vec![(c.rng.range(1, 15) as u8) << 4 | code];
                if x[0] >> 4 < 14 {
                    x = vec![code];
                    put_uv(&mut x, zz(c.rng.range(40, 3000) as i64));
                }
                x.extend(&b);
                b = x;
                Tgt::Type(pick_type(&mut c.rng))
            }
            _ => Tgt::Many(pick_type(&mut c.rng)),
        };
        c.seen_bytes(2, &b);
        let lim = limit(&mut c.rng, b.len());
        probe(c, &t, &b, lim, Chunk::Full)?;
        probe(c, &t, &b, usize::MAX, Chunk::One)
    });
    // known fields: each claim in a valid value
    ctx.group("known-claims", ctx.n(100_000, 4_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (mut b, toks, _) = victim(&mut c.rng, t);
        let k: Vec<Span> = toks.iter().filter(|s| matches!(s.tok, Tok::StrLen | Tok::ListLen | Tok::MapLen | Tok::ListHdr)).copied().collect();
        if k.is_empty() {
            return Ok(());
        }
        let s = *c.rng.pick(&k);
        let mut x = vec![];
        if s.tok == Tok::ListHdr {
            x.push(0xf0 | s.code);
        }
        put_uv(&mut x, claim(&mut c.rng));
        b.splice(s.at..s.at + s.len, x);
        c.seen_bytes(3, &b);
        let lim = limit(&mut c.rng, b.len());
        probe(c, &Tgt::Type(t), &b, lim, Chunk::Full)
    });
    // large honest values: the proportion also holds there
    ctx.group("large", ctx.n(400, 8_000), |c| {
        let t = pick_type(&mut c.rng);
        let b = vec![0xf0 | t.ty().code()];
        let n = *c.rng.pick(&[100u64, 1000, 4000]);
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let e = encode(&v);
        let n = n.min(400_000 / e.len() as u64).max(1);
        let mut b = vec![b[0]];
        put_uv(&mut b, n);
        for _ in 0..n {
            b.extend_from_slice(&e);
        }
        c.seen_bytes(4, &b[..b.len().min(400)]);
        let ch = *c.rng.pick(&chunks);
        probe(c, &Tgt::Many(t), &b, usize::MAX, ch)?;
        let mut x = vec![0xe0 | 9];
        x.extend_from_slice(&b);
        x.push(0);
        probe(c, &Tgt::Skip(12, None), &x, usize::MAX, ch)
    });
    // long honest byte arrays, texts and lists: what is allocated in the
    // process of reading, not only how often, is in proportion too
    ctx.group("long", ctx.n(300, 6_000), |c| {
        let top = if ctx.mini() { 3_000 } else { 1_500_000 };
        let n = match c.idx % 4 {
            0 => top,
            1 => c.rng.range(1, top as u64) as usize,
            2 => (c.rng.pick(&dict().ints).unsigned_abs() as usize).wrapping_add(c.rng.below(3) as usize).wrapping_sub(1).clamp(1, top),
            _ => 1usize << c.rng.range(4, top.ilog2() as u64),
        };
        // bytes that may be allocated per byte of input: with room for any
        // geometric growth, but not for growth by a constant
        let (t, v, per) = match c.rng.below(7) {
            0 => (Tgt::Calls(vec![Op::Bytes(vec![])]), V::Bin(c.rng.bytes(n)), 8),
            1 => (Tgt::Calls(vec![Op::Str(String::new())]), V::Bin(vec![b'q'; n]), 8),
            2 => (Tgt::Skip(8, None), V::Bin(c.rng.bytes(n)), 8),
            3 => (named("KeyValue"), V::St(vec![(1, V::Bin(vec![b'k'; n])), (2, V::Bin(vec![b'v'; n]))]), 8),
            4 => (named("Statistics"), V::St(vec![(1, V::Bin(c.rng.bytes(n))), (6, V::Bin(vec![0; n]))]), 8),
            k => {
                let n = n / 8 + 1;
                let e = |k: u64| -> Vec<V> { (0..n as u64).map(|i| if k == 0 { V::Bool(i % 3 == 0) } else if k == 1 { V::Bin(vec![]) } else { V::I64(0) }).collect() };
                let l = c.rng.below(3);
                let (a, b) = (if l == 0 { e(0) } else { vec![] }, if l == 1 { e(1) } else { vec![] });
                let mut f = vec![(1, V::List(1, a)), (2, V::List(8, b)), (3, V::List(8, vec![])), (4, V::I32(0))];
                if l == 2 {
                    f.push((5, V::List(6, e(2))));
                }
                let per = [16, 24 * 8, 64][l as usize];
                (if k == 5 { named("ColumnIndex") } else { Tgt::Skip(12, None) }, V::St(f), per)
            }
        };
        let mut e = Enc::canonical();
        e.val(&v);
        let b = e.out;
        c.seen_bytes(6, &b[..b.len().min(64)]);
        c.seen(b.len() as u64);
        let ch = *c.rng.pick(&[Chunk::Full, Chunk::Full, Chunk::Fixed(4096), Chunk::Fixed(777)]);
        for m in modes(&t) {
            let mut plan = Plan::plain();
            plan.chunk = ch;
            let o = observe(&t, *m, &arc(&b), &plan, usize::MAX)?;
            c.eval();
            ensure!(o.r.is_ok() && o.pos == b.len(), "{:?} {:?} of {} bytes: {} after {}", m, t, b.len(), o.show(), o.pos);
            c.max("most_bytes_allocated_per_100_bytes_of_long_input", if b.len() > 10_000 { o.alloc.total * 100 / b.len() as u64 } else { 0 });
            // an asynchronous call allocates its future, so each list element costs
            let per = if *m == Mode::Async && per > 8 { 1_500 } else { per };
            let most = 65_536 + per * b.len() as u64;
            ensure!(o.alloc.total <= most, "{:?} {:?}: {} bytes allocated in all for {} bytes of input ({:?}), more than {} are out of proportion", m, t, o.alloc.total, b.len(), ch, most);
        }
        Ok(())
    });
    // at the end of data every read gives up at once
    ctx.group("end", ctx.n(20_000, 500_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, _, _) = victim(&mut c.rng, t);
        let i = c.rng.below(b.len() as u64) as usize;
        c.seen_bytes(5, &b[..i]);
        probe(c, &Tgt::Type(t), &b[..i], usize::MAX, Chunk::Full)
    });
    let ts = all_targets();
    short_inputs(ctx, |c, b| {
        for t in &ts {
            probe(c, t, b, usize::MAX, Chunk::Full)?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C28

pub fn c28(ctx: &Ctx) {
    let accept = |c: &mut Case, t: &'static dyn DynType, b: &[u8]| -> Res {
        let d = arc(b);
        for m in MODES {
            let o = observe(&Tgt::Type(t), *m, &d, &Plan::plain(), usize::MAX)?;
            c.eval();
            let Some(v) = o.val else {
                c.count("refused", 1);
                continue;
            };
            c.count("accepted", 1);
            c.seen_bytes(fnv(t.name().as_bytes()), &b[..o.pos]);
            let dbg = sut_cap(i64::MAX, || v.dbg()).0.map_err(|e| format!("formatting what {} was read from {}: {}", t.name(), hex(b), e))?;
            ensure!(!dbg.is_empty(), "{} read from {} formats as nothing", t.name(), hex(b));
            ensure!(v.eq_dyn(&*v) && v.clone_dyn().eq_dyn(&*v), "{} read from {} is not equal to itself or its clone", t.name(), hex(b));
            for wm in MODES {
                let w = write_v(&*v, *wm, &Plan::plain())?;
                let n = w.r.map_err(|e| format!("{:?} write of the {} read from {} failed: {:?}", wm, t.name(), hex(b), e))?;
                ensure!(n == w.w.out.len(), "{:?} write of the {} read from {} counts {} for {} bytes", wm, t.name(), hex(b), n, w.w.out.len());
                let x = read_plain(t, *m, &arc(&w.w.out))?;
                match &x.r {
                    Err(e) => return Err(format!("{} read from {}, written as {}: cannot be re-read: {:?}", t.name(), hex(b), hex(&w.w.out), e)),
                    Ok(y) => {
                        ensure!(y.eq_dyn(&*v) && y.tree() == v.tree(), "{} read from {} is {}, but re-read {}", t.name(), hex(b), v.tree().short(), y.tree().short());
                        ensure!(x.pos == w.w.out.len(), "{} re-read leaves {} bytes", t.name(), w.w.out.len() - x.pos);
                    }
                }
            }
        }
        Ok(())
    };
    ctx.group("hostile", ctx.n(400_000, 15_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (b, how) = hostile(&mut c.rng, t);
        c.sample(|| format!("{} from {} ({})", t.name(), hex(&b), how));
        accept(c, t, &b)
    });
    // gentle damage: mostly accepted, but odd
    ctx.group("odd", ctx.n(400_000, 15_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let (mut b, toks, _) = victim(&mut c.rng, t);
        let data: Vec<Span> = toks.iter().filter(|s| matches!(s.tok, Tok::IntVar | Tok::Byte | Tok::StrData | Tok::BoolElem | Tok::FieldHdr)).copied().collect();
        if data.is_empty() {
            return Ok(());
        }
        for _ in 0..c.rng.range(1, 3) {
            let s = *c.rng.pick(&data);
            if s.len == 0 {
                continue;
            }
            let i = s.at + c.rng.below(s.len as u64) as usize;
            let keep = b[i] & 0x80;
            match s.tok {
                Tok::IntVar => b[i] = c.rng.u64() as u8 & 0x7f | keep,
                Tok::FieldHdr => b[i] = b[i] & 0xf0 | c.rng.range(1, 12) as u8,
                Tok::StrData => b[i] = c.rng.u64() as u8 & 0x7f,
                _ => b[i] = c.rng.u64() as u8,
            }
        }
        accept(c, t, &b)
    });
    // duplicated fields, fields of other wire types
    ctx.group("repeated-fields", ctx.n(100_000, 4_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let Ty::St(_) = t.ty() else { return Ok(()) };
        let v = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let w = gen_v(t.ty(), &mut G::simple(&mut c.rng, Opt::Rand));
        let (V::St(mut f), V::St(g)) = (v, w) else { return Ok(()) };
        f.extend(g);
        if f.is_empty() {
            return Ok(());
        }
        if c.rng.chance(1, 2) {
            c.rng.shuffle(&mut f);
        }
        let b = encode(&V::St(f));
        accept(c, t, &b)
    });
    short_inputs(ctx, |c, b| {
        for t in types() {
            accept(c, &**t, b)?;
        }
        Ok(())
    });
}

