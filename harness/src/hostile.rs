//! Hostile and damaged inputs.
use crate::model::*;
use crate::ops::*;
use crate::rng::*;
use crate::v::*;

/// counts and lengths a liar would claim
pub fn claim(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => u32::MAX as u64,
        1 => i32::MAX as u64,
        2 => 1u64 << r.range(4, 31),
        3 => (1u64 << r.range(4, 32)) - 1,
        4 => u64::MAX >> r.below(40),
        5 => int_in(r, 0, u32::MAX as i64) as u64,
        6 => r.range(0, 300),
        _ => 1 << 20,
    }
}

fn fat_varint(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 14) as usize;
    let mut v: Vec<u8> = (0..n).map(|_| r.u64() as u8 | 0x80).collect();
    match r.below(3) {
        0 => v[n - 1] &= 0x7f,
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        _ => {}
    }
    v
}

pub fn limit(r: &mut Rng, n: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 => r.range(1, 40) as usize,
        2 => n,
        3 => n * 8,
        4 => 1 << r.below(21),
        5 => r.below(2 * n as u64 + 64) as usize,
        6 => int_in(r, 0, i64::MAX) as usize,
        _ => usize::MAX,
    }
}

/// bytes that look like headers more often than not
pub fn noise(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match r.below(6) {
            0 => r.u64() as u8,
            1 => r.below(16) as u8,
            2 => (r.range(1, 3) << 4 | r.below(13)) as u8,
            3 => (0xf0 | r.below(13)) as u8,
            4 => *r.pick(&[0u8, 0x80, 0xff, 0x7f, 1, 2, 0x1c, 0x19, 0x1b, 0x18, 0x82, 0x21]),
            _ => (r.range(1, 15) << 4 | *r.pick(&[5u64, 6, 8, 9, 12])) as u8,
        })
        .collect()
}

/// wildly nested containers, closed or not
pub fn towers(r: &mut Rng) -> Vec<u8> {
    let d = *r.pick(&[10usize, 60, 63, 64, 65, 66, 100, 127, 128, 200, 1000, 5000]);
    match r.below(3) {
        0 => {
            let v = gen_deep(r, d.min(400), &[9, 10, 11, 12]);
            let mut o = vec![(r.range(1, 15) << 4) as u8 | v.code()];
            o.extend(encode(&v));
            o.push(0);
            o
        }
        1 => {
            // one container kind, never closed
            let b: &[u8] = match r.below(5) {
                0 => &[0x1c],
                1 => &[0x19],
                2 => &[0x1a],
                3 => &[1, 0xbb],
                _ => &[0x1b, 1, 0xcc],
            };
            let mut o = vec![(r.range(1, 15) << 4) as u8 | *r.pick(&[9u8, 10, 11, 12])];
            for _ in 0..d {
                o.extend_from_slice(b);
            }
            o
        }
        _ => {
            let mut o = vec![0xf0 | *r.pick(&[9u8, 10, 11, 12])];
            for _ in 0..d {
                o.extend_from_slice(match r.below(4) {
                    0 => &[0x1c],
                    1 => &[0x19],
                    2 => &[0x2a],
                    _ => &[2, 0xbb],
                });
            }
            o
        }
    }
}

pub fn damage(r: &mut Rng, b: &mut Vec<u8>, toks: &[Span]) {
    let n = r.range(1, 3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u64() as u8);
        }
        let i = r.below(b.len() as u64) as usize;
        match r.below(12) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u64() as u8,
            2 => b.insert(i, r.u64() as u8),
            3 => {
                b.remove(i);
            }
            4 => b.truncate(i),
            5 => {
                let k = r.range(1, 8) as usize;
                let x = noise(r, k);
                b.splice(i..i, x);
            }
            6 => {
                // duplicate a piece
                let j = (i + r.range(1, 12) as usize).min(b.len());
                let x = b[i..j].to_vec();
                b.splice(i..i, x);
            }
            _ => {
                // something about one token
                if toks.is_empty() {
                    continue;
                }
                let t = toks[r.below(toks.len() as u64) as usize];
                let (lo, hi) = (t.at, t.at + t.len);
                if hi > b.len() {
                    continue;
                }
                match t.tok {
                    Tok::FieldHdr | Tok::ListHdr | Tok::MapTypes | Tok::Stop => {
                        if lo < b.len() {
                            b[lo] = match r.below(4) {
                                0 => b[lo] & 0xf0 | r.below(16) as u8,
                                1 => b[lo] & 0x0f | (r.below(16) << 4) as u8,
                                2 => 0,
                                _ => r.u64() as u8,
                            };
                        }
                    }
                    Tok::StrLen | Tok::ListLen | Tok::MapLen => {
                        let mut x = vec![];
                        if r.chance(1, 6) {
                            x = fat_varint(r);
                        } else {
                            let n = claim(r);
                            put_uv(&mut x, n);
                        }
                        b.splice(lo..hi, x);
                    }
                    Tok::IntVar | Tok::FieldId => {
                        let x = fat_varint(r);
                        b.splice(lo..hi, x);
                    }
                    Tok::BoolElem | Tok::Byte | Tok::Dbl => b[lo] = r.u64() as u8,
                    Tok::StrData => {
                        if hi > lo {
                            let k = lo + r.below((hi - lo) as u64) as usize;
                            b[k] = *r.pick(&[0x80u8, 0xff, 0xc0, 0xed, 0xf5, 0]);
                        }
                    }
                }
            }
        }
    }
}

/// the first bytes of a value of the type, up to a claimed huge list or string
pub fn liar(r: &mut Rng, ty: &Ty) -> Vec<u8> {
    let mut b = vec![];
    fn go(r: &mut Rng, ty: &Ty, b: &mut Vec<u8>, d: usize) {
        match ty {
            Ty::List(t) => {
                if d > 0 && r.chance(1, 2) {
                    b.push(0x10 | t.code());
                    go(r, t, b, d - 1);
                } else {
                    b.push(0xf0 | t.code());
                    put_uv(b, claim(r));
                    // and a few elements
                    for _ in 0..r.below(4) {
                        let mut g = G::simple(r, Opt::None);
                        let v = gen_v(t, &mut g);
                        b.extend(encode(&v));
                    }
                }
            }
            Ty::Str | Ty::Bin => {
                put_uv(b, claim(r));
                let n = r.below(20) as usize;
                b.extend(r.bytes(n));
            }
            Ty::St(s) => {
                let heavy: Vec<&Fld> = s.fields.iter().filter(|f| matches!(f.ty, Ty::List(_) | Ty::Str | Ty::Bin | Ty::St(_))).collect();
                if heavy.is_empty() || r.chance(1, 6) {
                    // an unknown field that lies
                    let c = *r.pick(&[8u8, 9, 10, 11]);
                    b.push(c);
                    put_uv(b, zz(900));
                    match c {
                        8 => put_uv(b, claim(r)),
                        11 => {
                            put_uv(b, claim(r));
                            b.push((*r.pick(&ELEMS) << 4) | *r.pick(&ELEMS));
                        }
                        _ => {
                            b.push(0xf0 | if r.chance(1, 8) { 0 } else { *r.pick(&ELEMS) });
                            put_uv(b, claim(r));
                        }
                    }
                    let n = r.below(30) as usize;
                    b.extend(if r.chance(1, 2) { vec![r.below(3) as u8; n] } else { noise(r, n) });
                    return;
                }
                let f = *r.pick(&heavy);
                b.push(f.ty.code());
                put_uv(b, zz(f.id as i64));
                go(r, &f.ty, b, d.saturating_sub(1));
            }
            _ => b.push(r.u64() as u8),
        }
    }
    go(r, ty, &mut b, 6);
    b
}

/// A valid encoding with its tokens, small enough to damage.
pub fn victim(r: &mut Rng, t: &'static dyn DynType) -> (Vec<u8>, Vec<Span>, V) {
    let opt = *r.pick(&[Opt::None, Opt::Rand, Opt::Rand, Opt::All]);
    let mut v = gen_v(t.ty(), &mut if r.chance(3, 4) { G::simple(r, opt) } else { G::new(r) });
    if r.chance(1, 3) {
        v = inject(&v, t.ty(), r, 2, 4, &mut 0);
    }
    let wild = r.chance(1, 3);
    let mut r2 = r.clone();
    let mut e = if wild { Enc::wild(&mut r2) } else { Enc::canonical() };
    e.keep_toks = true;
    e.val(&v);
    let (o, k) = (e.out, e.toks);
    r.u64();
    (o, k, v)
}

pub fn hostile(r: &mut Rng, t: &'static dyn DynType) -> (Vec<u8>, &'static str) {
    let (mut b, how) = hostile_(r, t);
    if tiny() {
        b.truncate(80);
    }
    (b, how)
}

fn hostile_(r: &mut Rng, t: &'static dyn DynType) -> (Vec<u8>, &'static str) {
    match r.below(20) {
        0..=1 => {
            let n = r.below(40) as usize;
            (noise(r, n), "noise")
        }
        2 => {
            let n = r.below(300) as usize;
            (r.bytes(n), "random bytes")
        }
        3 => (towers(r), "tower"),
        4..=7 => (liar(r, t.ty()), "liar"),
        8 => {
            let (mut a, _, _) = victim(r, t);
            let (b, _, _) = victim(r, t);
            let i = r.below(a.len() as u64 + 1) as usize;
            let j = r.below(b.len() as u64 + 1) as usize;
            a.truncate(i);
            a.extend_from_slice(&b[j..]);
            (a, "splice")
        }
        _ => {
            let (mut a, k, _) = victim(r, t);
            damage(r, &mut a, &k);
            (a, "damaged")
        }
    }
}

/// A valid order of read calls (no unmatched end) on arbitrary data.
pub fn random_calls(r: &mut Rng) -> Vec<Op> {
    let n = r.range(1, 12);
    let mut o = vec![];
    let mut depth = 0;
    for _ in 0..n {
        o.push(match r.below(18) {
            0 => {
                depth += 1;
                Op::StructBegin
            }
            1 if depth > 0 => {
                depth -= 1;
                Op::StructEnd
            }
            2 | 3 => Op::FieldBegin(0, 0),
            4 => Op::Bool(true),
            5 => Op::Bytes(vec![]),
            6 => Op::Str(String::new()),
            7 => Op::I8(0),
            8 => Op::I16(0),
            9 => Op::I32(0),
            10 => Op::I64(0),
            11 => Op::Dbl(0),
            12 => Op::ListBegin(0, 0),
            13 => Op::SetBegin(0, 0),
            14 => Op::MapBegin(None, None, 0),
            15 => Op::MsgBegin(String::new(), 0, 0),
            16 => Op::Byte(0),
            _ => r.pick(&[Op::ListEnd, Op::SetEnd, Op::MapEnd, Op::MsgEnd, Op::FieldEnd]).clone(),
        });
    }
    o
}

/// data that the calls mostly accept
pub fn data_for_calls(r: &mut Rng, ops: &[Op]) -> Vec<u8> {
    let mut b = vec![];
    let mut pending = false;
    for o in ops {
        match o {
            Op::FieldBegin(..) => {
                let c = r.below(13) as u8;
                b.push((r.below(16) << 4) as u8 | c);
                pending = c == 1 || c == 2;
                if b[b.len() - 1] < 16 && c != 0 {
                    put_uv(&mut b, r.below(1 << 14));
                }
            }
            Op::Bool(_) => {
                if !pending {
                    b.push(r.range(1, 2) as u8);
                }
                pending = false;
            }
            Op::Bytes(_) | Op::Str(_) => {
                let n = if r.chance(1, 5) { claim(r) } else { r.below(12) };
                put_uv(&mut b, n);
                let k = n.min(20) as usize;
                let x = if r.chance(1, 2) { gen_utf8(r, k) } else { r.bytes(k) };
                b.extend(x);
            }
            Op::I8(_) | Op::Byte(_) => b.push(r.u64() as u8),
            Op::I16(_) | Op::I32(_) | Op::I64(_) => {
                if r.chance(1, 6) {
                    let x = fat_varint(r);
                    b.extend(x);
                } else {
                    put_uv(&mut b, r.u64() >> r.range(16, 63));
                }
            }
            Op::Dbl(_) => b.extend(r.bytes(8)),
            Op::ListBegin(..) | Op::SetBegin(..) => {
                let c = *r.pick(&[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 14, 15]);
                if r.chance(1, 2) {
                    b.push((r.below(15) << 4) as u8 | c);
                } else {
                    b.push(0xf0 | c);
                    put_uv(&mut b, claim(r));
                }
            }
            Op::MapBegin(..) => {
                let n = if r.chance(1, 2) { r.below(3) } else { claim(r) };
                put_uv(&mut b, n);
                if n as u32 > 0 {
                    b.push(r.u64() as u8);
                }
            }
            Op::MsgBegin(..) => {
                b.push(if r.chance(1, 8) { r.u64() as u8 } else { 0x82 });
                let t = r.range(1, 4) as u8;
                b.push(if r.chance(1, 8) { r.u64() as u8 } else { t << 5 | 1 });
                put_uv(&mut b, r.u64() >> r.range(32, 60));
                let k = r.below(6) as usize;
                put_uv(&mut b, k as u64);
                b.extend(gen_utf8(r, k));
            }
            _ => {}
        }
    }
    if r.chance(1, 3) {
        let i = r.below(b.len() as u64 + 1) as usize;
        b.truncate(i);
    }
    b
}
