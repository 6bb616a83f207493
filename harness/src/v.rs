//! The reference side: dynamic values, schemas, an independent encoder and
//! decoder of the Thrift compact protocol, and a reference reader.
use crate::rng::{dict, edges64, int_in, Rng};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Dbl(u64),
    Bin(Vec<u8>),
    List(u8, Vec<V>),
    Set(u8, Vec<V>),
    Map(u8, u8, Vec<(V, V)>),
    St(Vec<(i16, V)>),
}

pub const T_TRUE: u8 = 1;
pub const T_FALSE: u8 = 2;
pub const T_I8: u8 = 3;
pub const T_I16: u8 = 4;
pub const T_I32: u8 = 5;
pub const T_I64: u8 = 6;
pub const T_DBL: u8 = 7;
pub const T_BIN: u8 = 8;
pub const T_LIST: u8 = 9;
pub const T_SET: u8 = 10;
pub const T_MAP: u8 = 11;
pub const T_ST: u8 = 12;
/// wire types a container element may have (bool is 1)
pub const ELEMS: [u8; 11] = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];

impl V {
    pub fn code(&self) -> u8 {
        match self {
            V::Bool(_) => 1,
            V::I8(_) => 3,
            V::I16(_) => 4,
            V::I32(_) => 5,
            V::I64(_) => 6,
            V::Dbl(_) => 7,
            V::Bin(_) => 8,
            V::List(..) => 9,
            V::Set(..) => 10,
            V::Map(..) => 11,
            V::St(_) => 12,
        }
    }
    /// a scalar is 1, a container one more than its deepest element
    pub fn depth(&self) -> usize {
        match self {
            V::List(_, e) | V::Set(_, e) => 1 + e.iter().map(|x| x.depth()).max().unwrap_or(0),
            V::Map(_, _, e) => 1 + e.iter().map(|(a, b)| a.depth().max(b.depth())).max().unwrap_or(0),
            V::St(f) => 1 + f.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            V::List(_, e) | V::Set(_, e) => 1 + e.iter().map(|x| x.nodes()).sum::<usize>(),
            V::Map(_, _, e) => 1 + e.iter().map(|(a, b)| a.nodes() + b.nodes()).sum::<usize>(),
            V::St(f) => 1 + f.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    /// fields of structs in ascending id order, recursively
    pub fn sorted(mut self) -> V {
        self.sort();
        self
    }
    fn sort(&mut self) {
        match self {
            V::List(_, e) | V::Set(_, e) => e.iter_mut().for_each(|x| x.sort()),
            V::Map(_, _, e) => e.iter_mut().for_each(|(a, b)| {
                a.sort();
                b.sort()
            }),
            V::St(f) => {
                f.iter_mut().for_each(|x| x.1.sort());
                f.sort_by_key(|x| x.0);
            }
            _ => {}
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 300 {
            let mut k = 300;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            format!("{}...", &s[..k])
        } else {
            s
        }
    }
}

// ------------------------------------------------------------------ schema

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Str,
    Bin,
    Enum,
    List(Box<Ty>),
    St(&'static Schema),
}

#[derive(Debug)]
pub struct Fld {
    pub id: i16,
    pub req: bool,
    pub name: &'static str,
    pub ty: Ty,
}

#[derive(Debug)]
pub struct Schema {
    pub name: &'static str,
    pub union: bool,
    pub fields: Vec<Fld>,
}

impl Ty {
    pub fn code(&self) -> u8 {
        match self {
            Ty::Bool => 1,
            Ty::I8 => 3,
            Ty::I16 => 4,
            Ty::I32 | Ty::Enum => 5,
            Ty::I64 => 6,
            Ty::Str | Ty::Bin => 8,
            Ty::List(_) => 9,
            Ty::St(_) => 12,
        }
    }
}

// --------------------------------------------------------------- generation

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opt {
    None,
    All,
    Rand,
    /// bit i: the i-th optional field of the outermost struct
    Mask(u64),
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub opt: Opt,
    /// nodes that may still be generated
    pub budget: i64,
    /// variant of the outermost union
    pub pick: Option<usize>,
    pub level: usize,
    /// only small leaf values
    pub small: bool,
    /// every list has exactly this length
    pub list_len: Option<usize>,
    /// every string has exactly this length
    pub str_len: Option<usize>,
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        let budget = *r.pick(&[10, 50, 50, 200, 200, 1000]);
        let budget = if tiny() { budget.min(20) } else { budget };
        let opt = *r.pick(&[Opt::None, Opt::All, Opt::Rand, Opt::Rand, Opt::Rand]);
        G {
            r,
            opt,
            budget,
            pick: None,
            level: 0,
            small: false,
            list_len: None,
            str_len: None,
        }
    }
    pub fn simple(r: &'a mut Rng, opt: Opt) -> Self {
        G {
            r,
            opt,
            budget: if tiny() { 12 } else { 60 },
            pick: None,
            level: 0,
            small: true,
            list_len: Some(1),
            str_len: None,
        }
    }
}

pub fn gen_utf8(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::with_capacity(n);
    let ascii = r.chance(1, 2);
    while s.len() < n {
        let left = n - s.len();
        let c = if ascii || left < 2 {
            (r.below(128) as u8) as char
        } else {
            match r.below(4) {
                0 => (r.below(128) as u8) as char,
                1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
                2 if left >= 3 => char::from_u32(0x800 + r.below(0xD000) as u32).unwrap_or('\u{FFFD}'),
                3 if left >= 4 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
                _ => 'x',
            }
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        }
    }
    s.into_bytes()
}

/// interpreter builds: only short strings and few elements
pub static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn tiny() -> bool {
    TINY.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn len_edge(r: &mut Rng, max: usize) -> usize {
    let max = if tiny() { max.min(40) } else { max };
    let n = match r.below(12) {
        0..=3 => r.below(5),
        4..=6 => r.below(24),
        7 => *r.pick(&[13, 14, 15, 16, 17]),
        8 => *r.pick(&[126, 127, 128, 129, 254, 255, 256, 257]),
        9 => (*r.pick(&dict().ints)).unsigned_abs().wrapping_add(r.below(3)).wrapping_sub(1),
        10 => r.below(1000),
        _ => *r.pick(&[16383, 16384, 16385, 4095, 4096, 4097, 1023, 1024, 1025, 8192]),
    };
    if n as usize > max {
        r.below(max as u64 + 1) as usize
    } else {
        n as usize
    }
}

pub fn gen_v(ty: &Ty, g: &mut G) -> V {
    g.budget -= 1;
    match ty {
        Ty::Bool => V::Bool(g.r.chance(1, 2)),
        Ty::I8 => V::I8(if g.small { g.r.below(5) as i8 } else { int_in(g.r, -128, 127) as i8 }),
        Ty::I16 => V::I16(if g.small { g.r.below(5) as i16 } else { int_in(g.r, -32768, 32767) as i16 }),
        Ty::I32 => V::I32(if g.small {
            g.r.below(50) as i32
        } else {
            int_in(g.r, i32::MIN as i64, i32::MAX as i64) as i32
        }),
        Ty::Enum => V::I32(if g.small || g.r.chance(2, 3) {
            g.r.below(24) as i32 - 1
        } else {
            int_in(g.r, i32::MIN as i64, i32::MAX as i64) as i32
        }),
        Ty::I64 => V::I64(if g.small { g.r.below(50) as i64 } else { int_in(g.r, i64::MIN, i64::MAX) }),
        Ty::Str | Ty::Bin => {
            let n = match g.str_len {
                Some(n) => n,
                None if g.small => g.r.below(4) as usize,
                None => {
                    if g.r.chance(1, 8) {
                        let s = g.r.pick(&dict().strs).clone();
                        return V::Bin(s.into_bytes());
                    }
                    len_edge(g.r, (g.budget.max(4) * 4).min(20_000) as usize)
                }
            };
            V::Bin(if matches!(ty, Ty::Str) { gen_utf8(g.r, n) } else { g.r.bytes(n) })
        }
        Ty::List(e) => {
            let n = match g.list_len {
                Some(n) if g.level > 0 || n < 40 => n,
                _ => {
                    let m = (g.budget.max(2)) as usize;
                    len_edge(g.r, m)
                }
            };
            let mut v = Vec::with_capacity(n);
            g.level += 1;
            for _ in 0..n {
                v.push(gen_v(e, g));
            }
            g.level -= 1;
            V::List(e.code(), v)
        }
        Ty::St(s) => {
            let lvl = g.level;
            g.level += 1;
            let mut f = vec![];
            if s.union {
                let k = match g.pick {
                    Some(k) if lvl == 0 => k % s.fields.len(),
                    _ => g.r.below(s.fields.len() as u64) as usize,
                };
                f.push((s.fields[k].id, gen_v(&s.fields[k].ty, g)));
            } else {
                let mut oi = 0;
                for fl in &s.fields {
                    let present = fl.req || {
                        let i = oi;
                        oi += 1;
                        match g.opt {
                            Opt::None => false,
                            Opt::All => true,
                            Opt::Rand => g.budget > 0 && g.r.chance(1, 2),
                            Opt::Mask(m) => {
                                if lvl == 0 {
                                    m >> i & 1 == 1
                                } else {
                                    g.r.chance(1, 2)
                                }
                            }
                        }
                    };
                    if present {
                        f.push((fl.id, gen_v(&fl.ty, g)));
                    }
                }
            }
            g.level -= 1;
            V::St(f)
        }
    }
}

/// Any well-formed value of the compact protocol (for unknown fields and for
/// protocol-level sequences).
pub fn gen_any(r: &mut Rng, code: u8, depth: usize) -> V {
    fn elem(r: &mut Rng, depth: usize) -> u8 {
        if depth <= 1 {
            *r.pick(&ELEMS[..7])
        } else {
            *r.pick(&ELEMS)
        }
    }
    fn len(r: &mut Rng, depth: usize) -> usize {
        if tiny() {
            *r.pick(&[0, 1, 2, 2, 15])
        } else if depth <= 2 {
            *r.pick(&[0, 1, 2, 3, 5, 14, 15, 16, 40])
        } else {
            r.below(4) as usize
        }
    }
    match code {
        1 | 2 => V::Bool(r.chance(1, 2)),
        3 => V::I8(int_in(r, -128, 127) as i8),
        4 => V::I16(int_in(r, -32768, 32767) as i16),
        5 => V::I32(int_in(r, i32::MIN as i64, i32::MAX as i64) as i32),
        6 => V::I64(int_in(r, i64::MIN, i64::MAX)),
        7 => V::Dbl(match r.below(4) {
            0 => *r.pick(&[0u64, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 1, 0x3ff0_0000_0000_0000]),
            _ => r.u64(),
        }),
        8 => {
            let n = len_edge(r, 300);
            V::Bin(match r.below(3) {
                0 => gen_utf8(r, n),
                1 => r.bytes(n),
                _ => vec![0xff; n],
            })
        }
        9 | 10 => {
            let e = elem(r, depth);
            let n = len(r, depth);
            let v = (0..n).map(|_| gen_any(r, e, depth.saturating_sub(1))).collect();
            if code == 9 {
                V::List(e, v)
            } else {
                V::Set(e, v)
            }
        }
        11 => {
            let k = elem(r, depth);
            let e = elem(r, depth);
            let n = len(r, depth);
            if n == 0 {
                return V::Map(0, 0, vec![]);
            }
            V::Map(
                k,
                e,
                (0..n)
                    .map(|_| (gen_any(r, k, depth.saturating_sub(1)), gen_any(r, e, depth.saturating_sub(1))))
                    .collect(),
            )
        }
        _ => {
            let n = r.below(5);
            let mut f: Vec<(i16, V)> = vec![];
            let mut id = 0i64;
            for _ in 0..n {
                id = match r.below(4) {
                    0 => int_in(r, -32768, 32767),
                    1 => id + 15,
                    2 => id + r.range(1, 20) as i64,
                    _ => id + 1,
                };
                if id > 32767 {
                    id = -32768 + r.below(100) as i64;
                }
                if f.iter().any(|x| x.0 as i64 == id) {
                    continue;
                }
                let c = elem(r, depth);
                f.push((id as i16, gen_any(r, c, depth.saturating_sub(1))));
            }
            V::St(f)
        }
    }
}

/// How many children a wide value gets: around the places where a count needs
/// another byte or another integer type, and where constants of the code lie.
pub fn gen_width(r: &mut Rng, top: usize) -> usize {
    let n = match r.below(8) {
        0 => *r.pick(&[13, 14, 15, 16, 17]),
        1 => *r.pick(&[126, 127, 128, 129, 254, 255, 256, 257]),
        2 => r.below(3000),
        3 => *r.pick(&[1000, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385]),
        4 => *r.pick(&[32766, 32767, 32768, 32769]),
        5 => *r.pick(&[65534, 65535, 65536, 65537, 65538, 70_000]),
        6 => (*r.pick(&dict().ints)).unsigned_abs().wrapping_add(r.below(3)).wrapping_sub(1),
        _ => 65_536 + r.below(8192),
    } as usize;
    if n > top {
        r.below(top as u64 + 1) as usize
    } else {
        n
    }
}

/// A container with many children (or a long byte string), none of them deep.
pub fn gen_wide(r: &mut Rng, top: usize) -> V {
    let n = gen_width(r, if tiny() { top.min(300) } else { top });
    let small = |r: &mut Rng, c: u8| match c {
        8 => {
            let k = r.below(4) as usize;
            V::Bin(r.bytes(k))
        }
        9 => V::List(3, vec![V::I8(1); r.below(3) as usize]),
        10 => V::Set(1, vec![V::Bool(true); r.below(2) as usize]),
        11 => V::Map(0, 0, vec![]),
        12 => V::St(if r.chance(1, 2) { vec![] } else { vec![(r.range(1, 20) as i16, V::Bool(r.chance(1, 2)))] }),
        _ => gen_any(r, c, 1),
    };
    match r.below(8) {
        0..=3 => {
            let c = *r.pick(&ELEMS);
            let e = (0..n).map(|_| small(r, c)).collect();
            if r.chance(1, 2) {
                V::List(c, e)
            } else {
                V::Set(c, e)
            }
        }
        4 | 5 => {
            let (k, c) = (*r.pick(&ELEMS), *r.pick(&ELEMS));
            if n == 0 {
                return V::Map(0, 0, vec![]);
            }
            V::Map(k, c, (0..n).map(|_| (small(r, k), small(r, c))).collect())
        }
        6 => {
            // no two fields with one id
            let n = n.min(65_536) as i64;
            let from = -32768 + r.below((65_536 - n) as u64 + 1) as i64;
            let c = *r.pick(&ELEMS);
            V::St((from..from + n).map(|i| (i as i16, small(r, c))).collect())
        }
        _ => V::Bin(r.bytes(n)),
    }
}

/// A chain of `depth` nested containers (total depth exactly `depth`).
pub fn gen_deep(r: &mut Rng, depth: usize, kinds: &[u8]) -> V {
    let mut v = {
        let c = *r.pick(&ELEMS[..7]);
        if r.chance(1, 6) && depth > 1 {
            // deepest level: an empty container counts like a scalar
            match *r.pick(kinds) {
                9 => V::List(c, vec![]),
                10 => V::Set(c, vec![]),
                11 => V::Map(0, 0, vec![]),
                _ => V::St(vec![]),
            }
        } else {
            gen_any(r, c, 1)
        }
    };
    for _ in 1..depth {
        let c = v.code();
        v = match *r.pick(kinds) {
            9 => V::List(c, vec![v]),
            10 => V::Set(c, vec![v]),
            11 => {
                if r.chance(1, 2) {
                    V::Map(c, 3, vec![(v, V::I8(1))])
                } else {
                    V::Map(8, c, vec![(V::Bin(vec![1]), v)])
                }
            }
            _ => {
                let id = *r.pick(&[1i16, 2, 15, 16, 17, 1000, -1, 0, 32767]);
                let mut f = vec![(id, v)];
                if r.chance(1, 4) {
                    f.push((id.wrapping_add(1), V::Bool(true)));
                }
                V::St(f)
            }
        };
    }
    v
}

/// Adds fields the schema does not know, at every level of `v` (a value of
/// type `ty`), except inside unions, whose cardinality they would change.
/// `depth` bounds the nesting of each added value.
pub fn inject(v: &V, ty: &Ty, r: &mut Rng, density: u64, depth: usize, n: &mut u64) -> V {
    match (v, ty) {
        (V::List(c, e), Ty::List(t)) => V::List(*c, e.iter().map(|x| inject(x, t, r, density, depth, n)).collect()),
        (V::St(f), Ty::St(s)) => {
            let mut out: Vec<(i16, V)> = f
                .iter()
                .map(|(id, x)| {
                    let t = &s.fields.iter().find(|q| q.id == *id).unwrap().ty;
                    (*id, inject(x, t, r, density, depth, n))
                })
                .collect();
            if !s.union {
                let k = r.below(density + 1);
                for _ in 0..k {
                    let id = match r.below(5) {
                        0 => *r.pick(&[0i16, -1, -2, 32767, -32768, 100, 127, 128, 255, 256]),
                        1 => int_in(r, -32768, 32767) as i16,
                        _ => r.below(40) as i16,
                    };
                    if s.fields.iter().any(|q| q.id == id) || out.iter().any(|q| q.0 == id) {
                        continue;
                    }
                    let x = match r.below(8) {
                        0 => {
                            let d = r.range(1, depth as u64) as usize;
                            gen_deep(r, d, &[9, 10, 11, 12])
                        }
                        1 => V::Bool(r.chance(1, 2)),
                        2 => V::Bin({
                            let k = len_edge(r, 100);
                            let mut b = r.bytes(k);
                            b.push(0xff);
                            b
                        }),
                        _ => {
                            let c = *r.pick(&ELEMS);
                            gen_any(r, c, 3)
                        }
                    };
                    *n += 1;
                    out.push((id, x));
                }
            }
            V::St(out)
        }
        _ => v.clone(),
    }
}

// ------------------------------------------------------------- leaf addressing

/// Applies `f` to every leaf (scalar, string or list) of `v` in order.
pub fn visit_leaves<'a>(v: &'a mut V, ty: &'a Ty, f: &mut dyn FnMut(&mut V, &Ty)) {
    match ty {
        Ty::St(s) => {
            if let V::St(fs) = v {
                for (id, x) in fs.iter_mut() {
                    let t = &s.fields.iter().find(|q| q.id == *id).unwrap().ty;
                    visit_leaves(x, t, f);
                }
            }
        }
        Ty::List(t) => {
            f(v, ty);
            if let V::List(_, e) = v {
                for x in e.iter_mut().take(1) {
                    visit_leaves(x, t, f);
                }
            }
        }
        _ => f(v, ty),
    }
}

/// Sets the k-th leaf (modulo their number) that satisfies `pred`; false if none.
pub fn set_leaf(v: &mut V, ty: &Ty, k: usize, pred: &dyn Fn(&Ty) -> bool, mk: &mut dyn FnMut(&mut V, &Ty)) -> bool {
    let mut n = 0;
    visit_leaves(v, ty, &mut |_, t| {
        if pred(t) {
            n += 1
        }
    });
    if n == 0 {
        return false;
    }
    let k = k % n;
    let mut i = 0;
    visit_leaves(v, ty, &mut |x, t| {
        if pred(t) {
            if i == k {
                mk(x, t);
            }
            i += 1;
        }
    });
    true
}
pub fn count_leaves(v: &mut V, ty: &Ty, pred: &dyn Fn(&Ty) -> bool) -> usize {
    let mut n = 0;
    visit_leaves(v, ty, &mut |_, t| {
        if pred(t) {
            n += 1
        }
    });
    n
}

// ------------------------------------------------------------------ encoding

pub fn put_uv(out: &mut Vec<u8>, mut n: u64) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn zz(n: i64) -> u64 {
    ((n as u64) << 1) ^ (if n < 0 { u64::MAX } else { 0 })
}
pub fn unzz(n: u64) -> i64 {
    let h = (n >> 1) as i64;
    if n & 1 == 1 {
        !h
    } else {
        h
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    /// field header byte (short form), or its type byte (long form)
    FieldHdr,
    FieldId,
    Stop,
    IntVar,
    Byte,
    Dbl,
    StrLen,
    StrData,
    ListHdr,
    ListLen,
    MapLen,
    MapTypes,
    BoolElem,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub tok: Tok,
    pub at: usize,
    pub len: usize,
    /// wire type of the field / element concerned
    pub code: u8,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub toks: Vec<Span>,
    pub rng: Option<&'a mut Rng>,
    pub shuffle: bool,
    /// of 16: fields with a long header where a short one would do
    pub longf: u64,
    pub longl: u64,
    /// of 16: unsigned lengths / ints as non-minimal varints
    pub fat: u64,
    pub words: u64,
    pub bytes: u64,
    pub keep_toks: bool,
}

impl<'a> Enc<'a> {
    pub fn canonical() -> Enc<'static> {
        Enc {
            out: vec![],
            toks: vec![],
            rng: None,
            shuffle: false,
            longf: 0,
            longl: 0,
            fat: 0,
            words: 0,
            bytes: 0,
            keep_toks: false,
        }
    }
    pub fn wild(r: &'a mut Rng) -> Enc<'a> {
        let shuffle = r.chance(2, 3);
        let longf = *r.pick(&[0, 4, 16]);
        let longl = *r.pick(&[0, 4, 16]);
        Enc {
            out: vec![],
            toks: vec![],
            rng: Some(r),
            shuffle,
            longf,
            longl,
            fat: 0,
            words: 0,
            bytes: 0,
            keep_toks: false,
        }
    }
    pub fn charge(&self, word: u64) -> u64 {
        self.words * word + self.bytes
    }
    fn coin(&mut self, p: u64) -> bool {
        match &mut self.rng {
            Some(r) => p > 0 && r.below(16) < p,
            None => false,
        }
    }
    fn mark(&mut self, tok: Tok, at: usize, code: u8) {
        if self.keep_toks {
            self.toks.push(Span {
                tok,
                at,
                len: self.out.len() - at,
                code,
            });
        }
    }
    fn uv(&mut self, n: u64, maxlen: usize) {
        let at = self.out.len();
        put_uv(&mut self.out, n);
        let used = self.out.len() - at;
        let fat = self.fat;
        if used < maxlen && self.coin(fat) {
            let k = self.rng.as_mut().unwrap().range(1, (maxlen - used) as u64) as usize;
            let l = self.out.len();
            self.out[l - 1] |= 0x80;
            for _ in 1..k {
                self.out.push(0x80);
            }
            self.out.push(0);
        }
    }
    /// the value itself, without a field header (a bool as an element)
    pub fn val(&mut self, v: &V) {
        let at = self.out.len();
        match v {
            V::Bool(b) => {
                self.out.push(if *b { 1 } else { 2 });
                self.mark(Tok::BoolElem, at, 1);
            }
            V::I8(x) => {
                self.out.push(*x as u8);
                self.mark(Tok::Byte, at, 3);
            }
            V::I16(x) => {
                self.uv(zz(*x as i64), 3);
                self.mark(Tok::IntVar, at, 4);
            }
            V::I32(x) => {
                self.uv(zz(*x as i64), 5);
                self.mark(Tok::IntVar, at, 5);
            }
            V::I64(x) => {
                self.uv(zz(*x), 10);
                self.mark(Tok::IntVar, at, 6);
            }
            V::Dbl(x) => {
                self.out.extend_from_slice(&x.to_le_bytes());
                self.mark(Tok::Dbl, at, 7);
            }
            V::Bin(b) => {
                self.uv(b.len() as u64, 5);
                self.mark(Tok::StrLen, at, 8);
                let at = self.out.len();
                self.out.extend_from_slice(b);
                self.mark(Tok::StrData, at, 8);
                self.bytes += b.len() as u64;
            }
            V::List(c, e) | V::Set(c, e) => {
                self.list_hdr(*c, e.len() as u64);
                for x in e {
                    self.val(x);
                }
            }
            V::Map(k, t, e) => {
                self.uv(e.len() as u64, 5);
                self.mark(Tok::MapLen, at, 11);
                if !e.is_empty() {
                    let at = self.out.len();
                    self.out.push(k << 4 | t);
                    self.mark(Tok::MapTypes, at, 11);
                    self.words += e.len() as u64;
                }
                for (a, b) in e {
                    self.val(a);
                    self.val(b);
                }
            }
            V::St(f) => {
                self.bytes += 2;
                let mut order: Vec<usize> = (0..f.len()).collect();
                if self.shuffle {
                    if let Some(r) = &mut self.rng {
                        r.shuffle(&mut order);
                    }
                }
                let mut last = 0i16;
                for i in order {
                    let (id, x) = &f[i];
                    let c = match x {
                        V::Bool(true) => 1,
                        V::Bool(false) => 2,
                        x => x.code(),
                    };
                    self.field_hdr(&mut last, *id, c);
                    if !matches!(x, V::Bool(_)) {
                        self.val(x);
                    }
                }
                let at = self.out.len();
                self.out.push(0);
                self.mark(Tok::Stop, at, 0);
            }
        }
    }
    pub fn list_hdr(&mut self, c: u8, n: u64) {
        let at = self.out.len();
        let longl = self.longl;
        if n < 15 && !self.coin(longl) {
            self.out.push((n as u8) << 4 | c);
            self.mark(Tok::ListHdr, at, c);
        } else {
            self.out.push(0xf0 | c);
            self.mark(Tok::ListHdr, at, c);
            let at = self.out.len();
            self.uv(n, 5);
            self.mark(Tok::ListLen, at, c);
        }
        self.words += n;
    }
    pub fn field_hdr(&mut self, last: &mut i16, id: i16, c: u8) {
        let at = self.out.len();
        let d = id as i32 - *last as i32;
        let longf = self.longf;
        if (1..=15).contains(&d) && !self.coin(longf) {
            self.out.push((d as u8) << 4 | c);
            self.mark(Tok::FieldHdr, at, c);
        } else {
            self.out.push(c);
            self.mark(Tok::FieldHdr, at, c);
            let at = self.out.len();
            self.uv(zz(id as i64), 3);
            self.mark(Tok::FieldId, at, c);
        }
        *last = id;
    }
}

pub fn encode(v: &V) -> Vec<u8> {
    let mut e = Enc::canonical();
    e.val(v);
    e.out
}

// ------------------------------------------------------- generic decoding

/// Strict, schema-less decoder of the compact protocol.
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub minimal: bool,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0, minimal: true }
    }
    pub fn byte(&mut self) -> Result<u8, String> {
        let x = *self.b.get(self.pos).ok_or_else(|| format!("end of data at {}", self.pos))?;
        self.pos += 1;
        Ok(x)
    }
    pub fn uv(&mut self, maxlen: usize) -> Result<u64, String> {
        let mut n: u128 = 0;
        for i in 0..maxlen {
            let b = self.byte()?;
            n |= ((b & 0x7f) as u128) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    self.minimal = false;
                }
                return u64::try_from(n).map_err(|_| format!("varint too large before {}", self.pos));
            }
        }
        Err(format!("varint longer than {} bytes before {}", maxlen, self.pos))
    }
    fn sv(&mut self, maxlen: usize, lo: i64, hi: i64) -> Result<i64, String> {
        let n = unzz(self.uv(maxlen)?);
        if n < lo || n > hi {
            return Err(format!("integer {} outside {}..={}", n, lo, hi));
        }
        Ok(n)
    }
    fn len(&mut self) -> Result<usize, String> {
        let n = self.uv(5)?;
        if n > u32::MAX as u64 {
            return Err(format!("length {} over 32 bits", n));
        }
        Ok(n as usize)
    }
    pub fn bin(&mut self) -> Result<Vec<u8>, String> {
        let n = self.len()?;
        if n > self.b.len() - self.pos {
            return Err(format!("binary of {} bytes at {} exceeds the data", n, self.pos));
        }
        let r = self.b[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Ok(r)
    }
    pub fn val(&mut self, code: u8) -> Result<V, String> {
        Ok(match code {
            1 => match self.byte()? {
                1 => V::Bool(true),
                2 => V::Bool(false),
                x => return Err(format!("bool element {}", x)),
            },
            3 => V::I8(self.byte()? as i8),
            4 => V::I16(self.sv(3, -32768, 32767)? as i16),
            5 => V::I32(self.sv(5, i32::MIN as i64, i32::MAX as i64)? as i32),
            6 => V::I64(self.sv(10, i64::MIN, i64::MAX)?),
            7 => {
                if self.b.len() - self.pos < 8 {
                    return Err("end of data in double".into());
                }
                let x = u64::from_le_bytes(self.b[self.pos..self.pos + 8].try_into().unwrap());
                self.pos += 8;
                V::Dbl(x)
            }
            8 => V::Bin(self.bin()?),
            9 | 10 => {
                let h = self.byte()?;
                let c = h & 15;
                if !ELEMS.contains(&c) {
                    return Err(format!("element type {}", c));
                }
                let n = if h >> 4 == 15 { self.len()? } else { (h >> 4) as usize };
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.val(c)?);
                }
                if code == 9 {
                    V::List(c, v)
                } else {
                    V::Set(c, v)
                }
            }
            11 => {
                let n = self.len()?;
                if n == 0 {
                    return Ok(V::Map(0, 0, vec![]));
                }
                let t = self.byte()?;
                let (k, x) = (t >> 4, t & 15);
                if !ELEMS.contains(&k) || !ELEMS.contains(&x) {
                    return Err(format!("map types {:#x}", t));
                }
                let mut v = vec![];
                for _ in 0..n {
                    let a = self.val(k)?;
                    let b = self.val(x)?;
                    v.push((a, b));
                }
                V::Map(k, x, v)
            }
            12 => {
                let mut f = vec![];
                let mut last = 0i16;
                loop {
                    let h = self.byte()?;
                    let c = h & 15;
                    if c == 0 {
                        if h != 0 {
                            return Err(format!("stop byte {:#x}", h));
                        }
                        break;
                    }
                    let id = if h >> 4 != 0 {
                        last.checked_add((h >> 4) as i16).ok_or("field id overflow")?
                    } else {
                        self.sv(3, -32768, 32767)? as i16
                    };
                    last = id;
                    let v = match c {
                        1 => V::Bool(true),
                        2 => V::Bool(false),
                        3..=12 => self.val(c)?,
                        _ => return Err(format!("field type {}", c)),
                    };
                    f.push((id, v));
                }
                V::St(f)
            }
            c => return Err(format!("type code {}", c)),
        })
    }
}

// --------------------------------------------------------- reference reader

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RE {
    /// end of data
    Eof,
    /// size limit exceeded
    Size,
    /// nested too deeply
    Depth,
    /// malformed: a protocol error
    Proto,
    /// malformed: any error
    Any,
    /// the protocol does not say (e.g. a known field id with another type)
    Unspec,
}

pub struct RefRd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub left: u128,
    pub used: u128,
    pub word: u128,
    /// charges saturate here
    pub sat: u128,
    /// largest count or length that the reader may have reserved memory for
    pub big: u32,
    /// the reader may also have run out of memory
    pub may_oom: bool,
    pub skips: u64,
    pub skip_depth: i32,
}

impl<'a> RefRd<'a> {
    pub fn new(b: &'a [u8], limit: usize) -> Self {
        RefRd {
            b,
            pos: 0,
            left: limit as u128,
            used: 0,
            word: std::mem::size_of::<usize>() as u128,
            sat: usize::MAX as u128,
            big: 0,
            may_oom: false,
            skips: 0,
            skip_depth: 64,
        }
    }
    fn charge(&mut self, n: u128) -> Result<(), RE> {
        // the product saturates at the machine word
        let n = n.min(self.sat);
        self.used += n;
        if n > self.left {
            return Err(RE::Size);
        }
        self.left -= n;
        Ok(())
    }
    fn byte(&mut self) -> Result<u8, RE> {
        let x = *self.b.get(self.pos).ok_or(RE::Eof)?;
        self.pos += 1;
        Ok(x)
    }
    pub fn uv(&mut self, maxlen: usize) -> Result<u64, RE> {
        let mut n: u64 = 0;
        for i in 0..maxlen {
            let b = self.byte()?;
            n |= ((b & 0x7f) as u64).checked_shl(7 * i as u32).unwrap_or(0);
            if b & 0x80 == 0 {
                return Ok(n);
            }
        }
        // over-long; whether this is noticed before or after looking for one
        // more byte is not specified
        Err(RE::Any)
    }
    fn bin(&mut self) -> Result<Vec<u8>, RE> {
        let n = self.uv(5)? as u32;
        self.charge(n as u128)?;
        self.big = self.big.max(n);
        if n as usize > self.b.len() - self.pos {
            if n as usize > 1 << 20 {
                self.may_oom = true;
            }
            return Err(RE::Eof);
        }
        let r = self.b[self.pos..self.pos + n as usize].to_vec();
        self.pos += n as usize;
        Ok(r)
    }
    fn elem_code(c: u8) -> Result<u8, RE> {
        match c {
            0 | 1 | 3..=12 => Ok(c),
            2 => Err(RE::Unspec),
            _ => Err(RE::Proto),
        }
    }
    fn list_hdr(&mut self) -> Result<(u8, u32), RE> {
        let h = self.byte()?;
        let c = Self::elem_code(h & 15)?;
        let n = if h >> 4 == 15 { self.uv(5)? as u32 } else { (h >> 4) as u32 };
        self.charge(n as u128 * self.word)?;
        Ok((c, n))
    }
    fn field_hdr(&mut self, last: &mut i16) -> Result<(u8, i16), RE> {
        let h = self.byte()?;
        let c = h & 15;
        if c == 0 {
            if h != 0 {
                return Err(RE::Unspec);
            }
            return Ok((0, 0));
        }
        if c > 12 {
            return Err(RE::Proto);
        }
        let id = if h >> 4 != 0 {
            last.checked_add((h >> 4) as i16).ok_or(RE::Proto)?
        } else {
            unzz(self.uv(3)?) as i16
        };
        *last = id;
        Ok((c, id))
    }
    pub fn skip(&mut self, c: u8, depth: i32) -> Result<(), RE> {
        self.skips += 1;
        if depth == 0 {
            return Err(RE::Depth);
        }
        match c {
            1 => match self.byte()? {
                1 | 2 => {}
                _ => return Err(RE::Proto),
            },
            3 => {
                self.byte()?;
            }
            4 => {
                self.uv(3)?;
            }
            5 => {
                self.uv(5)?;
            }
            6 => {
                self.uv(10)?;
            }
            7 => {
                for _ in 0..8 {
                    self.byte()?;
                }
            }
            8 => {
                self.bin()?;
            }
            9 | 10 => {
                let (c, n) = self.list_hdr()?;
                for _ in 0..n {
                    self.skip(c, depth - 1)?;
                }
            }
            11 => {
                let n = self.uv(5)? as u32;
                if n > 0 {
                    let t = self.byte()?;
                    let k = Self::elem_code(t >> 4)?;
                    let x = Self::elem_code(t & 15)?;
                    self.charge(n as u128 * self.word)?;
                    for _ in 0..n {
                        self.skip(k, depth - 1)?;
                        self.skip(x, depth - 1)?;
                    }
                }
            }
            12 => {
                self.charge(2)?;
                let mut last = 0;
                loop {
                    let (c, _) = self.field_hdr(&mut last)?;
                    match c {
                        0 => break,
                        1 | 2 => {
                            // the header was the value; its level still counts
                            if depth == 1 {
                                return Err(RE::Depth);
                            }
                        }
                        c => self.skip(c, depth - 1)?,
                    }
                }
            }
            0 => return Err(RE::Proto),
            _ => return Err(RE::Proto),
        }
        Ok(())
    }
    pub fn val(&mut self, ty: &Ty) -> Result<V, RE> {
        Ok(match ty {
            Ty::Bool => match self.byte()? {
                1 => V::Bool(true),
                2 => V::Bool(false),
                _ => return Err(RE::Proto),
            },
            Ty::I8 => V::I8(self.byte()? as i8),
            Ty::I16 => V::I16(unzz(self.uv(3)?) as i16),
            Ty::I32 | Ty::Enum => V::I32(unzz(self.uv(5)?) as i32),
            Ty::I64 => V::I64(unzz(self.uv(10)?)),
            Ty::Bin => V::Bin(self.bin()?),
            Ty::Str => {
                let b = self.bin()?;
                if std::str::from_utf8(&b).is_err() {
                    return Err(RE::Proto);
                }
                V::Bin(b)
            }
            Ty::List(t) => {
                let (c, n) = self.list_hdr()?;
                if c != t.code() {
                    return Err(RE::Unspec);
                }
                self.big = self.big.max(n);
                if n > 1 << 16 {
                    self.may_oom = true;
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.val(t)?);
                }
                V::List(c, v)
            }
            Ty::St(s) => {
                self.charge(2)?;
                let mut last = 0;
                let mut f: Vec<(i16, V)> = vec![];
                let mut nfields = 0u64;
                loop {
                    let (c, id) = self.field_hdr(&mut last)?;
                    if c == 0 {
                        break;
                    }
                    nfields += 1;
                    match s.fields.iter().find(|q| q.id == id) {
                        Some(fl) => {
                            let bool_ok = c <= 2 && matches!(fl.ty, Ty::Bool);
                            if !bool_ok && c != fl.ty.code() {
                                return Err(RE::Unspec);
                            }
                            let x = if bool_ok { V::Bool(c == 1) } else { self.val(&fl.ty)? };
                            if f.iter().any(|q| q.0 == id) && !s.union {
                                return Err(RE::Unspec);
                            }
                            f.push((id, x));
                        }
                        None => {
                            if c > 2 {
                                self.skip(c, self.skip_depth)?;
                            } else if self.skip_depth == 0 {
                                return Err(RE::Depth);
                            }
                        }
                    }
                }
                if s.union {
                    if nfields != 1 || f.len() != 1 {
                        return Err(RE::Proto);
                    }
                } else {
                    for fl in &s.fields {
                        if fl.req && !f.iter().any(|q| q.0 == fl.id) {
                            return Err(RE::Proto);
                        }
                    }
                    f.sort_by_key(|q| q.0);
                }
                V::St(f)
            }
        })
    }
}

pub fn edge_ints(lo: i64, hi: i64) -> Vec<i64> {
    let mut v: Vec<i64> = edges64().iter().copied().filter(|x| *x >= lo && *x <= hi).collect();
    for d in &dict().ints {
        for x in [d.wrapping_sub(1), *d, d.wrapping_add(1), d.wrapping_neg()] {
            if x >= lo && x <= hi {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
