//! C17, C18, C23, C25: varints, protocol elements, application errors, adaptors.
use std::convert::TryFrom;
use std::fmt::Debug;
use std::sync::Arc;

use pfs::thrift::protocol::*;
use pfs::thrift::varint::*;
use pfs::thrift::{new_application_error, new_protocol_error, new_transport_error, ApplicationError, ApplicationErrorKind, Error, ProtocolError, ProtocolErrorKind, TransportError, TransportErrorKind};

use crate::c_values::{decode_items, mk};
use crate::io::*;
use crate::model::*;
#[cfg(feature = "async")]
use crate::mon::aio;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::run::*;
use crate::v::*;

// ------------------------------------------------------------------ varints

pub trait Int: VarInt + Copy + PartialEq + Debug + Send + 'static {
    const NAME: &'static str;
    /// longest encoding a reader accepts
    const MAXLEN: usize;
    const LO: i64;
    const HI: i64;
    fn of(x: i64) -> Self;
    /// the varint, as an unsigned 64-bit number
    fn wire(self) -> u64;
    /// what a varint with this unsigned value denotes
    fn from_wire(n: u64) -> Self;
}
macro_rules! int {
    ($t:ident, $max:expr, u) => {
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const MAXLEN: usize = $max;
            const LO: i64 = 0;
            const HI: i64 = if $t::MAX as u64 > i64::MAX as u64 { -1 } else { $t::MAX as i64 };
            fn of(x: i64) -> Self {
                x as $t
            }
            fn wire(self) -> u64 {
                self as u64
            }
            fn from_wire(n: u64) -> Self {
                n as $t
            }
        }
    };
    ($t:ident, $max:expr, i) => {
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const MAXLEN: usize = $max;
            const LO: i64 = $t::MIN as i64;
            const HI: i64 = $t::MAX as i64;
            fn of(x: i64) -> Self {
                x as $t
            }
            fn wire(self) -> u64 {
                zz(self as i64)
            }
            fn from_wire(n: u64) -> Self {
                unzz(n) as $t
            }
        }
    };
}
int!(u8, 2, u);
int!(u16, 3, u);
int!(u32, 5, u);
int!(u64, 10, u);
int!(i8, 2, i);
int!(i16, 3, i);
int!(i32, 5, i);
int!(i64, 10, i);

#[macro_export]
macro_rules! each_int {
    ($f:ident($($a:expr),*)) => {{
        $f::<u8>($($a),*)?; $f::<u16>($($a),*)?; $f::<u32>($($a),*)?; $f::<u64>($($a),*)?;
        $f::<i8>($($a),*)?; $f::<i16>($($a),*)?; $f::<i32>($($a),*)?; $f::<i64>($($a),*)?;
    }};
}

pub fn ref_bytes(n: u64, buf: &mut [u8; 10]) -> usize {
    let mut n = n;
    let mut i = 0;
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            buf[i] = b;
            return i + 1;
        }
        buf[i] = b | 0x80;
        i += 1;
    }
}

/// slice encoding and decoding of one number
fn slice_int<T: Int>(x: T) -> Res {
    let mut want = [0u8; 10];
    let n = ref_bytes(x.wire(), &mut want);
    ensure!(x.required_space() == n, "{} {:?}: required_space {} instead of {}", T::NAME, x, x.required_space(), n);
    let mut buf = [0xEEu8; 12];
    let k = x.encode_var(&mut buf);
    ensure!(k == n && buf[..n] == want[..n], "{} {:?} encodes to {} (said {} bytes) instead of {}", T::NAME, x, hex(&buf), k, hex(&want[..n]));
    ensure!(buf[n..].iter().all(|b| *b == 0xEE), "{} {:?}: encode_var wrote past its {} bytes", T::NAME, x, n);
    // followed by junk, and alone
    ensure!(T::decode_var(&buf) == Some((x, n)), "{} {:?}: decode_var with bytes following gives {:?}", T::NAME, x, T::decode_var(&buf));
    ensure!(T::decode_var(&want[..n]) == Some((x, n)), "{} {:?}: decode_var gives {:?}", T::NAME, x, T::decode_var(&want[..n]));
    for k in 0..n {
        ensure!(T::decode_var(&want[..k]).is_none(), "{} {:?}: decode_var of its first {} bytes gives {:?}", T::NAME, x, k, T::decode_var(&want[..k]));
    }
    Ok(())
}

/// the same through vectors, readers and writers
fn io_int<T: Int>(x: T, r: &mut Rng) -> Res {
    slice_int(x)?;
    let mut want = [0u8; 10];
    let n = ref_bytes(x.wire(), &mut want);
    ensure!(x.encode_var_vec() == want[..n], "{} {:?}: encode_var_vec {}", T::NAME, x, hex(&x.encode_var_vec()));
    for m in MODES {
        let plan = Plan::rough(r);
        let (k, w) = write_varint(*m, x, &plan)?;
        ensure!(w.out == want[..n], "{} {:?}: {:?} writer delivered {} instead of {}", T::NAME, x, m, hex(&w.out), hex(&want[..n]));
        ensure!(k.as_ref().ok() == Some(&n), "{} {:?}: {:?} writer returned {:?} for {} bytes", T::NAME, x, m, k, n);
    }
    let tail = r.below(4) as usize;
    let mut b = want[..n].to_vec();
    b.extend(r.bytes(tail));
    string_rd::<T>(&b, r)
}

/// One varint from a transport.
pub fn read_varint<T: Int>(m: Mode, data: &Arc<[u8]>, plan: &Plan) -> Result<(Result<T, E>, MonReader), String> {
    let mut plan = plan.clone();
    if m == Mode::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut rd = MonReader::new(data.clone(), plan);
    let r = match m {
        Mode::Sync => sut(|| (&mut rd).read_varint::<T>())?,
        #[cfg(feature = "async")]
        Mode::Async => sut(|| aio::block_on(async { (&mut rd).read_varint_async::<T>().await }))??,
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    };
    ensure!(!rd.runaway, "{:?} read_varint of {} does not end", m, hex(data));
    Ok((r.map_err(|e| e_of(e.into())), rd))
}

pub fn write_varint<T: Int>(m: Mode, x: T, plan: &Plan) -> Result<(Result<usize, std::io::ErrorKind>, MonWriter), String> {
    let mut plan = plan.clone();
    if m == Mode::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut w = MonWriter::new(plan);
    let r = match m {
        Mode::Sync => sut(|| (&mut w).write_varint(x))?,
        #[cfg(feature = "async")]
        Mode::Async => sut(|| aio::block_on(async { (&mut w).write_varint_async(x).await }))??,
        #[cfg(not(feature = "async"))]
        Mode::Async => unreachable!(),
    };
    Ok((r.map_err(|e| e.kind()), w))
}

/// What decoding a byte string must give: the number and its length, or
/// None for "no terminated varint within `max` bytes".
fn ref_decode(b: &[u8], max: usize) -> Option<(u64, usize)> {
    let mut n: u128 = 0;
    for (i, x) in b.iter().take(max).enumerate() {
        n |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            return Some((n as u64, i + 1));
        }
    }
    None
}

/// decoding of an arbitrary byte string, from a slice
fn string_sl<T: Int>(b: &[u8]) -> Res {
    let want = ref_decode(b, 10).map(|(n, k)| (T::from_wire(n), k));
    let got = T::decode_var(b);
    ensure!(got == want, "{}::decode_var({}) is {:?} instead of {:?}", T::NAME, hex(b), got, want);
    Ok(())
}

/// ... and from readers
fn string_rd<T: Int>(b: &[u8], r: &mut Rng) -> Res {
    string_sl::<T>(b)?;
    let want = ref_decode(b, T::MAXLEN);
    let data: Arc<[u8]> = arc(b);
    for m in MODES {
        let mut plan = Plan::rough(r);
        if *m == Mode::Async {
            plan.intr = 0;
        } else {
            plan.pending = 0;
        }
        let mut rd = MonReader::new(data.clone(), plan);
        let got = match m {
            Mode::Sync => sut(|| (&mut rd).read_varint::<T>())?,
            #[cfg(feature = "async")]
            Mode::Async => sut(|| aio::block_on(async { (&mut rd).read_varint_async::<T>().await }))??,
            #[cfg(not(feature = "async"))]
            Mode::Async => unreachable!(),
        };
        ensure!(!rd.runaway, "{:?} read_varint::<{}> of {} does not end", m, T::NAME, hex(b));
        match (&want, got) {
            (Some((n, k)), Ok(x)) => {
                ensure!(x == T::from_wire(*n), "{:?} read_varint::<{}> of {} is {:?} instead of {:?}", m, T::NAME, hex(b), x, T::from_wire(*n));
                ensure!(rd.pos == *k, "{:?} read_varint::<{}> of {} took {} bytes instead of {}", m, T::NAME, hex(b), rd.pos, k);
            }
            (Some(_), Err(e)) => return Err(format!("{:?} read_varint::<{}> of {} failed: {}", m, T::NAME, hex(b), e)),
            (None, Ok(x)) => return Err(format!("{:?} read_varint::<{}> of {} accepted as {:?}", m, T::NAME, hex(b), x)),
            (None, Err(e)) => {
                if b.len() < T::MAXLEN {
                    ensure!(e.kind() == std::io::ErrorKind::UnexpectedEof, "{:?} read_varint::<{}> of {}: {:?} instead of end of file", m, T::NAME, hex(b), e.kind());
                }
            }
        }
    }
    // a plain slice is a reader too
    let mut s = b;
    let got = sut(|| s.read_varint::<T>())?;
    match (&want, got) {
        (Some((n, k)), Ok(x)) => ensure!(x == T::from_wire(*n) && b.len() - s.len() == *k, "slice read_varint::<{}> of {} is {:?}, {} bytes taken", T::NAME, hex(b), x, b.len() - s.len()),
        (None, Err(_)) => {}
        (_, g) => return Err(format!("slice read_varint::<{}> of {} gave {:?}", T::NAME, hex(b), g.map_err(|e| e.kind()))),
    }
    Ok(())
}

pub fn varint_counts(ctx: &Ctx) {
    ctx.group("varint-writers", ctx.n(40_000, 1_500_000), |c| {
        let x = int_in(&mut c.rng, i64::MIN, i64::MAX);
        fn one<T: Int>(x: i64, r: &mut Rng) -> Res {
            for m in MODES {
                let (k, w) = write_varint(*m, T::of(x), &Plan::rough(r))?;
                ensure!(k == Ok(w.out.len()), "{:?} write_varint::<{}>({}) returned {:?} and delivered {} bytes", m, T::NAME, x, k, w.out.len());
            }
            Ok(())
        }
        each_int!(one(x, &mut c.rng));
        c.st.evals += 16;
        c.seen(x as u64);
        Ok(())
    });
}

pub fn c17(ctx: &Ctx) {
    let mini = ctx.mini();
    // all 8- and 16-bit numbers
    ctx.group("all-16-bit", 256, |c| {
        let step = if mini { 37 } else { 1 };
        for lo in (0..256u32).step_by(step) {
            let x = ((c.idx as u32) << 8 | lo) as u16;
            io_int(x, &mut c.rng)?;
            io_int(x as i16, &mut c.rng)?;
            if c.idx == 0 {
                io_int(x as u8, &mut c.rng)?;
                io_int(x as u8 as i8, &mut c.rng)?;
            }
            c.st.evals += 2;
            c.seen(x as u64 | 1 << 40);
        }
        Ok(())
    });
    // around every power of two and every constant of the code
    let e = edge_ints(i64::MIN, i64::MAX);
    ctx.group("edges", e.len() as u64, |c| {
        let base = e[c.idx as usize % e.len()];
        for d in -3..=3 {
            let x = base.wrapping_add(d);
            fn one<T: Int>(x: i64, r: &mut Rng) -> Res {
                io_int(T::of(x), r)
            }
            each_int!(one(x, &mut c.rng));
            c.st.evals += 8;
            c.seen(x as u64);
        }
        c.sample(|| format!("{} +-3", base));
        Ok(())
    });
    ctx.group("random", ctx.n(150_000, 5_000_000), |c| {
        let x = match c.rng.below(3) {
            0 => int_in(&mut c.rng, i64::MIN, i64::MAX),
            1 => c.rng.u64() as i64,
            _ => (c.rng.u64() >> c.rng.below(64)) as i64,
        };
        io_int(x as u64, &mut c.rng)?;
        io_int(x, &mut c.rng)?;
        io_int(x as u32, &mut c.rng)?;
        io_int(x as i32, &mut c.rng)?;
        c.st.evals += 4;
        c.seen(x as u64);
        Ok(())
    });
    // dense runs of 32-bit numbers; thorough: all of them
    let blocks: u64 = match ctx.tier {
        Tier::Quick => 1024,
        Tier::Thorough => 65536,
        Tier::Mini => 1,
    };
    ctx.group("dense-32-bit", blocks, |c| {
        let hi = if blocks == 65536 { c.idx } else { mix(c.idx ^ mix(ctx.seed)) & 0xffff } as u32;
        for lo in 0..(if mini { 64 } else { 65536u32 }) {
            let x = hi << 16 | lo;
            slice_int(x)?;
            slice_int(x as i32)?;
            c.st.evals += 2;
        }
        c.seen(hi as u64 | 1 << 41);
        Ok(())
    });
    // all short byte strings
    ctx.group("all-strings-2", if mini { 4 } else { 257 }, |c| {
        if c.idx == 256 {
            each_int!(string_rd(&[], &mut c.rng));
            return Ok(());
        }
        let a = c.idx as u8;
        each_int!(string_rd(&[a], &mut c.rng));
        for b in 0..=255u8 {
            each_int!(string_rd(&[a, b], &mut c.rng));
            c.st.evals += 8;
        }
        c.seen(a as u64 | 1 << 42);
        Ok(())
    });
    let third: u64 = match ctx.tier {
        Tier::Quick => 2000,
        Tier::Thorough => 65536,
        Tier::Mini => 1,
    };
    ctx.group("strings-3", third, |c| {
        let ab = if third == 65536 { c.idx } else { mix(c.idx ^ mix(ctx.seed ^ 3)) & 0xffff };
        for x in 0..=255u8 {
            each_int!(string_sl(&[ab as u8, (ab >> 8) as u8, x]));
        }
        c.st.evals += 256 * 8;
        c.seen(ab | 1 << 43);
        Ok(())
    });
    // long runs of continuation bytes, any ending
    ctx.group("strings-long", ctx.n(150_000, 5_000_000), |c| {
        let n = c.rng.below(15) as usize;
        let mut b: Vec<u8> = (0..n)
            .map(|_| match c.rng.below(4) {
                0 => 0x80,
                1 => 0xff,
                _ => c.rng.u64() as u8 | 0x80,
            })
            .collect();
        if c.rng.chance(3, 4) {
            b.push(match c.rng.below(4) {
                0 => 0,
                1 => 1,
                2 => 0x7f,
                _ => c.rng.u64() as u8 & 0x7f,
            });
            let k = c.rng.below(4) as usize;
            b.extend(c.rng.bytes(k));
        }
        each_int!(string_rd(&b, &mut c.rng));
        c.st.evals += 8;
        c.seen_bytes(17, &b);
        c.sample(|| hex(&b));
        Ok(())
    });
}

// ------------------------------------------------------------------ C18

fn round_trip(c: &mut Case, items: Vec<Item>) -> Res {
    let s = seq(items, &mut c.rng);
    c.seen_bytes(18, &s.bytes);
    c.sample(|| format!("{:?}", s.items));
    c.count("protocol_calls", s.ops.len() as u64);
    for m in MODES {
        let plan = Plan::rough(&mut c.rng);
        let o = write_ops(wm(*m), &s.ops, &plan, false)?;
        ensure!(o.err.is_none(), "{:?} write of {} failed: {:?}", m, short(&s.items), o.err);
        decode_items(&s.items, &o.w.out).map_err(|e| format!("{:?} writer, independent decoder: {}", m, e))?;
        let data = arc(&o.w.out);
        for r in MODES {
            let plan = Plan::rough(&mut c.rng);
            let via = if c.rng.chance(1, 4) { rm_trait(*r) } else { rm(*r) };
            let g = read_ops(via, &s.ops, &data, &plan, usize::MAX)?;
            c.eval();
            if let Some(d) = diff_ops(&s.ops, &g.got) {
                return Err(format!("{:?} writer, {:?} reader: {}", m, via, d));
            }
            ensure!(g.err.is_none(), "{:?} writer, {:?} reader: call {} ({:?}) failed: {:?}", m, r, g.got.len(), s.ops[g.got.len()], g.err);
            ensure!(g.rd.pos == data.len(), "{:?} writer, {:?} reader: {} of {} bytes read", m, r, g.rd.pos, data.len());
        }
    }
    // other conforming encodings of the same items
    let mut e = Enc::wild(&mut c.rng);
    e.shuffle = false;
    for i in &s.items {
        i.encode(&mut e);
    }
    let data = arc(&e.out);
    for r in MODES {
        let g = read_ops(rm(*r), &s.ops, &data, &Plan::plain(), usize::MAX)?;
        c.eval();
        if let Some(d) = diff_ops(&s.ops, &g.got) {
            return Err(format!("foreign encoding {}, {:?} reader: {}", hex(&data), r, d));
        }
        ensure!(g.err.is_none(), "foreign encoding {}, {:?} reader: call {} failed: {:?}", hex(&data), r, g.got.len(), g.err);
    }
    Ok(())
}

pub fn short(items: &[Item]) -> String {
    let s = format!("{:?}", items);
    s.chars().take(300).collect()
}

pub fn c18(ctx: &Ctx) {
    ctx.group("sequences", ctx.n(120_000, 5_000_000), |c| {
        let items = gen_items(&mut c.rng);
        round_trip(c, items)
    });
    // every element kind alone, with edge values
    let e = edge_ints(i64::MIN, i64::MAX);
    ctx.group("scalars", e.len() as u64, |c| {
        let x = e[c.idx as usize % e.len()];
        let id = x as i16;
        let items = vec![
            Item::Val(V::I8(x as i8)),
            Item::Val(V::I16(x as i16)),
            Item::Val(V::I32(x as i32)),
            Item::Val(V::I64(x)),
            Item::Val(V::Dbl(x as u64)),
            Item::Val(V::Dbl((x as f64).to_bits())),
            Item::Msg(String::new(), 1 + (x & 3) as u8, x as u32, V::St(vec![(id, V::Bool(x & 1 == 0)), (id.wrapping_add(1), V::Bool(x & 1 == 1)), (id.wrapping_sub(15), V::I8(1)), (id.wrapping_add(16), V::Bool(true))])),
            Item::Val(V::St(vec![(id, V::St(vec![(id, V::Bool(true)), (id.wrapping_neg(), V::St(vec![]))])), (id.wrapping_add(15), V::I64(x))])),
        ];
        round_trip(c, items)
    });
    ctx.group("doubles", ctx.n(20_000, 1_000_000), |c| {
        let items = (0..8).map(|_| gen_any(&mut c.rng, 7, 1)).map(Item::Val).collect();
        round_trip(c, items)
    });
    // field-id jumps: every distance in i16, from different bases
    let bases: Vec<i32> = vec![0, 1, -1, 15, 100, 127, -128, 255, 16383, 32767, 32766, 32753, 32752, -32768, -32767, -15, -16];
    let per = 64u64;
    let steps = match ctx.tier {
        Tier::Quick => 65536 / 64,
        Tier::Thorough => 65536 / 64 * bases.len() as u64,
        Tier::Mini => 6,
    };
    ctx.group("id-jumps", steps, |c| {
        let b = match ctx.tier {
            Tier::Thorough => bases[(c.idx / 1024) as usize % bases.len()],
            _ => *c.rng.pick(&bases),
        } as i16;
        let mut items = vec![];
        for k in 0..per {
            let to = (c.idx % 1024 * per + k) as u16 as i16;
            let x = *c.rng.pick(&[1u8, 1, 5, 12, 8]);
            let v = gen_any(&mut c.rng, x, 1);
            let first = gen_any(&mut c.rng, 1, 1);
            // the same id twice in a row is a jump of zero
            items.push(Item::Val(V::St(vec![(b, first), (to, v), (to.wrapping_add(1), V::Bool(true))])));
        }
        round_trip(c, items)
    });
    // containers of many sizes, and bool containers
    let sizes: Vec<usize> = {
        let mut v: Vec<usize> = (0..40).collect();
        v.extend([126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 65535, 65536, 70000]);
        for d in &dict().ints {
            for x in [d - 1, *d, d + 1] {
                if (0..100_000).contains(&x) {
                    v.push(x as usize);
                }
            }
        }
        v.sort();
        v.dedup();
        if ctx.mini() {
            v.retain(|x| *x < 20 || *x == 128);
        }
        v
    };
    ctx.group("sizes", sizes.len() as u64 * 3, |c| {
        let n = sizes[c.idx as usize / 3 % sizes.len()];
        let items = match c.idx % 3 {
            0 => vec![
                Item::Val(V::List(1, (0..n).map(|i| V::Bool(i % 3 == 0)).collect())),
                Item::Val(V::Set(5, (0..n).map(|i| V::I32(i as i32)).collect())),
            ],
            1 => {
                let e = (0..n).map(|i| (V::Bin(vec![i as u8; i % 5]), V::Bool(i % 2 == 0))).collect::<Vec<_>>();
                vec![Item::Val(if n == 0 { V::Map(0, 0, vec![]) } else { V::Map(8, 1, e) })]
            }
            _ => vec![
                Item::Val(V::Bin(gen_utf8(&mut c.rng, n))),
                Item::Val(V::Bin(c.rng.bytes(n))),
                Item::Msg(String::from_utf8(gen_utf8(&mut c.rng, n)).unwrap(), 4, n as u32, V::St(vec![])),
            ],
        };
        round_trip(c, items)
    });
    // headers announcing any number of elements
    let heads: Vec<u32> = edge_ints(0, u32::MAX as i64).iter().map(|x| *x as u32).collect();
    ctx.group("headers", heads.len() as u64, |c| {
        let n = heads[c.idx as usize % heads.len()];
        let mut ops = vec![];
        for a in ELEMS {
            let b = *c.rng.pick(&ELEMS);
            ops.extend([Op::ListBegin(a, n), Op::SetBegin(a, n), if n == 0 { Op::MapBegin(None, None, 0) } else { Op::MapBegin(Some(a), Some(b), n) }]);
        }
        for m in MODES {
            let o = write_ops(wm(*m), &ops, &Plan::plain(), false)?;
            ensure!(o.err.is_none(), "{:?}: {:?}", m, o.err);
            for r in MODES {
                let g = read_ops(rm(*r), &ops, &arc(&o.w.out), &Plan::rough(&mut c.rng), usize::MAX)?;
                c.eval();
                if let Some(d) = diff_ops(&ops, &g.got) {
                    return Err(format!("{:?} writer, {:?} reader: {}", m, r, d));
                }
                ensure!(g.err.is_none(), "{:?} writer, {:?} reader: {:?}", m, r, g.err);
            }
        }
        c.seen(n as u64);
        Ok(())
    });
    // deep nesting and long sessions
    ctx.group("deep", ctx.n(2_000, 60_000), |c| {
        let d = c.rng.range(1, if mini_or(ctx) { 20 } else { 600 }) as usize;
        let v = gen_deep(&mut c.rng, d, &[9, 10, 11, 12]);
        c.max("deepest_nesting", d as u64);
        let w = gen_item(&mut c.rng);
        round_trip(c, vec![Item::Val(v), w])
    });
    ctx.group("sessions", ctx.n(40, 800), |c| {
        let n = if mini_or(ctx) { 20 } else { c.rng.range(200, 3000) };
        let items = (0..n).map(|_| gen_item(&mut c.rng)).collect();
        round_trip(c, items)
    });
}
fn mini_or(ctx: &Ctx) -> bool {
    ctx.mini()
}

// ------------------------------------------------------------------ C25

pub fn c25(ctx: &Ctx) {
    // operations through every output adaptor
    ctx.group("out-ops", ctx.n(50_000, 2_000_000), |c| {
        let s = seq(gen_items(&mut c.rng), &mut c.rng);
        c.seen_bytes(1, &s.bytes);
        c.sample(|| short(&s.items));
        let mut plan = Plan::rough(&mut c.rng).no_intr();
        let fault = c.rng.chance(1, 3);
        if fault {
            let at = c.rng.below(s.bytes.len() as u64 + 1) as usize;
            let f = if c.rng.chance(1, 4) { Fault::Zero } else { Fault::Err(*c.rng.pick(KINDS)) };
            plan = plan.with_fault(at, f);
        }
        let flush_err = c.rng.chance(1, 4).then(|| *c.rng.pick(KINDS));
        let run = |m: WM| {
            let mut w = MonWriter::new(plan.clone());
            w.flush_err = flush_err;
            write_ops_to(m, &s.ops, &mut w, true).map(|(log, err, fl)| (log, err, fl, w))
        };
        let a = run(WM::Sync)?;
        for m in WMS {
            if matches!(m, WM::Sync | WM::Async) {
                continue;
            }
            if *m == WM::BufW {
                if fault || flush_err.is_some() {
                    continue;
                }
                let b = run(*m)?;
                c.eval();
                let (x, y): (Vec<usize>, Vec<usize>) = (a.0.iter().map(|q| q.0).collect(), b.0.iter().map(|q| q.0).collect());
                ensure!(x == y && a.1 == b.1 && a.2 == b.2, "{:?}: counts or errors differ from direct use", m);
                ensure!(a.3.out == b.3.out, "{:?}: output {} instead of {}", m, hex(&b.3.out), hex(&a.3.out));
                continue;
            }
            let b = run(*m)?;
            c.eval();
            ensure!(a.0 == b.0, "{:?}: (count, delivered) per call {:?} instead of {:?} for {}", m, tail(&b.0), tail(&a.0), short(&s.items));
            ensure!(a.1 == b.1, "{:?}: error {:?} instead of {:?}", m, b.1, a.1);
            ensure!(a.2 == b.2, "{:?}: flush result {:?} instead of {:?}", m, b.2, a.2);
            ensure!(a.3.out == b.3.out, "{:?}: output {} instead of {}", m, hex(&b.3.out), hex(&a.3.out));
            ensure!(a.3.flushes == b.3.flushes, "{:?}: {} flushes instead of {}", m, b.3.flushes, a.3.flushes);
        }
        Ok(())
    });
    // reading: intact, truncated, corrupted, faulty, limited
    ctx.group("in-ops", ctx.n(50_000, 2_000_000), |c| {
        let s = seq(gen_items(&mut c.rng), &mut c.rng);
        let mut b = s.bytes.to_vec();
        let mut plan = Plan::rough(&mut c.rng);
        let mut limit = usize::MAX;
        match c.rng.below(6) {
            0 => b.truncate(c.rng.below(b.len() as u64 + 1) as usize),
            1 if !b.is_empty() => {
                let i = c.rng.below(b.len() as u64) as usize;
                b[i] = c.rng.u64() as u8;
            }
            2 => {
                let at = c.rng.below(b.len() as u64 + 1) as usize;
                plan = plan.with_fault(at, Fault::Err(*c.rng.pick(KINDS)));
            }
            3 => limit = c.rng.below(s.charge + 2) as usize,
            _ => {}
        }
        let data = arc(&b);
        c.seen_bytes(2, &b);
        let a = read_ops(RM::Sync, &s.ops, &data, &plan, limit)?;
        for m in RMS {
            if matches!(m, RM::Sync | RM::Async) {
                continue;
            }
            let o = read_ops(*m, &s.ops, &data, &plan, limit)?;
            c.eval();
            let buffered = *m == RM::BufR;
            for i in 0..a.got.len().max(o.got.len()) {
                let (x, y) = (a.got.get(i), o.got.get(i));
                let same = match (x, y) {
                    (Some(x), Some(y)) => x.0 == y.0 && (buffered || x.1 == y.1),
                    _ => false,
                };
                ensure!(same, "{:?}: call {} gives {:?} instead of {:?}", m, i, y, x);
            }
            ensure!(a.err == o.err, "{:?}: error {:?} instead of {:?}", m, o.err, a.err);
        }
        Ok(())
    });
    // whole values, skips and lists
    ctx.group("values", ctx.n(80_000, 3_000_000), |c| {
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
        let x = mk(t, &v);
        let plan = Plan::rough(&mut c.rng);
        let a = write_v(&*x, Mode::Sync, &plan)?;
        let an = a.r.map_err(|e| format!("write failed {:?}", e))?;
        c.sample(|| format!("{}: {}", t.name(), v.short()));
        let mut outs: Vec<(&str, Result<usize, E>, Vec<u8>)> = vec![];
        {
            let mut w = MonWriter::new(plan.clone());
            let r = sut_cap(i64::MAX, || x.write_box(&mut Box::new(TCompactOutputProtocol::new(&mut w)))).0?;
            outs.push(("Box<protocol>", r.map_err(e_of), w.out));
            let mut w = MonWriter::new(plan.clone());
            let r = sut_cap(i64::MAX, || {
                let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(&mut w));
                x.write_dyn(&mut p)
            })
            .0?;
            outs.push(("Box<dyn protocol>", r.map_err(e_of), w.out));
            let mut w = MonWriter::new(plan.clone());
            let r = sut_cap(i64::MAX, || {
                let b: Box<dyn std::io::Write> = Box::new(&mut w);
                x.write_w(&mut TCompactOutputProtocol::new(b))
            })
            .0?;
            outs.push(("Box<dyn Write>", r.map_err(e_of), w.out));
            let mut w = MonWriter::new(plan.clone());
            let r = sut_cap(i64::MAX, || {
                let b: Box<dyn std::io::Write> = Box::new(std::io::BufWriter::with_capacity(11, &mut w));
                x.write_w(&mut TCompactOutputProtocol::new(b))
            })
            .0?;
            outs.push(("BufWriter", r.map_err(e_of), w.out));
            let mut w = vec![];
            let r = sut_cap(i64::MAX, || x.write_vec(&mut TCompactOutputProtocol::new(&mut w))).0?;
            outs.push(("Vec", r.map_err(e_of), w));
        }
        for (n, r, out) in outs {
            c.eval();
            ensure!(r == Ok(an), "write of {} through {} returned {:?} instead of {}", t.name(), n, r, an);
            ensure!(out == a.w.out, "write of {} through {} delivered {} instead of {}", t.name(), n, hex(&out), hex(&a.w.out));
        }
        // reading back, possibly damaged
        let mut b = a.w.out.clone();
        let mut plan = plan;
        let mut limit = usize::MAX;
        match c.rng.below(6) {
            0 => b.truncate(c.rng.below(b.len() as u64 + 1) as usize),
            1 if !b.is_empty() => {
                let i = c.rng.below(b.len() as u64) as usize;
                b[i] = c.rng.u64() as u8;
            }
            2 => {
                let at = c.rng.below(b.len() as u64 + 1) as usize;
                plan = plan.with_fault(at, Fault::Err(*c.rng.pick(KINDS)));
            }
            3 => limit = c.rng.below(200) as usize,
            _ => {}
        }
        c.seen_bytes(3, &b);
        let data = arc(&b);
        let a = read_t(t, Mode::Sync, &data, &plan, limit)?;
        let mut check = |name: &str, r: DRes, pos: Option<usize>| -> Res {
            c.eval();
            let r = r.map_err(e_of);
            let same = match (&a.r, &r) {
                (Ok(x), Ok(y)) => x.eq_dyn(&**y),
                (Err(x), Err(y)) => x == y,
                _ => false,
            };
            ensure!(
                same,
                "read of {} through {}: {} instead of {}; input {}",
                t.name(),
                name,
                r.map(|v| v.tree().short()).unwrap_or_else(|e| format!("{:?}", e)),
                a.kind(),
                hex(&data)
            );
            if let Some(p) = pos {
                ensure!(p == a.pos, "read of {} through {} took {} bytes instead of {}", t.name(), name, p, a.pos);
            }
            Ok(())
        };
        let mut rd = MonReader::new(data.clone(), plan.clone());
        let r = sut(|| t.read_box(&mut Box::new(TCompactInputProtocol::new(&mut rd, limit))))?;
        check("Box<protocol>", r, Some(rd.pos))?;
        let mut rd = MonReader::new(data.clone(), plan.clone());
        let r = sut(|| {
            let b: Box<dyn std::io::Read> = Box::new(&mut rd);
            t.read_r(&mut TCompactInputProtocol::new(b, limit))
        })?;
        check("Box<dyn Read>", r, Some(rd.pos))?;
        let mut rd = MonReader::new(data.clone(), plan.clone());
        let r = sut(|| {
            let b: Box<dyn std::io::Read> = Box::new(std::io::BufReader::with_capacity(13, &mut rd));
            t.read_r(&mut TCompactInputProtocol::new(b, limit))
        })?;
        check("BufReader", r, None)?;
        if plan.fault.is_none() {
            let mut s: &[u8] = &data;
            let r = sut(|| t.read_slice(&mut TCompactInputProtocol::new(&mut s, limit)))?;
            check("&mut &[u8]", r, Some(data.len() - s.len()))?;
        }
        let mut rd = MonReader::new(data.clone(), plan.clone());
        let r = sut(|| t.read_tr(&mut TCompactInputProtocol::new(&mut rd, limit)))?;
        check("ReadThrift", r, Some(rd.pos))
    });
    // skipping (also to a given depth) through a boxed protocol
    ctx.group("skips", ctx.n(40_000, 1_500_000), |c| {
        let code = *c.rng.pick(&ELEMS);
        let v = if c.rng.chance(1, 3) {
            let d = c.rng.range(1, 80) as usize;
            gen_deep(&mut c.rng, d, &[9, 10, 11, 12])
        } else {
            gen_any(&mut c.rng, code, 4)
        };
        let code = v.code();
        let mut b = encode(&v);
        if c.rng.chance(1, 4) {
            b.truncate(c.rng.below(b.len() as u64 + 1) as usize);
        }
        let depth = c.rng.chance(1, 2).then(|| c.rng.below(128) as i8);
        let limit = if c.rng.chance(1, 3) { c.rng.below(300) as usize } else { usize::MAX };
        let data = arc(&b);
        c.seen_bytes(4, &b);
        let plan = Plan::rough(&mut c.rng);
        let (a, ard, _) = skip_one(Mode::Sync, code, depth, &data, &plan, limit)?;
        let mut rd = MonReader::new(data.clone(), plan.clone());
        let r = sut(|| {
            let mut p = Box::new(TCompactInputProtocol::new(&mut rd, limit));
            match depth {
                Some(d) => p.skip_till_depth(tt(code), d),
                None => p.skip(tt(code)),
            }
        })?
        .map_err(e_of);
        c.eval();
        ensure!(r == a && rd.pos == ard.pos, "skip of {} to depth {:?} through Box: {:?} at {} instead of {:?} at {}", v.short(), depth, r, rd.pos, a, ard.pos);
        Ok(())
    });
    // application errors through every adaptor are part of C23
}

fn tail<T: Debug>(x: &[T]) -> String {
    let k = x.len().saturating_sub(4);
    format!("..{:?}", &x[k..])
}

// ------------------------------------------------------------------ C23

const APP: [ApplicationErrorKind; 11] = [
    ApplicationErrorKind::Unknown,
    ApplicationErrorKind::UnknownMethod,
    ApplicationErrorKind::InvalidMessageType,
    ApplicationErrorKind::WrongMethodName,
    ApplicationErrorKind::BadSequenceId,
    ApplicationErrorKind::MissingResult,
    ApplicationErrorKind::InternalError,
    ApplicationErrorKind::ProtocolError,
    ApplicationErrorKind::InvalidTransform,
    ApplicationErrorKind::InvalidProtocol,
    ApplicationErrorKind::UnsupportedClientType,
];
const TRA: [TransportErrorKind; 7] = [
    TransportErrorKind::Unknown,
    TransportErrorKind::NotOpen,
    TransportErrorKind::AlreadyOpen,
    TransportErrorKind::TimedOut,
    TransportErrorKind::EndOfFile,
    TransportErrorKind::NegativeSize,
    TransportErrorKind::SizeLimit,
];
const PRO: [ProtocolErrorKind; 7] = [
    ProtocolErrorKind::Unknown,
    ProtocolErrorKind::InvalidData,
    ProtocolErrorKind::NegativeSize,
    ProtocolErrorKind::SizeLimit,
    ProtocolErrorKind::BadVersion,
    ProtocolErrorKind::NotImplemented,
    ProtocolErrorKind::DepthLimit,
];

pub fn kinds_of(x: i32) -> Res {
    let want = |n: usize| (x >= 0 && (x as usize) < n).then_some(x as usize);
    let g = ApplicationErrorKind::try_from(x).ok();
    ensure!(g == want(11).map(|i| APP[i]), "ApplicationErrorKind::try_from({}) is {:?}", x, g);
    let g = TransportErrorKind::try_from(x).ok();
    ensure!(g == want(7).map(|i| TRA[i]), "TransportErrorKind::try_from({}) is {:?}", x, g);
    let g = ProtocolErrorKind::try_from(x).ok();
    ensure!(g == want(7).map(|i| PRO[i]), "ProtocolErrorKind::try_from({}) is {:?}", x, g);
    Ok(())
}

pub fn gen_string(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let s: &String = r.pick(&dict().strs);
        s.clone()
    } else {
        let n = len_edge(r, 2000);
        String::from_utf8(gen_utf8(r, n)).unwrap()
    }
}

/// Reads an application error; (result, bytes taken).
pub fn read_app(data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<(Result<ApplicationError, E>, usize, AllocStats, u64), String> {
    let mut plan = plan.clone();
    plan.pending = 0;
    let mut rd = MonReader::new(data.clone(), plan);
    let (r, a) = sut_cap(DEFAULT_CAP, || {
        let mut p = TCompactInputProtocol::new(&mut rd, limit);
        Error::read_application_error_from_in_protocol(&mut p)
    });
    let r = r.map_err(|e| format!("reading an application error from {}: {}", hex(data), e))?;
    ensure!(!rd.runaway, "reading an application error from {} does not terminate", hex(data));
    Ok((r.map_err(e_of), rd.pos, a, rd.calls))
}

pub fn c23(ctx: &Ctx) {
    ctx.group("round-trip", ctx.n(80_000, 3_000_000), |c| {
        let k = c.idx as usize % 11;
        let msg = gen_string(&mut c.rng);
        let e = match c.rng.below(3) {
            0 => ApplicationError { kind: APP[k], message: msg.clone() },
            1 => ApplicationError::new(APP[k], msg.clone()),
            _ => match new_application_error(APP[k], msg.as_str()) {
                Error::Application(e) => e,
                e => return Err(format!("new_application_error made {:?}", e)),
            },
        };
        ensure!(e.kind as i32 == k as i32 && e.message == msg, "constructor changed its arguments: {:?}", e);
        let mut w = MonWriter::new(Plan::rough(&mut c.rng));
        let how = c.rng.below(3);
        let r = sut(|| match how {
            0 => Error::write_application_error_to_out_protocol(&e, &mut TCompactOutputProtocol::new(&mut w)),
            1 => Error::write_application_error_to_out_protocol(&e, &mut Box::new(TCompactOutputProtocol::new(&mut w))),
            _ => {
                let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(&mut w));
                Error::write_application_error_to_out_protocol(&e, &mut *p)
            }
        })?;
        ensure!(r.is_ok(), "writing {:?} failed: {:?}", e, r);
        c.seen_bytes(1, &w.out);
        c.sample(|| format!("{:?} -> {}", e, hex(&w.out)));
        let mut d = Dec::new(&w.out);
        let v = d.val(12)?;
        ensure!(d.pos == w.out.len() && v.clone().sorted() == V::St(vec![(1, V::Bin(msg.clone().into_bytes())), (2, V::I32(k as i32))]), "{:?} is on the wire as {}", e, v.short());
        let mut b = w.out.clone();
        let n = b.len();
        let extra = c.rng.below(4) as usize;
        b.extend(c.rng.bytes(extra));
        let (r, pos, ..) = read_app(&arc(&b), &Plan::rough(&mut c.rng), usize::MAX)?;
        c.eval();
        let g = r.map_err(|x| format!("reading {:?} back failed: {:?}", e, x))?;
        ensure!(g == e && g.kind as i32 == k as i32 && g.message == msg, "{:?} read back as {:?}", e, g);
        ensure!(pos == n, "reading {:?} back took {} of {} bytes", e, pos, n);
        // through a box
        let mut s: &[u8] = &b;
        let g = sut(|| Error::read_application_error_from_in_protocol(&mut Box::new(TCompactInputProtocol::new(&mut s, usize::MAX))))?;
        ensure!(g.as_ref().ok() == Some(&e), "{:?} read back through a box as {:?}", e, g);
        // in front of a transport that fails
        let at = c.rng.below(n as u64) as usize;
        let kind = *c.rng.pick(KINDS);
        let mut w = MonWriter::new(Plan::plain().with_fault(at, Fault::Err(kind)));
        let r = sut(|| Error::write_application_error_to_out_protocol(&e, &mut TCompactOutputProtocol::new(&mut w)))?.map_err(e_of);
        ensure!(matches!(&r, Err(x) if x.k == ek_of_io(kind)), "writing an application error to a transport failing ({:?}) at {} returned {:?}", kind, at, r);
        let mut w = MonWriter::plain();
        w.flush_err = Some(kind);
        let r = sut(|| Error::write_application_error_to_out_protocol(&e, &mut TCompactOutputProtocol::new(&mut w)))?;
        ensure!(r.is_err() && w.flushes == 1, "failing flush after an application error: {:?}, {} flushes", r, w.flushes);
        // truncated
        let (r, ..) = read_app(&arc(&b[..at]), &Plan::plain(), usize::MAX)?;
        ensure!(matches!(&r, Err(x) if x.k == EOF), "first {} of {} bytes of an application error read as {:?}", at, n, r);
        Ok(())
    });
    // foreign encodings: any order, absent, unknown fields and unknown kinds
    ctx.group("foreign", ctx.n(80_000, 3_000_000), |c| {
        let msg = c.rng.chance(3, 4).then(|| gen_string(&mut c.rng));
        let code = c.rng.chance(3, 4).then(|| match c.rng.below(3) {
            0 => c.rng.below(14) as i32 - 2,
            _ => int_in(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32,
        });
        let mut f = vec![];
        if let Some(m) = &msg {
            f.push((1i16, V::Bin(m.clone().into_bytes())));
        }
        if let Some(k) = code {
            f.push((2, V::I32(k)));
        }
        for _ in 0..c.rng.below(4) {
            let id = if c.rng.chance(1, 2) { c.rng.below(20) as i16 } else { int_in(&mut c.rng, -32768, 32767) as i16 };
            if id == 1 || id == 2 || f.iter().any(|x| x.0 == id) {
                continue;
            }
            let e = *c.rng.pick(&ELEMS);
            f.push((id, gen_any(&mut c.rng, e, 3)));
        }
        let v = V::St(f);
        let b = {
            let mut e = Enc::wild(&mut c.rng);
            e.shuffle = true;
            e.val(&v);
            e.out
        };
        c.seen_bytes(2, &b);
        c.sample(|| v.short());
        let (r, pos, ..) = read_app(&arc(&b), &Plan::rough(&mut c.rng), usize::MAX)?;
        c.eval();
        let g = r.map_err(|x| format!("reading the application error {} failed: {:?}", v.short(), x))?;
        let want_k = code.filter(|k| (0..11).contains(k)).map_or(ApplicationErrorKind::Unknown, |k| APP[k as usize]);
        let want_m = msg.unwrap_or_else(|| "general remote error".into());
        ensure!(g.kind == want_k, "application error {} read with kind {:?} instead of {:?}", v.short(), g.kind, want_k);
        ensure!(g.message == want_m, "application error {} read with message {:?} instead of {:?}", v.short(), g.message, want_m);
        ensure!(pos == b.len(), "application error {} took {} of {} bytes", v.short(), pos, b.len());
        Ok(())
    });
    // integer codes of the kinds; thorough: all 2^32 integers
    let near = edge_ints(i32::MIN as i64, i32::MAX as i64);
    ctx.group("codes-near", near.len() as u64, |c| {
        for d in -20..=20 {
            kinds_of((near[c.idx as usize % near.len()] as i32).wrapping_add(d))?;
        }
        c.st.evals += 41;
        c.seen(near[c.idx as usize % near.len()] as u64);
        for (i, k) in APP.iter().enumerate() {
            ensure!(*k as i32 == i as i32, "{:?} has code {}", k, *k as i32);
        }
        for (i, k) in TRA.iter().enumerate() {
            ensure!(*k as i32 == i as i32, "{:?} has code {}", k, *k as i32);
        }
        for (i, k) in PRO.iter().enumerate() {
            ensure!(*k as i32 == i as i32, "{:?} has code {}", k, *k as i32);
        }
        Ok(())
    });
    let blocks = match ctx.tier {
        Tier::Thorough => 65536u64,
        Tier::Quick => 800,
        Tier::Mini => 1,
    };
    ctx.group("codes", blocks, |c| {
        let hi = match ctx.tier {
            Tier::Thorough => c.idx,
            _ if c.idx < 4 => c.idx,
            _ => mix(c.idx ^ mix(ctx.seed)) & 0xffff,
        } as u32;
        let n = if ctx.mini() { 32 } else { 65536u32 };
        for lo in 0..n {
            kinds_of((hi << 16 | lo) as i32)?;
        }
        c.st.evals += n as u64;
        c.seen(hi as u64 | 1 << 40);
        Ok(())
    });
    ctx.group("message-types", 1, |c| {
        for b in 0..=255u8 {
            let g = TMessageType::try_from(b).ok();
            let want = match b {
                1..=4 => Some(mt(b)),
                _ => None,
            };
            ensure!(g == want, "TMessageType::try_from({}) is {:?}", b, g);
            if let Some(t) = g {
                ensure!(u8::from(t) == b, "{:?} has code {}", t, u8::from(t));
            } else {
                ensure!(matches!(TMessageType::try_from(b), Err(Error::Protocol(_))), "TMessageType::try_from({}) fails with another kind", b);
            }
        }
        for a in 1..=4 {
            for b in 1..=4 {
                let r = verify_expected_message_type(mt(a), mt(b)).map_err(e_of);
                let ok = if a == b { r.is_ok() } else { matches!(&r, Err(e) if e.k == EK::A(2)) };
                ensure!(ok, "verify_expected_message_type({:?}, {:?}) is {:?}", mt(a), mt(b), r);
            }
        }
        c.st.evals += 272;
        c.seen(1);
        Ok(())
    });
    // wrapping and converting errors, and the text they are shown as
    ctx.group("texts", ctx.n(20_000, 400_000), |c| {
        let x = gen_string(&mut c.rng);
        let mut seen = std::collections::HashSet::new();
        let mut show = |fam: u8, kind: i32, own: String, dbg: String, e: Error| -> Res {
            let (d, g) = sut(|| (e.to_string(), format!("{:?}", e)))?;
            ensure!(!d.is_empty() && d == own, "error family {} kind {} shows as {:?}, wrapped as {:?}", fam, kind, own, d);
            ensure!(g == dbg, "error family {} kind {} debugs as {:?}, wrapped as {:?}", fam, kind, dbg, g);
            ensure!(seen.insert((fam, d)), "two kinds of error family {} show as {:?}", fam, own);
            Ok(())
        };
        for k in TRA {
            let e = TransportError::new(k, x.as_str());
            let (own, dbg) = (e.to_string(), format!("{:?}", e));
            show(0, k as i32, own, dbg, Error::from(e))?;
        }
        for k in PRO {
            let e = ProtocolError::new(k, x.as_str());
            let (own, dbg) = (e.to_string(), format!("{:?}", e));
            show(1, k as i32, own, dbg, Error::from(e))?;
        }
        for k in APP {
            let e = ApplicationError::new(k, x.as_str());
            let (own, dbg) = (e.to_string(), format!("{:?}", e));
            show(2, k as i32, own, dbg, Error::from(e))?;
            let w = e_of(Error::from(ApplicationError::new(k, x.as_str())));
            ensure!(w == E { k: EK::A(k as i32), msg: x.clone() }, "application error {:?} {:?} wrapped is {:?}", k, x, w);
        }
        let n = c.rng.below(64) as usize;
        let bad = String::from_utf8([x.as_bytes(), &[0xff], &vec![b'a'; n]].concat()).unwrap_err();
        let e = e_of(Error::from(bad));
        ensure!(e.k == EK::P(1), "text that is not UTF-8 became {:?}", e);
        let e = e_of(Error::from(u8::try_from(256u64 << c.rng.below(50)).unwrap_err()));
        ensure!(e.k == EK::P(1), "a number out of range became {:?}", e);
        let e = e_of(Error::from(Vec::<u64>::new().try_reserve(usize::MAX >> c.rng.below(3)).unwrap_err()));
        ensure!(e.k == SIZE, "a refused reservation became {:?}", e);
        c.st.evals += 29;
        c.seen(fnv(x.as_bytes()));
        Ok(())
    });
    ctx.group("checks", ctx.n(200_000, 8_000_000), |c| {
        let a = int_in(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32;
        let b = match c.rng.below(6) {
            0..=1 => a,
            2 => a ^ 1 << c.rng.below(32),
            3 => a.wrapping_neg(),
            4 => a.wrapping_add(1),
            _ => int_in(&mut c.rng, i32::MIN as i64, i32::MAX as i64) as i32,
        };
        let r = verify_expected_sequence_number(a, b).map_err(e_of);
        let ok = if a == b { r.is_ok() } else { matches!(&r, Err(e) if e.k == EK::A(4)) };
        ensure!(ok, "verify_expected_sequence_number({}, {}) is {:?}", a, b, r);
        let x = gen_string(&mut c.rng);
        let y = match c.rng.below(8) {
            0..=1 => x.clone(),
            2 => format!("{} ", x),
            3 => x.to_uppercase(),
            4 => x.chars().skip(1).collect(),
            5 => {
                let mut q: Vec<char> = x.chars().collect();
                q.pop();
                q.into_iter().collect()
            }
            6 => {
                let mut q: Vec<char> = x.chars().collect();
                if !q.is_empty() {
                    let i = c.rng.below(q.len() as u64) as usize;
                    q[i] = if q[i] == 'x' { 'y' } else { 'x' };
                }
                q.into_iter().collect()
            }
            _ => gen_string(&mut c.rng),
        };
        let r = verify_expected_service_call(&x, &y).map_err(e_of);
        let ok = if x == y { r.is_ok() } else { matches!(&r, Err(e) if e.k == EK::A(3)) };
        ensure!(ok, "verify_expected_service_call({:?}, {:?}) is {:?}", x, y, r);
        ensure!(verify_required_field_exists(&x, &Some(a)).is_ok(), "verify_required_field_exists rejects a present field");
        let r = verify_required_field_exists::<i32>(&x, &None).map_err(e_of);
        ensure!(matches!(&r, Err(e) if e.k == EK::P(0)), "verify_required_field_exists of an absent field is {:?}", r);
        let id = a as i16;
        let code = *c.rng.pick(&ELEMS);
        let r = field_id(&TFieldIdentifier::new(x.as_str(), tt(code), id)).map_err(e_of);
        ensure!(r == Ok(id), "field_id of field {} is {:?}", id, r);
        let r = field_id(&TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, TType::Stop, None)).map_err(e_of);
        ensure!(matches!(&r, Err(e) if e.k == EK::P(0)), "field_id of an identifier without id is {:?}", r);
        // errors made from errors
        let k = *c.rng.pick(KINDS);
        let e = e_of(Error::from(std::io::Error::new(k, x.clone())));
        ensure!(e.k == ek_of_io(k) && e.msg == x, "an I/O error {:?} {:?} became {:?}", k, x, e);
        let e = e_of(Error::from(x.as_str()));
        ensure!(e == E { k: EK::A(0), msg: x.clone() }, "a string became {:?}", e);
        let e = e_of(Error::from(x.clone()));
        ensure!(e == E { k: EK::A(0), msg: x.clone() }, "a String became {:?}", e);
        let i = c.rng.below(7) as usize;
        let e = e_of(new_transport_error(TRA[i], x.as_str()));
        ensure!(e == E { k: EK::T(i as i32), msg: x.clone() }, "new_transport_error({:?}) made {:?}", TRA[i], e);
        let e = e_of(new_protocol_error(PRO[i], x.as_str()));
        ensure!(e == E { k: EK::P(i as i32), msg: x.clone() }, "new_protocol_error({:?}) made {:?}", PRO[i], e);
        let e = e_of(Error::from(TransportError::new(TRA[i], x.clone())));
        ensure!(e == E { k: EK::T(i as i32), msg: x.clone() }, "TransportError::new({:?}) made {:?}", TRA[i], e);
        let e = e_of(Error::from(ProtocolError::new(PRO[i], x.clone())));
        ensure!(e == E { k: EK::P(i as i32), msg: x.clone() }, "ProtocolError::new({:?}) made {:?}", PRO[i], e);
        let m = TMessageIdentifier::new(x.clone(), mt(1 + c.rng.below(4) as u8), a as u32);
        ensure!(m.name == x && m.sequence_number == a as u32, "TMessageIdentifier::new made {:?}", m);
        c.st.evals += 12;
        c.seen(mix(a as u64) ^ fnv(x.as_bytes()));
        Ok(())
    });
}
