//! Sequences of single protocol operations.
use std::sync::atomic::Ordering;
use std::sync::Arc;

use pfs::thrift::protocol::*;
use pfs::thrift::Result as TRes;

use crate::io::*;
#[cfg(feature = "async")]
use crate::mon::aio;
use crate::mon::*;
use crate::rng::{dict, int_in, Rng};
use crate::v::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    MsgBegin(String, u8, u32),
    MsgEnd,
    StructBegin,
    StructEnd,
    FieldBegin(u8, i16),
    FieldEnd,
    FieldStop,
    Bool(bool),
    Bytes(Vec<u8>),
    Str(String),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Dbl(u64),
    ListBegin(u8, u32),
    ListEnd,
    SetBegin(u8, u32),
    SetEnd,
    MapBegin(Option<u8>, Option<u8>, u32),
    MapEnd,
    Byte(u8),
}

pub fn tt(c: u8) -> TType {
    match c {
        0 => TType::Stop,
        1 | 2 => TType::Bool,
        3 => TType::I08,
        4 => TType::I16,
        5 => TType::I32,
        6 => TType::I64,
        7 => TType::Double,
        8 => TType::String,
        9 => TType::List,
        10 => TType::Set,
        11 => TType::Map,
        12 => TType::Struct,
        _ => TType::Void,
    }
}
pub fn code_of(t: TType) -> u8 {
    match t {
        TType::Stop => 0,
        TType::Bool => 1,
        TType::I08 => 3,
        TType::I16 => 4,
        TType::I32 => 5,
        TType::I64 => 6,
        TType::Double => 7,
        TType::String => 8,
        TType::List => 9,
        TType::Set => 10,
        TType::Map => 11,
        TType::Struct => 12,
        _ => 99,
    }
}
pub fn mt(c: u8) -> TMessageType {
    match c {
        1 => TMessageType::Call,
        2 => TMessageType::Reply,
        3 => TMessageType::Exception,
        _ => TMessageType::OneWay,
    }
}
fn mt_code(t: TMessageType) -> u8 {
    match t {
        TMessageType::Call => 1,
        TMessageType::Reply => 2,
        TMessageType::Exception => 3,
        TMessageType::OneWay => 4,
    }
}

macro_rules! put_op {
    ($p:expr, $op:expr $(, $aw:tt)?) => {
        match $op {
            Op::MsgBegin(n, t, s) => $p.write_message_begin(&TMessageIdentifier::new(n.as_str(), mt(*t), *s))$(.$aw)?,
            Op::MsgEnd => $p.write_message_end()$(.$aw)?,
            Op::StructBegin => $p.write_struct_begin(&TStructIdentifier::new("s"))$(.$aw)?,
            Op::StructEnd => $p.write_struct_end(),
            Op::FieldBegin(c, id) => $p.write_field_begin(&TFieldIdentifier::new("f", tt(*c), *id))$(.$aw)?,
            Op::FieldEnd => $p.write_field_end(),
            Op::FieldStop => $p.write_field_stop()$(.$aw)?,
            Op::Bool(b) => $p.write_bool(*b)$(.$aw)?,
            Op::Bytes(b) => $p.write_bytes(b)$(.$aw)?,
            Op::Str(s) => $p.write_string(s)$(.$aw)?,
            Op::I8(x) => $p.write_i8(*x)$(.$aw)?,
            Op::I16(x) => $p.write_i16(*x)$(.$aw)?,
            Op::I32(x) => $p.write_i32(*x)$(.$aw)?,
            Op::I64(x) => $p.write_i64(*x)$(.$aw)?,
            Op::Dbl(x) => $p.write_double(f64::from_bits(*x))$(.$aw)?,
            Op::ListBegin(c, n) => $p.write_list_begin(&TListIdentifier::new(tt(*c), *n))$(.$aw)?,
            Op::ListEnd => $p.write_list_end()$(.$aw)?,
            Op::SetBegin(c, n) => $p.write_set_begin(&TSetIdentifier::new(tt(*c), *n))$(.$aw)?,
            Op::SetEnd => $p.write_set_end()$(.$aw)?,
            Op::MapBegin(k, v, n) => $p.write_map_begin(&TMapIdentifier::new(k.map(tt), v.map(tt), *n))$(.$aw)?,
            Op::MapEnd => $p.write_map_end()$(.$aw)?,
            Op::Byte(b) => $p.write_byte(*b)$(.$aw)?,
        }
    };
}

macro_rules! get_op {
    ($p:expr, $op:expr $(, $aw:tt)?) => {
        match $op {
            Op::MsgBegin(..) => $p.read_message_begin()$(.$aw)?.map(|m| Op::MsgBegin(m.name, mt_code(m.message_type), m.sequence_number)),
            Op::MsgEnd => $p.read_message_end()$(.$aw)?.map(|_| Op::MsgEnd),
            Op::StructBegin => $p.read_struct_begin()$(.$aw)?.map(|_| Op::StructBegin),
            Op::StructEnd => $p.read_struct_end()$(.$aw)?.map(|_| Op::StructEnd),
            Op::FieldBegin(..) | Op::FieldStop => $p.read_field_begin()$(.$aw)?.map(field_op),
            Op::FieldEnd => $p.read_field_end()$(.$aw)?.map(|_| Op::FieldEnd),
            Op::Bool(_) => $p.read_bool()$(.$aw)?.map(Op::Bool),
            Op::Bytes(_) => $p.read_bytes()$(.$aw)?.map(Op::Bytes),
            Op::Str(_) => $p.read_string()$(.$aw)?.map(Op::Str),
            Op::I8(_) => $p.read_i8()$(.$aw)?.map(Op::I8),
            Op::I16(_) => $p.read_i16()$(.$aw)?.map(Op::I16),
            Op::I32(_) => $p.read_i32()$(.$aw)?.map(Op::I32),
            Op::I64(_) => $p.read_i64()$(.$aw)?.map(Op::I64),
            Op::Dbl(_) => $p.read_double()$(.$aw)?.map(|d| Op::Dbl(d.to_bits())),
            Op::ListBegin(..) => $p.read_list_begin()$(.$aw)?.map(|l| Op::ListBegin(code_of(l.element_type), l.size)),
            Op::ListEnd => $p.read_list_end()$(.$aw)?.map(|_| Op::ListEnd),
            Op::SetBegin(..) => $p.read_set_begin()$(.$aw)?.map(|l| Op::SetBegin(code_of(l.element_type), l.size)),
            Op::SetEnd => $p.read_set_end()$(.$aw)?.map(|_| Op::SetEnd),
            Op::MapBegin(..) => $p.read_map_begin()$(.$aw)?.map(|l| Op::MapBegin(l.key_type.map(code_of), l.value_type.map(code_of), l.size)),
            Op::MapEnd => $p.read_map_end()$(.$aw)?.map(|_| Op::MapEnd),
            Op::Byte(_) => $p.read_byte()$(.$aw)?.map(Op::Byte),
        }
    };
}

fn field_op(f: TFieldIdentifier) -> Op {
    match (f.field_type, f.id) {
        (TType::Stop, None) => Op::FieldStop,
        (t, Some(id)) => Op::FieldBegin(code_of(t), id),
        (t, None) => Op::FieldBegin(100 + code_of(t), 0),
    }
}

pub fn put_sync<P: TOutputProtocol + ?Sized>(p: &mut P, op: &Op) -> TRes<usize> {
    put_op!(p, op)
}
pub fn get_sync<P: TInputProtocol>(p: &mut P, op: &Op) -> TRes<Op> {
    get_op!(p, op)
}
/// The same reads, leaf values through their `ReadThrift` implementations.
pub fn get_trait<P: TInputProtocol>(p: &mut P, op: &Op) -> TRes<Op> {
    match op {
        Op::Bool(_) => bool::read_from_in_protocol(p).map(Op::Bool),
        Op::Byte(_) => u8::read_from_in_protocol(p).map(Op::Byte),
        Op::I64(_) => i64::read_from_in_protocol(p).map(Op::I64),
        Op::Str(_) => String::read_from_in_protocol(p).map(Op::Str),
        Op::Bytes(_) => <Vec<u8>>::read_from_in_protocol(p).map(Op::Bytes),
        _ => get_sync(p, op),
    }
}
#[cfg(feature = "async")]
pub async fn get_atrait<P: TInputStreamProtocol>(p: &mut P, op: &Op) -> TRes<Op> {
    match op {
        Op::Bool(_) => bool::stream_from_in_protocol(p).await.map(Op::Bool),
        Op::Byte(_) => u8::stream_from_in_protocol(p).await.map(Op::Byte),
        Op::I64(_) => i64::stream_from_in_protocol(p).await.map(Op::I64),
        Op::Str(_) => String::stream_from_in_protocol(p).await.map(Op::Str),
        Op::Bytes(_) => <Vec<u8>>::stream_from_in_protocol(p).await.map(Op::Bytes),
        _ => get_async(p, op).await,
    }
}
#[cfg(feature = "async")]
pub async fn put_async<P: TOutputStreamProtocol>(p: &mut P, op: &Op) -> TRes<usize> {
    put_op!(p, op, await)
}
#[cfg(feature = "async")]
pub async fn get_async<P: TInputStreamProtocol>(p: &mut P, op: &Op) -> TRes<Op> {
    get_op!(p, op, await)
}

// --------------------------------------------------------------- sequences

/// What is written in one go: a bare value or a message around a struct.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Val(V),
    Msg(String, u8, u32, V),
}

impl Item {
    pub fn encode(&self, e: &mut Enc) {
        match self {
            Item::Val(v) => e.val(v),
            Item::Msg(n, t, s, v) => {
                e.out.push(0x82);
                e.out.push(t << 5 | 1);
                put_uv(&mut e.out, *s as u64);
                e.val(&V::Bin(n.clone().into_bytes()));
                e.val(v);
            }
        }
    }
    pub fn value(&self) -> &V {
        match self {
            Item::Val(v) | Item::Msg(_, _, _, v) => v,
        }
    }
}

/// The calls that write (or read) a value.
pub fn flatten(v: &V, out: &mut Vec<Op>, r: &mut Rng) {
    match v {
        V::Bool(b) => out.push(Op::Bool(*b)),
        V::I8(x) => {
            if r.chance(1, 8) {
                out.push(Op::Byte(*x as u8))
            } else {
                out.push(Op::I8(*x))
            }
        }
        V::I16(x) => out.push(Op::I16(*x)),
        V::I32(x) => out.push(Op::I32(*x)),
        V::I64(x) => out.push(Op::I64(*x)),
        V::Dbl(x) => out.push(Op::Dbl(*x)),
        V::Bin(b) => match String::from_utf8(b.clone()) {
            Ok(s) if r.chance(1, 2) => out.push(Op::Str(s)),
            _ => out.push(Op::Bytes(b.clone())),
        },
        V::List(c, e) => {
            out.push(Op::ListBegin(*c, e.len() as u32));
            e.iter().for_each(|x| flatten(x, out, r));
            out.push(Op::ListEnd);
        }
        V::Set(c, e) => {
            out.push(Op::SetBegin(*c, e.len() as u32));
            e.iter().for_each(|x| flatten(x, out, r));
            out.push(Op::SetEnd);
        }
        V::Map(k, t, e) => {
            if e.is_empty() {
                out.push(Op::MapBegin(None, None, 0));
            } else {
                out.push(Op::MapBegin(Some(*k), Some(*t), e.len() as u32));
            }
            for (a, b) in e {
                flatten(a, out, r);
                flatten(b, out, r);
            }
            out.push(Op::MapEnd);
        }
        V::St(f) => {
            out.push(Op::StructBegin);
            for (id, x) in f {
                out.push(Op::FieldBegin(x.code(), *id));
                flatten(x, out, r);
                out.push(Op::FieldEnd);
            }
            out.push(Op::FieldStop);
            out.push(Op::StructEnd);
        }
    }
}

pub fn flat_item(i: &Item, out: &mut Vec<Op>, r: &mut Rng) {
    match i {
        Item::Val(v) => flatten(v, out, r),
        Item::Msg(n, t, s, v) => {
            out.push(Op::MsgBegin(n.clone(), *t, *s));
            flatten(v, out, r);
            out.push(Op::MsgEnd);
        }
    }
}

pub fn gen_item(r: &mut Rng) -> Item {
    match r.below(6) {
        0 => {
            let d = r.range(1, 40) as usize;
            Item::Val(gen_deep(r, d, &[9, 10, 11, 12]))
        }
        1 => {
            let n = if r.chance(1, 3) {
                let s: &String = r.pick(&dict().strs);
                s.clone()
            } else {
                let k = len_edge(r, 300);
                String::from_utf8(gen_utf8(r, k)).unwrap()
            };
            let t = r.range(1, 4) as u8;
            let s = int_in(r, 0, u32::MAX as i64) as u32;
            Item::Msg(n, t, s, gen_any(r, 12, 3))
        }
        2 => {
            // a struct with many ids in any order and of any distance
            let n = r.range(1, 30);
            let mut f: Vec<(i16, V)> = vec![];
            let mut id = 0i64;
            for _ in 0..n {
                id = match r.below(6) {
                    0 => int_in(r, -32768, 32767),
                    1 => id + r.range(13, 17) as i64,
                    2 => id - r.range(1, 20) as i64,
                    _ => id + r.range(1, 3) as i64,
                }
                .clamp(-32768, 32767);
                if f.iter().any(|x| x.0 as i64 == id) {
                    continue;
                }
                let c = *r.pick(&[1, 1, 1, 3, 4, 5, 6, 7, 8, 12]);
                let x = if c == 12 { V::St(vec![(*r.pick(&[1, 5, 300]), V::Bool(true))]) } else { gen_any(r, c, 1) };
                f.push((id as i16, x));
            }
            Item::Val(V::St(f))
        }
        _ => {
            let c = *r.pick(&ELEMS);
            let d = r.range(1, 4) as usize;
            Item::Val(gen_any(r, c, d))
        }
    }
}

pub fn gen_items(r: &mut Rng) -> Vec<Item> {
    let n = r.range(1, 5);
    (0..n).map(|_| gen_item(r)).collect()
}

pub struct Seq {
    pub items: Vec<Item>,
    pub ops: Vec<Op>,
    pub bytes: Arc<[u8]>,
    pub charge: u64,
}

pub fn seq(items: Vec<Item>, r: &mut Rng) -> Seq {
    let mut ops = vec![];
    let mut e = Enc::canonical();
    for i in &items {
        flat_item(i, &mut ops, r);
        i.encode(&mut e);
    }
    let charge = e.charge(std::mem::size_of::<usize>() as u64);
    Seq {
        items,
        ops,
        bytes: Arc::from(e.out),
        charge,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WM {
    Sync,
    Async,
    Box,
    BoxDyn,
    RefDyn,
    BoxBox,
    /// transport adaptors
    RefW,
    BoxW,
    DynW,
    BufW,
}
#[cfg(feature = "async")]
pub const WMS: &[WM] = &[WM::Sync, WM::Async, WM::Box, WM::BoxDyn, WM::RefDyn, WM::BoxBox, WM::RefW, WM::BoxW, WM::DynW, WM::BufW];
#[cfg(not(feature = "async"))]
pub const WMS: &[WM] = &[WM::Sync, WM::Box, WM::BoxDyn, WM::RefDyn, WM::BoxBox, WM::RefW, WM::BoxW, WM::DynW, WM::BufW];

pub struct OpsW {
    /// (returned, delivered in total afterwards) per successful call
    pub log: Vec<(usize, u64)>,
    pub err: Option<E>,
    pub w: MonWriter,
    pub flush: Option<Result<(), E>>,
}

pub fn write_ops(m: WM, ops: &[Op], plan: &Plan, flush: bool) -> Result<OpsW, String> {
    let mut plan = plan.clone();
    if m == WM::Async {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut w = MonWriter::new(plan);
    write_ops_to(m, ops, &mut w, flush).map(|(log, err, flush)| OpsW { log, err, w, flush })
}

type WLog = (Vec<(usize, u64)>, Option<E>, Option<Result<(), E>>);

pub fn write_ops_to(m: WM, ops: &[Op], w: &mut MonWriter, flush: bool) -> Result<WLog, String> {
    let wt = watch();
    w.watch = Some(wt.clone());
    let mut log: Vec<(usize, u64)> = Vec::with_capacity(ops.len());
    let mut err = None;
    let mut fl: Option<Result<(), E>> = None;
    macro_rules! run {
        ($p:expr) => {{
            for op in ops {
                match put_sync($p, op) {
                    Ok(n) => log.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
            if flush {
                fl = Some($p.flush().map_err(e_of));
            }
            Ok(())
        }};
    }
    let r: Result<Result<(), String>, String> = sut_cap(i64::MAX, || match m {
        WM::Sync => {
            let mut p = TCompactOutputProtocol::new(w);
            run!(&mut p)
        }
        WM::Box => {
            let mut p = Box::new(TCompactOutputProtocol::new(w));
            run!(&mut p)
        }
        WM::BoxBox => {
            let mut p = Box::new(Box::new(TCompactOutputProtocol::new(w)));
            run!(&mut p)
        }
        WM::BoxDyn => {
            let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(w));
            run!(&mut p)
        }
        WM::RefDyn => {
            let mut q = TCompactOutputProtocol::new(w);
            let p: &mut dyn TOutputProtocol = &mut q;
            run!(p)
        }
        WM::RefW => {
            let mut w = w;
            let mut p = TCompactOutputProtocol::new(&mut w);
            run!(&mut p)
        }
        WM::BoxW => {
            let mut p = TCompactOutputProtocol::new(Box::new(w));
            run!(&mut p)
        }
        WM::DynW => {
            let b: Box<dyn std::io::Write> = Box::new(w);
            let mut p = TCompactOutputProtocol::new(b);
            run!(&mut p)
        }
        WM::BufW => {
            let mut p = TCompactOutputProtocol::new(std::io::BufWriter::with_capacity(5, w));
            run!(&mut p)
        }
        #[cfg(feature = "async")]
        WM::Async => aio::block_on(async {
            let mut p = TCompactOutputStreamProtocol::new(w);
            for op in ops {
                match put_async(&mut p, op).await {
                    Ok(n) => log.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
            if flush {
                fl = Some(p.flush().await.map_err(e_of));
            }
        }),
        #[cfg(not(feature = "async"))]
        WM::Async => unreachable!(),
    })
    .0;
    r?.map_err(|e| format!("{:?} write: {}", m, e))?;
    Ok((log, err, fl))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RM {
    Sync,
    Async,
    Box,
    BoxBox,
    BoxR,
    DynR,
    BufR,
    /// leaf values through `ReadThrift` / `AsyncReadThrift`
    Trait,
    ATrait,
}
#[cfg(feature = "async")]
pub const RMS: &[RM] = &[RM::Sync, RM::Async, RM::Box, RM::BoxBox, RM::BoxR, RM::DynR, RM::BufR, RM::Trait];
#[cfg(not(feature = "async"))]
pub const RMS: &[RM] = &[RM::Sync, RM::Box, RM::BoxBox, RM::BoxR, RM::DynR, RM::BufR, RM::Trait];

pub fn rm(m: Mode) -> RM {
    match m {
        Mode::Sync => RM::Sync,
        Mode::Async => RM::Async,
    }
}
pub fn rm_trait(m: Mode) -> RM {
    match m {
        Mode::Sync => RM::Trait,
        Mode::Async => RM::ATrait,
    }
}
pub fn wm(m: Mode) -> WM {
    match m {
        Mode::Sync => WM::Sync,
        Mode::Async => WM::Async,
    }
}

pub struct OpsR {
    /// (what was read, transport position afterwards)
    pub got: Vec<(Op, u64)>,
    pub err: Option<E>,
    pub rd: MonReader,
    pub alloc: AllocStats,
}

pub fn read_ops(m: RM, ops: &[Op], data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<OpsR, String> {
    let mut plan = plan.clone();
    if matches!(m, RM::Async | RM::ATrait) {
        plan.intr = 0;
    } else {
        plan.pending = 0;
    }
    let mut rd = MonReader::new(data.clone(), plan);
    let wt = watch();
    rd.watch = Some(wt.clone());
    let mut got: Vec<(Op, u64)> = Vec::with_capacity(ops.len());
    let mut err = None;
    macro_rules! run {
        ($p:expr) => {{
            for op in ops {
                match get_sync($p, op) {
                    Ok(n) => got.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
            Ok(())
        }};
    }
    let rdr = &mut rd;
    let (r, alloc): (Result<Result<(), String>, String>, AllocStats) = sut_cap(DEFAULT_CAP, || match m {
        RM::Sync => {
            let mut p = TCompactInputProtocol::new(rdr, limit);
            run!(&mut p)
        }
        RM::Box => {
            let mut p = Box::new(TCompactInputProtocol::new(rdr, limit));
            run!(&mut p)
        }
        RM::BoxBox => {
            let mut p = Box::new(Box::new(TCompactInputProtocol::new(rdr, limit)));
            run!(&mut p)
        }
        RM::BoxR => {
            let mut p = TCompactInputProtocol::new(Box::new(rdr), limit);
            run!(&mut p)
        }
        RM::DynR => {
            let b: Box<dyn std::io::Read> = Box::new(rdr);
            let mut p = TCompactInputProtocol::new(b, limit);
            run!(&mut p)
        }
        RM::BufR => {
            let mut p = TCompactInputProtocol::new(std::io::BufReader::with_capacity(7, rdr), limit);
            run!(&mut p)
        }
        RM::Trait => {
            let mut p = TCompactInputProtocol::new(rdr, limit);
            for op in ops {
                match get_trait(&mut p, op) {
                    Ok(n) => got.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
            Ok(())
        }
        #[cfg(feature = "async")]
        RM::ATrait => aio::block_on(async {
            let mut p = TCompactInputStreamProtocol::new(rdr, limit);
            for op in ops {
                match get_atrait(&mut p, op).await {
                    Ok(n) => got.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
        }),
        #[cfg(feature = "async")]
        RM::Async => aio::block_on(async {
            let mut p = TCompactInputStreamProtocol::new(rdr, limit);
            for op in ops {
                match get_async(&mut p, op).await {
                    Ok(n) => got.push((n, wt.load(Ordering::Relaxed))),
                    Err(e) => {
                        err = Some(e_of(e));
                        break;
                    }
                }
            }
        }),
        #[cfg(not(feature = "async"))]
        RM::Async | RM::ATrait => unreachable!(),
    });
    r?.map_err(|e| format!("{:?} read: {}", m, e))?;
    if rd.runaway {
        return Err(format!("{:?} read does not terminate", m));
    }
    Ok(OpsR { got, err, rd, alloc })
}

/// first difference between the calls made and what reading gave back
pub fn diff_ops(ops: &[Op], got: &[(Op, u64)]) -> Option<String> {
    for (i, (g, _)) in got.iter().enumerate() {
        if g != &ops[i] {
            return Some(format!("call {}: wrote {:?}, read {:?}", i, ops[i], g).chars().take(400).collect());
        }
    }
    None
}

/// A skip of one bare element of wire type `code`.
pub fn skip_one(m: Mode, code: u8, depth: Option<i8>, data: &Arc<[u8]>, plan: &Plan, limit: usize) -> Result<(Result<(), E>, MonReader, AllocStats), String> {
    let t = tt(code);
    let (r, a, rd) = crate::reading!(
        m,
        data,
        plan,
        limit,
        |p| match depth {
            Some(d) => p.skip_till_depth(t, d),
            None => p.skip(t),
        },
        |p| Box::pin(async move {
            match depth {
                Some(d) => p.skip_till_depth(t, d).await,
                None => p.skip(t).await,
            }
        })
    )
    .map_err(|e| format!("{:?} skip of {:?} to depth {:?} in {}: {}", m, t, depth, hex(data), e))?;
    Ok((r, rd, a))
}
