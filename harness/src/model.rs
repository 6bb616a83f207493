//! parquet.thrift (2.9), declared independently of the code under test, and
//! type-erased access to the code's own types.
use std::any::Any;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

use pfs::thrift::protocol::*;
use pfs::thrift::Result as TRes;
use pfs::*;

use crate::mon::{MonReader, MonWriter};
use crate::v::*;

/// Anything that can be (part of) a field.
pub trait Field: Sized + Clone + Debug + Send + Sync + 'static {
    fn ty() -> Ty;
    fn tree(&self) -> V;
    fn untree(v: &V) -> Option<Self>;
    fn elem_size() -> usize {
        std::mem::size_of::<Self>()
    }
}

macro_rules! prim {
    ($t:ty, $ty:ident, $v:ident) => {
        impl Field for $t {
            fn ty() -> Ty {
                Ty::$ty
            }
            fn tree(&self) -> V {
                V::$v(*self)
            }
            fn untree(v: &V) -> Option<Self> {
                if let V::$v(x) = v {
                    Some(*x)
                } else {
                    None
                }
            }
        }
    };
}
prim!(bool, Bool, Bool);
prim!(i8, I8, I8);
prim!(i16, I16, I16);
prim!(i32, I32, I32);
prim!(i64, I64, I64);

impl Field for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn tree(&self) -> V {
        V::Bin(self.as_bytes().to_vec())
    }
    fn untree(v: &V) -> Option<Self> {
        match v {
            V::Bin(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        }
    }
}
impl Field for Vec<u8> {
    fn ty() -> Ty {
        Ty::Bin
    }
    fn tree(&self) -> V {
        V::Bin(self.clone())
    }
    fn untree(v: &V) -> Option<Self> {
        match v {
            V::Bin(b) => Some(b.clone()),
            _ => None,
        }
    }
}
/// element types of lists
pub trait Elem: Field {}
impl Elem for bool {}
impl Elem for i64 {}
impl Elem for String {}
impl Elem for Vec<u8> {}

impl<T: Elem> Field for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn tree(&self) -> V {
        V::List(T::ty().code(), self.iter().map(|x| Field::tree(x)).collect())
    }
    fn untree(v: &V) -> Option<Self> {
        match v {
            V::List(_, e) => e.iter().map(T::untree).collect(),
            _ => None,
        }
    }
    fn elem_size() -> usize {
        T::elem_size()
    }
}

/// A whole type of the code under test.
pub trait Model: Field + Eq + Ord + Hash {
    const NAME: &'static str;
    fn read<P: TInputProtocol>(p: &mut P) -> TRes<Self>;
    /// through the trait the code uses for nested values
    fn read_tr<P: TInputProtocol>(p: &mut P) -> TRes<Self>;
    fn write<P: TOutputProtocol>(&self, p: &mut P) -> TRes<usize>;
    #[cfg(feature = "async")]
    fn aread<'a, P: TInputStreamProtocol>(p: &'a mut P) -> BoxFut<'a, TRes<Self>>;
    #[cfg(feature = "async")]
    fn awrite<'a, P: TOutputStreamProtocol>(&'a self, p: &'a mut P) -> BoxFut<'a, TRes<usize>>;
    /// through the constructor function (structs), or None
    fn via_new(&self) -> Option<Self>;
    fn default_tree() -> Option<V>;
}

pub type BoxFut<'a, T> = std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send + 'a>>;

macro_rules! io_impl {
    ($n:ident) => {
        const NAME: &'static str = stringify!($n);
        fn read<P: TInputProtocol>(p: &mut P) -> TRes<Self> {
            <$n>::read_from_in_protocol(p)
        }
        fn read_tr<P: TInputProtocol>(p: &mut P) -> TRes<Self> {
            <$n as ReadThrift>::read_from_in_protocol(p)
        }
        fn write<P: TOutputProtocol>(&self, p: &mut P) -> TRes<usize> {
            self.write_to_out_protocol(p)
        }
        #[cfg(feature = "async")]
        fn aread<'a, P: TInputStreamProtocol>(p: &'a mut P) -> BoxFut<'a, TRes<Self>> {
            Box::pin(<$n>::stream_from_in_protocol(p))
        }
        #[cfg(feature = "async")]
        fn awrite<'a, P: TOutputStreamProtocol>(&'a self, p: &'a mut P) -> BoxFut<'a, TRes<usize>> {
            Box::pin(self.write_to_out_stream_protocol(p))
        }
    };
}

macro_rules! is_req {
    (!) => {
        true
    };
    (?) => {
        false
    };
}
macro_rules! put {
    (!, $f:ident, $id:expr, $e:expr) => {
        $f.push(($id, Field::tree(&$e)))
    };
    (?, $f:ident, $id:expr, $e:expr) => {
        if let Some(x) = &$e {
            $f.push(($id, Field::tree(x)))
        }
    };
}
macro_rules! get {
    (!, $f:ident, $id:expr, $t:ty) => {
        <$t as Field>::untree(&$f.iter().find(|q| q.0 == $id)?.1)?
    };
    (?, $f:ident, $id:expr, $t:ty) => {
        match $f.iter().find(|q| q.0 == $id) {
            None => None,
            Some(x) => Some(<$t as Field>::untree(&x.1)?),
        }
    };
}

macro_rules! strukt {
    ($n:ident { $($id:literal $req:tt $f:ident : $t:ty),* $(,)? } $(default $d:ident)?) => {
        impl Field for $n {
            fn ty() -> Ty {
                static S: OnceLock<Schema> = OnceLock::new();
                Ty::St(S.get_or_init(|| Schema {
                    name: stringify!($n),
                    union: false,
                    fields: vec![$(Fld { id: $id, req: is_req!($req), name: stringify!($f), ty: <$t as Field>::ty() }),*],
                }))
            }
            #[allow(unused_mut)]
            fn tree(&self) -> V {
                let mut f: Vec<(i16, V)> = vec![];
                $( put!($req, f, $id, self.$f); )*
                V::St(f)
            }
            #[allow(unused_variables)]
            fn untree(v: &V) -> Option<Self> {
                match v {
                    V::St(f) => Some($n { $($f: get!($req, f, $id, $t)),* }),
                    _ => None,
                }
            }
        }
        impl Elem for $n {}
        impl Model for $n {
            io_impl!($n);
            fn via_new(&self) -> Option<Self> {
                Some(<$n>::new($(self.$f.clone()),*))
            }
            fn default_tree() -> Option<V> {
                $( if true { return Some(Field::tree(&<$n as $d>::default())); } )?
                #[allow(unreachable_code)]
                None
            }
        }
    };
}
macro_rules! union_ {
    ($n:ident { $($id:literal $v:ident : $t:ty),* $(,)? }) => {
        impl Field for $n {
            fn ty() -> Ty {
                static S: OnceLock<Schema> = OnceLock::new();
                Ty::St(S.get_or_init(|| Schema {
                    name: stringify!($n),
                    union: true,
                    fields: vec![$(Fld { id: $id, req: false, name: stringify!($v), ty: <$t as Field>::ty() }),*],
                }))
            }
            fn tree(&self) -> V {
                match self {
                    $( $n::$v(x) => V::St(vec![($id, Field::tree(x))]), )*
                }
            }
            fn untree(v: &V) -> Option<Self> {
                let V::St(f) = v else { return None };
                if f.len() != 1 { return None }
                match f[0].0 {
                    $( $id => Some($n::$v(<$t as Field>::untree(&f[0].1)?)), )*
                    _ => None,
                }
            }
        }
        impl Elem for $n {}
        impl Model for $n {
            io_impl!($n);
            fn via_new(&self) -> Option<Self> { None }
            fn default_tree() -> Option<V> { None }
        }
    };
}
macro_rules! enum_ {
    ($n:ident { $($v:literal $c:ident),* $(,)? }) => {
        impl Field for $n {
            fn ty() -> Ty { Ty::Enum }
            fn tree(&self) -> V { V::I32(self.0) }
            fn untree(v: &V) -> Option<Self> {
                if let V::I32(x) = v { Some($n(*x)) } else { None }
            }
        }
        impl Elem for $n {}
        impl Model for $n {
            const NAME: &'static str = stringify!($n);
            fn read<P: TInputProtocol>(p: &mut P) -> TRes<Self> {
                <$n as ReadThrift>::read_from_in_protocol(p)
            }
            fn read_tr<P: TInputProtocol>(p: &mut P) -> TRes<Self> {
                <$n as ReadThrift>::read_from_in_protocol(p)
            }
            fn write<P: TOutputProtocol>(&self, p: &mut P) -> TRes<usize> {
                self.write_to_out_protocol(p)
            }
            #[cfg(feature = "async")]
            fn aread<'a, P: TInputStreamProtocol>(p: &'a mut P) -> BoxFut<'a, TRes<Self>> {
                Box::pin(<$n as AsyncReadThrift>::stream_from_in_protocol(p))
            }
            #[cfg(feature = "async")]
            fn awrite<'a, P: TOutputStreamProtocol>(&'a self, p: &'a mut P) -> BoxFut<'a, TRes<usize>> {
                Box::pin(self.write_to_out_stream_protocol(p))
            }
            fn via_new(&self) -> Option<Self> { None }
            fn default_tree() -> Option<V> { None }
        }
        impl EnumOps for $n {
            const NAMED: &'static [(&'static str, i32, $n)] = &[$((stringify!($c), $v, $n::$c)),*];
            fn known() -> &'static [$n] { $n::ENUM_VALUES }
            fn raw(&self) -> i32 { self.0 }
            fn from_raw(i: i32) -> Self { $n(i) }
            fn conv(i: i32) -> [Self; 2] { [<$n>::from(i), <$n>::from(&i)] }
            fn back(&self) -> [i32; 2] { [i32::from(*self), i32::from(self)] }
        }
    };
}

pub trait EnumOps: Model + Copy + Sized {
    const NAMED: &'static [(&'static str, i32, Self)];
    fn known() -> &'static [Self];
    fn raw(&self) -> i32;
    fn from_raw(i: i32) -> Self;
    fn conv(i: i32) -> [Self; 2];
    fn back(&self) -> [i32; 2];
}

enum_!(Type { 0 BOOLEAN, 1 INT32, 2 INT64, 3 INT96, 4 FLOAT, 5 DOUBLE, 6 BYTE_ARRAY, 7 FIXED_LEN_BYTE_ARRAY });
enum_!(ConvertedType {
    0 UTF8, 1 MAP, 2 MAP_KEY_VALUE, 3 LIST, 4 ENUM, 5 DECIMAL, 6 DATE, 7 TIME_MILLIS, 8 TIME_MICROS,
    9 TIMESTAMP_MILLIS, 10 TIMESTAMP_MICROS, 11 UINT_8, 12 UINT_16, 13 UINT_32, 14 UINT_64,
    15 INT_8, 16 INT_16, 17 INT_32, 18 INT_64, 19 JSON, 20 BSON, 21 INTERVAL
});
enum_!(FieldRepetitionType { 0 REQUIRED, 1 OPTIONAL, 2 REPEATED });
enum_!(Encoding {
    0 PLAIN, 2 PLAIN_DICTIONARY, 3 RLE, 4 BIT_PACKED, 5 DELTA_BINARY_PACKED, 6 DELTA_LENGTH_BYTE_ARRAY,
    7 DELTA_BYTE_ARRAY, 8 RLE_DICTIONARY, 9 BYTE_STREAM_SPLIT
});
enum_!(CompressionCodec { 0 UNCOMPRESSED, 1 SNAPPY, 2 GZIP, 3 LZO, 4 BROTLI, 5 LZ4, 6 ZSTD, 7 LZ4_RAW });
enum_!(PageType { 0 DATA_PAGE, 1 INDEX_PAGE, 2 DICTIONARY_PAGE, 3 DATA_PAGE_V2 });
enum_!(BoundaryOrder { 0 UNORDERED, 1 ASCENDING, 2 DESCENDING });

strukt!(Statistics {
    1 ? max: Vec<u8>, 2 ? min: Vec<u8>, 3 ? null_count: i64, 4 ? distinct_count: i64,
    5 ? max_value: Vec<u8>, 6 ? min_value: Vec<u8>
});
strukt!(StringType {} default Default);
strukt!(UUIDType {} default Default);
strukt!(MapType {} default Default);
strukt!(ListType {} default Default);
strukt!(EnumType {} default Default);
strukt!(DateType {} default Default);
strukt!(NullType {} default Default);
strukt!(DecimalType { 1 ! scale: i32, 2 ! precision: i32 });
strukt!(MilliSeconds {} default Default);
strukt!(MicroSeconds {} default Default);
strukt!(NanoSeconds {} default Default);
union_!(TimeUnit { 1 MILLIS: MilliSeconds, 2 MICROS: MicroSeconds, 3 NANOS: NanoSeconds });
strukt!(TimestampType { 1 ! is_adjusted_to_u_t_c: bool, 2 ! unit: TimeUnit });
strukt!(TimeType { 1 ! is_adjusted_to_u_t_c: bool, 2 ! unit: TimeUnit });
strukt!(IntType { 1 ! bit_width: i8, 2 ! is_signed: bool });
strukt!(JsonType {} default Default);
strukt!(BsonType {} default Default);
union_!(LogicalType {
    1 STRING: StringType, 2 MAP: MapType, 3 LIST: ListType, 4 ENUM: EnumType, 5 DECIMAL: DecimalType,
    6 DATE: DateType, 7 TIME: TimeType, 8 TIMESTAMP: TimestampType, 10 INTEGER: IntType,
    11 UNKNOWN: NullType, 12 JSON: JsonType, 13 BSON: BsonType, 14 UUID: UUIDType
});
strukt!(SchemaElement {
    1 ? type_: Type, 2 ? type_length: i32, 3 ? repetition_type: FieldRepetitionType, 4 ! name: String,
    5 ? num_children: i32, 6 ? converted_type: ConvertedType, 7 ? scale: i32, 8 ? precision: i32,
    9 ? field_id: i32, 10 ? logical_type: LogicalType
});
strukt!(DataPageHeader {
    1 ! num_values: i32, 2 ! encoding: Encoding, 3 ! definition_level_encoding: Encoding,
    4 ! repetition_level_encoding: Encoding, 5 ? statistics: Statistics
});
strukt!(IndexPageHeader {} default Default);
strukt!(DictionaryPageHeader { 1 ! num_values: i32, 2 ! encoding: Encoding, 3 ? is_sorted: bool });
strukt!(DataPageHeaderV2 {
    1 ! num_values: i32, 2 ! num_nulls: i32, 3 ! num_rows: i32, 4 ! encoding: Encoding,
    5 ! definition_levels_byte_length: i32, 6 ! repetition_levels_byte_length: i32,
    7 ? is_compressed: bool, 8 ? statistics: Statistics
});
strukt!(SplitBlockAlgorithm {} default Default);
union_!(BloomFilterAlgorithm { 1 BLOCK: SplitBlockAlgorithm });
strukt!(XxHash {} default Default);
union_!(BloomFilterHash { 1 XXHASH: XxHash });
strukt!(Uncompressed {} default Default);
union_!(BloomFilterCompression { 1 UNCOMPRESSED: Uncompressed });
strukt!(BloomFilterHeader {
    1 ! num_bytes: i32, 2 ! algorithm: BloomFilterAlgorithm, 3 ! hash: BloomFilterHash,
    4 ! compression: BloomFilterCompression
});
strukt!(PageHeader {
    1 ! type_: PageType, 2 ! uncompressed_page_size: i32, 3 ! compressed_page_size: i32, 4 ? crc: i32,
    5 ? data_page_header: DataPageHeader, 6 ? index_page_header: IndexPageHeader,
    7 ? dictionary_page_header: DictionaryPageHeader, 8 ? data_page_header_v2: DataPageHeaderV2
});
strukt!(KeyValue { 1 ! key: String, 2 ? value: String });
strukt!(SortingColumn { 1 ! column_idx: i32, 2 ! descending: bool, 3 ! nulls_first: bool });
strukt!(PageEncodingStats { 1 ! page_type: PageType, 2 ! encoding: Encoding, 3 ! count: i32 });
strukt!(ColumnMetaData {
    1 ! type_: Type, 2 ! encodings: Vec<Encoding>, 3 ! path_in_schema: Vec<String>, 4 ! codec: CompressionCodec,
    5 ! num_values: i64, 6 ! total_uncompressed_size: i64, 7 ! total_compressed_size: i64,
    8 ? key_value_metadata: Vec<KeyValue>, 9 ! data_page_offset: i64, 10 ? index_page_offset: i64,
    11 ? dictionary_page_offset: i64, 12 ? statistics: Statistics, 13 ? encoding_stats: Vec<PageEncodingStats>,
    14 ? bloom_filter_offset: i64
});
strukt!(EncryptionWithFooterKey {} default Default);
strukt!(EncryptionWithColumnKey { 1 ! path_in_schema: Vec<String>, 2 ? key_metadata: Vec<u8> });
union_!(ColumnCryptoMetaData {
    1 ENCRYPTIONWITHFOOTERKEY: EncryptionWithFooterKey, 2 ENCRYPTIONWITHCOLUMNKEY: EncryptionWithColumnKey
});
strukt!(ColumnChunk {
    1 ? file_path: String, 2 ! file_offset: i64, 3 ? meta_data: ColumnMetaData, 4 ? offset_index_offset: i64,
    5 ? offset_index_length: i32, 6 ? column_index_offset: i64, 7 ? column_index_length: i32,
    8 ? crypto_metadata: ColumnCryptoMetaData, 9 ? encrypted_column_metadata: Vec<u8>
});
strukt!(RowGroup {
    1 ! columns: Vec<ColumnChunk>, 2 ! total_byte_size: i64, 3 ! num_rows: i64,
    4 ? sorting_columns: Vec<SortingColumn>, 5 ? file_offset: i64, 6 ? total_compressed_size: i64, 7 ? ordinal: i16
});
strukt!(TypeDefinedOrder {} default Default);
union_!(ColumnOrder { 1 TYPEORDER: TypeDefinedOrder });
strukt!(PageLocation { 1 ! offset: i64, 2 ! compressed_page_size: i32, 3 ! first_row_index: i64 });
strukt!(OffsetIndex { 1 ! page_locations: Vec<PageLocation> });
strukt!(ColumnIndex {
    1 ! null_pages: Vec<bool>, 2 ! min_values: Vec<Vec<u8>>, 3 ! max_values: Vec<Vec<u8>>,
    4 ! boundary_order: BoundaryOrder, 5 ? null_counts: Vec<i64>
});
strukt!(AesGcmV1 { 1 ? aad_prefix: Vec<u8>, 2 ? aad_file_unique: Vec<u8>, 3 ? supply_aad_prefix: bool });
strukt!(AesGcmCtrV1 { 1 ? aad_prefix: Vec<u8>, 2 ? aad_file_unique: Vec<u8>, 3 ? supply_aad_prefix: bool });
union_!(EncryptionAlgorithm { 1 AESGCMV1: AesGcmV1, 2 AESGCMCTRV1: AesGcmCtrV1 });
strukt!(FileMetaData {
    1 ! version: i32, 2 ! schema: Vec<SchemaElement>, 3 ! num_rows: i64, 4 ! row_groups: Vec<RowGroup>,
    5 ? key_value_metadata: Vec<KeyValue>, 6 ? created_by: String, 7 ? column_orders: Vec<ColumnOrder>,
    8 ? encryption_algorithm: EncryptionAlgorithm, 9 ? footer_signing_key_metadata: Vec<u8>
});
strukt!(FileCryptoMetaData { 1 ! encryption_algorithm: EncryptionAlgorithm, 2 ? key_metadata: Vec<u8> });

// ----------------------------------------------------------------- erasure

pub type SyncIn<'a> = TCompactInputProtocol<&'a mut MonReader>;
pub type SyncOut<'a> = TCompactOutputProtocol<&'a mut MonWriter>;
#[cfg(feature = "async")]
pub type AsyncIn<'a> = TCompactInputStreamProtocol<&'a mut MonReader>;
#[cfg(feature = "async")]
pub type AsyncOut<'a> = TCompactOutputStreamProtocol<&'a mut MonWriter>;

pub trait DynVal: Send + Sync + 'static {
    fn any(&self) -> &dyn Any;
    fn tree(&self) -> V;
    fn eq_dyn(&self, o: &dyn DynVal) -> bool;
    fn cmp_dyn(&self, o: &dyn DynVal) -> Ordering;
    fn pcmp_dyn(&self, o: &dyn DynVal) -> Option<Ordering>;
    fn hash64(&self) -> u64;
    fn clone_dyn(&self) -> Box<dyn DynVal>;
    fn dbg(&self) -> String;
    fn via_new(&self) -> Option<Box<dyn DynVal>>;
    fn write(&self, p: &mut SyncOut) -> TRes<usize>;
    fn write_box(&self, p: &mut Box<SyncOut>) -> TRes<usize>;
    fn write_dyn(&self, p: &mut Box<dyn TOutputProtocol + '_>) -> TRes<usize>;
    fn write_w(&self, p: &mut TCompactOutputProtocol<Box<dyn std::io::Write + '_>>) -> TRes<usize>;
    fn write_vec(&self, p: &mut TCompactOutputProtocol<&mut Vec<u8>>) -> TRes<usize>;
    #[cfg(feature = "async")]
    fn awrite<'a, 'b>(&'a self, p: &'a mut AsyncOut<'b>) -> BoxFut<'a, TRes<usize>>;
}

impl<T: Model> DynVal for T {
    fn any(&self) -> &dyn Any {
        self
    }
    fn tree(&self) -> V {
        Field::tree(self)
    }
    fn eq_dyn(&self, o: &dyn DynVal) -> bool {
        o.any().downcast_ref::<T>().map_or(false, |o| self == o)
    }
    fn cmp_dyn(&self, o: &dyn DynVal) -> Ordering {
        self.cmp(o.any().downcast_ref::<T>().unwrap())
    }
    fn pcmp_dyn(&self, o: &dyn DynVal) -> Option<Ordering> {
        self.partial_cmp(o.any().downcast_ref::<T>().unwrap())
    }
    fn hash64(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    fn clone_dyn(&self) -> Box<dyn DynVal> {
        Box::new(self.clone())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn via_new(&self) -> Option<Box<dyn DynVal>> {
        Model::via_new(self).map(|x| Box::new(x) as Box<dyn DynVal>)
    }
    fn write(&self, p: &mut SyncOut) -> TRes<usize> {
        Model::write(self, p)
    }
    fn write_box(&self, p: &mut Box<SyncOut>) -> TRes<usize> {
        Model::write(self, p)
    }
    fn write_dyn(&self, p: &mut Box<dyn TOutputProtocol + '_>) -> TRes<usize> {
        Model::write(self, p)
    }
    fn write_w(&self, p: &mut TCompactOutputProtocol<Box<dyn std::io::Write + '_>>) -> TRes<usize> {
        Model::write(self, p)
    }
    fn write_vec(&self, p: &mut TCompactOutputProtocol<&mut Vec<u8>>) -> TRes<usize> {
        Model::write(self, p)
    }
    #[cfg(feature = "async")]
    fn awrite<'a, 'b>(&'a self, p: &'a mut AsyncOut<'b>) -> BoxFut<'a, TRes<usize>> {
        Model::awrite(self, p)
    }
}

pub type DRes = TRes<Box<dyn DynVal>>;

pub trait DynType: Sync + Send {
    fn name(&self) -> &'static str;
    fn ty(&self) -> &Ty;
    fn make(&self, v: &V) -> Option<Box<dyn DynVal>>;
    fn default_tree(&self) -> Option<V>;
    fn read(&self, p: &mut SyncIn) -> DRes;
    fn read_tr(&self, p: &mut SyncIn) -> DRes;
    fn read_box(&self, p: &mut Box<SyncIn>) -> DRes;
    fn read_r(&self, p: &mut TCompactInputProtocol<Box<dyn std::io::Read + '_>>) -> DRes;
    fn read_slice(&self, p: &mut TCompactInputProtocol<&mut &[u8]>) -> DRes;
    /// reads a list of this type, the way the code reads list fields
    fn read_many(&self, p: &mut SyncIn) -> TRes<Vec<Box<dyn DynVal>>>;
    #[cfg(feature = "async")]
    fn aread<'a, 'b>(&'a self, p: &'a mut AsyncIn<'b>) -> BoxFut<'a, DRes>;
    #[cfg(feature = "async")]
    fn aread_many<'a, 'b>(&'a self, p: &'a mut AsyncIn<'b>) -> BoxFut<'a, TRes<Vec<Box<dyn DynVal>>>>;
    fn size(&self) -> usize;
}

struct TypeOf<T> {
    ty: Ty,
    _p: std::marker::PhantomData<fn() -> T>,
}

fn bx<T: Model>(r: TRes<T>) -> DRes {
    r.map(|x| Box::new(x) as Box<dyn DynVal>)
}

#[cfg(not(feature = "async"))]
pub trait ListElem: ReadThrift {}
#[cfg(not(feature = "async"))]
impl<T: ReadThrift> ListElem for T {}
#[cfg(feature = "async")]
pub trait ListElem: ReadThrift + AsyncReadThrift {}
#[cfg(feature = "async")]
impl<T: ReadThrift + AsyncReadThrift> ListElem for T {}

impl<T: Model + ListElem> DynType for TypeOf<T> {
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn ty(&self) -> &Ty {
        &self.ty
    }
    fn make(&self, v: &V) -> Option<Box<dyn DynVal>> {
        T::untree(v).map(|x| Box::new(x) as Box<dyn DynVal>)
    }
    fn default_tree(&self) -> Option<V> {
        T::default_tree()
    }
    fn read(&self, p: &mut SyncIn) -> DRes {
        bx(T::read(p))
    }
    fn read_tr(&self, p: &mut SyncIn) -> DRes {
        bx(T::read_tr(p))
    }
    fn read_box(&self, p: &mut Box<SyncIn>) -> DRes {
        bx(T::read(p))
    }
    fn read_r(&self, p: &mut TCompactInputProtocol<Box<dyn std::io::Read + '_>>) -> DRes {
        bx(T::read(p))
    }
    fn read_slice(&self, p: &mut TCompactInputProtocol<&mut &[u8]>) -> DRes {
        bx(T::read(p))
    }
    fn read_many(&self, p: &mut SyncIn) -> TRes<Vec<Box<dyn DynVal>>> {
        p.read_list::<T>()
            .map(|v| v.into_iter().map(|x| Box::new(x) as Box<dyn DynVal>).collect())
    }
    #[cfg(feature = "async")]
    fn aread<'a, 'b>(&'a self, p: &'a mut AsyncIn<'b>) -> BoxFut<'a, DRes> {
        Box::pin(async move { bx(T::aread(p).await) })
    }
    #[cfg(feature = "async")]
    fn aread_many<'a, 'b>(&'a self, p: &'a mut AsyncIn<'b>) -> BoxFut<'a, TRes<Vec<Box<dyn DynVal>>>> {
        Box::pin(async move {
            p.read_list::<T>()
                .await
                .map(|v| v.into_iter().map(|x| Box::new(x) as Box<dyn DynVal>).collect())
        })
    }
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}

pub fn types() -> &'static [Box<dyn DynType>] {
    static T: OnceLock<Vec<Box<dyn DynType>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Box<dyn DynType>> = vec![];
        macro_rules! add { ($($n:ident),* $(,)?) => { $( v.push(Box::new(TypeOf::<$n> { ty: <$n as Field>::ty(), _p: Default::default() })); )* } }
        add!(
            FileMetaData, RowGroup, ColumnChunk, ColumnMetaData, PageHeader, SchemaElement, ColumnIndex,
            OffsetIndex, PageLocation, Statistics, LogicalType, KeyValue, SortingColumn, PageEncodingStats,
            DataPageHeader, DataPageHeaderV2, DictionaryPageHeader, IndexPageHeader, BloomFilterHeader,
            BloomFilterAlgorithm, BloomFilterHash, BloomFilterCompression, SplitBlockAlgorithm, XxHash,
            Uncompressed, FileCryptoMetaData, EncryptionAlgorithm, AesGcmV1, AesGcmCtrV1,
            ColumnCryptoMetaData, EncryptionWithColumnKey, EncryptionWithFooterKey, ColumnOrder,
            TypeDefinedOrder, DecimalType, TimeUnit, TimestampType, TimeType, IntType, StringType, UUIDType,
            MapType, ListType, EnumType, DateType, NullType, MilliSeconds, MicroSeconds, NanoSeconds,
            JsonType, BsonType, Type, ConvertedType, FieldRepetitionType, Encoding, CompressionCodec,
            PageType, BoundaryOrder,
        );
        v
    })
}

/// Types by weight: the larger ones are drawn more often.
pub fn pick_type(r: &mut crate::rng::Rng) -> &'static dyn DynType {
    let t = types();
    let i = match if tiny() { 7 } else { r.below(4) } {
        0 | 1 => r.below(17),
        2 => r.below(35),
        _ => r.below(t.len() as u64),
    };
    &*t[i as usize]
}

/// Largest list-element size reachable from a type, in bytes.
pub fn max_elem(ty: &Ty) -> usize {
    fn size_of_ty(t: &Ty) -> usize {
        match t {
            Ty::Bool | Ty::I8 => 1,
            Ty::I16 => 2,
            Ty::I32 | Ty::Enum => 4,
            Ty::I64 => 8,
            Ty::Str | Ty::Bin => 24,
            Ty::List(_) => 24,
            Ty::St(s) => types().iter().find(|t| t.name() == s.name).map(|t| t.size()).unwrap_or(64),
        }
    }
    match ty {
        Ty::List(t) => size_of_ty(t).max(max_elem(t)),
        Ty::St(s) => s.fields.iter().map(|f| max_elem(&f.ty)).max().unwrap_or(0),
        _ => 0,
    }
}
