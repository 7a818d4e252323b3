//! Generator of tables: schema, row groups, columns, pages; with the logical truth of every page.
use crate::choices::*;
use crate::world::*;
use parquet2::compression::{Compression, CompressionOptions};
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{Descriptor, KeyValue, SchemaDescriptor};
use parquet2::page::{CompressedDataPage, CompressedDictPage, CompressedPage, DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2, DictPage, Page};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::write::{DynIter, DynStreamingIterator, RowGroupIter, Version, WriteOptions};
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as tf;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(bool),
    I32(i32),
    I64(i64),
    I96([u32; 3]),
    F32(u32),
    F64(u64),
    Bin(Vec<u8>),
}
impl Val {
    /// plain bytes of the value alone (as in statistics)
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::B(b) => vec![*b as u8],
            Val::I32(x) => x.to_le_bytes().to_vec(),
            Val::I64(x) => x.to_le_bytes().to_vec(),
            Val::I96(x) => x.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Val::F32(x) => x.to_le_bytes().to_vec(),
            Val::F64(x) => x.to_le_bytes().to_vec(),
            Val::Bin(x) => x.clone(),
        }
    }
}

/// How values of a column compare, per the format specification.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order {
    Signed,
    Unsigned,
    /// big-endian two's complement
    SignedBytes,
    Undefined,
}
pub fn order_of(t: &PrimitiveType) -> Order {
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    let l = match t.logical_type {
        Some(L::Integer(i)) => Some(match i {
            IntegerType::UInt8 | IntegerType::UInt16 | IntegerType::UInt32 | IntegerType::UInt64 => Order::Unsigned,
            _ => Order::Signed,
        }),
        Some(L::Decimal(..)) => Some(Order::SignedBytes),
        Some(L::Unknown) => Some(Order::Undefined),
        Some(_) => None,
        None => match t.converted_type {
            Some(C::Uint8 | C::Uint16 | C::Uint32 | C::Uint64) => Some(Order::Unsigned),
            Some(C::Decimal(..)) => Some(Order::SignedBytes),
            Some(C::Interval) => Some(Order::Undefined),
            _ => None,
        },
    };
    match (t.physical_type, l) {
        (PhysicalType::Int96, _) => Order::Undefined,
        (PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_), Some(o)) => o,
        (PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_), None) => Order::Unsigned,
        (_, Some(Order::SignedBytes)) | (_, None) => Order::Signed,
        (_, Some(o)) => o,
    }
}
/// None: not comparable
pub fn cmp(o: Order, a: &Val, b: &Val) -> Option<std::cmp::Ordering> {
    if o == Order::Undefined {
        return None;
    }
    let u = o == Order::Unsigned;
    Some(match (a, b) {
        (Val::B(a), Val::B(b)) => a.cmp(b),
        (Val::I32(a), Val::I32(b)) if u => (*a as u32).cmp(&(*b as u32)),
        (Val::I32(a), Val::I32(b)) => a.cmp(b),
        (Val::I64(a), Val::I64(b)) if u => (*a as u64).cmp(&(*b as u64)),
        (Val::I64(a), Val::I64(b)) => a.cmp(b),
        (Val::F32(a), Val::F32(b)) => return f32::from_bits(*a).partial_cmp(&f32::from_bits(*b)),
        (Val::F64(a), Val::F64(b)) => return f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)),
        (Val::Bin(a), Val::Bin(b)) if o == Order::SignedBytes => {
            let ext = |x: &Vec<u8>, n: usize| {
                let s = if x.first().map(|b| b & 0x80 != 0).unwrap_or(false) { 0xff } else { 0 };
                let mut v = vec![s; n - x.len()];
                v.extend(x);
                v[0] ^= 0x80;
                v
            };
            let n = a.len().max(b.len()).max(1);
            ext(a, n).cmp(&ext(b, n))
        }
        (Val::Bin(a), Val::Bin(b)) => a.cmp(b),
        _ => return None,
    })
}
/// statistics bytes -> value
pub fn val_of(t: PhysicalType, b: &[u8]) -> Option<Val> {
    Some(match t {
        PhysicalType::Boolean => Val::B(*b.first()? != 0),
        PhysicalType::Int32 => Val::I32(i32::from_le_bytes(b.try_into().ok()?)),
        PhysicalType::Int64 => Val::I64(i64::from_le_bytes(b.try_into().ok()?)),
        PhysicalType::Int96 => Val::I96([
            u32::from_le_bytes(b.get(..4)?.try_into().ok()?),
            u32::from_le_bytes(b.get(4..8)?.try_into().ok()?),
            u32::from_le_bytes(b.get(8..12)?.try_into().ok()?),
        ]),
        PhysicalType::Float => Val::F32(u32::from_le_bytes(b.try_into().ok()?)),
        PhysicalType::Double => Val::F64(u64::from_le_bytes(b.try_into().ok()?)),
        PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_) => Val::Bin(b.to_vec()),
    })
}

#[derive(Clone, Debug)]
pub struct PageM {
    pub header: Option<DataPageHeader>,
    pub dict_n: usize,
    pub rows: usize,
    pub body: Vec<u8>,
    /// bytes at the start of a V2 body that are levels
    pub levels: usize,
    pub reps: Vec<u32>,
    pub defs: Vec<u32>,
    /// the non-null values, in order (dictionary pages: the dictionary)
    pub vals: Vec<Val>,
    /// the body really encodes `vals`
    pub real: bool,
    /// the page is handed to the writer with these of its rows selected
    pub selected: Option<Vec<Interval>>,
}
impl PageM {
    pub fn is_dict(&self) -> bool {
        self.header.is_none()
    }
    pub fn n(&self) -> usize {
        match &self.header {
            None => 0,
            Some(h) => h.num_values(),
        }
    }
    pub fn stats(&self) -> Option<&tf::Statistics> {
        match self.header.as_ref()? {
            DataPageHeader::V1(h) => h.statistics.as_ref(),
            DataPageHeader::V2(h) => h.statistics.as_ref(),
        }
    }
    pub fn stored_raw(&self) -> bool {
        matches!(&self.header, Some(DataPageHeader::V2(h)) if h.is_compressed == Some(false))
    }
    pub fn to_page(&self, d: &Descriptor, sorted: bool) -> Page {
        match &self.header {
            None => Page::Dict(DictPage::new(self.body.clone(), self.dict_n, sorted)),
            Some(h) => {
                let mut page = DataPage::new(h.clone(), self.body.clone(), d.clone(), Some(self.rows));
                if self.selected.is_some() {
                    page.selected_rows = self.selected.clone();
                }
                Page::Data(page)
            }
        }
    }
    /// the page as stored in a file, compressed by the harness
    pub fn stored(&self, c: Compression) -> Vec<u8> {
        if self.stored_raw() || c == Compression::Uncompressed {
            return self.body.clone();
        }
        match &self.header {
            Some(DataPageHeader::V2(_)) => {
                let mut v = self.body[..self.levels].to_vec();
                v.extend(crate::codec::compress(c, &self.body[self.levels..]));
                v
            }
            _ => crate::codec::compress(c, &self.body),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Feed {
    /// the library's `Compressor` with a reused buffer
    Compressor,
    /// the library's `compress`, page by page
    Compress,
    /// pages compressed outside of the library
    Pre,
}

#[derive(Clone)]
pub struct ChunkM {
    pub codec: CompressionOptions,
    pub pages: Vec<PageM>,
    pub feed: Feed,
    /// its dictionary is sorted
    pub sorted: bool,
    /// the page at this position is of another codec, or does not declare its rows
    pub twist: Option<(usize, Option<CompressionOptions>)>,
}
impl ChunkM {
    pub fn n(&self) -> usize {
        self.pages.iter().map(|p| p.n()).sum()
    }
    /// What a reader sees: it stops once it has seen all values of the chunk.
    pub fn visible(&self) -> &[PageM] {
        let last = self.pages.iter().rposition(|p| p.n() > 0).map(|i| i + 1).unwrap_or(0);
        &self.pages[..last]
    }
    pub fn compressed(&self, d: &Descriptor) -> Vec<CompressedPage> {
        self.pages
            .iter()
            .enumerate()
            .map(|(k, p)| {
                let twist = self.twist.filter(|x| x.0 == k).map(|x| x.1);
                if self.feed == Feed::Pre || p.stored_raw() || twist.is_some() {
                    let c: Compression = crate::codec::of(twist.flatten().unwrap_or(self.codec));
                    match &p.header {
                        None => CompressedPage::Dict(CompressedDictPage::new(p.stored(c), c, p.body.len(), p.dict_n, self.sorted)),
                        Some(h) => {
                            let mut page = CompressedDataPage::new(h.clone(), p.stored(c), c, p.body.len(), d.clone(), Some(p.rows).filter(|_| twist != Some(None)));
                            if let Some(x) = &p.selected {
                                page.select_rows(x.clone());
                            }
                            CompressedPage::Data(page)
                        }
                    }
                } else {
                    parquet2::write::compress(p.to_page(d, self.sorted), vec![], self.codec).expect("compressing a page")
                }
            })
            .collect()
    }
    pub fn column_bytes_hint(&self) -> usize {
        self.pages.iter().map(|p| p.body.len() + 60).sum()
    }
}
#[derive(Clone)]
pub struct GroupM {
    pub rows: usize,
    pub chunks: Vec<ChunkM>,
}
#[derive(Clone)]
pub struct TableM {
    pub schema: SchemaDescriptor,
    pub options: WriteOptions,
    pub created_by: Option<String>,
    pub kv: Option<Vec<KeyValue>>,
    pub groups: Vec<GroupM>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stats {
    /// every data page, complete
    All,
    /// drawn per page: missing, partial or complete
    Mixed,
    None,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub groups: (usize, usize),
    pub leaves: usize,
    pub pages: usize,
    pub rows: usize,
    pub nested: bool,
    /// None: drawn
    pub write_statistics: Option<bool>,
    pub stats: Option<Stats>,
    /// bodies always encode real values
    pub real: bool,
    pub codecs: bool,
    /// now and then pages of tens of kilobytes
    pub big: bool,
    /// data pages without rows or without values
    pub empty_pages: bool,
    /// statistics only for what the type orders
    pub plain_only: bool,
    /// now and then many pages, row groups, columns or levels of nesting
    pub scale: bool,
    /// and then, rarely, tens of thousands of pages, columns or values, or pages of megabytes
    pub huge: bool,
    /// the length of the filler of such pages
    pub fill: usize,
    /// now and then groups without columns, or no column at all
    pub hollow: bool,
}
pub const BASE: Cfg = Cfg {
    groups: (0, 3),
    leaves: 4,
    pages: 4,
    rows: 20,
    nested: true,
    write_statistics: None,
    stats: None,
    real: false,
    codecs: true,
    big: true,
    empty_pages: true,
    plain_only: false,
    scale: true,
    huge: true,
    fill: 0,
    hollow: false,
};

const NAMES: [&str; 9] = ["a", "b", "ab", "a.b", "list", "element", "\u{e9}", "", "A"];

fn rep_draw(nested: bool) -> Repetition {
    match pick(PLAN, if nested { 8 } else { 5 }) {
        0 | 1 | 2 => Repetition::Required,
        3 | 4 | 5 => Repetition::Optional,
        _ => Repetition::Repeated,
    }
}
/// precision and scale of a decimal of at most `max` digits
fn decimal(max: usize) -> (usize, usize) {
    let p = if chance(PLAN, 1, 3) { max } else { 1 + upick(PLAN, max) };
    let s = match pick(PLAN, 4) {
        0 => p,
        1 => 0,
        _ => upick(PLAN, p + 1),
    };
    (p, s)
}
pub fn draw_primitive(name: String, rep: Repetition) -> ParquetType {
    use PrimitiveConvertedType as C;
    use PrimitiveLogicalType as L;
    let phys = match pick(PLAN, 8) {
        0 => PhysicalType::Int32,
        1 => PhysicalType::Int64,
        2 => PhysicalType::ByteArray,
        3 => PhysicalType::Boolean,
        4 => PhysicalType::Double,
        5 => PhysicalType::Float,
        6 => PhysicalType::FixedLenByteArray(one_of(PLAN, &[1, 2, 5, 12, 16, 40])),
        _ => PhysicalType::Int96,
    };
    use IntegerType as I;
    let utc = chance(PLAN, 1, 2);
    let t = |u| L::Timestamp { unit: u, is_adjusted_to_utc: utc };
    let time = |u| L::Time { unit: u, is_adjusted_to_utc: utc };
    // a converted type, the logical type that says the same, or both
    let opts: Vec<(Option<C>, Option<L>)> = match phys {
        PhysicalType::Int32 => {
            let (p, s) = decimal(9);
            vec![
                (Some(C::Date), Some(L::Date)),
                (Some(C::Uint8), Some(L::Integer(I::UInt8))),
                (Some(C::Int16), Some(L::Integer(I::Int16))),
                (Some(C::Uint32), Some(L::Integer(I::UInt32))),
                (Some(C::Uint16), Some(L::Integer(I::UInt16))),
                (Some(C::Int8), Some(L::Integer(I::Int8))),
                (Some(C::Int32), Some(L::Integer(I::Int32))),
                (Some(C::Decimal(p, s)), Some(L::Decimal(p, s))),
                (Some(C::TimeMillis), Some(time(TimeUnit::Milliseconds))),
                (None, Some(L::Unknown)),
            ]
        }
        PhysicalType::Int64 => {
            let (p, s) = decimal(18);
            vec![
                (Some(C::TimestampMicros), Some(t(TimeUnit::Microseconds))),
                (None, Some(t(TimeUnit::Nanoseconds))),
                (Some(C::TimestampMillis), Some(t(TimeUnit::Milliseconds))),
                (Some(C::Uint64), Some(L::Integer(I::UInt64))),
                (Some(C::Int64), Some(L::Integer(I::Int64))),
                (Some(C::Decimal(p, s)), Some(L::Decimal(p, s))),
                (Some(C::TimeMicros), Some(time(TimeUnit::Microseconds))),
                (None, Some(time(TimeUnit::Nanoseconds))),
            ]
        }
        PhysicalType::ByteArray => {
            let (p, s) = decimal(1000);
            vec![
                (Some(C::Utf8), Some(L::String)),
                (Some(C::Json), Some(L::Json)),
                (Some(C::Bson), Some(L::Bson)),
                (Some(C::Enum), Some(L::Enum)),
                (Some(C::Decimal(p, s)), Some(L::Decimal(p, s))),
                (Some(C::Decimal(p, s)), Some(L::Decimal(p, s))),
            ]
        }
        PhysicalType::FixedLenByteArray(n) => {
            // the largest p with 10^p <= 2^(8n - 1) - 1
            let (p, s) = decimal(match n {
                1 => 2,
                2 => 4,
                5 => 11,
                12 => 28,
                16 => 38,
                _ => 96,
            });
            let mut v = vec![(Some(C::Decimal(p, s)), Some(L::Decimal(p, s)))];
            match n {
                16 => v.push((None, Some(L::Uuid))),
                12 => v.push((Some(C::Interval), None)),
                _ => {}
            }
            v
        }
        _ => vec![],
    };
    let (c, l) = if opts.is_empty() || chance(PLAN, 2, 5) {
        (None, None)
    } else {
        match (one_of(PLAN, &opts), pick(PLAN, 4)) {
            ((Some(c), Some(_)), 0) => (Some(c), None),
            ((Some(_), Some(l)), 1) => (None, Some(l)),
            (o, _) => o,
        }
    };
    let id = if chance(PLAN, 1, 4) { Some(pick(PLAN, 100) as i32 - 3) } else { None };
    ParquetType::try_from_primitive(name, phys, rep, c, l, id).expect("valid primitive")
}
fn draw_type(name: String, depth: usize, budget: &mut usize, nested: bool) -> ParquetType {
    if !nested || depth >= 3 || *budget <= 1 || chance(PLAN, 2, 3) {
        *budget = budget.saturating_sub(1);
        return draw_primitive(name, rep_draw(nested));
    }
    let kind = pick(PLAN, 4);
    if kind == 1 {
        let el = draw_type("element".into(), depth + 2, budget, nested);
        let l = ParquetType::from_group("list".into(), Repetition::Repeated, None, None, vec![el], None);
        return ParquetType::from_group(name, one_of(PLAN, &[Repetition::Optional, Repetition::Required]), Some(GroupConvertedType::List), Some(GroupLogicalType::List), vec![l], None);
    }
    if kind == 2 && *budget >= 2 {
        let k = draw_primitive("key".into(), Repetition::Required);
        *budget -= 1;
        let v = draw_type("value".into(), depth + 2, budget, nested);
        let kv = ParquetType::from_group("key_value".into(), Repetition::Repeated, if chance(PLAN, 1, 2) { Some(GroupConvertedType::MapKeyValue) } else { None }, None, vec![k, v], None);
        return ParquetType::from_group(name, Repetition::Optional, Some(GroupConvertedType::Map), Some(GroupLogicalType::Map), vec![kv], Some(7));
    }
    let n = 1 + upick(PLAN, 3.min(*budget));
    let fields = (0..n).map(|_| one_of(PLAN, &NAMES).to_string()).collect::<Vec<_>>();
    let mut out = vec![];
    for (i, f) in fields.into_iter().enumerate() {
        if *budget == 0 && i > 0 {
            break;
        }
        out.push(draw_type(f, depth + 1, budget, nested));
    }
    ParquetType::from_group(name, rep_draw(nested), None, None, out, if chance(PLAN, 1, 5) { Some(3) } else { None })
}
pub fn draw_schema(leaves: usize, nested: bool) -> SchemaDescriptor {
    let mut budget = 1 + upick(PLAN, leaves);
    let mut fields = vec![];
    let mut names: Vec<&str> = NAMES.to_vec();
    while budget > 0 && !names.is_empty() && fields.len() < 6 {
        let n = names.remove(upick(PLAN, names.len()));
        fields.push(draw_type(n.to_string(), 0, &mut budget, nested));
    }
    SchemaDescriptor::new(one_of(PLAN, &["schema", "", "root \u{fc}"]).to_string(), fields)
}

/// The same schema with groups that have no column, or a schema without columns.
fn hollow(s: SchemaDescriptor) -> SchemaDescriptor {
    fn empty() -> ParquetType {
        let rep = one_of(PLAN, &[Repetition::Required, Repetition::Optional, Repetition::Repeated]);
        let id = one_of(PLAN, &[None, Some(7)]);
        ParquetType::from_group(one_of(PLAN, &["h", "", "list"]).to_string(), rep, None, None, vec![], id)
    }
    let mut fields = s.fields().to_vec();
    match pick(PLAN, 4) {
        0 => {
            cover("schema=no columns");
            fields.clear();
            if chance(PLAN, 1, 3) {
                fields.push(empty());
            }
        }
        1 => {
            cover("schema=empty group in a group");
            let inner = empty();
            fields.push(ParquetType::from_group("g".into(), Repetition::Optional, None, None, vec![inner], None));
        }
        _ => {
            cover("schema=empty group");
            fields.insert(upick(PLAN, fields.len() + 1), empty());
        }
    }
    SchemaDescriptor::new(s.name().to_string(), fields)
}

/// repetitions along the path of every leaf
pub fn leaf_paths(s: &SchemaDescriptor) -> Vec<Vec<Repetition>> {
    fn go(t: &ParquetType, path: &mut Vec<Repetition>, out: &mut Vec<Vec<Repetition>>) {
        path.push(t.get_field_info().repetition);
        match t {
            ParquetType::PrimitiveType(_) => out.push(path.clone()),
            ParquetType::GroupType { fields, .. } => fields.iter().for_each(|f| go(f, path, out)),
        }
        path.pop();
    }
    let mut out = vec![];
    for f in s.fields() {
        go(f, &mut vec![], &mut out);
    }
    out
}

fn u(r: &mut Rng, n: u64) -> u64 {
    if n <= 1 {
        0
    } else {
        r.next() % n
    }
}
/// one row's entries: (rep, def, is a value)
fn row_entries(path: &[Repetition], i: usize, rep: u32, def: u32, lists: u32, null_w: u64, r: &mut Rng, out: &mut Vec<(u32, u32, bool)>) {
    if i == path.len() {
        out.push((rep, def, true));
        return;
    }
    match path[i] {
        Repetition::Required => row_entries(path, i + 1, rep, def, lists, null_w, r, out),
        Repetition::Optional => {
            if u(r, 8) < null_w {
                out.push((rep, def, false))
            } else {
                row_entries(path, i + 1, rep, def + 1, lists, null_w, r, out)
            }
        }
        Repetition::Repeated => {
            let n = u(r, 4);
            if n == 0 {
                out.push((rep, def, false));
            }
            for k in 0..n {
                row_entries(path, i + 1, if k == 0 { rep } else { lists + 1 }, def + 1, lists + 1, null_w, r, out);
            }
        }
    }
}
pub fn draw_val(t: &PhysicalType, style: u64, r: &mut Rng) -> Val {
    let int = |r: &mut Rng| -> i64 {
        match style {
            0 => u(r, 4) as i64,
            1 => u(r, 200) as i64 - 100,
            2 => r.next() as i64,
            _ => [0, -1, 1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, 255, -256][u(r, 9) as usize],
        }
    };
    match t {
        PhysicalType::Boolean => Val::B(if style == 0 { u(r, 8) == 0 } else { u(r, 2) == 1 }),
        PhysicalType::Int32 => Val::I32(int(r) as i32),
        PhysicalType::Int64 => Val::I64(int(r)),
        PhysicalType::Int96 => Val::I96([int(r) as u32, r.next() as u32, if style == 0 { u(r, 3) as u32 } else { int(r) as u32 }]),
        PhysicalType::Float => Val::F32(match style {
            0 | 1 => (int(r) as f32 / 4.0).to_bits(),
            2 => r.next() as u32,
            _ => [f32::NAN, 0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE][u(r, 6) as usize].to_bits(),
        }),
        PhysicalType::Double => Val::F64(match style {
            0 | 1 => (int(r) as f64 / 4.0).to_bits(),
            2 => r.next(),
            _ => [f64::NAN, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE][u(r, 6) as usize].to_bits(),
        }),
        PhysicalType::ByteArray => {
            let n = match style {
                0 => u(r, 3),
                1 => u(r, 9),
                2 => u(r, 40),
                _ => [0, 0, 1, 8, 31, 300][u(r, 6) as usize],
            };
            let alpha = if style == 0 { 2 } else { 256 };
            if style == 1 && u(r, 2) == 0 {
                // a number in two's complement, written with more bytes than needed
                let x = u(r, 512) as i64 - 256;
                return Val::Bin(x.to_be_bytes()[8 - (n as usize).max(1).min(8)..].to_vec());
            }
            Val::Bin((0..n).map(|_| if alpha == 2 { b'a' + u(r, 2) as u8 } else { u(r, alpha) as u8 }).collect())
        }
        PhysicalType::FixedLenByteArray(n) => {
            let alpha = if style == 0 { 2 } else { 256 };
            if style == 1 && u(r, 2) == 0 {
                let x = u(r, 512) as i128 - 256;
                let b = x.to_be_bytes();
                return Val::Bin((0..*n).map(|i| b[(16 + i).saturating_sub(*n)]).collect());
            }
            Val::Bin((0..*n).map(|_| u(r, alpha) as u8).collect())
        }
    }
}

pub fn varint(mut x: u64, out: &mut Vec<u8>) {
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn bits_for(max: u32) -> u32 {
    32 - max.leading_zeros()
}
/// RLE / bit-packed hybrid encoder with randomly mixed runs
pub fn hybrid(v: &[u32], w: u32, r: &mut Rng, out: &mut Vec<u8>) {
    let mut i = 0;
    while i < v.len() {
        // runs may be empty
        match u(r, 50) {
            0 => {
                out.push(0);
                out.extend(&v[i].wrapping_add(1).to_le_bytes()[..((w + 7) / 8) as usize]);
            }
            1 => out.push(1),
            _ => {}
        }
        let mut run = 1;
        while i + run < v.len() && v[i + run] == v[i] {
            run += 1;
        }
        let left = v.len() - i;
        if run >= 8 || (u(r, 3) == 0) || (run == left && u(r, 2) == 0) {
            let run = if run > 1 && u(r, 4) == 0 { 1 + u(r, run as u64) as usize } else { run };
            varint((run as u64) << 1, out);
            let nb = ((w + 7) / 8) as usize;
            out.extend(&v[i].to_le_bytes()[..nb]);
            i += run;
        } else {
            let groups_max = (left + 7) / 8;
            let groups = 1 + u(r, groups_max as u64) as usize;
            varint((groups as u64) << 1 | 1, out);
            let mut bits: u64 = 0;
            let mut nb = 0;
            for k in 0..groups * 8 {
                bits |= (v.get(i + k).copied().unwrap_or(0) as u64) << nb;
                nb += w;
                while nb >= 8 {
                    out.push(bits as u8);
                    bits >>= 8;
                    nb -= 8;
                }
            }
            i += (groups * 8).min(left);
        }
    }
}
pub fn plain(vals: &[Val], out: &mut Vec<u8>, t: &PhysicalType) {
    if *t == PhysicalType::Boolean {
        for c in vals.chunks(8) {
            let mut b = 0;
            for (i, v) in c.iter().enumerate() {
                if *v == Val::B(true) {
                    b |= 1 << i
                }
            }
            out.push(b);
        }
        return;
    }
    for v in vals {
        if *t == PhysicalType::ByteArray {
            out.extend((v.bytes().len() as u32).to_le_bytes());
        }
        out.extend(v.bytes());
    }
}

pub fn stats_of(vals: &[Val], nulls: usize, t: &PrimitiveType) -> tf::Statistics {
    let o = order_of(t);
    let mut min: Option<&Val> = None;
    let mut max: Option<&Val> = None;
    let ok = |v: &Val| match v {
        Val::F32(x) => !f32::from_bits(*x).is_nan(),
        Val::F64(x) => !f64::from_bits(*x).is_nan(),
        _ => true,
    };
    for v in vals.iter().filter(|v| ok(v)) {
        // for types without an order any value serves as a page bound
        if min.map(|m| cmp(o, v, m) == Some(std::cmp::Ordering::Less)).unwrap_or(true) {
            min = Some(v)
        }
        if max.map(|m| cmp(o, v, m) == Some(std::cmp::Ordering::Greater)).unwrap_or(true) {
            max = Some(v)
        }
    }
    tf::Statistics {
        max: None,
        min: None,
        null_count: Some(nulls as i64),
        distinct_count: None,
        max_value: max.map(|x| x.bytes()),
        min_value: min.map(|x| x.bytes()),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Enc {
    Plain,
    Dict,
    Opaque,
}

pub fn assemble(v2: bool, reps: &[u32], defs: &[u32], d: &Descriptor, values: &[u8], r: &mut Rng) -> (Vec<u8>, usize, usize) {
    let mut body = vec![];
    let mut lens = [0, 0];
    for (k, (lv, max)) in [(reps, d.max_rep_level), (defs, d.max_def_level)].into_iter().enumerate() {
        if max > 0 {
            let mut e = vec![];
            hybrid(lv, bits_for(max as u32), r, &mut e);
            if !v2 {
                body.extend((e.len() as u32).to_le_bytes());
            }
            lens[k] = e.len();
            body.extend(e);
        }
    }
    body.extend(values);
    (body, lens[0], lens[1])
}

#[allow(clippy::too_many_arguments)]
fn draw_page(rows: usize, path: &[Repetition], d: &Descriptor, cfg: &Cfg, stats: Stats, codec: CompressionOptions, dict: Option<&[Val]>, feed: Feed) -> PageM {
    let mut r = Rng::new(raw(DATA));
    let style = pick(PLAN, 4);
    let null_w = one_of(PLAN, &[0u64, 1, 4, 8]);
    let mut e = vec![];
    for _ in 0..rows {
        row_entries(path, 0, 0, 0, 0, null_w, &mut r, &mut e);
    }
    let reps: Vec<u32> = e.iter().map(|x| x.0).collect();
    let defs: Vec<u32> = e.iter().map(|x| x.1).collect();
    let nv = e.iter().filter(|x| x.2).count();
    let t = &d.primitive_type.physical_type;
    let enc = match dict {
        Some(dv) if !dv.is_empty() && !chance(PLAN, 1, 4) => Enc::Dict,
        _ if !cfg.real && chance(PLAN, 1, 5) => Enc::Opaque,
        _ => Enc::Plain,
    };
    let mut vals: Vec<Val> = vec![];
    let mut bytes = vec![];
    let encoding = match enc {
        Enc::Dict => {
            let dv = dict.unwrap();
            let w = bits_for(dv.len() as u32 - 1);
            let idx: Vec<u32> = (0..nv).map(|_| u(&mut r, dv.len() as u64) as u32).collect();
            vals.extend(idx.iter().map(|i| dv[*i as usize].clone()));
            bytes.push(w as u8);
            hybrid(&idx, w, &mut r, &mut bytes);
            one_of(PLAN, &[tf::Encoding::RLE_DICTIONARY, tf::Encoding::PLAIN_DICTIONARY])
        }
        Enc::Plain | Enc::Opaque => {
            vals.extend((0..nv).map(|_| draw_val(t, style, &mut r)));
            if enc == Enc::Plain {
                plain(&vals, &mut bytes, t);
                tf::Encoding::PLAIN
            } else {
                let n = u(&mut r, 64);
                bytes = (0..n).map(|_| r.next() as u8).collect();
                one_of(PLAN, &[tf::Encoding::DELTA_BINARY_PACKED, tf::Encoding::DELTA_BYTE_ARRAY, tf::Encoding::DELTA_LENGTH_BYTE_ARRAY, tf::Encoding::BYTE_STREAM_SPLIT, tf::Encoding::RLE])
            }
        }
    };
    if cfg.fill > 0 || cfg.big && chance(PLAN, 1, 40) {
        // trailing filler: readers hand it on, decoders ignore it
        let n = if cfg.fill > 0 { cfg.fill + u(&mut r, 9) as usize } else { 1000 + u(&mut r, 70_000) as usize };
        let fill: Vec<u8> = (0..n).map(|i| if i % 7 == 0 { r.next() as u8 } else { 3 }).collect();
        bytes.extend(fill);
    }
    let v2 = chance(PLAN, 2, 5);
    let (body, rl, dl) = assemble(v2, &reps, &defs, d, &bytes, &mut r);
    let mut st = match stats {
        Stats::None => None,
        Stats::All => Some(stats_of(&vals, reps.len() - nv, &d.primitive_type)),
        Stats::Mixed => match pick(PLAN, 6) {
            0 | 1 => Some(stats_of(&vals, reps.len() - nv, &d.primitive_type)),
            2 => None,
            k => {
                let mut s = stats_of(&vals, reps.len() - nv, &d.primitive_type);
                if k == 3 {
                    s.null_count = None;
                }
                if k == 4 {
                    s.max_value = None;
                }
                if k == 5 {
                    s.min_value = None;
                }
                if chance(PLAN, 1, 3) {
                    s.distinct_count = Some(nv as i64);
                }
                Some(s)
            }
        },
    };
    if stats == Stats::All {
        if let Some(s) = st.as_mut() {
            if chance(PLAN, 1, 6) {
                s.distinct_count = Some(nv as i64)
            }
        }
    }
    let header = if v2 {
        DataPageHeader::V2(DataPageHeaderV2 {
            num_values: reps.len() as i32,
            num_nulls: (reps.len() - nv) as i32,
            num_rows: rows as i32,
            encoding,
            definition_levels_byte_length: dl as i32,
            repetition_levels_byte_length: rl as i32,
            is_compressed: match (codec, pick(PLAN, 3)) {
                (CompressionOptions::Uncompressed, 1) => Some(false),
                (_, 2) if feed == Feed::Pre => Some(false),
                (_, 1) => None,
                _ => Some(true),
            },
            statistics: st,
        })
    } else {
        DataPageHeader::V1(DataPageHeaderV1 {
            num_values: reps.len() as i32,
            encoding,
            definition_level_encoding: tf::Encoding::RLE,
            repetition_level_encoding: if chance(PLAN, 1, 5) && path.len() == 1 { tf::Encoding::BIT_PACKED } else { tf::Encoding::RLE },
            statistics: st,
        })
    };
    // as if read through a page index: the writer writes all the rows all the same
    let selected = if (v2 || d.max_rep_level == 0) && chance(PLAN, 1, 16) {
        let mut x = vec![];
        let mut at = 0;
        while at < rows && x.len() < 4 && chance(PLAN, 2, 3) {
            let start = range(PLAN, at, rows - 1);
            let length = range(PLAN, 1, rows - start);
            x.push(Interval::new(start, length));
            at = start + length + 1;
        }
        cover("page=with_selected_rows");
        Some(x)
    } else {
        None
    };
    PageM { header: Some(header), dict_n: 0, rows, body, levels: if v2 { rl + dl } else { 0 }, reps, defs, vals, real: enc != Enc::Opaque, selected }
}

/// cuts `rows` rows into pages
fn cut(rows: usize, pages: usize, empty: bool) -> Vec<usize> {
    let mut out = vec![];
    let mut left = rows;
    while left > 0 && out.len() + 1 < pages {
        if empty && chance(PLAN, 1, 12) {
            out.push(0);
        }
        // many pages are small ones
        let n = 1 + upick(PLAN, if pages > 20 { left.min(3) } else { left });
        out.push(n);
        left -= n;
    }
    if left > 0 {
        out.push(left)
    }
    if empty && chance(PLAN, 1, 12) {
        out.push(0);
    }
    out
}

pub fn draw_codec(all: bool) -> CompressionOptions {
    if !all {
        return CompressionOptions::Uncompressed;
    }
    let k = pick(PLAN, 100);
    crate::codec::options(match k {
        0..=27 => 0,
        28..=51 => 1,
        52..=64 => 2,
        65..=79 => 3,
        80..=87 => 4,
        88..=94 => 5,
        95 => 6,
        96 | 97 => 7,
        _ => 8,
    })
}

pub fn draw_chunk(rows: usize, path: &[Repetition], d: &Descriptor, cfg: &Cfg, stats: Stats) -> ChunkM {
    let codec = draw_codec(cfg.codecs);
    let feed = one_of(PLAN, &[Feed::Compressor, Feed::Compress, Feed::Pre]);
    let mut pages = vec![];
    let t = &d.primitive_type.physical_type;
    let mut dict = None;
    if *t != PhysicalType::Boolean && chance(PLAN, 2, 5) {
        let mut r = Rng::new(raw(DATA));
        let n = if cfg.rows > 500 { one_of(PLAN, &[40usize, 300, 70_000]) } else { one_of(PLAN, &[1usize, 2, 3, 9, 40]) };
        let style = pick(PLAN, 4);
        let vals: Vec<Val> = (0..n).map(|_| draw_val(t, style, &mut r)).collect();
        let mut body = vec![];
        plain(&vals, &mut body, t);
        pages.push(PageM { header: None, dict_n: n, rows: 0, body, levels: 0, reps: vec![], defs: vec![], vals: vals.clone(), real: true, selected: None });
        dict = Some(vals);
    }
    let np = if cfg.pages > 20 { cfg.pages } else { 1 + upick(PLAN, cfg.pages) };
    for rows in cut(rows, np, cfg.empty_pages) {
        let mut p = draw_page(rows, path, d, cfg, stats, codec, dict.as_deref(), feed);
        if feed != Feed::Pre && codec != CompressionOptions::Uncompressed {
            if let Some(DataPageHeader::V2(h)) = p.header.as_mut() {
                if h.is_compressed == Some(false) {
                    h.is_compressed = Some(true)
                }
            }
        }
        pages.push(p);
    }
    ChunkM { codec, pages, feed, sorted: chance(PLAN, 1, 4), twist: None }
}

pub fn draw_kv() -> Option<Vec<KeyValue>> {
    if chance(PLAN, 1, 2) {
        return None;
    }
    let n = upick(PLAN, 4);
    let mut v: Vec<KeyValue> = (0..n)
        .map(|i| KeyValue {
            key: one_of(PLAN, &["k", "", "\u{4e2d}\u{6587}", "ARROW:schema"]).to_string(),
            value: one_of(PLAN, &[None, Some(String::new()), Some(format!("v{}", i))]),
        })
        .collect();
    if chance(PLAN, 1, 25) {
        // a footer that does not fit in the first tail read
        let n = 60_000 + upick(PLAN, 20_000);
        v.push(KeyValue { key: "big".into(), value: Some("x".repeat(n)) });
    }
    Some(v)
}

/// Leaves below a chain of groups.
fn draw_deep() -> SchemaDescriptor {
    let depth = one_of(PLAN, &[4usize, 9, 25, 60, 150, 255]);
    let leaves = if depth > 100 { 1 } else { one_of(PLAN, &[1usize, 3, 20, 60]) };
    let names = one_of(PLAN, &[["a", "b"], ["list", "element"], ["a_long_name_of_a_group", "x"]]);
    let mut fields: Vec<ParquetType> = (0..leaves).map(|k| draw_primitive(format!("{}{}", names[1], k % 10), rep_draw(false))).collect();
    let mut repeated = 0;
    for k in 0..depth {
        let mut rep = one_of(PLAN, &[Repetition::Optional, Repetition::Required, Repetition::Optional, Repetition::Repeated]);
        if rep == Repetition::Repeated {
            repeated += 1;
            if repeated > 2 {
                rep = Repetition::Required;
            }
        }
        fields = vec![ParquetType::from_group(names[k % 2].to_string(), rep, None, None, fields, None)];
    }
    SchemaDescriptor::new("schema".into(), fields)
}
fn draw_wide(huge: bool) -> SchemaDescriptor {
    let n = if huge { one_of(PLAN, &[1_100usize, 1_100, 33_000]) } else { one_of(PLAN, &[30usize, 100, 250]) };
    SchemaDescriptor::new("schema".into(), (0..n).map(|k| draw_primitive(if k % 3 == 0 { "c".into() } else { format!("c{}", k) }, rep_draw(false))).collect())
}

pub fn draw_table(cfg: &Cfg) -> TableM {
    let mut own = *cfg;
    let cfg = &mut own;
    let mut schema = None;
    if cfg.scale && chance(PLAN, 1, 100) {
        let kind = pick(PLAN, match (cfg.huge, cfg.big) {
            (false, _) => 4,
            (_, false) => 5,
            _ => 6,
        });
        let huge = cfg.huge && (kind > 3 || (kind % 3 == 0 && chance(PLAN, 1, 30)));
        cover(format!("scale={}{}", if huge { "huge " } else { "" }, ["pages", "row groups", "depth", "width", "values", "bodies"][kind as usize]));
        cfg.big = false;
        match kind {
            4 => {
                cfg.leaves = cfg.leaves.min(2);
                cfg.nested = cfg.nested && chance(PLAN, 1, 2);
                cfg.pages = cfg.pages.min(3);
                cfg.rows = one_of(PLAN, &[600usize, 600, 600, 600, 5_000, 5_000, 5_000, if cfg.nested { 20_000 } else { 70_000 }]);
                cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(1));
            }
            5 => {
                cfg.leaves = cfg.leaves.min(2);
                cfg.pages = cfg.pages.min(3);
                cfg.rows = 9;
                cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(1));
                cfg.fill = one_of(PLAN, &[1usize << 17, 1 << 20, (1 << 20) + 5, 3 << 20]);
            }
            0 => {
                cfg.leaves = cfg.leaves.min(2);
                cfg.nested = cfg.nested && chance(PLAN, 1, 2);
                cfg.pages = if huge { 66_000 } else { one_of(PLAN, &[60usize, 150, 400]) };
                if huge {
                    cfg.leaves = 1;
                    cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(1));
                }
                cfg.rows = cfg.pages * one_of(PLAN, &[1usize, 2]);
                cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(2));
            }
            1 => {
                cfg.leaves = cfg.leaves.min(2);
                cfg.nested = false;
                cfg.pages = 1;
                cfg.rows = 3;
                if cfg.groups.1 > 2 {
                    let n = one_of(PLAN, &[20usize, 70, 150]);
                    cfg.groups = (n, n);
                }
            }
            k => {
                cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(2));
                cfg.pages = 1;
                cfg.rows = 3;
                schema = Some(if k == 2 && cfg.nested { draw_deep() } else { draw_wide(huge) });
                if huge {
                    cfg.groups = (cfg.groups.0.min(1), cfg.groups.1.min(1));
                }
            }
        }
    }
    let cfg = &*cfg;
    let mut schema = schema.unwrap_or_else(|| draw_schema(cfg.leaves, cfg.nested));
    if cfg.hollow && chance(PLAN, 1, 40) {
        schema = hollow(schema);
    }
    let ws = cfg.write_statistics.unwrap_or_else(|| chance(PLAN, 1, 2));
    let stats = cfg.stats.unwrap_or_else(|| if ws { Stats::All } else { one_of(PLAN, &[Stats::None, Stats::Mixed, Stats::All]) });
    let paths = leaf_paths(&schema);
    let ng = range(PLAN, cfg.groups.0, cfg.groups.1);
    let mut groups = vec![];
    for _ in 0..ng {
        let rows = if chance(PLAN, 1, 12) || paths.is_empty() { 0 } else if cfg.pages > 20 || cfg.rows > 500 { cfg.rows } else { 1 + upick(PLAN, cfg.rows) };
        let chunks = schema
            .columns()
            .iter()
            .zip(&paths)
            .map(|(c, p)| draw_chunk(rows, p, &c.descriptor, cfg, stats))
            .collect();
        groups.push(GroupM { rows, chunks });
    }
    let t = TableM {
        schema,
        options: WriteOptions { write_statistics: ws, version: one_of(PLAN, &[Version::V2, Version::V1]) },
        created_by: one_of(PLAN, &[None, Some("sim version 1.0 (build 0)".to_string()), Some(String::new())]),
        kv: draw_kv(),
        groups,
    };
    t.cover();
    t
}

impl TableM {
    pub fn cover(&self) {
        cover(format!("row_groups={}", self.groups.len()));
        cover(if self.options.write_statistics { "column_index=on" } else { "column_index=off" });
        for c in self.schema.columns() {
            cover(format!("type={}", format!("{:?}", c.descriptor.primitive_type.physical_type).split('(').next().unwrap()));
            cover(format!("max_rep={}", c.descriptor.max_rep_level.min(3)));
            cover(format!("max_def={}", c.descriptor.max_def_level.min(3)));
        }
        for g in &self.groups {
            for c in &g.chunks {
                cover(format!("codec={}", format!("{:?}", c.codec).split('(').next().unwrap()));
                cover(format!("feed={:?}", c.feed));
                for p in &c.pages {
                    cover(match &p.header {
                        None => "page=dict",
                        Some(DataPageHeader::V1(_)) => "page=v1",
                        Some(DataPageHeader::V2(_)) => "page=v2",
                    });
                }
            }
        }
        note(format!(
            "table: {} row groups, leaves {:?}, write_statistics {}, kv {:?}",
            self.groups.len(),
            self.schema.columns().iter().map(|c| format!("{:?}:{:?} r{} d{}", c.path_in_schema, c.descriptor.primitive_type.physical_type, c.descriptor.max_rep_level, c.descriptor.max_def_level)).collect::<Vec<_>>(),
            self.options.write_statistics,
            self.kv.as_ref().map(|k| k.len())
        ));
        for (i, g) in self.groups.iter().enumerate() {
            for (j, c) in g.chunks.iter().enumerate() {
                note(format!(
                    "  rg{} col{} rows {} codec {:?} feed {:?} pages {:?}",
                    i,
                    j,
                    g.rows,
                    c.codec,
                    c.feed,
                    c.pages.iter().map(|p| if p.is_dict() { format!("dict[{}] {}B", p.dict_n, p.body.len()) } else { format!("{}v/{}r {}B", p.n(), p.rows, p.body.len()) }).collect::<Vec<_>>()
                ));
            }
        }
    }
    pub fn descr(&self, col: usize) -> &Descriptor {
        &self.schema.columns()[col].descriptor
    }
    pub fn size_hint(&self) -> usize {
        self.groups.iter().flat_map(|g| &g.chunks).map(|c| c.column_bytes_hint() + 400).sum::<usize>()
            + self.kv.iter().flatten().map(|k| k.key.len() + k.value.as_ref().map(|v| v.len()).unwrap_or(0)).sum::<usize>()
            + 1000
    }
}

/// What happened while a page producer was being pulled.
#[derive(Default)]
pub struct PullLog {
    /// (column, page index, length of the sink when the page was requested)
    pub pulls: Vec<(usize, usize, usize)>,
    /// (column, pulls before the column was requested, length of the sink then)
    pub opened: Vec<(usize, usize, usize)>,
}
/// Where a page producer fails: (column, page) or (column, usize::MAX) for the column itself.
pub type FailAt = Option<(usize, usize)>;

enum Src {
    Pre(Vec<CompressedPage>),
    Comp(Box<dyn FallibleStreamingIterator<Item = CompressedPage, Error = Error> + Send + Sync>),
}
pub struct Producer {
    src: Src,
    /// index + 1 of the current page; 0 before the first advance
    at: usize,
    col: usize,
    fail: FailAt,
    sink: Option<usize>,
    log: Arc<Mutex<PullLog>>,
    dead: bool,
}
impl FallibleStreamingIterator for Producer {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        let i = self.at;
        let len = self.sink.map(file_len).unwrap_or(0);
        self.log.lock().unwrap().pulls.push((self.col, i, len));
        self.at += 1;
        if self.fail == Some((self.col, i)) {
            self.dead = true;
            count_fault("producer_error");
            ev(11, self.col as u64, i as u64, 0);
            return Err(Error::OutOfSpec("simulated producer failure".into()));
        }
        match &mut self.src {
            Src::Pre(_) => Ok(()),
            Src::Comp(c) => c.advance(),
        }
    }
    fn get(&self) -> Option<&CompressedPage> {
        if self.dead {
            return None;
        }
        match &self.src {
            Src::Pre(v) => v.get(self.at.checked_sub(1)?),
            Src::Comp(c) => c.get(),
        }
    }
}

pub fn producer(c: &ChunkM, d: &Descriptor, col: usize, fail: FailAt, sink: Option<usize>, log: Arc<Mutex<PullLog>>) -> Producer {
    let src = if c.feed == Feed::Compressor && c.twist.is_none() && !c.pages.iter().any(|p| p.stored_raw()) {
        let pages: Vec<Page> = c.pages.iter().map(|p| p.to_page(d, c.sorted)).collect();
        let dirty = vec![0xEE; [0, 3, 4000][pages.len() % 3]];
        Src::Comp(Box::new(parquet2::write::Compressor::new(SyncIter(pages.into_iter().map(Ok).collect::<Vec<_>>().into_iter()), c.codec, dirty)))
    } else {
        Src::Pre(c.compressed(d))
    };
    Producer { src, at: 0, col, fail, sink, log, dead: false }
}
pub struct SyncIter(std::vec::IntoIter<Result<Page, Error>>);
// only ever used by one thread
unsafe impl Send for SyncIter {}
unsafe impl Sync for SyncIter {}
impl Iterator for SyncIter {
    type Item = Result<Page, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}
unsafe impl Send for Producer {}
unsafe impl Sync for Producer {}

/// The iterator handed to `FileWriter::write` / `FileStreamer::write`.
pub fn group_iter<'a>(t: &'a TableM, g: &'a GroupM, fail: FailAt, sink: Option<usize>, log: Arc<Mutex<PullLog>>) -> RowGroupIter<'a, Error> {
    let cols: Vec<(usize, &ChunkM)> = g.chunks.iter().enumerate().collect();
    DynIter::new(cols.into_iter().map(move |(j, c)| {
        {
            let mut l = log.lock().unwrap();
            let n = l.pulls.len();
            l.opened.push((j, n, sink.map(file_len).unwrap_or(0)));
        }
        if fail == Some((j, usize::MAX)) {
            count_fault("producer_error");
            return Err(Error::OutOfSpec("simulated column failure".into()));
        }
        // a group with more columns than the schema reuses the last descriptor
        let d = t.descr(j.min(t.schema.columns().len() - 1));
        Ok(DynStreamingIterator::new(producer(c, d, j, fail, sink, log.clone())))
    }))
}
pub fn simple_iter<'a>(t: &'a TableM, g: &'a GroupM) -> RowGroupIter<'a, Error> {
    group_iter(t, g, None, None, Default::default())
}
