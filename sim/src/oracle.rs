//! An independent reader of the file format: thrift structures and byte positions only.
//! Shares no code with the crate under test beyond the generated thrift structs.
use crate::model::*;
use crate::world::*;
use parquet2::compression::Compression;
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData, SchemaDescriptor};
use parquet2::page::DataPageHeader;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use std::io::Cursor;
use tf::thrift::protocol::TCompactInputProtocol;


macro_rules! parse {
    ($t:ty, $data:expr) => {{
        let mut c = Cursor::new($data);
        let r = {
            let mut p = TCompactInputProtocol::new(&mut c, $data.len() * 16 + 1024);
            <$t>::read_from_in_protocol(&mut p).map_err(|e| format!("{:?}", e))
        };
        r.map(|v| (v, c.position() as usize))
    }};
}

pub fn offset_index(data: &[u8], o: usize, l: usize) -> Result<tf::OffsetIndex, String> {
    let s = o.checked_add(l).and_then(|e| data.get(o..e)).ok_or("offset-index-range: ")?;
    let (oi, used) = parse!(tf::OffsetIndex, s).map_err(|e| format!("offset-index-unparsable: {}", e))?;
    ensure!(used == l, "offset-index-length: {} announced, {} used", l, used);
    Ok(oi)
}

pub struct Parsed {
    pub meta: tf::FileMetaData,
    /// where the footer's thrift starts
    pub at: usize,
}
pub fn parse_footer(data: &[u8]) -> Result<Parsed, String> {
    let n = data.len();
    if n < 12 || &data[..4] != b"PAR1" || &data[n - 4..] != b"PAR1" {
        return Err("magic bytes missing".into());
    }
    let len = u32::from_le_bytes(data[n - 8..n - 4].try_into().unwrap()) as usize;
    if len + 12 > n {
        return Err(format!("footer of {} bytes in a file of {}", len, n));
    }
    let at = n - 8 - len;
    let (meta, used) = parse!(tf::FileMetaData, &data[at..n - 8])?;
    if used != len {
        return Err(format!("footer announces {} bytes but its thrift is {} bytes", len, used));
    }
    Ok(Parsed { meta, at })
}

pub struct PageAt {
    pub header: tf::PageHeader,
    pub at: usize,
    pub body_at: usize,
    pub end: usize,
}
/// all pages in [start, end)
pub fn walk(data: &[u8], start: usize, end: usize) -> Result<Vec<PageAt>, String> {
    let mut at = start;
    let mut out = vec![];
    if end > data.len() {
        return Err(format!("chunk ends at {} beyond the file's {} bytes", end, data.len()));
    }
    while at < end {
        let (h, used) = parse!(tf::PageHeader, &data[at..end])?;
        let body_at = at + used;
        let e = body_at.saturating_add(h.compressed_page_size as usize);
        if h.compressed_page_size < 0 || e > end {
            return Err(format!("page at {} ends at {} beyond the chunk's end {}", at, e, end));
        }
        out.push(PageAt { header: h, at, body_at, end: e });
        at = e;
    }
    Ok(out)
}

fn rep(r: Repetition) -> i32 {
    match r {
        Repetition::Required => 0,
        Repetition::Optional => 1,
        Repetition::Repeated => 2,
    }
}
fn phys(t: PhysicalType) -> (i32, Option<i32>) {
    match t {
        PhysicalType::Boolean => (0, None),
        PhysicalType::Int32 => (1, None),
        PhysicalType::Int64 => (2, None),
        PhysicalType::Int96 => (3, None),
        PhysicalType::Float => (4, None),
        PhysicalType::Double => (5, None),
        PhysicalType::ByteArray => (6, None),
        PhysicalType::FixedLenByteArray(n) => (7, Some(n as i32)),
    }
}
/// (converted type, precision, scale)
fn conv(c: &PrimitiveConvertedType) -> (i32, Option<(i32, i32)>) {
    use PrimitiveConvertedType::*;
    let k = match c {
        Utf8 => 0,
        Enum => 4,
        Decimal(p, s) => return (5, Some((*p as i32, *s as i32))),
        Date => 6,
        TimeMillis => 7,
        TimeMicros => 8,
        TimestampMillis => 9,
        TimestampMicros => 10,
        Uint8 => 11,
        Uint16 => 12,
        Uint32 => 13,
        Uint64 => 14,
        Int8 => 15,
        Int16 => 16,
        Int32 => 17,
        Int64 => 18,
        Json => 19,
        Bson => 20,
        Interval => 21,
    };
    (k, None)
}
fn unit(u: TimeUnit) -> &'static str {
    match u {
        TimeUnit::Milliseconds => "MILLIS",
        TimeUnit::Microseconds => "MICROS",
        TimeUnit::Nanoseconds => "NANOS",
    }
}
fn unit_tf(u: &tf::TimeUnit) -> &'static str {
    match u {
        tf::TimeUnit::MILLIS(_) => "MILLIS",
        tf::TimeUnit::MICROS(_) => "MICROS",
        tf::TimeUnit::NANOS(_) => "NANOS",
    }
}
fn logical(l: &PrimitiveLogicalType) -> String {
    use PrimitiveLogicalType as L;
    match l {
        L::String => "STRING".into(),
        L::Enum => "ENUM".into(),
        L::Decimal(p, s) => format!("DECIMAL {} {}", p, s),
        L::Date => "DATE".into(),
        L::Time { unit: u, is_adjusted_to_utc: z } => format!("TIME {} {}", unit(*u), z),
        L::Timestamp { unit: u, is_adjusted_to_utc: z } => format!("TIMESTAMP {} {}", unit(*u), z),
        L::Integer(i) => {
            use IntegerType::*;
            let (w, s) = match i {
                Int8 => (8, true),
                Int16 => (16, true),
                Int32 => (32, true),
                Int64 => (64, true),
                UInt8 => (8, false),
                UInt16 => (16, false),
                UInt32 => (32, false),
                UInt64 => (64, false),
            };
            format!("INTEGER {} {}", w, s)
        }
        L::Unknown => "UNKNOWN".into(),
        L::Json => "JSON".into(),
        L::Bson => "BSON".into(),
        L::Uuid => "UUID".into(),
    }
}
fn logical_tf(l: &tf::LogicalType) -> String {
    use tf::LogicalType as L;
    match l {
        L::STRING(_) => "STRING".into(),
        L::MAP(_) => "MAP".into(),
        L::LIST(_) => "LIST".into(),
        L::ENUM(_) => "ENUM".into(),
        L::DECIMAL(d) => format!("DECIMAL {} {}", d.precision, d.scale),
        L::DATE(_) => "DATE".into(),
        L::TIME(t) => format!("TIME {} {}", unit_tf(&t.unit), t.is_adjusted_to_u_t_c),
        L::TIMESTAMP(t) => format!("TIMESTAMP {} {}", unit_tf(&t.unit), t.is_adjusted_to_u_t_c),
        L::INTEGER(i) => format!("INTEGER {} {}", i.bit_width, i.is_signed),
        L::UNKNOWN(_) => "UNKNOWN".into(),
        L::JSON(_) => "JSON".into(),
        L::BSON(_) => "BSON".into(),
        L::UUID(_) => "UUID".into(),
    }
}

#[derive(PartialEq, Debug, Clone)]
struct El {
    name: String,
    children: Option<i32>,
    phys: Option<i32>,
    len: Option<i32>,
    rep: Option<i32>,
    id: Option<i32>,
    conv: Option<i32>,
    dec: Option<(i32, i32)>,
    logical: Option<String>,
}
fn elements(s: &SchemaDescriptor) -> Vec<El> {
    fn go(t: &ParquetType, out: &mut Vec<El>) {
        let f = t.get_field_info();
        match t {
            ParquetType::PrimitiveType(p) => {
                let (k, len) = phys(p.physical_type);
                let c = p.converted_type.as_ref().map(conv);
                let dec = match (&p.logical_type, &c) {
                    (Some(PrimitiveLogicalType::Decimal(p, s)), _) => Some((*p as i32, *s as i32)),
                    (_, Some((_, d))) => *d,
                    _ => None,
                };
                out.push(El {
                    name: f.name.clone(),
                    children: None,
                    phys: Some(k),
                    len,
                    rep: Some(rep(f.repetition)),
                    id: f.id,
                    conv: c.map(|x| x.0),
                    dec,
                    logical: p.logical_type.as_ref().map(logical),
                })
            }
            ParquetType::GroupType { fields, converted_type, logical_type, .. } => {
                out.push(El {
                    name: f.name.clone(),
                    children: Some(fields.len() as i32),
                    phys: None,
                    len: None,
                    rep: Some(rep(f.repetition)),
                    id: f.id,
                    conv: converted_type.map(|c| match c {
                        GroupConvertedType::Map => 1,
                        GroupConvertedType::MapKeyValue => 2,
                        GroupConvertedType::List => 3,
                    }),
                    dec: None,
                    logical: logical_type.map(|c| match c {
                        GroupLogicalType::Map => "MAP".into(),
                        GroupLogicalType::List => "LIST".into(),
                    }),
                });
                fields.iter().for_each(|f| go(f, out));
            }
        }
    }
    let mut out = vec![El { name: s.name().to_string(), children: Some(s.fields().len() as i32), phys: None, len: None, rep: None, id: None, conv: None, dec: None, logical: None }];
    s.fields().iter().for_each(|f| go(f, &mut out));
    out
}
fn element_tf(e: &tf::SchemaElement) -> El {
    El {
        name: e.name.clone(),
        // the thrift field is absent for leaves
        children: e.num_children.filter(|_| e.type_.is_none()),
        phys: e.type_.map(|t| t.0),
        len: e.type_length,
        rep: e.repetition_type.map(|t| t.0),
        id: e.field_id,
        conv: e.converted_type.map(|t| t.0),
        dec: e.precision.zip(e.scale),
        logical: e.logical_type.as_ref().map(logical_tf),
    }
}
pub fn check_schema(got: &[tf::SchemaElement], s: &SchemaDescriptor) -> R {
    let want = elements(s);
    let got: Vec<El> = got.iter().map(element_tf).collect();
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        // precision and scale are fields of the converted type; a logical type has its own
        let mut w = w.clone();
        if w.conv.is_none() && g.dec.is_none() {
            w.dec = None;
        }
        ensure!(*g == w, "footer-schema: element {} is {:?} but the schema has {:?}", i, g, w);
    }
    ensure!(got.len() == want.len(), "footer-schema: {} elements instead of {}", got.len(), want.len());
    check_leaves(s)
}
/// The columns of a schema are the leaves of its fields, with their paths and levels.
pub fn check_leaves(s: &SchemaDescriptor) -> R {
    type Leaf<'a> = (Vec<&'a str>, (i16, i16), &'a PrimitiveType);
    fn go<'a>(t: &'a ParquetType, path: &mut Vec<&'a str>, levels: (i16, i16), out: &mut Vec<Leaf<'a>>) {
        let f = t.get_field_info();
        path.push(&f.name);
        let levels = match f.repetition {
            Repetition::Required => levels,
            Repetition::Optional => (levels.0, levels.1 + 1),
            Repetition::Repeated => (levels.0 + 1, levels.1 + 1),
        };
        match t {
            ParquetType::PrimitiveType(p) => out.push((path.clone(), levels, p)),
            ParquetType::GroupType { fields, .. } => fields.iter().for_each(|f| go(f, path, levels, out)),
        }
        path.pop();
    }
    let mut at = 0;
    for f in s.fields() {
        let mut want = vec![];
        go(f, &mut vec![], (0, 0), &mut want);
        for (path, (rep, def), p) in want {
            let c = s.columns().get(at).ok_or("schema-leaves: a leaf has no column")?;
            ensure!(c.path_in_schema == path, "schema-leaves: column {} is {:?} instead of {:?}", at, c.path_in_schema, path);
            ensure!(c.descriptor.max_rep_level == rep && c.descriptor.max_def_level == def, "schema-leaves: column {} has levels {:?}", at, c.descriptor);
            ensure!(&c.descriptor.primitive_type == p && &c.base_type == f, "schema-leaves: column {} has another type than its leaf", at);
            at += 1;
        }
    }
    ensure!(at == s.columns().len(), "schema-leaves: {} columns of {} leaves", s.columns().len(), at);
    Ok(())
}

/// Everything the footer says, against the bytes and against the table.
pub fn check_file(data: &[u8], t: &TableM) -> R {
    let p = parse_footer(data).map_err(|e| format!("footer-unparsable: {}", e))?;
    let m = &p.meta;
    check_schema(&m.schema, &t.schema)?;
    ensure!(m.version == i32::from(t.options.version), "footer-version: {}", m.version);
    ensure!(m.created_by == t.created_by, "footer-created-by: {:?}", m.created_by);
    ensure!(m.key_value_metadata == t.kv, "footer-kv: {:?}", m.key_value_metadata);
    ensure!(m.num_rows == t.groups.iter().map(|g| g.rows as i64).sum::<i64>(), "footer-rows: {} rows in the footer", m.num_rows);
    ensure!(m.row_groups.len() == t.groups.len(), "footer-row-groups: {} row groups instead of {}", m.row_groups.len(), t.groups.len());
    // (start, end, what)
    let mut regions: Vec<(usize, usize, String)> = vec![(0, 4, "magic".into()), (p.at, data.len(), "footer".into())];
    for (i, (rg, g)) in m.row_groups.iter().zip(&t.groups).enumerate() {
        let w = |x: String| format!("{} (row group {})", x, i);
        ensure!(rg.num_rows == g.rows as i64, "row-group-rows: {}", w(format!("{} instead of {}", rg.num_rows, g.rows)));
        ensure!(rg.columns.len() == g.chunks.len(), "row-group-columns: {}", w(format!("{}", rg.columns.len())));
        ensure!(rg.ordinal == Some(i as i16) || i > i16::MAX as usize, "ordinal: {}", w(format!("{:?}", rg.ordinal)));
        let (mut unc, mut comp) = (0i64, 0i64);
        for (j, (c, cm)) in rg.columns.iter().zip(&g.chunks).enumerate() {
            let w = |x: String| format!("{} (row group {} column {})", x, i, j);
            let d = t.descr(j);
            let md = c.meta_data.as_ref().ok_or_else(|| w("column-without-metadata: ".into()))?;
            let start = md.dictionary_page_offset.unwrap_or(md.data_page_offset) as usize;
            let end = start + md.total_compressed_size as usize;
            ensure!(md.total_compressed_size >= 0 && md.data_page_offset >= 0, "negative-offset: {}", w(String::new()));
            let pages = walk(data, start, end).map_err(|e| format!("chunk-range: {}", w(e)))?;
            ensure!(pages.len() == cm.pages.len(), "chunk-pages: {}", w(format!("{} pages in the range instead of {}", pages.len(), cm.pages.len())));
            if !pages.is_empty() {
                regions.push((start, end, w("pages".into())));
            }
            let codec: Compression = crate::codec::of(cm.codec);
            let codec_tf = crate::codec::number(codec);
            if !cm.pages.is_empty() {
                ensure!(md.codec == codec_tf, "codec: {}", w(format!("{:?}", md.codec)));
            }
            let mut first_row = 0i64;
            let mut locations = vec![];
            let mut used = vec![];
            let mut usize_ = 0i64;
            for (k, (pa, pm)) in pages.iter().zip(&cm.pages).enumerate() {
                let w = |x: String| w(format!("page {}: {}", k, x));
                let h = &pa.header;
                ensure!(h.uncompressed_page_size as usize == pm.body.len(), "page-size: {}", w(format!("announces {} uncompressed bytes, has {}", h.uncompressed_page_size, pm.body.len())));
                let body = &data[pa.body_at..pa.end];
                let (raw, plain_bytes): (usize, Vec<u8>) = match &pm.header {
                    None => {
                        let dh = h.dictionary_page_header.as_ref();
                        ensure!(h.type_ == tf::PageType::DICTIONARY_PAGE && dh.map(|x| (x.num_values, x.is_sorted.unwrap_or(false))) == Some((pm.dict_n as i32, cm.sorted)), "page-header: {}", w(format!("{:?}", h)));
                        used.push(tf::Encoding::PLAIN);
                        (0, unpack(codec, body, pm.body.len()).map_err(|e| format!("page-body: {}", w(e)))?)
                    }
                    Some(DataPageHeader::V1(hm)) => {
                        ensure!(h.type_ == tf::PageType::DATA_PAGE && h.data_page_header.as_ref() == Some(hm) && h.data_page_header_v2.is_none(), "page-header: {}", w(format!("{:?}", h)));
                        used.push(hm.encoding);
                        if d.max_def_level > 0 {
                            used.push(hm.definition_level_encoding);
                        }
                        if d.max_rep_level > 0 {
                            used.push(hm.repetition_level_encoding);
                        }
                        (0, unpack(codec, body, pm.body.len()).map_err(|e| format!("page-body: {}", w(e)))?)
                    }
                    Some(DataPageHeader::V2(hm)) => {
                        ensure!(h.type_ == tf::PageType::DATA_PAGE_V2 && h.data_page_header_v2.as_ref() == Some(hm) && h.data_page_header.is_none(), "page-header: {}", w(format!("{:?}", h)));
                        used.push(hm.encoding);
                        if hm.is_compressed == Some(false) {
                            (body.len(), body.to_vec())
                        } else {
                            ensure!(pm.levels <= body.len(), "page-body: {}", w("levels missing".into()));
                            let mut v = body[..pm.levels].to_vec();
                            v.extend(unpack(codec, &body[pm.levels..], pm.body.len() - pm.levels).map_err(|e| format!("page-body: {}", w(e)))?);
                            (pm.levels, v)
                        }
                    }
                };
                let _ = raw;
                ensure!(plain_bytes == pm.body, "page-body: {}", w("stored bytes are not the page's".into()));
                usize_ += (pa.body_at - pa.at) as i64 + h.uncompressed_page_size as i64;
                if !pm.is_dict() {
                    locations.push(tf::PageLocation { offset: pa.at as i64, compressed_page_size: (pa.end - pa.at) as i32, first_row_index: first_row });
                    first_row += pm.rows as i64;
                }
            }
            ensure!(md.total_uncompressed_size == usize_, "uncompressed-size: {}", w(format!("{} instead of {}", md.total_uncompressed_size, usize_)));
            ensure!(md.num_values == cm.n() as i64, "num-values: {}", w(format!("{} instead of {}", md.num_values, cm.n())));
            ensure!(md.path_in_schema == t.schema.columns()[j].path_in_schema, "path: {}", w(format!("{:?}", md.path_in_schema)));
            ensure!(md.type_.0 == phys(d.primitive_type.physical_type).0, "type: {}", w(format!("{:?}", md.type_)));
            for e in &used {
                ensure!(md.encodings.contains(e), "encodings: {}", w(format!("{:?} lacks {:?}", md.encodings, e)));
            }
            for e in &md.encodings {
                ensure!(used.contains(e) || *e == tf::Encoding::RLE, "encodings: {}", w(format!("{:?} lists the unused {:?}", md.encodings, e)));
            }
            if c.file_offset as usize == end && end > 0 && !pages.is_empty() {
                let (copy, n) = parse!(tf::ColumnMetaData, &data[end..]).map_err(|e| format!("chunk-metadata-copy: {}", w(e)))?;
                ensure!(&copy == md, "chunk-metadata-copy: {}", w(format!("{:?} differs from the footer's", copy)));
                regions.push((end, end + n, w("metadata copy".into())));
            } else {
                ensure!(c.file_offset as usize <= end, "chunk-file-offset: {}", w(format!("{}", c.file_offset)));
            }
            // offset index
            let (oo, ol) = match (c.offset_index_offset, c.offset_index_length) {
                (Some(o), Some(l)) => (o as usize, l as usize),
                x => return Err(format!("offset-index-missing: {}", w(format!("{:?}", x)))),
            };
            ensure!(oo + ol <= data.len(), "offset-index-range: {}", w(String::new()));
            let (oi, n) = parse!(tf::OffsetIndex, &data[oo..oo + ol]).map_err(|e| format!("offset-index-unparsable: {}", w(e)))?;
            ensure!(n == ol, "offset-index-length: {}", w(format!("{} instead of {}", ol, n)));
            ensure!(oi.page_locations == locations, "offset-index: {}", w(format!("{:?} instead of {:?}", oi.page_locations, locations)));
            regions.push((oo, oo + ol, w("offset index".into())));
            // column index
            match (c.column_index_offset, c.column_index_length) {
                (Some(o), Some(l)) if t.options.write_statistics => {
                    let (o, l) = (o as usize, l as usize);
                    ensure!(o + l <= data.len(), "column-index-range: {}", w(String::new()));
                    let (ci, n) = parse!(tf::ColumnIndex, &data[o..o + l]).map_err(|e| format!("column-index-unparsable: {}", w(e)))?;
                    ensure!(n == l, "column-index-length: {}", w(format!("{} instead of {}", l, n)));
                    ensure!(ci.null_pages.len() == locations.len(), "column-index-pages: {}", w(format!("{}", ci.null_pages.len())));
                    regions.push((o, o + l, w("column index".into())));
                }
                (None, None) if !t.options.write_statistics => {}
                x => return Err(format!("column-index-presence: {}", w(format!("{:?}", x)))),
            }
            unc += md.total_uncompressed_size;
            comp += md.total_compressed_size;
            if j == 0 {
                ensure!(rg.file_offset == Some(start as i64) || pages.is_empty(), "row-group-offset: {}", w(format!("{:?}", rg.file_offset)));
            }
        }
        ensure!(rg.total_byte_size == unc, "row-group-size: {}", w(format!("{} instead of {}", rg.total_byte_size, unc)));
        ensure!(rg.total_compressed_size == Some(comp), "row-group-compressed: {}", w(format!("{:?} instead of {}", rg.total_compressed_size, comp)));
    }
    regions.sort();
    for x in regions.windows(2) {
        ensure!(x[0].1 <= x[1].0, "overlap: {} [{},{}) overlaps {} [{},{})", x[0].2, x[0].0, x[0].1, x[1].2, x[1].0, x[1].1);
    }
    ensure!(regions.last().map(|r| r.1) == Some(data.len()), "footer-end: the footer does not end the file");
    Ok(())
}
fn unpack(c: Compression, b: &[u8], size: usize) -> Result<Vec<u8>, String> {
    if c == Compression::Uncompressed {
        return Ok(b.to_vec());
    }
    let v = crate::codec::decompress(c, b, size)?;
    if v.len() != size {
        return Err(format!("{} bytes instead of {}", v.len(), size));
    }
    Ok(v)
}

/// The library's view of a file's metadata says what the footer's thrift says.
pub fn check_view(md: &FileMetaData, data: &[u8]) -> R {
    let p = parse_footer(data).map_err(|e| format!("footer-unparsable: {}", e))?;
    let m = &p.meta;
    ensure!(md.version == m.version && md.num_rows as i64 == m.num_rows && md.created_by == m.created_by && md.key_value_metadata == m.key_value_metadata, "metadata-view: file level fields differ");
    check_schema(&m.schema, md.schema())?;
    ensure!(md.row_groups.len() == m.row_groups.len(), "metadata-view: {} row groups instead of {}", md.row_groups.len(), m.row_groups.len());
    for (i, (a, b)) in md.row_groups.iter().zip(&m.row_groups).enumerate() {
        ensure!(a.num_rows() as i64 == b.num_rows, "metadata-view: row group {} rows {}", i, a.num_rows());
        ensure!(a.total_byte_size() as i64 == b.total_byte_size, "metadata-view: row group {} byte size {}", i, a.total_byte_size());
        ensure!(a.columns().len() == b.columns.len(), "metadata-view: row group {} columns {}", i, a.columns().len());
        for (j, (c, t)) in a.columns().iter().zip(&b.columns).enumerate() {
            check_column_view(c, t).map_err(|e| format!("{} (row group {} column {})", e, i, j))?;
            ensure!(Some(c.descriptor()) == md.schema().columns().get(j), "metadata-view: the descriptor of row group {} column {} is not the schema's", i, j);
        }
    }
    Ok(())
}
fn check_column_view(c: &ColumnChunkMetaData, t: &tf::ColumnChunk) -> R {
    ensure!(c.column_chunk() == t, "metadata-view: {:?} instead of {:?}", c.column_chunk(), t);
    let m = t.meta_data.as_ref().unwrap();
    ensure!(c.metadata() == m, "metadata-view: column metadata differs");
    ensure!(c.num_values() == m.num_values && c.compressed_size() == m.total_compressed_size && c.uncompressed_size() == m.total_uncompressed_size, "metadata-view: sizes");
    ensure!(c.data_page_offset() == m.data_page_offset && c.dictionary_page_offset() == m.dictionary_page_offset, "metadata-view: offsets");
    ensure!(c.has_index_page() == m.index_page_offset.is_some() && c.index_page_offset() == m.index_page_offset, "metadata-view: index page");
    let start = m.dictionary_page_offset.unwrap_or(m.data_page_offset) as u64;
    ensure!(c.byte_range() == (start, m.total_compressed_size as u64), "metadata-view: byte range {:?}", c.byte_range());
    ensure!(c.physical_type() == c.descriptor().descriptor.primitive_type.physical_type && phys(c.physical_type()).0 == m.type_.0, "metadata-view: physical type");
    ensure!(c.descriptor().path_in_schema == m.path_in_schema, "metadata-view: path");
    ensure!(c.column_encoding() == &m.encodings, "metadata-view: encodings");
    Ok(())
}
