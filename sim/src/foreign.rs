//! Files as other writers produce them, built byte by byte without the library's writer, and a
//! uniform view (`FileCase`) on library-written and foreign files.
use crate::choices::*;
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use parquet2::compression::Compression;
use parquet2::metadata::FileMetaData;
use parquet2::page::DataPageHeader;
use parquet2::schema::types::{PhysicalType, PrimitiveType};
use std::cmp::Ordering;
use parquet_format_safe as tf;


macro_rules! thrift {
    ($x:expr) => {{
        let mut v: Vec<u8> = vec![];
        {
            let mut p = parquet_format_safe::thrift::protocol::TCompactOutputProtocol::new(&mut v);
            $x.write_to_out_protocol(&mut p).expect("thrift into a vector");
        }
        v
    }};
}
pub(crate) use thrift;

pub fn crc(b: &[u8]) -> i32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum() as i32
}

/// A readable file together with the truth about it.
pub struct FileCase {
    pub t: TableM,
    pub fid: usize,
    pub md: FileMetaData,
    pub foreign: bool,
    /// per row group: every column has a column index / an offset index
    pub has_ci: Vec<bool>,
    pub has_oi: Vec<bool>,
    pub blooms: Vec<Vec<Option<Vec<u8>>>>,
    /// per chunk: where its pages start in the file
    pub page_at: Vec<Vec<Vec<(usize, usize)>>>,
    pub col_orders: bool,
}
impl FileCase {
    /// A file too long to be copied around.
    pub fn sparse(&self) -> bool {
        file_len(self.fid) > 1 << 30
    }
    pub fn chunk(&self, i: usize, j: usize) -> &ChunkM {
        &self.t.groups[i].chunks[j]
    }
    pub fn expected(&self, i: usize, j: usize) -> Vec<Rec> {
        expected(self.chunk(i, j))
    }
    pub fn col(&self, i: usize, j: usize) -> &parquet2::metadata::ColumnChunkMetaData {
        &self.md.row_groups[i].columns()[j]
    }
    pub fn chunks(&self) -> Vec<(usize, usize)> {
        self.t.groups.iter().enumerate().flat_map(|(i, g)| (0..g.chunks.len()).map(move |j| (i, j))).collect()
    }
}
#[derive(Clone, Copy)]
pub struct FCfg {
    pub table: Cfg,
    pub blooms: bool,
    pub foreign: Option<bool>,
    /// now and then a hole of gigabytes before the first row group
    pub sparse: bool,
}
pub const FBASE: FCfg = FCfg { table: BASE, blooms: false, foreign: None, sparse: false };

/// Far enough for offsets that 32 bits cannot hold.
fn draw_hole() -> usize {
    let edge = one_of(PLAN, &[1usize << 31, 1 << 32, 5 << 30]);
    if chance(PLAN, 1, 2) {
        edge - upick(PLAN, 600)
    } else {
        edge + upick(PLAN, 600)
    }
}

pub fn draw_file(f: &FCfg) -> R<FileCase> {
    let t = draw_table(&f.table);
    make_file(t, f)
}
pub fn make_file(t: TableM, f: &FCfg) -> R<FileCase> {
    calm();
    let foreign = f.foreign.unwrap_or_else(|| chance(PLAN, 1, 2));
    let mut hole = if f.sparse && f.foreign != Some(false) && chance(PLAN, 1, 40) { draw_hole() } else { 0 };
    // the hole and all that may follow it; without the memory it is a file without hole
    let room = zeros(if hole > 0 { hole + (1 << 28) } else { 0 }).unwrap_or_default();
    let foreign = foreign || hole > 0;
    if room.is_empty() {
        hole = 0;
    }
    let fid = new_file(vec![]);
    let mut blooms: Vec<Vec<Option<Vec<u8>>>> = t.groups.iter().map(|g| g.chunks.iter().map(|_| None).collect()).collect();
    let n = t.groups.len();
    let (mut has_ci, mut has_oi) = (vec![t.options.write_statistics; n], vec![true; n]);
    let mut col_orders = false;
    // a writer that does not work is the business of other checks: fall back to our own bytes
    let written = !foreign && crate::run::guard(|| write_table(&t, fid, false)).ok().and_then(|x| x.ok()).and_then(|x| x.ok()).is_some();
    if written {
        cover("file=library");
    } else {
        cover("file=foreign");
        set_file(fid, vec![]);
        let data = build(&t, f, &mut blooms, &mut has_ci, &mut has_oi, &mut col_orders, hole);
        if hole > 0 {
            cover("file=sparse");
            let mut v = room;
            v.truncate(hole + data.len());
            v[..4].copy_from_slice(&data[..4]);
            v[hole + 4..].copy_from_slice(&data[4..]);
            set_file(fid, v);
        } else {
            set_file(fid, data);
        }
    }
    let mut t = t;
    if hole == 0 && chance(PLAN, 1, 40) {
        pad_footer(&mut t, fid);
    }
    let md = meta_sync(fid).map_err(|e| format!("metadata-unreadable: a valid file cannot be opened: {:?}", e))?;
    ensure!(md.row_groups.len() == n, "metadata-differs: {} row groups", md.row_groups.len());
    let data = file_data(fid);
    let mut page_at = vec![];
    for (i, rg) in md.row_groups.iter().enumerate() {
        let mut v = vec![];
        ensure!(rg.columns().len() == t.groups[i].chunks.len(), "metadata-differs: {} columns", rg.columns().len());
        for c in rg.columns() {
            let (s, l) = c.byte_range();
            let w = crate::oracle::walk(&data, s as usize, (s + l) as usize).map_err(|e| format!("chunk-range: {}", e))?;
            v.push(w.iter().map(|p| (p.at, p.end)).collect());
        }
        page_at.push(v);
    }
    note(format!("file{} of {} bytes, {}", fid, data.len(), if written { "library-written" } else { "foreign" }));
    Ok(FileCase { t, fid, md, foreign: !written, has_ci, has_oi, blooms, page_at, col_orders })
}

/// Rewrites the footer with one more key-value pair, so that it is about as long as what readers fetch first.
fn pad_footer(t: &mut TableM, fid: usize) {
    let mut data = file_copy(fid);
    let Ok(p) = crate::oracle::parse_footer(&data) else { return };
    let (mut m, at) = (p.meta, p.at);
    let target = near_64k();
    let old = m.key_value_metadata.clone();
    let mut pad = 0;
    // the varint lengths around the padding settle on the second attempt
    for _ in 0..3 {
        let mut kv = old.clone().unwrap_or_default();
        kv.push(tf::KeyValue { key: "pad".into(), value: Some("p".repeat(pad)) });
        m.key_value_metadata = Some(kv);
        let n = thrift!(m).len() + 8;
        pad = (pad + target).saturating_sub(n);
    }
    cover("footer=64k");
    t.kv = m.key_value_metadata.clone();
    data.truncate(at);
    let b = thrift!(m);
    data.extend(&b);
    data.extend((b.len() as u32).to_le_bytes());
    data.extend(b"PAR1");
    set_file(fid, data);
}
/// A length of a footer (with its eight last bytes) near the tail that is read first.
pub fn near_64k() -> usize {
    let k = upick(PLAN, 48);
    if chance(PLAN, 1, 4) {
        64 * 1024 - 600 + 25 * k
    } else {
        64 * 1024 - 24 + k
    }
}
/// The same for a table that is about to be written: the trial runs on a file of its own.
pub fn pad_table(t: &mut TableM) {
    calm();
    let target = near_64k();
    let old = t.kv.clone();
    let mut pad = 0;
    for _ in 0..3 {
        let mut kv = old.clone().unwrap_or_default();
        kv.push(tf::KeyValue { key: "pad".into(), value: Some("p".repeat(pad)) });
        t.kv = Some(kv);
        let fid = new_file(vec![]);
        let ok = crate::run::guard(|| write_table(t, fid, false)).ok().and_then(|x| x.ok()).and_then(|x| x.ok()).is_some();
        let n = match crate::oracle::parse_footer(&file_data(fid)) {
            Ok(p) if ok => file_len(fid) - p.at,
            _ => break,
        };
        pad = (pad + target).saturating_sub(n);
    }
    cover("footer=64k");
}

fn gap(out: &mut Vec<u8>) {
    if chance(PLAN, 1, 6) {
        let n = 1 + upick(PLAN, 40);
        out.extend((0..n).map(|i| [0x15u8, 0x00, 0xff, 0x2c][i % 4]));
    }
}

fn header_of(p: &PageM, stored: &[u8], with_crc: bool, sorted: bool) -> tf::PageHeader {
    let mut h = tf::PageHeader {
        type_: tf::PageType::DATA_PAGE,
        uncompressed_page_size: p.body.len() as i32,
        compressed_page_size: stored.len() as i32,
        crc: if with_crc { Some(crc(stored)) } else { None },
        data_page_header: None,
        index_page_header: None,
        dictionary_page_header: None,
        data_page_header_v2: None,
    };
    match &p.header {
        None => {
            h.type_ = tf::PageType::DICTIONARY_PAGE;
            h.dictionary_page_header = Some(tf::DictionaryPageHeader {
                num_values: p.dict_n as i32,
                encoding: tf::Encoding::PLAIN,
                is_sorted: if sorted { Some(true) } else { None },
            });
        }
        Some(DataPageHeader::V1(x)) => h.data_page_header = Some(x.clone()),
        Some(DataPageHeader::V2(x)) => {
            h.type_ = tf::PageType::DATA_PAGE_V2;
            h.data_page_header_v2 = Some(x.clone());
        }
    }
    h
}

/// The column index a writer would produce; None if some data page lacks statistics.
pub fn column_index(c: &ChunkM, t: &PrimitiveType) -> Option<tf::ColumnIndex> {
    let mut ci = tf::ColumnIndex {
        null_pages: vec![],
        min_values: vec![],
        max_values: vec![],
        boundary_order: tf::BoundaryOrder::UNORDERED,
        null_counts: Some(vec![]),
    };
    for p in c.pages.iter().filter(|p| !p.is_dict()) {
        let s = p.stats()?;
        let null = s.min_value.is_none();
        if s.max_value.is_none() != null {
            return None;
        }
        ci.null_pages.push(null);
        ci.min_values.push(s.min_value.clone().unwrap_or_default());
        ci.max_values.push(s.max_value.clone().unwrap_or_default());
        ci.null_counts.as_mut().unwrap().push(s.null_count?);
    }
    // an order may be claimed where it is there
    let o = order_of(t);
    let is = |bad: Ordering| {
        [&ci.min_values, &ci.max_values].iter().all(|v| {
            let full: Vec<_> = v.iter().zip(&ci.null_pages).filter(|x| !x.1).map(|x| val_of(t.physical_type, x.0)).collect();
            full.windows(2).all(|w| w[0].as_ref().zip(w[1].as_ref()).and_then(|(a, b)| cmp(o, a, b)).map_or(false, |c| c != bad))
        })
    };
    for (bad, claim) in [(Ordering::Greater, tf::BoundaryOrder::ASCENDING), (Ordering::Less, tf::BoundaryOrder::DESCENDING)] {
        if is(bad) && chance(PLAN, 1, 2) {
            cover("column_index=ordered");
            ci.boundary_order = claim;
        }
    }
    if chance(PLAN, 1, 6) {
        ci.null_counts = None;
    }
    Some(ci)
}

fn build(t: &TableM, f: &FCfg, blooms: &mut [Vec<Option<Vec<u8>>>], has_ci: &mut [bool], has_oi: &mut [bool], col_orders: &mut bool, hole: usize) -> Vec<u8> {
    let mut out = b"PAR1".to_vec();
    let with_crc = chance(PLAN, 1, 3);
    let legacy = f.table.codecs && chance(PLAN, 1, 10);
    let mut rgs: Vec<tf::RowGroup> = vec![];
    let mut locs: Vec<Vec<Vec<tf::PageLocation>>> = vec![];
    for (i, g) in t.groups.iter().enumerate() {
        let mut cols = vec![];
        let mut lg = vec![];
        let at = hole + out.len();
        for (j, c) in g.chunks.iter().enumerate() {
            gap(&mut out);
            let d = t.descr(j);
            let mut codec: Compression = crate::codec::of(c.codec);
            if legacy && codec == Compression::Lz4Raw {
                codec = Compression::Lz4;
            }
            let start = hole + out.len();
            let (mut dict_at, mut data_at) = (None, None);
            let mut unc = 0;
            let mut encodings = vec![];
            let mut es: Vec<tf::PageEncodingStats> = vec![];
            let mut lc = vec![];
            let mut row = 0;
            for p in &c.pages {
                let stored = p.stored(codec);
                let h = header_of(p, &stored, with_crc, c.sorted);
                let hb = thrift!(h);
                let at = hole + out.len();
                out.extend(&hb);
                out.extend(&stored);
                unc += hb.len() + p.body.len();
                let e = match &p.header {
                    None => tf::Encoding::PLAIN,
                    Some(DataPageHeader::V1(x)) => x.encoding,
                    Some(DataPageHeader::V2(x)) => x.encoding,
                };
                if !encodings.contains(&e) {
                    encodings.push(e);
                }
                es.push(tf::PageEncodingStats { page_type: h.type_, encoding: e, count: 1 });
                if p.is_dict() {
                    dict_at.get_or_insert(at);
                } else {
                    data_at.get_or_insert(at);
                    lc.push(tf::PageLocation { offset: at as i64, compressed_page_size: (hole + out.len() - at) as i32, first_row_index: row });
                    row += p.rows as i64;
                }
            }
            encodings.push(tf::Encoding::RLE);
            let total = hole + out.len() - start;
            let split = dict_at.is_some() && chance(PLAN, 1, 2);
            let phys = match d.primitive_type.physical_type {
                PhysicalType::Boolean => 0,
                PhysicalType::Int32 => 1,
                PhysicalType::Int64 => 2,
                PhysicalType::Int96 => 3,
                PhysicalType::Float => 4,
                PhysicalType::Double => 5,
                PhysicalType::ByteArray => 6,
                PhysicalType::FixedLenByteArray(_) => 7,
            };
            let md = tf::ColumnMetaData {
                type_: tf::Type(phys),
                encodings,
                path_in_schema: t.schema.columns()[j].path_in_schema.clone(),
                codec: crate::codec::number(codec),
                num_values: c.n() as i64,
                total_uncompressed_size: unc as i64,
                total_compressed_size: total as i64,
                key_value_metadata: if chance(PLAN, 1, 5) { Some(vec![tf::KeyValue { key: format!("c{}", j), value: Some("\u{7f8e}".into()) }]) } else { None },
                data_page_offset: if split { data_at.unwrap_or(hole + out.len()) } else { start } as i64,
                index_page_offset: None,
                dictionary_page_offset: if split { Some(start as i64) } else { None },
                statistics: if chance(PLAN, 1, 3) {
                    let all: Vec<Val> = c.pages.iter().filter(|p| !p.is_dict()).flat_map(|p| p.vals.iter().cloned()).collect();
                    let n = c.n() - all.len();
                    let mut s = stats_of(&all, n, &d.primitive_type);
                    if chance(PLAN, 1, 3) {
                        // written by an old writer
                        s.min = s.min_value.clone();
                        s.max = s.max_value.clone();
                    }
                    Some(s)
                } else {
                    None
                },
                encoding_stats: if chance(PLAN, 1, 3) { Some(es) } else { None },
                bloom_filter_offset: None,
            };
            if chance(PLAN, 1, 4) {
                out.extend(thrift!(md));
            }
            cols.push(tf::ColumnChunk {
                file_path: None,
                file_offset: if chance(PLAN, 1, 3) { 0 } else { start as i64 },
                meta_data: Some(md),
                offset_index_offset: None,
                offset_index_length: None,
                column_index_offset: None,
                column_index_length: None,
                crypto_metadata: None,
                encrypted_column_metadata: None,
            });
            lg.push(lc);
        }
        let bytes: i64 = cols.iter().map(|c| c.meta_data.as_ref().unwrap().total_uncompressed_size).sum();
        let comp: i64 = cols.iter().map(|c| c.meta_data.as_ref().unwrap().total_compressed_size).sum();
        rgs.push(tf::RowGroup {
            columns: cols,
            total_byte_size: bytes,
            num_rows: g.rows as i64,
            sorting_columns: None,
            file_offset: if chance(PLAN, 1, 3) { None } else { Some(at as i64) },
            total_compressed_size: if chance(PLAN, 1, 3) { None } else { Some(comp) },
            ordinal: if chance(PLAN, 1, 3) { None } else { Some(i as i16) },
        });
        locs.push(lg);
    }
    if f.blooms {
        for (i, rg) in rgs.iter_mut().enumerate() {
            for (j, c) in rg.columns.iter_mut().enumerate() {
                if chance(PLAN, 1, 3) {
                    continue;
                }
                let blocks = one_of(PLAN, &[1usize, 1, 2, 3, 8, 33, 200]);
                let mut bits = vec![0u8; 32 * blocks];
                for p in t.groups[i].chunks[j].pages.iter().filter(|p| !p.is_dict()) {
                    for v in &p.vals {
                        crate::bloom::insert(&mut bits, crate::bloom::hash(v));
                    }
                }
                gap(&mut out);
                c.meta_data.as_mut().unwrap().bloom_filter_offset = Some((hole + out.len()) as i64);
                let h = tf::BloomFilterHeader {
                    num_bytes: bits.len() as i32,
                    algorithm: tf::BloomFilterAlgorithm::BLOCK(tf::SplitBlockAlgorithm {}),
                    hash: tf::BloomFilterHash::XXHASH(tf::XxHash {}),
                    compression: tf::BloomFilterCompression::UNCOMPRESSED(tf::Uncompressed {}),
                };
                out.extend(thrift!(h));
                out.extend(&bits);
                blooms[i][j] = Some(bits);
            }
        }
    }
    let (want_ci, want_oi) = (chance(PLAN, 2, 3), chance(PLAN, 2, 3));
    // row by row or kind by kind
    let grouped = chance(PLAN, 1, 2);
    let kinds: Vec<Vec<Option<Vec<u8>>>> = (0..rgs.len())
        .map(|i| {
            let idx: Option<Vec<tf::ColumnIndex>> = t.groups[i].chunks.iter().enumerate().map(|(j, c)| column_index(c, &t.descr(j).primitive_type)).collect();
            has_ci[i] = want_ci && idx.is_some();
            has_oi[i] = want_oi;
            let ci = idx.filter(|_| want_ci).map(|x| x.into_iter().map(|x| Some(thrift!(x))).collect()).unwrap_or_else(|| vec![None; locs[i].len()]);
            let oi: Vec<Option<Vec<u8>>> = locs[i].iter().map(|l| want_oi.then(|| thrift!(tf::OffsetIndex { page_locations: l.clone() }))).collect();
            ci.into_iter().chain(oi).collect()
        })
        .collect();
    let mut jobs: Vec<(usize, bool, usize)> = vec![];
    let of = |i: usize, ci: bool| (0..kinds[i].len() / 2).map(move |j| (i, ci, j));
    if grouped {
        (0..rgs.len()).for_each(|i| jobs.extend(of(i, true).chain(of(i, false))));
    } else {
        (0..rgs.len()).for_each(|i| jobs.extend(of(i, true)));
        (0..rgs.len()).for_each(|i| jobs.extend(of(i, false)));
    }
    // the indexes of the columns of a row group need not be neighbours
    let scattered = chance(PLAN, 1, 4);
    if scattered {
        cover("layout=scattered_indexes");
        for k in 1..jobs.len() {
            let o = upick(PLAN, k + 1);
            jobs.swap(k, o);
        }
    }
    for (i, ci, j) in jobs {
        if j == 0 || scattered {
            gap(&mut out);
        }
        let Some(b) = &kinds[i][if ci { j } else { j + kinds[i].len() / 2 }] else { continue };
        let c = &mut rgs[i].columns[j];
        let at = (Some((hole + out.len()) as i64), Some(b.len() as i32));
        if ci {
            (c.column_index_offset, c.column_index_length) = at;
        } else {
            (c.offset_index_offset, c.offset_index_length) = at;
        }
        out.extend(b);
    }
    gap(&mut out);
    let shell = FileMetaData {
        version: i32::from(t.options.version),
        num_rows: t.groups.iter().map(|g| g.rows).sum(),
        created_by: t.created_by.clone(),
        row_groups: vec![],
        key_value_metadata: t.kv.clone(),
        schema_descr: t.schema.clone(),
        column_orders: None,
    };
    let mut m = shell.into_thrift();
    m.row_groups = rgs;
    if chance(PLAN, 1, 3) {
        *col_orders = true;
        m.column_orders = Some(t.schema.columns().iter().map(|_| tf::ColumnOrder::TYPEORDER(tf::TypeDefinedOrder {})).collect());
    }
    let b = thrift!(m);
    out.extend(&b);
    out.extend((b.len() as u32).to_le_bytes());
    out.extend(b"PAR1");
    out
}
