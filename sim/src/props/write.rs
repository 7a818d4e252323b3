//! Scenarios of the writers: P01, P02, P04, P05, P06, P10, P17.
use crate::choices::*;
use crate::exec::*;
use crate::model::*;
use crate::ops::*;
use crate::oracle;
use crate::world::*;
use parquet2::compression::CompressionOptions;
use parquet2::compression::Compression;
use parquet2::error::Error;
use parquet2::metadata::{FileMetaData, SchemaDescriptor};
use parquet2::page::{CompressedDataPage, CompressedDictPage, CompressedPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2};
use parquet2::schema::types::{ParquetType, PhysicalType};
use parquet2::schema::Repetition;
use parquet2::write::{DynIter, DynStreamingIterator, FileStreamer, FileWriter, Version, WriteOptions};
use parquet_format_safe as tf;

fn finish(r: Result<u64, parquet2::error::Error>, fid: usize) -> R<u64> {
    match r {
        Err(e) => Err(format!("write-refused: writing a valid table fails: {:?}", e)),
        Ok(n) => {
            ensure!(n as usize == file_len(fid), "reported-length: end reports {} bytes, the sink holds {}", n, file_len(fid));
            ensure!(file_flushed(fid) == Some(file_len(fid)), "not-flushed: end succeeded without flushing everything ({:?} of {})", file_flushed(fid), file_len(fid));
            Ok(n)
        }
    }
}

pub fn p01() -> R {
    if chance(PLAN, 1, 25) {
        return as_given();
    }
    let mut t = draw_table(&Cfg { hollow: true, ..BASE });
    if chance(PLAN, 1, 80) {
        crate::foreign::pad_table(&mut t);
    }
    let asyncy = chance(PLAN, 1, 2);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    finish(write_table(&t, fid, asyncy)?, fid)?;
    set_io(draw_io(true));
    check_readback(fid, &t, None)?;
    let data = file_data(fid);
    let md = meta_sync(fid).map_err(|e| format!("metadata-unreadable: {:?}", e))?;
    oracle::check_view(&md, &data)
}

/// Pages made beforehand.
struct Ready(Vec<CompressedPage>, usize);
impl parquet2::FallibleStreamingIterator for Ready {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        self.1 += 1;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> {
        self.0.get(self.1.wrapping_sub(1))
    }
}
/// Pages that announce sizes near what the format can express: totals are not those of 32 bits.
fn giant() -> R {
    let max = i32::MAX as u64;
    let big = |limit: u64| match pick(PLAN, 4) {
        0 => pick(PLAN, 1000).min(limit),
        1 => limit,
        _ => limit / 2 + raw(PLAN) % (limit / 2 + 1),
    };
    // more row groups than ordinals
    let many = chance(PLAN, 1, 100);
    let n = if many { 1 } else { 1 + upick(PLAN, 3) };
    let fields: Vec<ParquetType> = (0..n)
        .map(|k| {
            let rep = one_of(PLAN, &[Repetition::Required, Repetition::Optional]);
            ParquetType::try_from_primitive(format!("c{}", k), PhysicalType::Int64, rep, None, None, None).expect("valid primitive")
        })
        .collect();
    let schema = SchemaDescriptor::new("schema".into(), fields);
    let options = WriteOptions { write_statistics: false, version: one_of(PLAN, &[Version::V1, Version::V2]) };
    let asyncy = chance(PLAN, 1, 2);
    if many {
        calm();
        set_step_limit(50_000_000);
    } else {
        set_io(draw_io(asyncy));
    }
    let fid = new_file(vec![]);
    // the bodies are as large as announced, as long as that fits what may be written in total
    let hollow = !many && chance(PLAN, 1, 4);
    let mut room = if hollow { 7u64 << 30 } else { 0 };
    if hollow {
        make_hollow(fid);
    }
    let mut body = |stored: u64| {
        let small = vec![7; upick(PLAN, 30)];
        if stored > room || !hollow {
            return small;
        }
        room -= stored;
        zeros(stored as usize).unwrap_or(small)
    };
    let mut w = if asyncy { Writer::A(FileStreamer::new(aopen(fid), schema.clone(), options, None)) } else { Writer::S(FileWriter::new(open(fid), schema.clone(), options, None)) };
    // one announcement the format cannot express
    let over = chance(PLAN, 1, 4);
    // (uncompressed, values, nulls), per row group and column
    let mut want: Vec<Vec<Vec<(u64, u64, u64)>>> = vec![];
    let groups = if many { 32_760 + upick(PLAN, 30) } else { 1 + upick(PLAN, 3) };
    for g in 0..groups {
        let pages = if many { (g % 1000 == 0) as usize } else { 1 + upick(PLAN, 4) };
        let rows: Vec<u64> = (0..pages).map(|_| big(max)).collect();
        let last = over && pages > 0 && g + 1 == groups;
        let bad = (upick(PLAN, n), upick(PLAN, rows.len()));
        let mut cols = vec![];
        let mut of = vec![];
        for j in 0..n {
            let d = &schema.columns()[j].descriptor;
            let c = one_of(PLAN, &[Compression::Uncompressed, Compression::Snappy, Compression::Zstd]);
            let mut pages = vec![];
            let mut truth = vec![];
            if !many && chance(PLAN, 1, 3) {
                let is_bad = last && bad == (j, 0) && chance(PLAN, 1, 2);
                let u = big(max);
                pages.push(CompressedPage::Dict(CompressedDictPage::new(body(big(max - 200)), c, u as usize, if is_bad { max as usize + 1 + upick(PLAN, 1 << 33) } else { big(max) as usize }, false)));
                truth.push((u, 0, 0));
            }
            for (k, r) in rows.iter().enumerate() {
                let is_bad = last && bad == (j, k);
                // either of the two sizes cannot be expressed
                let too_long = if is_bad && hollow && chance(PLAN, 1, 2) { zeros((max + 1 + pick(PLAN, 1 << 20)) as usize) } else { None };
                let u = if is_bad && too_long.is_none() { max + 1 + raw(PLAN) % (1 << 33) } else { big(max) };
                let nulls = if d.max_def_level > 0 { big(*r) } else { 0 };
                let st = Some(tf::Statistics { max: None, min: None, null_count: Some(nulls as i64), distinct_count: None, max_value: None, min_value: None });
                let h = if chance(PLAN, 1, 2) {
                    DataPageHeader::V1(DataPageHeaderV1 { num_values: *r as i32, encoding: tf::Encoding::PLAIN, definition_level_encoding: tf::Encoding::RLE, repetition_level_encoding: tf::Encoding::RLE, statistics: st })
                } else {
                    DataPageHeader::V2(DataPageHeaderV2 {
                        num_values: *r as i32,
                        num_nulls: nulls as i32,
                        num_rows: *r as i32,
                        encoding: tf::Encoding::PLAIN,
                        definition_levels_byte_length: 0,
                        repetition_levels_byte_length: 0,
                        is_compressed: None,
                        statistics: st,
                    })
                };
                let body = too_long.unwrap_or_else(|| body(big(max - 200)));
                pages.push(CompressedPage::Data(CompressedDataPage::new(h, body, c, u as usize, d.clone(), Some(*r as usize))));
                truth.push((u, *r, nulls));
            }
            cols.push(pages);
            of.push(truth);
        }
        let it = DynIter::new(cols.into_iter().map(|p| Ok::<_, Error>(DynStreamingIterator::new(Ready(p, 0)))));
        match (w.write(it)?, last) {
            (Ok(()), false) => want.push(of),
            (Err(_), true) => {
                count_fault("size_beyond_the_format");
                return Ok(());
            }
            (Ok(()), true) => return Err("size-truncated: a page announcing more than the format can express is accepted".into()),
            (Err(e), false) => return Err(format!("write-refused: pages of large sizes are refused: {:?}", e)),
        }
    }
    let len = match w.end(None)? {
        Ok(n) => n,
        Err(e) => return Err(format!("write-refused: {:?}", e)),
    };
    calm();
    cover(if hollow { "pages=giant_bodies" } else { "pages=giant" });
    if hollow && !fill_hollow(fid) {
        return Ok(());
    }
    let data = file_data(fid);
    ensure!(len as usize == data.len(), "reported-length: {} instead of {}", len, data.len());
    let m = oracle::parse_footer(&data).map_err(|e| format!("footer-unparsable: {}", e))?.meta;
    let mut total = 0;
    ensure!(m.row_groups.len() == want.len(), "row-groups: {} instead of {}", m.row_groups.len(), want.len());
    for (g, (rg, cols)) in m.row_groups.iter().zip(&want).enumerate() {
        let mut unc = 0;
        ensure!(rg.ordinal == i16::try_from(g).ok(), "ordinal: row group {} is numbered {:?}", g, rg.ordinal);
        for (j, (c, truth)) in rg.columns.iter().zip(cols).enumerate() {
            let md = c.meta_data.as_ref().ok_or("column-without-metadata: ")?;
            let start = md.data_page_offset as usize;
            let at = oracle::walk(&data, start, start + md.total_compressed_size as usize).map_err(|e| format!("chunk-range: {}", e))?;
            ensure!(at.len() == truth.len(), "chunk-pages: {} instead of {}", at.len(), truth.len());
            let mut rows = 0;
            let (mut u, mut values, mut nulls) = (0i64, 0i64, 0i64);
            let mut locations = vec![];
            for (p, (pu, r, k)) in at.iter().zip(truth) {
                ensure!(p.header.uncompressed_page_size as u64 == *pu, "page-size: {} announced as {}", pu, p.header.uncompressed_page_size);
                u += *pu as i64 + (p.body_at - p.at) as i64;
                values += *r as i64;
                nulls += *k as i64;
                if p.header.dictionary_page_header.is_none() {
                    locations.push(tf::PageLocation { offset: p.at as i64, compressed_page_size: (p.end - p.at) as i32, first_row_index: rows });
                    rows += *r as i64;
                }
            }
            ensure!(md.total_uncompressed_size == u, "uncompressed-size: {} instead of {} (column {})", md.total_uncompressed_size, u, j);
            ensure!(md.num_values == values, "num-values: {} instead of {} (column {})", md.num_values, values, j);
            let k = md.statistics.as_ref().and_then(|s| s.null_count);
            ensure!(k.is_none() || k == Some(nulls), "chunk-nulls: {:?} instead of {} (column {})", k, nulls, j);
            ensure!(rg.num_rows == rows, "row-group-rows: {} instead of {}", rg.num_rows, rows);
            unc += u;
            if j == 0 {
                total += rows;
            }
            let (o, l) = c.offset_index_offset.zip(c.offset_index_length).ok_or("offset-index-missing: ")?;
            let oi = oracle::offset_index(&data, o as usize, l as usize)?;
            ensure!(oi.page_locations == locations, "offset-index: {:?} instead of {:?}", oi.page_locations, locations);
        }
        ensure!(rg.total_byte_size == unc, "row-group-size: {} instead of {}", rg.total_byte_size, unc);
    }
    ensure!(m.num_rows == total, "footer-rows: {} rows in the footer instead of {}", m.num_rows, total);
    let md = meta_any(fid)?.map_err(|e| format!("metadata-unreadable: {:?}", e))?;
    ensure!(md.num_rows as i64 == total, "metadata-rows: {} instead of {}", md.num_rows, total);
    oracle::check_view(&md, &data)
}

/// Chunks made beforehand, of every codec and encoding the format numbers: the writer stores them as given,
/// and the readers give them back.
fn as_given() -> R {
    const CODECS: [Compression; 8] = [Compression::Uncompressed, Compression::Snappy, Compression::Gzip, Compression::Lzo, Compression::Brotli, Compression::Lz4, Compression::Zstd, Compression::Lz4Raw];
    let nested = chance(PLAN, 1, 2);
    let schema = draw_schema(3, nested);
    let n = schema.columns().len();
    let options = WriteOptions { write_statistics: false, version: one_of(PLAN, &[Version::V1, Version::V2]) };
    let asyncy = chance(PLAN, 1, 2);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    let mut w = if asyncy { Writer::A(FileStreamer::new(aopen(fid), schema.clone(), options, None)) } else { Writer::S(FileWriter::new(open(fid), schema.clone(), options, None)) };
    struct Given {
        rec: Rec,
        size: usize,
        stored: Vec<u8>,
        encodings: Vec<tf::Encoding>,
    }
    let mut want: Vec<Vec<(Compression, Vec<Given>)>> = vec![];
    let mut r = Rng::new(raw(DATA));
    for _ in 0..1 + upick(PLAN, 2) {
        let rows: Vec<usize> = (0..upick(PLAN, 5)).map(|_| 1 + upick(PLAN, 300)).collect();
        let mut cols = vec![];
        let mut of = vec![];
        for j in 0..n {
            let d = &schema.columns()[j].descriptor;
            let c = CODECS[upick(PLAN, 8)];
            cover(&format!("given={:?}", c));
            let (mut pages, mut truth) = (vec![], vec![]);
            // a body as stored, and what it is once decompressed
            let mut body = || {
                let raw: Vec<u8> = (0..upick(PLAN, 200)).map(|_| if chance(PLAN, 1, 2) { 0 } else { r.next() as u8 }).collect();
                let stored = if c == Compression::Lzo { raw.iter().rev().cloned().collect() } else { crate::codec::compress(c, &raw) };
                (raw, stored)
            };
            if !rows.is_empty() && chance(PLAN, 1, 3) {
                let (b, stored) = body();
                let (k, sorted) = (upick(PLAN, 100), chance(PLAN, 1, 2));
                pages.push(CompressedPage::Dict(CompressedDictPage::new(stored.clone(), c, b.len(), k, sorted)));
                truth.push(Given { size: b.len(), stored, encodings: vec![tf::Encoding::PLAIN], rec: Rec { dict: true, head: format!("sorted {}", sorted), n: k, body: b, sel: None } });
            }
            for rows in &rows {
                let (b, stored) = body();
                let e = tf::Encoding(one_of(PLAN, &[0, 2, 3, 4, 5, 6, 7, 8, 9]));
                cover(&format!("given={:?}", e));
                let level = || tf::Encoding(one_of(PLAN, &[3, 3, 4]));
                let values = rows + if d.max_rep_level > 0 { upick(PLAN, 100) } else { 0 };
                let h = if c == Compression::Uncompressed || chance(PLAN, 1, 2) {
                    DataPageHeader::V1(DataPageHeaderV1 { num_values: values as i32, encoding: e, definition_level_encoding: level(), repetition_level_encoding: level(), statistics: None })
                } else {
                    DataPageHeader::V2(DataPageHeaderV2 {
                        num_values: values as i32,
                        num_nulls: 0,
                        num_rows: *rows as i32,
                        encoding: e,
                        definition_levels_byte_length: 0,
                        repetition_levels_byte_length: 0,
                        is_compressed: one_of(PLAN, &[None, Some(true)]),
                        statistics: None,
                    })
                };
                let mut encodings = vec![e];
                if let DataPageHeader::V1(h) = &h {
                    if d.max_def_level > 0 {
                        encodings.push(h.definition_level_encoding);
                    }
                    if d.max_rep_level > 0 {
                        encodings.push(h.repetition_level_encoding);
                    }
                }
                let head = format!("{:?}", h);
                pages.push(CompressedPage::Data(CompressedDataPage::new(h, stored.clone(), c, b.len(), d.clone(), Some(*rows))));
                truth.push(Given { size: b.len(), stored, encodings, rec: Rec { dict: false, head, n: values, body: b, sel: None } });
            }
            cols.push(pages);
            of.push((c, truth));
        }
        let it = DynIter::new(cols.into_iter().map(|p| Ok::<_, Error>(DynStreamingIterator::new(Ready(p, 0)))));
        w.write(it)?.map_err(|e| format!("write-refused: pages made beforehand are refused: {:?}", e))?;
        want.push(of);
    }
    finish(w.end(None)?, fid)?;
    set_io(draw_io(true));
    let data = file_data(fid);
    let m = oracle::parse_footer(&data).map_err(|e| format!("footer-unparsable: {}", e))?.meta;
    let md = meta_any(fid)?.map_err(|e| format!("metadata-unreadable: {:?}", e))?;
    for (g, cols) in want.iter().enumerate() {
        for (j, (codec, truth)) in cols.iter().enumerate() {
            let c = &md.row_groups[g].columns()[j];
            let t = m.row_groups[g].columns[j].meta_data.as_ref().ok_or("column-without-metadata: ")?;
            // a chunk without pages has no codec to keep
            let codec = if truth.is_empty() { Compression::Uncompressed } else { *codec };
            ensure!(t.codec == crate::codec::number(codec) && c.compression() == codec, "codec: {:?} is stored as {:?} and read as {:?}", codec, t.codec, c.compression());
            for x in truth.iter().flat_map(|x| &x.encodings) {
                ensure!(t.encodings.contains(x), "encodings: {:?} lacks {:?} (row group {} column {})", t.encodings, x, g, j);
            }
            let at = oracle::walk(&data, t.data_page_offset as usize, (t.data_page_offset + t.total_compressed_size) as usize).map_err(|e| format!("chunk-range: {}", e))?;
            ensure!(at.len() == truth.len(), "chunk-pages: {} instead of {}", at.len(), truth.len());
            for (p, x) in at.iter().zip(truth) {
                ensure!(data[p.body_at..p.end] == x.stored[..], "page-body: a page made beforehand is not stored as given");
                ensure!(p.header.uncompressed_page_size as usize == x.size, "page-size: {} stored as {}", x.size, p.header.uncompressed_page_size);
            }
            let how = one_of(SCHED, &HOWS);
            let got = pages(fid, c, how, None, NOLIMIT)?;
            if codec == Compression::Lzo {
                // there is no such decompressor
                ensure!(got.err.is_some() && got.pages.is_empty(), "undecodable-page: {:?} yields pages of a codec that is not there", how);
                continue;
            }
            let recs: Vec<Rec> = truth.iter().map(|x| x.rec.clone()).collect();
            same_pages(&format!("{:?} of given row group {} column {}", how, g, j), &got, &recs)?;
        }
    }
    oracle::check_view(&md, &data)
}

pub fn p10() -> R {
    if chance(PLAN, 1, 10) {
        return giant();
    }
    let mut cfg = BASE;
    cfg.pages = 6;
    cfg.hollow = true;
    let t = draw_table(&cfg);
    let asyncy = chance(PLAN, 1, 2);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    finish(write_table(&t, fid, asyncy)?, fid)?;
    calm();
    oracle::check_file(&file_data(fid), &t)
}

/// A call on a writer.
#[derive(Clone, Debug)]
enum Call {
    /// row group, producer failure
    Write(usize, FailAt),
    /// row group with this many columns instead of its own
    Odd(usize, usize),
    /// row group with a page at (column, page) of another codec or without its number of rows
    Twisted(usize, usize, usize, Option<CompressionOptions>),
    End,
}
fn odd(g: &GroupM, n: usize) -> GroupM {
    let mut h = g.clone();
    while h.chunks.len() > n {
        h.chunks.pop();
    }
    while h.chunks.len() < n {
        let c = h.chunks.last().or(g.chunks.last()).cloned();
        match c {
            Some(c) => h.chunks.push(c),
            None => break,
        }
    }
    h
}
fn draw_calls(t: &TableM, wild: bool) -> Vec<Call> {
    let mut out = vec![];
    for (i, g) in t.groups.iter().enumerate() {
        if wild && chance(PLAN, 1, 8) {
            let n = g.chunks.len();
            out.push(Call::Odd(i, one_of(PLAN, &[0, n.saturating_sub(1), n + 1, n + 3])));
        }
        if wild && chance(PLAN, 1, 8) {
            out.extend(draw_twist(t, i));
        }
        let fail = if wild && chance(PLAN, 1, 6) { draw_fail(g) } else { None };
        out.push(Call::Write(i, fail));
    }
    out.push(Call::End);
    if wild {
        for _ in 0..upick(PLAN, 4) {
            let c = if !t.groups.is_empty() && chance(PLAN, 1, 2) { Call::Write(upick(PLAN, t.groups.len()), None) } else { Call::End };
            let at = if chance(PLAN, 1, 3) { upick(PLAN, out.len() + 1) } else { out.len() };
            out.insert(at, c);
        }
    }
    out
}
fn draw_twist(t: &TableM, i: usize) -> Option<Call> {
    let g = &t.groups[i];
    let j = upick(PLAN, g.chunks.len().max(1));
    let n = g.chunks.get(j)?.pages.len();
    if n == 0 {
        return None;
    }
    let codec = if n == 1 || chance(PLAN, 1, 3) { None } else { Some(one_of(PLAN, &[CompressionOptions::Uncompressed, CompressionOptions::Snappy, CompressionOptions::Lz4Raw])) };
    Some(Call::Twisted(i, j, upick(PLAN, n), codec))
}
fn twisted(g: &GroupM, j: usize, k: usize, codec: Option<CompressionOptions>) -> GroupM {
    count_fault(if codec.is_some() { "page_of_another_codec" } else { "page_without_rows" });
    let mut g = g.clone();
    g.chunks[j].twist = Some((k, codec));
    g
}
fn draw_fail(g: &GroupM) -> FailAt {
    if g.chunks.is_empty() {
        return None;
    }
    let j = upick(PLAN, g.chunks.len());
    if chance(PLAN, 1, 4) {
        return Some((j, usize::MAX));
    }
    Some((j, upick(PLAN, g.chunks[j].pages.len() + 1)))
}
fn call(w: &mut Writer, t: &TableM, c: &Call) -> R<Result<u64, String>> {
    let e = |e: parquet2::error::Error| format!("{:?}", e);
    Ok(match c {
        Call::Write(i, f) => w.write(group_iter(t, &t.groups[*i], *f, None, Default::default()))?.map(|_| 0).map_err(e),
        Call::Odd(i, n) => {
            let g = odd(&t.groups[*i], *n);
            w.write(simple_iter(t, &g))?.map(|_| 0).map_err(e)
        }
        Call::Twisted(i, j, k, codec) => {
            let g = twisted(&t.groups[*i], *j, *k, *codec);
            w.write(simple_iter(t, &g))?.map(|_| 0).map_err(e)
        }
        Call::End => w.end(t.kv.clone())?.map_err(e),
    })
}

/// Sync and async writer side by side, call by call.
pub fn p02() -> R {
    let mut cfg = BASE;
    cfg.pages = 5;
    cfg.hollow = true;
    let t = draw_table(&cfg);
    let calls = draw_calls(&t, chance(PLAN, 1, 3));
    let (fa, fb) = (new_file(vec![]), new_file(vec![]));
    set_io(IoCfg::default());
    let mut a = Writer::new(&t, fa, false);
    let mut b = Writer::new(&t, fb, true);
    let (ia, ib) = (draw_io(false), draw_io(true));
    let mut clean = true;
    for (k, c) in calls.iter().enumerate() {
        set_io(ia);
        let ra = call(&mut a, &t, c)?;
        set_io(ib);
        let rb = call(&mut b, &t, c)?;
        note(format!("call {} {:?}: sync {:?} async {:?}", k, c, ra, rb));
        ensure!(ra.is_ok() == rb.is_ok(), "outcome-differs: call {} {:?}: sync {:?}, async {:?}", k, c, ra, rb);
        ensure!(ra.is_err() || ra == rb, "length-differs: call {} {:?}: sync {:?}, async {:?}", k, c, ra, rb);
        clean &= ra.is_ok();
        if clean {
            let (x, y) = (file_data(fa), file_data(fb));
            let at = x.iter().zip(y.iter()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            ensure!(x == y, "bytes-differ: after call {} {:?} the files differ at {} ({} and {} bytes)", k, c, at, x.len(), y.len());
        }
    }
    // what was acknowledged is what both hold
    let (x, y) = (file_data(fa), file_data(fb));
    ensure!(x == y || !clean, "bytes-differ: at the end ({} and {} bytes)", x.len(), y.len());
    if clean {
        let (Writer::S(a), Writer::A(b)) = (a, b) else { unreachable!() };
        ensure!(a.options() == b.options() && format!("{:?}", a.schema()) == format!("{:?}", b.schema()), "accessors-differ: options or schema");
        let (da, db) = (a.into_inner(), b.into_inner());
        ensure!(da.file == fa && db.0.file == fb, "accessors-differ: into_inner");
    }
    Ok(())
}

/// After an acknowledged end: the sink holds exactly the acknowledged row groups.
fn acked(t: &TableM, groups: &[usize], fid: usize, n: u64, what: &str) -> R {
    let len = file_len(fid);
    ensure!(n as usize == len, "acked-length: {}: end reports {} bytes, the sink holds {}", what, n, len);
    ensure!(file_flushed(fid) == Some(len), "acked-not-flushed: {}: flushed {:?} of {}", what, file_flushed(fid), len);
    let mut u = t.clone();
    u.groups = groups.iter().map(|i| t.groups[*i].clone()).collect();
    check_readback(fid, &u, Some(How::Plain)).map_err(|e| format!("acked-file-bad: {}: {}", what, e))
}

pub fn p04() -> R {
    let mut cfg = BASE;
    cfg.huge = false;
    cfg.leaves = 3;
    cfg.groups = (1, 3);
    cfg.big = false;
    let t = draw_table(&cfg);
    let asyncy = chance(PLAN, 1, 2);
    let io = draw_io(asyncy);
    // how many operations are there to fail?
    let probe = new_file(vec![]);
    let before = ops();
    if write_table(&t, probe, asyncy)?.is_err() {
        return Err("write-refused: a valid table is refused".into());
    }
    let after = ops();
    set_io(io);
    let fid = new_file(vec![]);
    let mut w = Writer::new(&t, fid, asyncy);
    // producer failure or device fault
    let by_producer = chance(PLAN, 1, 4);
    let mut fail: Vec<FailAt> = vec![None; t.groups.len()];
    let mut kind = FaultKind::Io;
    if by_producer {
        let i = upick(PLAN, t.groups.len());
        fail[i] = draw_fail(&t.groups[i]);
    } else {
        kind = one_of(PLAN, &[FaultKind::Io, FaultKind::Full, FaultKind::TimedOut, FaultKind::Interrupted, FaultKind::Zero, FaultKind::WouldBlock]);
        if chance(PLAN, 1, 5) {
            arm(Fault { ops: 1 << Op::Flush as u8, at: pick(FAULT, (after[2] - before[2]).max(1)), kind: FaultKind::Io, sticky: chance(PLAN, 1, 2) });
            kind = FaultKind::Io;
        } else {
            let total = after[1] - before[1];
            // near the end every now and then: footer and indexes
            let at = if chance(PLAN, 1, 3) { total - 1 - pick(FAULT, total.min(12)) } else { pick(FAULT, total) };
            let sticky = match kind {
                FaultKind::Zero => true,
                FaultKind::Full => chance(PLAN, 1, 2),
                // a call interrupted for ever is not a fault that ends
                FaultKind::Interrupted => false,
                _ => chance(PLAN, 1, 6),
            };
            arm(Fault { ops: 1 << Op::Write as u8, at, kind, sticky });
        }
    }
    let hard = !matches!(kind, FaultKind::Interrupted | FaultKind::Zero);
    let mut done: Vec<usize> = vec![];
    let mut failed = false;
    let mut budget = t.groups.len() * 2 + 4;
    let mut next = 0;
    let mut ended = false;
    while budget > 0 {
        budget -= 1;
        let f0 = fired();
        let end = next >= t.groups.len() || (failed && chance(PLAN, 1, 4));
        let c = if end { Call::End } else { Call::Write(next, fail[next].take()) };
        let by_prod = matches!(c, Call::Write(_, Some(_)));
        let r = call(&mut w, &t, &c)?;
        note(format!("{:?} -> {:?}", c, r));
        if (fired() > f0 && hard) || by_prod {
            ensure!(r.is_err(), "fault-swallowed: {:?} returns {:?} although {}", c, r, if by_prod { "the producer failed".to_string() } else { format!("the sink failed ({})", kind.name()) });
        }
        match (r, c) {
            (Ok(n), Call::End) => {
                ensure!(!ended, "end-twice: a second end succeeds");
                ended = true;
                disarm();
                set_io(IoCfg::default());
                if kind == FaultKind::Zero && fired() > 0 {
                    return Err("fault-swallowed: end succeeds although the sink accepts nothing any more".into());
                }
                acked(&t, &done, fid, n, if failed { "after a failure" } else { "without a failure" })?;
                if failed {
                    cover("end acknowledged after a failure");
                }
                break;
            }
            (Ok(_), Call::Write(i, _)) => {
                ensure!(!ended, "write-after-end: accepted");
                done.push(i);
                next = i + 1;
            }
            (Err(_), Call::End) => {
                failed = true;
                if chance(PLAN, 1, 2) && kind != FaultKind::Zero {
                    disarm();
                }
                if next < t.groups.len() && chance(PLAN, 1, 2) {
                    continue;
                }
                next = t.groups.len();
            }
            (Err(_), Call::Write(i, _)) => {
                failed = true;
                // the disk has room again / the producer is fine again
                if chance(PLAN, 2, 3) && kind != FaultKind::Zero {
                    disarm();
                }
                // retry it, or go on without it
                if chance(PLAN, 1, 2) {
                    next = i + 1;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn p05() -> R {
    let mut cfg = BASE;
    cfg.huge = false;
    cfg.leaves = 3;
    cfg.groups = (1, 3);
    cfg.big = false;
    let t = draw_table(&cfg);
    let mut io = draw_io(true);
    io.pending = io.pending.max(40);
    set_io(io);
    let fid = new_file(vec![]);
    let mut w = parquet2::write::FileStreamer::new(aopen(fid), t.schema.clone(), t.options, t.created_by.clone());
    let mut done = vec![];
    let mut next = 0;
    let mut cancelled = 0;
    for _ in 0..t.groups.len() * 2 + 4 {
        let end = next >= t.groups.len() || (cancelled > 0 && chance(PLAN, 1, 5));
        let limit = if cancelled < 3 && chance(PLAN, 1, 3) { Some(if chance(FAULT, 1, 3) { pick(FAULT, 400) } else { pick(FAULT, 30) }) } else { None };
        if end {
            let f = w.end(t.kv.clone());
            let r = match limit {
                Some(0) => {
                    drop(f);
                    None
                }
                Some(n) => drive(f, n)?,
                None => drive(f, u64::MAX)?,
            };
            note(format!("end, cancelled at {:?} -> {:?}", limit, r));
            match r {
                Some(Ok(n)) => {
                    set_io(IoCfg::default());
                    return acked(&t, &done, fid, n, if cancelled > 0 { "after a cancelled call" } else { "without a cancelled call" });
                }
                Some(Err(e)) => {
                    ensure!(cancelled > 0, "write-refused: end fails with {:?} although nothing was cancelled", e);
                    next = t.groups.len();
                }
                None => {
                    cancelled += 1;
                    count_fault("cancelled_future");
                }
            }
        } else {
            let f = w.write(simple_iter(&t, &t.groups[next]));
            let r = match limit {
                Some(0) => {
                    drop(f);
                    None
                }
                Some(n) => drive(f, n)?,
                None => drive(f, u64::MAX)?,
            };
            note(format!("write {}, cancelled at {:?} -> {:?}", next, limit, r));
            match r {
                Some(Ok(())) => {
                    done.push(next);
                    next += 1;
                }
                Some(Err(e)) => {
                    ensure!(cancelled > 0, "write-refused: write fails with {:?} although nothing was cancelled", e);
                    next = t.groups.len();
                }
                None => {
                    cancelled += 1;
                    count_fault("cancelled_future");
                    if chance(PLAN, 1, 2) {
                        next += 1;
                    }
                }
            }
        }
    }
    Ok(())
}

fn opens(fid: usize) -> R<Option<FileMetaData>> {
    let r = match pick(SCHED, 4) {
        0 | 1 | 2 => crate::run::calls("opening what a crash left", || meta_sync(fid))?,
        _ => meta_async(fid)?,
    };
    Ok(r.ok())
}

pub fn p06() -> R {
    let mut cfg = BASE;
    cfg.huge = false;
    cfg.leaves = 3;
    cfg.hollow = true;
    cfg.pages = 3;
    cfg.big = false;
    let t = draw_table(&cfg);
    let asyncy = chance(PLAN, 1, 2);
    // 1. the complete file
    let whole = new_file(vec![]);
    finish(write_table(&t, whole, asyncy)?, whole)?;
    let data = file_data(whole);
    let n = data.len();
    // 2. the process stops at some device operation, without running anything but destructors
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    {
        let mut w = Writer::new(&t, fid, asyncy);
        let stop = upick(FAULT, t.groups.len() + 2);
        let mut alive = true;
        if chance(FAULT, 1, 2) {
            arm(Fault { ops: 0b11111, at: pick(FAULT, 200), kind: FaultKind::Io, sticky: true });
        }
        for (i, g) in t.groups.iter().enumerate() {
            if i == stop {
                alive = false;
                break;
            }
            if w.write(simple_iter(&t, g))?.is_err() {
                alive = false;
                break;
            }
        }
        let mut ended = false;
        if alive && stop > t.groups.len() {
            ended = w.end(t.kv.clone())?.is_ok();
        }
        drop(w);
        calm();
        ev(9, file_len(fid) as u64, n as u64, 0);
        count_fault("crash");
        if ended {
            check_readback(fid, &t, Some(How::Plain))?;
        } else if file_len(fid) < n || file_data(fid) != data {
            ensure!(opens(fid)?.is_none(), "crash-reads: a file whose writer was dropped without an acknowledged end ({} bytes) opens as a table", file_len(fid));
        }
    }
    // 3. only a prefix became durable; the rest of the blocks may read as zeros
    let torn = new_file(vec![]);
    let ks: Vec<usize> = if n <= 500 || thorough() && n <= 4000 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..150).map(|_| upick(FAULT, n)).collect();
        v.extend(n.saturating_sub(70)..n);
        v.extend(0..20);
        v
    };
    for k in ks {
        let mut d = data[..k].to_vec();
        let tail = match pick(FAULT, 6) {
            0 => n - k,
            1 => 1 + upick(FAULT, 600),
            _ => 0,
        };
        // zeros that happen to be the missing bytes complete the file
        d.resize(k + tail, 0);
        if d == *data {
            continue;
        }
        set_file(torn, d);
        if tail > 0 {
            count_fault("torn_tail_zeroed")
        } else {
            count_fault("lost_tail")
        }
        ev(9, k as u64, n as u64, tail as u64);
        if opens(torn)?.is_some() {
            // zeros after a complete table leave the table unreadable as well
            return Err(format!("crash-reads: {} of {} bytes durable (+{} zero bytes) open as a table", k, n, tail));
        }
    }
    // 4. restart: written again from scratch
    set_io(draw_io(!asyncy));
    let again = new_file(vec![]);
    finish(write_table(&t, again, !asyncy)?, again)?;
    calm();
    ensure!(file_data(again) == data, "rewrite-differs: the file written after the restart differs");
    check_readback(again, &t, Some(How::Plain))
}

pub fn p17() -> R {
    let mut cfg = BASE;
    cfg.huge = false;
    cfg.leaves = 3;
    cfg.hollow = true;
    cfg.big = false;
    let t = draw_table(&cfg);
    let asyncy = chance(PLAN, 1, 2);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    let mut w = Writer::new(&t, fid, asyncy);
    ensure!(file_len(fid) == 0 && ops()[1] == 0, "early-bytes: creating a writer emits bytes");
    if !t.groups.is_empty() && chance(PLAN, 1, 8) {
        // pages a chunk cannot hold together: refused, or written so that they read back
        let i = upick(PLAN, t.groups.len());
        let Some(c) = draw_twist(&t, i) else { return Ok(()) };
        for k in 0..i {
            if let Err(e) = w.write(simple_iter(&t, &t.groups[k]))? {
                return Err(format!("write-refused: {:?}", e));
            }
        }
        let mut done: Vec<usize> = (0..i).collect();
        match call(&mut w, &t, &c)? {
            Ok(_) => {
                done.push(i);
                cover("odd_pages=accepted");
            }
            Err(_) => cover("odd_pages=refused"),
        }
        if let Ok(n) = w.end(t.kv.clone())? {
            calm();
            cover("odd_pages=ended");
            acked(&t, &done, fid, n, "after a row group of odd pages")?;
        }
        return Ok(());
    }
    let odd_case = !t.groups.is_empty() && chance(PLAN, 1, 3);
    if odd_case {
        let i = upick(PLAN, t.groups.len());
        for k in 0..i {
            if let Err(e) = w.write(simple_iter(&t, &t.groups[k]))? {
                return Err(format!("write-refused: {:?}", e));
            }
        }
        let n = t.groups[i].chunks.len();
        let m = one_of(PLAN, &[n + 1, n.saturating_sub(1), 0, n + 2]);
        let g = odd(&t.groups[i], m);
        if m != n && g.chunks.len() == m {
            count_fault("odd_column_count");
            let r = w.write(simple_iter(&t, &g))?;
            ensure!(r.is_err(), "odd-row-group-accepted: a row group of {} columns is accepted for a schema of {}", m, n);
            // it must not be part of a file that is acknowledged later
            if let Ok(n) = w.end(t.kv.clone())? {
                calm();
                acked(&t, &(0..i).collect::<Vec<_>>(), fid, n, "after a refused row group")?;
            }
            return Ok(());
        }
    }
    for g in t.groups.iter().skip(if odd_case { t.groups.len() } else { 0 }) {
        if let Writer::S(w) = &w {
            ensure!(w.metadata().is_none(), "early-metadata: metadata is available before end");
        }
        if let Err(e) = w.write(simple_iter(&t, g))? {
            return Err(format!("write-refused: {:?}", e));
        }
    }
    if let Writer::S(w) = &w {
        ensure!(w.metadata().is_none(), "early-metadata: metadata is available before end");
        // an end that fails does not make it available either
    }
    let fail_end = chance(PLAN, 1, 5);
    if fail_end {
        arm(Fault { ops: (1 << Op::Write as u8) | (1 << Op::Flush as u8), at: pick(FAULT, 40), kind: FaultKind::Io, sticky: true });
    }
    let r = w.end(t.kv.clone())?;
    disarm();
    let n = match r {
        Ok(n) => n,
        Err(e) => {
            ensure!(fail_end, "write-refused: end fails with {:?}", e);
            if let Writer::S(w) = &w {
                ensure!(w.metadata().is_none(), "early-metadata: metadata is available after a failed end");
            }
            return Ok(());
        }
    };
    let data = file_data(fid);
    ensure!(n as usize == data.len(), "reported-length: {} instead of {}", n, data.len());
    // nothing is accepted any more
    for _ in 0..1 + upick(PLAN, 3) {
        let c = if t.groups.is_empty() || chance(PLAN, 1, 2) { Call::End } else { Call::Write(upick(PLAN, t.groups.len()), None) };
        count_fault("call_after_end");
        let r = call(&mut w, &t, &c)?;
        ensure!(r.is_err(), "accepted-after-end: {:?} returns {:?} after end", c, r);
        ensure!(file_data(fid) == data, "bytes-after-end: {:?} emitted {} bytes after end", c, file_len(fid) as i64 - data.len() as i64);
    }
    calm();
    let md = meta_any(fid)?.map_err(|e| format!("metadata-unreadable: {:?}", e))?;
    if let Writer::S(w) = w {
        let m = w.metadata().cloned();
        let parsed = oracle::parse_footer(&data).map_err(|e| format!("footer-unparsable: {}", e))?;
        ensure!(m.as_ref() == Some(&parsed.meta), "metadata-not-the-files: the writer's metadata differs from the file's");
        let m = FileMetaData::try_from_thrift(m.unwrap()).map_err(|e| format!("metadata-not-the-files: {:?}", e))?;
        ensure!(format!("{:?}", m) == format!("{:?}", md), "metadata-not-the-files: the writer's metadata converts to something else than the file's");
        let (dev, m) = w.into_inner_and_metadata();
        ensure!(dev.file == fid && m == parsed.meta, "metadata-not-the-files: into_inner_and_metadata");
    }
    Ok(())
}
