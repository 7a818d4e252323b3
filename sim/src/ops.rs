//! Everything the scenarios do with the library: writing a table, reading it back in every way.
use crate::choices::*;
use crate::exec::*;
use crate::model::*;
use crate::world::*;
use parquet2::error::Error;
use parquet2::indexes::{FilteredPage, Interval};
use parquet2::metadata::{ColumnChunkMetaData, FileMetaData};
use parquet2::page::{CompressedPage, Page};
use parquet2::read::*;
use parquet2::write::{FileStreamer, FileWriter};
use parquet2::FallibleStreamingIterator;
use std::io::{Cursor, Seek, SeekFrom};

pub const NOLIMIT: usize = usize::MAX;

/// A page as seen by a consumer.
#[derive(Clone, PartialEq, Debug)]
pub struct Rec {
    pub dict: bool,
    pub head: String,
    pub n: usize,
    pub body: Vec<u8>,
    pub sel: Option<Vec<(usize, usize)>>,
}
impl Rec {
    pub fn short(&self) -> String {
        format!("{} n={} sel={:?} body[{}]={:02x?} {}", if self.dict { "dict" } else { "data" }, self.n, self.sel, self.body.len(), &self.body[..self.body.len().min(12)], self.head)
    }
}
pub fn rec_of(page: &Page) -> Rec {
    match page {
        Page::Data(p) => Rec {
            dict: false,
            head: format!("{:?}", p.header()),
            n: p.num_values(),
            body: p.buffer().to_vec(),
            sel: p.selected_rows().map(|x| x.iter().map(|i| (i.start, i.length)).collect()),
        },
        Page::Dict(p) => Rec { dict: true, head: format!("sorted {}", p.is_sorted), n: p.num_values, body: p.buffer.clone(), sel: None },
    }
}
/// What reading a chunk must yield.
pub fn expected(c: &ChunkM) -> Vec<Rec> {
    c.visible()
        .iter()
        .map(|p| match &p.header {
            None => Rec { dict: true, head: format!("sorted {}", c.sorted), n: p.dict_n, body: p.body.clone(), sel: None },
            Some(h) => Rec { dict: false, head: format!("{:?}", h), n: p.n(), body: p.body.clone(), sel: None },
        })
        .collect()
}

/// Contents and spare capacity of a buffer handed to the library.
pub fn dirty() -> Vec<u8> {
    let n = [0usize, 0, 1, 7, 100, 5000][upick(DATA, 6)];
    let mut v = vec![0xA5; n];
    v.reserve([0usize, 1, 64, 70_000][upick(DATA, 4)]);
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    /// `PageReader`, then `decompress` with one buffer carried from page to page
    Plain,
    /// `Decompressor` swapping buffers with the `PageReader`
    Reuse,
    Basic,
    Stream,
    StreamStart,
    /// `read_column` and a `PageReader` on the bytes
    Column,
    ColumnAsync,
}
pub const HOWS: [How; 7] = [How::Plain, How::Reuse, How::Basic, How::Stream, How::StreamStart, How::Column, How::ColumnAsync];

#[derive(Default, Debug)]
pub struct Got {
    pub pages: Vec<Rec>,
    pub err: Option<String>,
    /// pages yielded after the first error
    pub late: Vec<Rec>,
}
impl Got {
    fn push(&mut self, r: Result<Rec, Error>) {
        match r {
            Ok(p) if self.err.is_none() => self.pages.push(p),
            Ok(p) => self.late.push(p),
            Err(e) => {
                let m = format!("{:?}", e);
                note(format!("    error: {}", m));
                self.err.get_or_insert(m);
            }
        }
    }
}

fn decompressed(p: Result<CompressedPage, Error>, buf: &mut Vec<u8>) -> Result<Rec, Error> {
    let p = p?;
    let sel = match &p {
        CompressedPage::Data(d) => d.selected_rows().map(|x| x.iter().map(|i| (i.start, i.length)).collect()),
        _ => None,
    };
    let mut page = decompress(p, buf)?;
    let mut r = rec_of(&page);
    if r.sel != sel {
        r.head.push_str(" SELECTION LOST");
    }
    // hand the buffer to the next page
    match &mut page {
        Page::Data(d) => *buf = std::mem::take(d.buffer_mut()),
        Page::Dict(d) => *buf = std::mem::take(&mut d.buffer),
    }
    r.sel = sel;
    Ok(r)
}

/// Drains an iterator of compressed pages; looks a little past an error and past the end.
pub fn drain(it: &mut dyn Iterator<Item = Result<CompressedPage, Error>>, got: &mut Got) -> R {
    let mut buf = dirty();
    let mut errs = 0;
    loop {
        match it.next() {
            None => break,
            Some(r) => {
                errs += r.is_err() as usize;
                let r = decompressed(r, &mut buf);
                got.push(r);
                if errs > 3 || got.late.len() > 20 {
                    return Ok(());
                }
            }
        }
    }
    ensure!(it.next().is_none(), "iterator-restarts: a page iterator yields items after its end");
    Ok(())
}
fn drain_fsi<I: FallibleStreamingIterator<Item = Page, Error = Error>>(it: &mut I, got: &mut Got) -> R {
    let mut errs = 0;
    loop {
        match it.next() {
            Ok(None) => break,
            Ok(Some(p)) => got.push(Ok(rec_of(p))),
            Err(e) => {
                errs += 1;
                got.push(Err(e))
            }
        }
        if errs > 3 || got.late.len() > 20 {
            return Ok(());
        }
    }
    match it.next() {
        Ok(None) => Ok(()),
        _ => Err("iterator-restarts: a decompressor yields items after its end".into()),
    }
}

pub fn pages(fid: usize, c: &ColumnChunkMetaData, how: How, filter: Option<PageFilter>, max: usize) -> R<Got> {
    let mut got = Got::default();
    let f = || filter.clone().unwrap_or_else(|| std::sync::Arc::new(|_, _| true));
    note(format!("  read file{} column {:?} by {:?}", fid, c.descriptor().path_in_schema, how));
    match how {
        How::Plain | How::Reuse | How::Basic => match get_page_iterator(c, open(fid), filter.clone(), dirty(), max) {
            Err(e) => got.push(Err(e)),
            Ok(mut it) => match how {
                How::Plain => drain(&mut it, &mut got)?,
                How::Reuse => {
                    let mut d = Decompressor::new(it, dirty());
                    drain_fsi(&mut d, &mut got)?;
                    let _ = d.into_buffers();
                }
                _ => {
                    let mut d = BasicDecompressor::new(it, dirty());
                    drain_fsi(&mut d, &mut got)?;
                }
            },
        },
        How::Stream | How::StreamStart => {
            let mut dev = aopen(fid);
            let r = block_on(async {
                let mut got = Got::default();
                use futures::StreamExt;
                macro_rules! go {
                    ($s:expr) => {
                        match $s {
                            Err(e) => got.push(Err(e)),
                            Ok(s) => {
                                futures::pin_mut!(s);
                                let mut buf = dirty();
                                while let Some(p) = s.next().await {
                                    let r = decompressed(p, &mut buf);
                                    got.push(r);
                                    if got.late.len() > 20 {
                                        break;
                                    }
                                }
                            }
                        }
                    };
                }
                if how == How::Stream {
                    go!(get_page_stream(c, &mut dev, dirty(), f(), max).await)
                } else {
                    dev.0.pos = c.byte_range().0;
                    go!(get_page_stream_from_column_start(c, &mut dev, dirty(), f(), max).await)
                }
                got
            })?;
            got = r;
        }
        How::Column | How::ColumnAsync => {
            let r = if how == How::Column {
                let mut dev = open(fid);
                read_column(&mut dev, c)
            } else {
                block_on(read_column_async(
                    || -> futures::future::BoxFuture<'static, std::io::Result<ADev>> { Box::pin(async move { Ok(aopen(fid)) }) },
                    c,
                ))?
            };
            match r {
                Err(e) => got.push(Err(e)),
                Ok(bytes) => {
                    let mut it = PageReader::new(Cursor::new(bytes), c, f(), dirty(), max);
                    drain(&mut it, &mut got)?
                }
            }
        }
    }
    Ok(got)
}

/// Reads pages through the page index.
pub fn indexed(fid: usize, c: &ColumnChunkMetaData, sel: Vec<FilteredPage>) -> R<Got> {
    let mut got = Got::default();
    let mut it = IndexedPageReader::new(open(fid), c, sel, dirty(), dirty());
    drain(&mut it, &mut got)?;
    Ok(got)
}

pub fn same_pages(what: &str, got: &Got, want: &[Rec]) -> R {
    if let Some(e) = &got.err {
        return Err(format!("read-error: {} fails with {} after {} of {} pages", what, e, got.pages.len(), want.len()));
    }
    same_recs(what, &got.pages, want)
}
pub fn same_recs(what: &str, got: &[Rec], want: &[Rec]) -> R {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure!(a == b, "page-differs: {} page {} is {} but should be {}", what, i, a.short(), b.short());
    }
    ensure!(got.len() == want.len(), "page-count: {} yields {} pages, not {}", what, got.len(), want.len());
    Ok(())
}

pub fn meta_sync(fid: usize) -> Result<FileMetaData, Error> {
    let mut d = open(fid);
    d.pos = if fid % 2 == 0 { 0 } else { 3 };
    read_metadata(&mut d)
}
pub fn meta_async(fid: usize) -> R<Result<FileMetaData, Error>> {
    let mut d = aopen(fid);
    block_on(read_metadata_async(&mut d))
}
pub fn meta_any(fid: usize) -> R<Result<FileMetaData, Error>> {
    Ok(match pick(SCHED, 4) {
        0 | 1 => meta_sync(fid),
        2 => meta_async(fid)?,
        _ => {
            let mut d = open(fid);
            let n = file_len(fid) as u64;
            read_metadata_with_size(&mut d, n)
        }
    })
}

pub enum Writer {
    S(FileWriter<Dev>),
    A(FileStreamer<ADev>),
}
impl Writer {
    pub fn new(t: &TableM, fid: usize, asyncy: bool) -> Self {
        let (s, o, c) = (t.schema.clone(), t.options, t.created_by.clone());
        if asyncy {
            Writer::A(FileStreamer::new(aopen(fid), s, o, c))
        } else {
            Writer::S(FileWriter::new(open(fid), s, o, c))
        }
    }
    pub fn write(&mut self, g: parquet2::write::RowGroupIter<'_, Error>) -> R<Result<(), Error>> {
        match self {
            Writer::S(w) => Ok(w.write(g)),
            Writer::A(w) => block_on(w.write(g)),
        }
    }
    pub fn end(&mut self, kv: Option<Vec<parquet2::metadata::KeyValue>>) -> R<Result<u64, Error>> {
        match self {
            Writer::S(w) => Ok(w.end(kv)),
            Writer::A(w) => block_on(w.end(kv)),
        }
    }
}
/// Writes the whole table under the current device configuration.
pub fn write_table(t: &TableM, fid: usize, asyncy: bool) -> R<Result<u64, Error>> {
    let mut w = Writer::new(t, fid, asyncy);
    for g in &t.groups {
        if let Err(e) = w.write(simple_iter(t, g))? {
            return Ok(Err(e));
        }
    }
    w.end(t.kv.clone())
}

/// The metadata read back describes the table.
pub fn check_metadata(md: &FileMetaData, t: &TableM) -> R {
    crate::oracle::check_leaves(md.schema())?;
    use parquet2::write::Version;
    let m = |a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug, what: &str| -> R {
        let (a, b) = (format!("{:?}", a), format!("{:?}", b));
        ensure!(a == b, "metadata-differs: {} reads back as {} but {} was written", what, &a[..a.len().min(600)], &b[..b.len().min(600)]);
        Ok(())
    };
    m(&md.version, &(if t.options.version == Version::V1 { 1 } else { 2 }), "version")?;
    m(&md.num_rows, &t.groups.iter().map(|g| g.rows).sum::<usize>(), "row count")?;
    m(&md.created_by, &t.created_by, "created_by")?;
    m(&md.key_value_metadata, &t.kv, "key-value metadata")?;
    m(&md.schema().fields(), &t.schema.fields(), "schema fields")?;
    m(&md.schema().name(), &t.schema.name(), "schema name")?;
    m(&md.schema().columns(), &t.schema.columns(), "schema columns")?;
    m(&md.row_groups.len(), &t.groups.len(), "number of row groups")?;
    for (i, (rg, g)) in md.row_groups.iter().zip(&t.groups).enumerate() {
        m(&rg.num_rows(), &g.rows, &format!("rows of row group {}", i))?;
        m(&rg.columns().len(), &g.chunks.len(), "number of columns")?;
        for (j, (c, cm)) in rg.columns().iter().zip(&g.chunks).enumerate() {
            let w = |x: &str| format!("{} of row group {} column {}", x, i, j);
            m(&c.num_values(), &(cm.n() as i64), &w("values"))?;
            let codec: parquet2::compression::Compression = if cm.pages.is_empty() { parquet2::compression::Compression::Uncompressed } else { crate::codec::of(cm.codec) };
            m(&c.compression(), &codec, &w("codec"))?;
            m(&c.descriptor(), &&t.schema.columns()[j], &w("descriptor"))?;
        }
    }
    Ok(())
}

/// Reads everything and compares with the table. `how` None: drawn per chunk.
pub fn check_readback(fid: usize, t: &TableM, how: Option<How>) -> R {
    let md = match meta_any(fid)? {
        Ok(m) => m,
        Err(e) => return Err(format!("metadata-unreadable: a finished file cannot be opened: {:?}", e)),
    };
    check_metadata(&md, t)?;
    for (i, g) in t.groups.iter().enumerate() {
        for (j, c) in g.chunks.iter().enumerate() {
            let h = how.unwrap_or_else(|| one_of(SCHED, &HOWS));
            let got = pages(fid, &md.row_groups[i].columns()[j], h, None, NOLIMIT)?;
            same_pages(&format!("{:?} of row group {} column {}", h, i, j), &got, &expected(c))?;
        }
    }
    Ok(())
}

/// Random damage to bytes; returns the number of places touched.
pub fn damage(data: &mut Vec<u8>, lo: usize, times: usize) {
    for _ in 0..times {
        if data.len() <= lo {
            return;
        }
        let n = data.len();
        let at = lo + upick(FAULT, n - lo);
        let kind = pick(FAULT, 8);
        let arg = raw(FAULT);
        count_fault(["bit_flip", "byte_set", "region_zeroed", "region_random", "block_duplicated", "block_lost", "bytes_inserted", "length_edited"][kind as usize]);
        ev(10, at as u64, kind, arg & 0xffff);
        let len = (1 + (arg >> 8) as usize % 40).min(n - at);
        match kind {
            0 => data[at] ^= 1 << (arg % 8),
            1 => data[at] = [0, 1, 0x7f, 0x80, 0xff, arg as u8][(arg >> 8) as usize % 6],
            2 => data[at..at + len].iter_mut().for_each(|x| *x = 0),
            3 => {
                let mut r = Rng::new(arg);
                data[at..at + len].iter_mut().for_each(|x| *x = r.next() as u8)
            }
            4 => {
                let b = data[at..at + len].to_vec();
                let to = lo + (arg >> 20) as usize % (n - lo);
                let e = (to + len).min(n);
                data[to..e].copy_from_slice(&b[..e - to]);
            }
            5 => {
                data.drain(at..at + len);
            }
            6 => {
                let b: Vec<u8> = (0..len).map(|i| (arg >> (i % 8)) as u8).collect();
                data.splice(at..at, b);
            }
            _ => {
                // varints and fixed lengths
                let v: [u8; 5] = [[0xff, 0xff, 0xff, 0xff, 0x0f], [0x80, 0x80, 0x80, 0x80, 0x08], [0, 0, 0, 0, 0x80], [0xff, 0xff, 0xff, 0x7f, 0], [0x01, 0, 0, 0, 0]][arg as usize % 5];
                let e = (at + 5).min(n);
                data[at..e].copy_from_slice(&v[..e - at]);
            }
        }
    }
}

pub fn draw_intervals(rows: usize) -> Vec<Interval> {
    let mut out = vec![];
    let mut at = 0;
    let dense = 1 + upick(PLAN, 6);
    while at < rows {
        let gap = upick(PLAN, dense + 1).min(rows - at);
        at += gap;
        if at >= rows {
            break;
        }
        let len = 1 + upick(PLAN, (dense * 2).min(rows - at));
        out.push(Interval::new(at, len));
        at += len;
        if chance(PLAN, 1, 4) {
            break;
        }
    }
    out
}

#[allow(dead_code)]
pub fn rewind(d: &mut Dev) {
    let _ = d.seek(SeekFrom::Start(0));
}
