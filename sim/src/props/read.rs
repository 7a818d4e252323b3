//! Scenarios of the readers: P03, P14, P15, P16, P19, P22.
use crate::choices::*;
use crate::exec::*;
use crate::foreign::*;
use crate::model::*;
use crate::ops::*;
use crate::run::guard;
use crate::world::*;
use futures::future::BoxFuture;
use parquet2::compression::Compression;
use parquet2::error::Error;
use parquet2::indexes::{select_pages, Interval};
use parquet2::metadata::{ColumnChunkMetaData, Descriptor};
use parquet2::page::{CompressedPage, DataPageHeader, Page};
use parquet2::read::*;
use parquet2::compression::CompressionOptions;
use parquet2::write::Compressor;
use parquet2::FallibleStreamingIterator;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

/// The same chunk declared as uncompressed: stored bytes come out as they are.
pub fn raw_view(c: &ColumnChunkMetaData) -> ColumnChunkMetaData {
    let d = c.descriptor().clone();
    let mut t = c.clone().into_thrift();
    t.meta_data.as_mut().unwrap().codec = Compression::Uncompressed.into();
    ColumnChunkMetaData::new(t, d)
}
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
/// a filter that only depends on the header
pub fn stateless_filter() -> (Option<PageFilter>, Arc<dyn Fn(&DataPageHeader) -> bool + Send + Sync>) {
    let k = pick(PLAN, 5);
    let salt = raw(PLAN);
    let f: Arc<dyn Fn(&DataPageHeader) -> bool + Send + Sync> = match k {
        0 => return (None, Arc::new(|_| true)),
        1 => Arc::new(|_| false),
        2 => Arc::new(|h| h.num_values() % 2 == 0),
        _ => Arc::new(move |h| (fnv(&format!("{:?}", h)) ^ salt) % 3 != 0),
    };
    let g = f.clone();
    (Some(Arc::new(move |_: &Descriptor, h: &DataPageHeader| g(h))), f)
}

/// Damages bytes of the file in one of its regions. Returns false if nothing changed.
pub fn damage_file(case: &FileCase, fid: usize) -> bool {
    let mut d = file_copy(fid);
    let before = d.clone();
    let n = d.len();
    if n < 12 {
        damage(&mut d, 0, 1);
        set_file(fid, d);
        return true;
    }
    let footer = (8 + u32::from_le_bytes(d[n - 8..n - 4].try_into().unwrap()) as usize).min(n);
    let times = 1 + upick(FAULT, 4);
    match pick(FAULT, 5) {
        0 => damage(&mut d, 0, times),
        1 => damage(&mut d, n - footer, times),
        2 => {
            let last = case.page_at.iter().flatten().flatten().map(|x| x.1).max().unwrap_or(4).min(n);
            let mut tail = d.split_off(last);
            damage(&mut d, 4.min(last), times);
            // positions of what follows stay as they are
            d.resize(last, 0);
            d.append(&mut tail);
        }
        k => {
            // the header of one page
            let all: Vec<(usize, usize)> = case.page_at.iter().flatten().flatten().copied().filter(|x| x.1 <= n).collect();
            if all.is_empty() {
                damage(&mut d, 0, times);
            } else {
                let (a, b) = one_of(FAULT, &all);
                let e = if k == 3 { (a + 30).min(b) } else { b };
                let mut part = d[a..e].to_vec();
                damage(&mut part, 0, times);
                part.resize(e - a, 0);
                d[a..e].copy_from_slice(&part);
            }
        }
    }
    let changed = d != before;
    set_file(fid, d);
    changed
}

pub fn p03() -> R {
    let case = draw_file(&FCfg { sparse: true, ..FBASE })?;
    let fid = case.fid;
    let damaged = !case.sparse() && chance(PLAN, 1, 2);
    if damaged {
        damage_file(&case, fid);
    }
    set_io(draw_io(true));
    // a panic is another property's business: there is nothing to compare then
    let quiet = |x: Result<R<Result<parquet2::metadata::FileMetaData, Error>>, crate::run::Caught>| -> R<Option<Result<parquet2::metadata::FileMetaData, Error>>> {
        match x {
            Ok(x) => Ok(Some(x?)),
            Err(_) if damaged => Ok(None),
            Err(crate::run::Caught::Panic(s, m)) => Err(format!("{}: metadata ({})", s, m)),
            Err(_) => Ok(None),
        }
    };
    let s = quiet(guard(|| Ok(meta_sync(fid))))?;
    let a = quiet(guard(|| meta_async(fid)))?;
    if let (Some(s), Some(a)) = (&s, &a) {
        ensure!(s.is_ok() == a.is_ok(), "metadata-outcome-differs: sync {:?}, async {:?}", s.as_ref().map(|_| ()), a.as_ref().map(|_| ()));
        if let (Ok(s), Ok(a)) = (s, a) {
            let (s, a) = (format!("{:?}", s), format!("{:?}", a));
            ensure!(s == a, "metadata-differs: the async reader returns other metadata than the sync reader");
        }
    }
    let (filter, accept) = stateless_filter();
    let biggest = case.page_at.iter().flatten().flatten().map(|x| x.1 - x.0).max().unwrap_or(0);
    // the thrift library counts the limit differently for sync and async headers: stay clear of it
    let head = longest_header(&case);
    let max = if damaged {
        1 << 20
    } else {
        [NOLIMIT, NOLIMIT, 1 << 20, biggest + 2 * head + 1024, 2 * head + 1024][upick(PLAN, 5)]
    };
    for (i, j) in case.chunks() {
        let c = raw_view(case.col(i, j));
        let run = |how: How, filter: Option<PageFilter>, c: &ColumnChunkMetaData| -> R<Option<Got>> {
            match guard(|| pages(fid, c, how, filter, max)) {
                Ok(x) => x.map(Some),
                Err(crate::run::Caught::Panic(s, m)) if !damaged => Err(format!("{}: reading pages ({})", s, m)),
                Err(_) => Ok(None),
            }
        };
        let base = run(How::Plain, filter.clone(), &c)?;
        for how in [How::Stream, How::StreamStart] {
            let got = run(how, filter.clone(), &c)?;
            if let (Some(a), Some(b)) = (&base, &got) {
                if [a, b].iter().any(|x| x.err.as_ref().map(|e| e.contains("too long")).unwrap_or(false)) {
                    continue;
                }
                same_recs(&format!("{:?} against the sync reader", how), &b.pages, &a.pages)?;
                ensure!(a.err.is_some() == b.err.is_some(), "outcome-differs: {:?} ends with {:?}, the sync reader with {:?} after {} pages", how, b.err, a.err, a.pages.len());
            }
        }
        // whole column
        let mut dev = open(fid);
        let s = read_column(&mut dev, &c);
        let a = block_on(read_column_async(factory(fid), &c))?;
        ensure!(s.is_ok() == a.is_ok(), "outcome-differs: read_column {:?}, async {:?}", s.as_ref().map(|x| x.len()), a.as_ref().map(|x| x.len()));
        if let (Ok(s), Ok(a)) = (s, a) {
            ensure!(s == a, "column-differs: read_column yields {} bytes, its async counterpart {} or others", s.len(), a.len());
        }
        if !damaged && max > biggest {
            let want: Vec<Rec> = case.expected(i, j).into_iter().zip(case.chunk(i, j).pages.iter()).filter(|(_, p)| p.header.as_ref().map(|h| accept(h)).unwrap_or(true)).map(|x| x.0).collect();
            let how = one_of(SCHED, &[How::Plain, How::Stream, How::StreamStart]);
            let got = pages(fid, case.col(i, j), how, filter.clone(), max)?;
            same_pages(&format!("{:?} of a sound file", how), &got, &want)?;
        }
    }
    Ok(())
}
fn longest_header(case: &FileCase) -> usize {
    let n = file_len(case.fid);
    let t = case.t.groups.iter().flat_map(|g| &g.chunks).flat_map(|c| &c.pages);
    t.map(|p| format!("{:?}", p.header).len()).max().unwrap_or(0).min(n)
}
pub fn factory(fid: usize) -> impl Fn() -> BoxFuture<'static, std::io::Result<ADev>> + Clone {
    move || Box::pin(async move { Ok(aopen(fid)) })
}

/// A chunk of very many tiny pages.
fn many_pages(n: usize) -> R<TableM> {
    let mut cfg = BASE;
    cfg.groups = (1, 1);
    cfg.nested = false;
    cfg.leaves = 1;
    cfg.codecs = false;
    cfg.big = false;
    cfg.empty_pages = false;
    cfg.rows = 4;
    cfg.pages = 2;
    cfg.stats = Some(Stats::None);
    cfg.write_statistics = Some(false);
    let mut t = draw_table(&cfg);
    for g in t.groups.iter_mut() {
        for c in g.chunks.iter_mut() {
            if let Some(p) = c.pages.iter().find(|p| !p.is_dict() && p.n() > 0).cloned() {
                c.feed = Feed::Pre;
                let dict: Vec<PageM> = c.pages.drain(..).filter(|p| p.is_dict()).collect();
                g.rows = p.rows * n;
                c.pages = dict.into_iter().chain(std::iter::repeat(p).take(n)).collect();
            }
        }
    }
    Ok(t)
}

type Seen = Arc<Mutex<Vec<(String, bool)>>>;
fn recording_filter(decisions: Vec<bool>) -> (PageFilter, Seen) {
    let seen: Seen = Default::default();
    let s = seen.clone();
    let f: PageFilter = Arc::new(move |d: &Descriptor, h: &DataPageHeader| {
        let mut s = s.lock().unwrap();
        let k = s.len();
        let ok = decisions.get(k).copied().unwrap_or(true);
        s.push((format!("{:?} {:?}", d.primitive_type.physical_type, h), ok));
        ok
    });
    (f, seen)
}
fn draw_decisions(n: usize) -> Vec<bool> {
    let k = pick(PLAN, 5);
    let mut r = Rng::new(raw(DATA));
    (0..n)
        .map(|_| match k {
            0 => false,
            1 => true,
            2 => r.next() % 8 == 0,
            3 => r.next() % 8 != 0,
            _ => r.next() % 2 == 0,
        })
        .collect()
}
fn filtered(case: &FileCase, i: usize, j: usize, dec: &[bool]) -> (Vec<Rec>, Vec<String>) {
    let d = case.t.descr(j);
    let mut k = 0;
    let mut heads = vec![];
    let want = case
        .expected(i, j)
        .into_iter()
        .zip(case.chunk(i, j).visible())
        .filter(|(_, p)| match &p.header {
            None => true,
            Some(h) => {
                heads.push(format!("{:?} {:?}", d.primitive_type.physical_type, h));
                k += 1;
                dec[k - 1]
            }
        })
        .map(|x| x.0)
        .collect();
    (want, heads)
}

pub fn p14() -> R {
    let mut f = FBASE;
    f.sparse = true;
    f.table.pages = 8;
    let case = if chance(PLAN, 1, 400) {
        cover("many_pages");
        let t = many_pages(20_000 + upick(PLAN, 10_000))?;
        make_file(t, &f)?
    } else {
        draw_file(&f)?
    };
    set_io(draw_io(true));
    let big = case.t.groups.iter().flat_map(|g| &g.chunks).any(|c| c.pages.len() > 1000);
    if big {
        calm();
    }
    for (i, j) in case.chunks() {
        let n = case.chunk(i, j).pages.len();
        let dec = if big { vec![false; n] } else { draw_decisions(n) };
        let (want, heads) = filtered(&case, i, j, &dec);
        let (filter, seen) = recording_filter(dec);
        let k = upick(SCHED, HOWS.len() + 1);
        let what;
        let got = if k < HOWS.len() {
            what = format!("{:?}", HOWS[k]);
            pages(case.fid, case.col(i, j), HOWS[k], Some(filter), NOLIMIT)?
        } else {
            what = "ColumnIterator".to_string();
            let mut got = Got::default();
            let mut it = ColumnIterator::new(open(case.fid), vec![case.col(i, j).clone()], Some(filter), dirty(), NOLIMIT);
            loop {
                match it.advance() {
                    Err(e) => return Err(format!("read-error: {:?}", e)),
                    Ok(State::Finished(_)) => break,
                    Ok(State::Some(mut s)) => {
                        if let Some((pages, _)) = s.get() {
                            drain(pages, &mut got)?;
                        }
                        it = s;
                    }
                }
            }
            got
        };
        cover(format!("filter-through={}", what));
        same_pages(&format!("{} with a page filter (row group {} column {})", what, i, j), &got, &want)?;
        let s = seen.lock().unwrap();
        let s: Vec<&String> = s.iter().map(|x| &x.0).collect();
        ensure!(s.len() == heads.len() && s.iter().zip(&heads).all(|(a, b)| *a == b), "filter-calls: the filter of {} was asked about {} pages, not once about each of the {} data pages in order", what, s.len(), heads.len());
    }
    p14_columns(&case)
}
/// One filter over several columns: those of a field, or any selection of a row group.
fn p14_columns(case: &FileCase) -> R {
    if case.t.groups.is_empty() {
        return Ok(());
    }
    let i = upick(PLAN, case.t.groups.len());
    let rg = &case.md.row_groups[i];
    let field = draw_field(case);
    let of_field = chance(PLAN, 1, 2);
    let cols: Vec<usize> = if of_field { field_cols(case, &field) } else { (0..rg.columns().len()).collect() };
    if cols.is_empty() {
        return Ok(());
    }
    let n = cols.iter().map(|j| case.chunk(i, *j).pages.len()).sum();
    let dec = draw_decisions(n);
    let (filter, seen) = recording_filter(dec.clone());
    let mut it = if of_field {
        get_column_iterator(open(case.fid), rg, &field, Some(filter), dirty(), NOLIMIT)
    } else {
        ColumnIterator::new(open(case.fid), rg.columns().to_vec(), Some(filter), dirty(), NOLIMIT)
    };
    cover(format!("filter-columns={}", cols.len().min(4)));
    let (mut k, mut asked) = (0, 0);
    loop {
        match it.advance() {
            Err(e) => return Err(format!("read-error: {:?}", e)),
            Ok(State::Finished(_)) => break,
            Ok(State::Some(mut s)) => {
                ensure!(k < cols.len(), "column-count: more than the {} columns selected", cols.len());
                let j = cols[k];
                let (want, heads) = filtered(case, i, j, &dec[asked..]);
                if let Some((pages, _)) = s.get() {
                    let mut got = Got::default();
                    drain(pages, &mut got)?;
                    same_pages(&format!("column {} of a column iterator with a page filter", k), &got, &want)?;
                }
                let s2 = seen.lock().unwrap();
                let new: Vec<&String> = s2[asked..].iter().map(|x| &x.0).collect();
                ensure!(new.len() == heads.len() && new.iter().zip(&heads).all(|(a, b)| *a == b), "filter-calls: over column {} of a column iterator the filter was asked about {} pages, not once about each of its {} data pages in order", k, new.len(), heads.len());
                asked = s2.len();
                drop(s2);
                k += 1;
                it = s;
            }
        }
    }
    ensure!(k == cols.len(), "column-count: {} columns instead of {}", k, cols.len());
    Ok(())
}

/// one concurrent consumer of pages
enum Consumer {
    Reader(PageReader<Dev>),
    Decomp(Decompressor<PageReader<Dev>>),
    Basic(BasicDecompressor<PageReader<Dev>>),
    Indexed(IndexedPageReader<Dev>),
}
struct Work {
    c: Consumer,
    want: Vec<Rec>,
    at: usize,
    /// set when the chunk's sizes were falsified
    lies: bool,
}

fn take_buf(pool: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if pool.is_empty() || chance(SCHED, 1, 4) {
        return dirty();
    }
    let i = upick(SCHED, pool.len());
    pool.swap_remove(i)
}

pub fn p15() -> R {
    let mut f = FBASE;
    f.table.huge = false;
    f.table.groups = (1, 2);
    f.table.pages = 5;
    let mut t = draw_table(&f.table);
    // pages whose header announces more bytes than they decompress to: nothing stale may fill the gap
    let lies = chance(PLAN, 1, 4);
    if lies {
        for g in t.groups.iter_mut() {
            for c in g.chunks.iter_mut() {
                c.feed = Feed::Pre;
            }
        }
        f.foreign = Some(true);
    }
    let case = make_file(t, &f)?;
    if lies {
        lie_about_sizes(&case);
    }
    set_io(draw_io(false));
    let mut pool: Vec<Vec<u8>> = vec![];
    let mut work: Vec<Work> = vec![];
    let chunks = case.chunks();
    if chunks.is_empty() {
        return Ok(());
    }
    let n = 1 + upick(PLAN, 5);
    let mut started = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 400 {
            break;
        }
        if started < n && (work.is_empty() || chance(SCHED, 1, 4)) {
            started += 1;
            let (i, j) = one_of(SCHED, &chunks);
            let c = case.col(i, j);
            let all = Arc::new(|_: &Descriptor, _: &DataPageHeader| true);
            let mut dev = open(case.fid);
            dev.pos = c.byte_range().0;
            let mut want = case.expected(i, j);
            let k = pick(SCHED, 4);
            let cons = if k == 3 && case.has_oi[i] && !lies {
                let l = case_locations(&case, i, j);
                let sel = select_pages(&[Interval::new(0, case.t.groups[i].rows)], &l, case.t.groups[i].rows).map_err(|e| format!("select-error: {:?}", e))?;
                want = indexed_want(&case, i, j, &sel)?;
                Consumer::Indexed(IndexedPageReader::new(open(case.fid), c, sel, take_buf(&mut pool), take_buf(&mut pool)))
            } else {
                let r = PageReader::new(dev, c, all, take_buf(&mut pool), NOLIMIT);
                match k {
                    1 => Consumer::Decomp(Decompressor::new(r, take_buf(&mut pool))),
                    2 => Consumer::Basic(BasicDecompressor::new(r, take_buf(&mut pool))),
                    _ => Consumer::Reader(r),
                }
            };
            cover(["consumer=reader", "consumer=decompressor", "consumer=basic", "consumer=indexed"][k as usize]);
            work.push(Work { c: cons, want, at: 0, lies });
            continue;
        }
        if work.is_empty() {
            break;
        }
        let w = upick(SCHED, work.len());
        ev(20, w as u64, work[w].at as u64, 0);
        // swap buffers of a reader between pages
        if chance(SCHED, 1, 5) {
            let b = take_buf(&mut pool);
            let mut b = b;
            if let Consumer::Reader(r) = &mut work[w].c {
                r.swap_buffer(&mut b);
            }
            pool.push(b);
        }
        let mut over = chance(SCHED, 1, 25);
        if over {
            count_fault("abandoned_iterator");
        } else {
            let rec: Option<Result<Rec, Error>> = match &mut work[w].c {
                Consumer::Reader(r) => r.next().map(|p| step_decompress(p, &mut pool)),
                Consumer::Indexed(r) => r.next().map(|p| step_decompress(p, &mut pool)),
                Consumer::Decomp(d) => match d.next() {
                    Ok(p) => p.map(|p| Ok(rec_of(p))),
                    Err(e) => Some(Err(e)),
                },
                Consumer::Basic(d) => match d.next() {
                    Ok(p) => p.map(|p| Ok(rec_of(p))),
                    Err(e) => Some(Err(e)),
                },
            };
            let x = &mut work[w];
            match rec {
                None => {
                    ensure!(x.at == x.want.len() || x.lies, "page-count: {} pages instead of {}", x.at, x.want.len());
                    over = true;
                }
                Some(Err(e)) => {
                    ensure!(x.lies, "read-error: {:?} at page {}", e, x.at);
                    x.at += 1;
                    over |= chance(SCHED, 1, 3);
                    if let Consumer::Decomp(d) = &x.c {
                        ensure!(d.get().is_none(), "stale-page: after an error a decompressor still presents a page");
                    }
                }
                Some(Ok(r)) => {
                    ensure!(x.at < x.want.len(), "page-count: more pages than written");
                    if lies {
                        // equal to what fresh buffers give, or to what was written
                        ensure!(r.body == x.want[x.at].body, "buffer-leak: page {} carries bytes that are not its own: {} instead of {}", x.at, r.short(), x.want[x.at].short());
                    } else {
                        ensure!(r == x.want[x.at], "buffer-leak: page {} is {} but should be {}", x.at, r.short(), x.want[x.at].short());
                    }
                    x.at += 1;
                }
            }
        }
        if over {
            let x = work.swap_remove(w);
            match x.c {
                Consumer::Reader(r) => pool.push(r.into_inner().1),
                Consumer::Decomp(d) => {
                    let (a, b) = d.into_buffers();
                    pool.push(a);
                    pool.push(b);
                }
                Consumer::Basic(d) => pool.push(d.into_inner()),
                Consumer::Indexed(r) => {
                    let (_, a, b) = r.into_inner();
                    pool.push(a);
                    pool.push(b);
                }
            }
        }
    }
    // a compressor taken apart and put together again, with failing pages in between
    if chance(PLAN, 1, 2) {
        let (i, j) = one_of(PLAN, &chunks);
        let (c, d) = (case.chunk(i, j), case.t.descr(j));
        let fail: Vec<bool> = c.pages.iter().map(|_| chance(FAULT, 1, 6)).collect();
        let mut source: Vec<Result<Page, Error>> = vec![];
        for (p, f) in c.pages.iter().filter(|p| !p.stored_raw()).zip(&fail) {
            if *f {
                source.push(Err(Error::OutOfSpec("producer".into())));
            }
            source.push(Ok(p.to_page(d, c.sorted)));
        }
        let mut want: VecDeque<Option<PageM>> = VecDeque::new();
        for (p, f) in c.pages.iter().filter(|p| !p.stored_raw()).zip(&fail) {
            if *f {
                want.push_back(None);
            }
            want.push_back(Some(p.clone()));
        }
        let mut codec = c.codec;
        let mut z = Compressor::new(source.into_iter(), codec, take_buf(&mut pool));
        loop {
            if chance(SCHED, 1, 3) {
                cover("compressor=rebuilt");
                let (it, buf) = z.into_inner();
                let buf = if chance(SCHED, 1, 2) { buf } else { take_buf(&mut pool) };
                if chance(SCHED, 1, 3) {
                    codec = CompressionOptions::Uncompressed;
                }
                z = if chance(SCHED, 1, 2) { Compressor::new_from_vec(it, codec, buf) } else { Compressor::new(it, codec, buf) };
            }
            let got = z.advance();
            match (want.pop_front(), got) {
                (None, Ok(())) => {
                    ensure!(z.get().is_none(), "compressor-pages: a page that was not in the input");
                    break;
                }
                (Some(None), Err(_)) => {
                    count_fault("producer_error");
                    ensure!(z.get().is_none(), "stale-page: after an error a compressor still presents a page");
                }
                (Some(Some(p)), Ok(())) => {
                    let fresh = parquet2::write::compress(p.to_page(d, c.sorted), vec![], codec).map_err(|e| format!("compress-error: {:?}", e))?;
                    let x = z.get().ok_or("compressor-pages: a page is missing")?;
                    ensure!(format!("{:?}", x) == format!("{:?}", fresh), "buffer-leak: a compressor with a used buffer gives other bytes than a fresh one");
                }
                (w, g) => return Err(format!("compressor-pages: {:?} where {} was to come", g, if w.is_some() { "a page" } else { "the end" })),
            }
        }
        pool.push(z.into_inner().1);
    }
    // compressing with whatever buffer is around
    for g in &case.t.groups {
        for (j, c) in g.chunks.iter().enumerate() {
            for p in c.pages.iter().filter(|p| !matches!(&p.header, Some(DataPageHeader::V2(h)) if h.is_compressed == Some(false))) {
                let d = case.t.descr(j);
                let fresh = parquet2::write::compress(p.to_page(d, c.sorted), vec![], c.codec);
                let used = parquet2::write::compress(p.to_page(d, c.sorted), take_buf(&mut pool), c.codec);
                let (Ok(a), Ok(b)) = (fresh, used) else { return Err("compress-error: compressing a page fails".into()) };
                ensure!(stored(a)? == stored(b)?, "buffer-leak: compressing into a used buffer gives other bytes than into a fresh one");
            }
        }
    }
    Ok(())
}
/// the stored bytes of a compressed page
pub fn stored(p: CompressedPage) -> R<Vec<u8>> {
    Ok(format!("{:?}", p).into_bytes())
}
fn step_decompress(p: Result<CompressedPage, Error>, pool: &mut Vec<Vec<u8>>) -> Result<Rec, Error> {
    let mut buf = take_buf(pool);
    let r = decompress(p?, &mut buf);
    if !buf.is_empty() || buf.capacity() > 0 {
        pool.push(buf);
    }
    let page = r?;
    let rec = rec_of(&page);
    pool.push(match page {
        Page::Data(mut d) => std::mem::take(d.buffer_mut()),
        Page::Dict(d) => d.buffer,
    });
    Ok(rec)
}
/// Raises the announced uncompressed size of some pages without moving anything (sizes that fit the same varint).
fn lie_about_sizes(case: &FileCase) {
    let mut data = file_copy(case.fid);
    for pages in case.page_at.iter().flatten() {
        for &(a, e) in pages {
            if !chance(FAULT, 1, 2) {
                continue;
            }
            let Ok(w) = crate::oracle::walk(&data, a, e) else { continue };
            let mut h = w[0].header.clone();
            let size = h.uncompressed_page_size;
            for bump in [40, 17, 5, 1] {
                h.uncompressed_page_size = size + bump;
                let b = thrift!(h);
                if b.len() == w[0].body_at - a {
                    data[a..a + b.len()].copy_from_slice(&b);
                    count_fault("lying_size");
                    break;
                }
            }
        }
    }
    set_file(case.fid, data);
}
pub fn case_locations(case: &FileCase, i: usize, j: usize) -> Vec<parquet_format_safe::PageLocation> {
    let c = case.chunk(i, j);
    let mut row = 0;
    c.pages
        .iter()
        .zip(&case.page_at[i][j])
        .filter(|(p, _)| !p.is_dict())
        .map(|(p, (a, e))| {
            let l = parquet_format_safe::PageLocation { offset: *a as i64, compressed_page_size: (e - a) as i32, first_row_index: row };
            row += p.rows as i64;
            l
        })
        .collect()
}
/// what an indexed read must yield for a selection
pub fn indexed_want(case: &FileCase, i: usize, j: usize, sel: &[parquet2::indexes::FilteredPage]) -> R<Vec<Rec>> {
    let c = case.chunk(i, j);
    let all = expected_all(c);
    let mut out = vec![];
    let mut k = 0;
    for (p, mut r) in c.pages.iter().zip(all) {
        if p.is_dict() {
            if !sel.is_empty() {
                out.push(r);
            }
            continue;
        }
        let s = &sel[k];
        k += 1;
        if !s.selected_rows.is_empty() {
            r.sel = Some(s.selected_rows.iter().map(|x| (x.start, x.length)).collect());
            out.push(r);
        }
    }
    Ok(out)
}
/// every page of the chunk, also those after its last value
pub fn expected_all(c: &ChunkM) -> Vec<Rec> {
    c.pages
        .iter()
        .map(|p| match &p.header {
            None => Rec { dict: true, head: format!("sorted {}", c.sorted), n: p.dict_n, body: p.body.clone(), sel: None },
            Some(h) => Rec { dict: false, head: format!("{:?}", h), n: p.n(), body: p.body.clone(), sel: None },
        })
        .collect()
}

/// names of fields and what is not one
fn draw_field(case: &FileCase) -> String {
    let f: Vec<String> = case.t.schema.fields().iter().map(|f| f.name().to_string()).collect();
    if chance(PLAN, 1, 8) || f.is_empty() {
        return one_of(PLAN, &["zz", "a.", "list"]).to_string();
    }
    one_of(PLAN, &f)
}
fn field_cols(case: &FileCase, field: &str) -> Vec<usize> {
    case.t.schema.columns().iter().enumerate().filter(|(_, c)| c.path_in_schema[0] == field).map(|x| x.0).collect()
}
fn chunk_bytes(case: &FileCase, i: usize, j: usize) -> Vec<u8> {
    let (s, l) = case.col(i, j).byte_range();
    file_data(case.fid)[s as usize..(s + l) as usize].to_vec()
}

pub fn p16() -> R {
    let mut f = FBASE;
    f.table.groups = (1, 3);
    f.table.leaves = 8;
    f.table.big = false;
    f.sparse = true;
    let case = draw_file(&f)?;
    set_io(draw_io(true));
    let fid = case.fid;
    let n = 1 + upick(PLAN, 3);
    let mut plans = vec![];
    let results: Arc<Mutex<Vec<Option<R<bool>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let mut cancel = vec![];
    for k in 0..n {
        let i = upick(PLAN, case.t.groups.len());
        let field = draw_field(&case);
        let cols = field_cols(&case, &field);
        // the n-th opening fails, or readers of one opening fail later
        let bad = if chance(PLAN, 1, 4) && !cols.is_empty() { Some(upick(PLAN, cols.len())) } else { None };
        cancel.push(if chance(PLAN, 1, 5) { Some(1 + pick(PLAN, 6)) } else { None });
        plans.push((i, field, cols, bad, k));
    }
    let mut tasks: Vec<Task<'_>> = vec![];
    for (i, field, cols, bad, k) in plans.iter() {
        let (i, k, bad) = (*i, *k, *bad);
        let res = results.clone();
        let case = &case;
        let opened = Arc::new(Mutex::new(0usize));
        let fac = move || -> BoxFuture<'static, std::io::Result<ADev>> {
            let nth = {
                let mut o = opened.lock().unwrap();
                *o += 1;
                *o - 1
            };
            Box::pin(async move {
                // opening takes its time
                let d = if chance(IO, 1, 2) { pick(IO, 1000) } else { 0 };
                sleep(d).await;
                if bad == Some(nth) {
                    count_fault("open_error");
                    ev(21, nth as u64, 0, 0);
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "simulated open failure"));
                }
                Ok(aopen(fid))
            })
        };
        tasks.push(Box::pin(async move {
            let r = read_columns_async(fac, case.md.row_groups[i].columns(), field).await;
            let v = check_columns(case, i, cols, r, bad.is_some());
            res.lock().unwrap()[k] = Some(v);
        }));
    }
    let done = run_tasks(tasks, &cancel)?;
    for (k, d) in done.iter().enumerate() {
        let r = results.lock().unwrap()[k].take();
        match r {
            Some(r) => {
                r?;
            }
            None => ensure!(!d, "lost-result: a read completed without a result"),
        }
    }
    // sequential counterpart
    let mut dev = open(fid);
    for (i, field, cols, _, _) in &plans {
        let r = read_columns(&mut dev, case.md.row_groups[*i].columns(), field);
        check_columns(&case, *i, cols, r, false)?;
    }
    Ok(())
}
fn check_columns(case: &FileCase, i: usize, cols: &[usize], r: Result<Vec<(&ColumnChunkMetaData, Vec<u8>)>, Error>, bad: bool) -> R<bool> {
    match r {
        Err(e) => {
            ensure!(bad, "read-error: reading columns fails: {:?}", e);
            Ok(false)
        }
        Ok(v) => {
            ensure!(!bad, "failure-swallowed: an opening failed but the read succeeds with {} columns", v.len());
            ensure!(v.len() == cols.len(), "columns-count: {} columns instead of {}", v.len(), cols.len());
            for ((m, b), j) in v.iter().zip(cols) {
                ensure!(std::ptr::eq(*m, case.col(i, *j)) || m.column_chunk() == case.col(i, *j).column_chunk(), "columns-order: entry {} is paired with another column's metadata", j);
                let want = chunk_bytes(case, i, *j);
                ensure!(*b == want, "columns-mixed: column {} is returned with {} bytes that are not its own {}", j, b.len(), want.len());
            }
            Ok(true)
        }
    }
}
/// suspends until virtual time has passed
fn sleep(d: u64) -> impl std::future::Future<Output = ()> {
    let mut at = None;
    futures::future::poll_fn(move |cx| {
        let now = with(|w| w.clock);
        let t = *at.get_or_insert(now + d);
        if d == 0 || now >= t {
            return std::task::Poll::Ready(());
        }
        timer(t, cx.waker().clone());
        std::task::Poll::Pending
    })
}

pub fn p19() -> R {
    let mut f = FBASE;
    f.table.groups = (1, 3);
    f.table.leaves = 8;
    f.sparse = true;
    let case = draw_file(&f)?;
    set_io(draw_io(false));
    let i = upick(PLAN, case.t.groups.len());
    let field = draw_field(&case);
    let cols = field_cols(&case, &field);
    let rg = &case.md.row_groups[i];
    let sel: Vec<&ColumnChunkMetaData> = get_field_columns(rg.columns(), &field).collect();
    ensure!(sel.len() == cols.len() && sel.iter().zip(&cols).all(|(a, j)| std::ptr::eq(*a, case.col(i, *j))), "field-columns: field {:?} selects {} columns, not its {}", field, sel.len(), cols.len());
    let (filter, accept) = stateless_filter();
    let mut it = if cols.is_empty() || chance(PLAN, 1, 3) {
        ColumnIterator::new(open(case.fid), sel.into_iter().cloned().collect(), filter, dirty(), NOLIMIT)
    } else {
        get_column_iterator(open(case.fid), rg, &field, filter, dirty(), NOLIMIT)
    };
    let mut k = 0;
    let skip_unread = chance(PLAN, 1, 4);
    loop {
        match it.advance() {
            Err(e) => return Err(format!("read-error: advancing to column {} fails: {:?}", k, e)),
            Ok(State::Finished(_)) => break,
            Ok(State::Some(mut s)) => {
                ensure!(k < cols.len(), "column-count: more than the {} columns of the field", cols.len());
                let j = cols[k];
                k += 1;
                if skip_unread && chance(SCHED, 1, 2) {
                    it = s;
                    continue;
                }
                let Some((reader, meta)) = s.get() else { return Err("column-lost: advance succeeded but there is no column".into()) };
                ensure!(meta.column_chunk() == case.col(i, j).column_chunk(), "column-order: column {} of the field is {:?}", k - 1, meta.descriptor().path_in_schema);
                let want: Vec<Rec> = case.expected(i, j).into_iter().zip(case.chunk(i, j).pages.iter()).filter(|(_, p)| p.header.as_ref().map(|h| accept(h)).unwrap_or(true)).map(|x| x.0).collect();
                let n = if chance(SCHED, 1, 2) { usize::MAX } else { upick(SCHED, want.len() + 2) };
                let mut got = Got::default();
                if n == usize::MAX {
                    drain(reader, &mut got)?;
                    same_pages(&format!("column {} of the iterator", k - 1), &got, &want)?;
                } else {
                    cover("partial_consumption");
                    let mut b = dirty();
                    for (x, w) in (0..n).zip(want.iter().map(Some).chain(std::iter::repeat(None))) {
                        let p = reader.next();
                        match (p, w) {
                            (None, None) => {}
                            (Some(Ok(p)), Some(w)) => {
                                let page = decompress(p, &mut b).map_err(|e| format!("read-error: {:?}", e))?;
                                ensure!(rec_of(&page) == *w, "page-differs: page {} of column {} is {} but should be {}", x, k - 1, rec_of(&page).short(), w.short());
                            }
                            (p, w) => return Err(format!("page-count: page {} of column {}: got {:?}, expected one: {}", x, k - 1, p.map(|x| x.is_ok()), w.is_some())),
                        }
                    }
                }
                it = s;
            }
        }
    }
    ensure!(k == cols.len(), "column-count: {} columns instead of {}", k, cols.len());
    // pre-read columns: every column once, in the order given
    let pre: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)> = cols
        .iter()
        .map(|j| {
            let c = case.col(i, *j);
            let v = get_page_iterator(c, open(case.fid), None, vec![], NOLIMIT).map(|it| it.collect()).unwrap_or_default();
            (v, c.clone())
        })
        .collect();
    if let Some(ft) = case.t.schema.fields().iter().find(|f| f.name() == field) {
        let mut it = ReadColumnIterator::new(ft.clone(), pre);
        let mut seen = vec![];
        loop {
            match it.advance() {
                Err(e) => return Err(format!("read-error: {:?}", e)),
                Ok(State::Finished(_)) => break,
                Ok(State::Some(mut s)) => {
                    let Some((p, m)) = s.get() else { return Err("column-lost: no column".into()) };
                    let Some(j) = cols.get(seen.len()) else { return Err("column-repeated: more pre-read columns than were given".into()) };
                    ensure!(case.col(i, *j).column_chunk() == m.column_chunk(), "column-order: pre-read column {} is {:?}", seen.len(), m.descriptor().path_in_schema);
                    seen.push(*j);
                    let mut got = Got::default();
                    drain(p, &mut got)?;
                    same_pages("a pre-read column", &got, &case.expected(i, *j))?;
                    it = s;
                }
            }
        }
        ensure!(seen.len() == cols.len(), "column-count: {} of {} pre-read columns", seen.len(), cols.len());
    }
    // row groups
    let keep: Vec<bool> = case.md.row_groups.iter().map(|_| chance(PLAN, 1, 2)).collect();
    let asked = Mutex::new(vec![]);
    let out = filter_row_groups(&case.md, &|rg, k| {
        asked.lock().unwrap().push((k, rg.num_rows()));
        keep[k]
    });
    let want: Vec<String> = case.md.row_groups.iter().zip(&keep).filter(|x| *x.1).map(|x| format!("{:?}", x.0)).collect();
    let got: Vec<String> = out.row_groups.iter().map(|x| format!("{:?}", x)).collect();
    ensure!(got == want, "row-groups-filtered: {} row groups kept instead of {}", got.len(), want.len());
    let asked = asked.into_inner().unwrap();
    ensure!(asked.iter().map(|x| x.0).eq(0..keep.len()) && asked.iter().zip(&case.t.groups).all(|(a, g)| a.1 == g.rows), "row-groups-asked: {:?}", asked);
    Ok(())
}

fn check_access(what: &str, ok: &[(u64, u64)]) -> R {
    for a in take_access() {
        // the union of the allowed regions, which may touch each other
        let mut at = a.start;
        while at < a.end {
            match ok.iter().find(|r| r.0 <= at && at < r.1) {
                Some(r) => at = r.1,
                None => return Err(format!("reads-outside: {} reads bytes [{}, {}) but only {:?} are its business", what, a.start, a.end, ok)),
            }
        }
    }
    Ok(())
}

pub fn p22() -> R {
    if chance(PLAN, 1, 3) {
        return p22_write();
    }
    let mut f = FBASE;
    f.blooms = true;
    f.table.pages = 6;
    f.sparse = true;
    let case = draw_file(&f)?;
    let fid = case.fid;
    set_io(draw_io(true));
    log_access(true);
    // metadata
    let len = file_len(fid) as u64;
    let data = file_data(fid);
    let footer = 8 + u32::from_le_bytes(data[data.len() - 8..data.len() - 4].try_into().unwrap()) as u64;
    let _ = meta_any(fid)?;
    check_access("reading the metadata", &[(len - len.min(footer.max(64 * 1024)), len)])?;
    for (i, j) in case.chunks() {
        let c = case.col(i, j);
        let (s, l) = c.byte_range();
        let (filter, _) = stateless_filter();
        // lazily, page by page
        let vis = case.chunk(i, j).visible().len();
        let ends: Vec<u64> = case.page_at[i][j].iter().map(|x| x.1 as u64).collect();
        if chance(SCHED, 1, 2) {
            let mut it = get_page_iterator(c, open(fid), None, dirty(), NOLIMIT).map_err(|e| format!("read-error: {:?}", e))?;
            check_access("opening a page iterator", &[])?;
            for k in 0..vis {
                ensure!(matches!(it.next(), Some(Ok(_))), "read-error: page {}", k);
                check_access(&format!("fetching page {} of {}", k, vis), &[(s, ends[k])])?;
            }
            let _ = it.next();
            check_access("asking an exhausted page iterator", &[])?;
        } else {
            let mut dev = aopen(fid);
            let mut at = 0;
            let r: R = {
                let st = block_on(get_page_stream(c, &mut dev, dirty(), Arc::new(|_, _| true), NOLIMIT))?.map_err(|e| format!("read-error: {:?}", e))?;
                let mut st = Box::pin(st);
                check_access("opening a page stream", &[])?;
                loop {
                    let x = next_item(&mut st)?;
                    match x {
                        None => break check_access("asking an exhausted page stream", &[]),
                        Some(Err(e)) => break Err(format!("read-error: {:?}", e)),
                        Some(Ok(_)) => {
                            ensure!(at < ends.len(), "page-count: too many pages");
                            check_access(&format!("fetching page {} of {}", at, vis), &[(s, ends[at])])?;
                            at += 1;
                        }
                    }
                }
            };
            r?;
        }
        let how = one_of(SCHED, &HOWS);
        pages(fid, c, how, filter, NOLIMIT)?;
        check_access(&format!("{:?} of row group {} column {}", how, i, j), &[(s, s + l)])?;
        // index driven
        if case.has_oi[i] && !case.chunk(i, j).pages.is_empty() {
            let locs = case_locations(&case, i, j);
            let rows = case.t.groups[i].rows;
            let sel = select_pages(&draw_intervals(rows), &locs, rows).map_err(|e| format!("select-error: {:?}", e))?;
            let mut ok: Vec<(u64, u64)> = sel.iter().filter(|p| !p.selected_rows.is_empty()).map(|p| (p.start, p.start + p.length as u64)).collect();
            if case.chunk(i, j).pages[0].is_dict() {
                ok.push((case.page_at[i][j][0].0 as u64, case.page_at[i][j][0].1 as u64));
            }
            indexed(fid, c, sel)?;
            check_access("an indexed page reader", &ok)?;
        }
        // bloom
        let mut bits = dirty();
        let mut dev = open(fid);
        let r = parquet2::bloom_filter::read(c, &mut dev, &mut bits);
        let ok: Vec<(u64, u64)> = match (c.metadata().bloom_filter_offset, &case.blooms[i][j]) {
            // the header is 13 to 20 bytes
            (Some(o), Some(b)) => vec![(o as u64, o as u64 + b.len() as u64 + 20)],
            _ => vec![],
        };
        ensure!(r.is_ok(), "read-error: bloom filter: {:?}", r);
        check_access("reading a bloom filter", &ok)?;
    }
    for (i, rg) in case.md.row_groups.iter().enumerate() {
        let cols = rg.columns();
        // whole columns
        if !cols.is_empty() {
            let c = &cols[upick(SCHED, cols.len())];
            let (s, l) = c.byte_range();
            let field = &c.descriptor().path_in_schema[0];
            let of_field: Vec<(u64, u64)> = get_field_columns(cols, field).map(|x| x.byte_range()).map(|(s, l)| (s, s + l)).collect();
            let (what, r, ok) = match pick(SCHED, 5) {
                0 => ("reading a column", read_column(&mut open(fid), c).map(|_| ()), vec![(s, s + l)]),
                1 => ("reading a column asynchronously", block_on(read_column_async(factory(fid), c))?.map(|_| ()), vec![(s, s + l)]),
                2 => ("reading the columns of a field", read_columns(&mut open(fid), cols, field).map(|_| ()), of_field),
                3 => ("reading the columns of a field asynchronously", block_on(read_columns_async(factory(fid), cols, field))?.map(|_| ()), of_field),
                _ => {
                    let it = get_column_iterator(open(fid), rg, field, None, dirty(), NOLIMIT);
                    check_access("opening a column iterator", &[])?;
                    // every column is opened, its pages are not asked for
                    let r = walk_columns(it);
                    ("walking over the columns of a field", r, of_field.into_iter().map(|(s, _)| (s, s)).collect())
                }
            };
            cover(format!("whole={}", what));
            check_access(what, &ok)?;
            ensure!(r.is_ok(), "read-error: {} fails with {:?}", what, r);
        }
        let span = |get: &dyn Fn(&parquet_format_safe::ColumnChunk) -> Option<(i64, i32)>| -> Vec<(u64, u64)> { cols.iter().filter_map(|c| get(c.column_chunk())).map(|(o, l)| (o as u64, o as u64 + l as u64)).collect() };
        let mut dev = open(fid);
        let r = read_columns_indexes(&mut dev, cols).map(|x| x.len());
        ensure!(r.is_ok() || !case.has_ci[i], "read-error: column indexes: {:?}", r);
        check_access("reading column indexes", &span(&|c| c.column_index_offset.zip(c.column_index_length)))?;
        let r = read_pages_locations(&mut dev, cols).map(|x| x.len());
        ensure!(r.is_ok() || !case.has_oi[i], "read-error: offset indexes: {:?}", r);
        check_access("reading offset indexes", &span(&|c| c.offset_index_offset.zip(c.offset_index_length)))?;
    }
    Ok(())
}
fn walk_columns<I: Iterator<Item = Result<CompressedPage, Error>>>(mut it: impl MutStreamingIterator<Item = (I, ColumnChunkMetaData), Error = Error>) -> Result<(), Error> {
    loop {
        match it.advance()? {
            State::Finished(_) => return Ok(()),
            State::Some(s) => it = s,
        }
    }
}
fn p22_write() -> R {
    let mut cfg = BASE;
    cfg.pages = 6;
    let t = draw_table(&cfg);
    let asyncy = chance(PLAN, 1, 2);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    let mut w = Writer::new(&t, fid, asyncy);
    ensure!(file_len(fid) == 0 && ops()[1] == 0, "early-bytes: a new writer touches its sink");
    let mut logs = vec![];
    let mut before = std::sync::Arc::new(vec![]);
    for g in &t.groups {
        let log: Arc<Mutex<PullLog>> = Default::default();
        w.write(group_iter(&t, g, None, Some(fid), log.clone()))?.map_err(|e| format!("write-refused: {:?}", e))?;
        let now = file_data(fid);
        ensure!(now.len() >= before.len() && now[..before.len()] == before[..], "rewrites: bytes already in the sink changed");
        before = now;
        logs.push(log);
    }
    w.end(t.kv.clone())?.map_err(|e| format!("write-refused: {:?}", e))?;
    calm();
    let data = file_data(fid);
    let p = crate::oracle::parse_footer(&data).map_err(|e| format!("footer-unparsable: {}", e))?;
    for (i, g) in t.groups.iter().enumerate() {
        let log = logs[i].lock().unwrap();
        ensure!(log.opened.iter().map(|x| x.0).eq(0..g.chunks.len()), "pull-order: columns were opened in the order {:?}", log.opened);
        let mut want = vec![];
        for (j, c) in g.chunks.iter().enumerate() {
            let (_, pulls, _) = log.opened[j];
            ensure!(pulls == want.len(), "columns-ahead: column {} of row group {} was requested after {} pages were pulled, not after the {} of the columns before it", j, i, pulls, want.len());
            want.extend((0..=c.pages.len()).map(|k| (j, k)));
        }
        let got: Vec<(usize, usize)> = log.pulls.iter().map(|x| (x.0, x.1)).collect();
        ensure!(got == want, "pull-order: pages were pulled in the order {:?}", got);
        for (j, c) in p.meta.row_groups[i].columns.iter().enumerate() {
            let m = c.meta_data.as_ref().unwrap();
            let start = m.data_page_offset as usize;
            let at = crate::oracle::walk(&data, start, start + m.total_compressed_size as usize).map_err(|e| format!("chunk-range: {}", e))?;
            if let Some((_, _, held)) = log.opened.get(j + 1) {
                let end = start + m.total_compressed_size as usize;
                ensure!(c.meta_data.as_ref().unwrap().total_compressed_size == 0 || *held >= end, "columns-ahead: column {} of row group {} was requested when the sink held {} bytes and the pages of the column before it end at {}", j + 1, i, held, end);
            }
            for x in log.pulls.iter().filter(|x| x.0 == j && x.1 > 0 && x.1 <= at.len()) {
                let want = at[x.1 - 1].end;
                ensure!(x.2 == want, "pulls-ahead: row group {} column {} page {} was pulled when the sink held {} bytes, not {}", i, j, x.1, x.2, want);
            }
        }
    }
    Ok(())
}
