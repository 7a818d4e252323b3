//! Failing and short reads (P07), bounded progress (P20).
use super::read::*;
use crate::choices::*;
use crate::exec::*;
use crate::foreign::*;
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use parquet2::compression::CompressionOptions;
use parquet2::error::Error;
use parquet2::indexes::{select_pages, FilteredPage};
use parquet2::page::{CompressedPage, DataPageHeader};
use parquet2::read::*;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as tf;

/// Ways into the read path.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    MetaSync,
    MetaAsync,
    MetaSize,
    Pages(How),
    Indexed,
    ColumnIndexes,
    Locations,
    Bloom,
    Column,
    ColumnAsync,
    Columns,
    ColumnsAsync,
    Field,
}
use Entry::*;
const ENTRIES: [Entry; 17] = [
    MetaSync,
    MetaAsync,
    MetaSize,
    Pages(How::Plain),
    Pages(How::Reuse),
    Pages(How::Basic),
    Pages(How::Stream),
    Pages(How::StreamStart),
    Indexed,
    ColumnIndexes,
    Locations,
    Bloom,
    Column,
    ColumnAsync,
    Columns,
    ColumnsAsync,
    Field,
];
impl Entry {
    fn asyncy(&self) -> bool {
        matches!(self, MetaAsync | Pages(How::Stream) | Pages(How::StreamStart) | ColumnAsync | ColumnsAsync)
    }
}
/// What an entry point returned, in a comparable form.
#[derive(Debug)]
pub enum Out {
    Value(Result<String, String>),
    Pages(Got),
}
fn val<T: std::fmt::Debug>(r: Result<T, Error>) -> Out {
    Out::Value(match r {
        Ok(x) => Ok(format!("{:?}", x)),
        Err(e) => {
            note(format!("    error: {:?}", e));
            Err(format!("{:?}", e))
        }
    })
}
pub struct Ctx<'a> {
    pub case: &'a FileCase,
    pub i: usize,
    pub j: usize,
    pub sel: Vec<FilteredPage>,
    pub field: String,
    pub size: u64,
    pub max: usize,
    pub filter: Option<PageFilter>,
}
impl Ctx<'_> {
    pub fn run(&self, e: Entry) -> R<Out> {
        let c = self.case;
        let fid = c.fid;
        let cols = c.md.row_groups.get(self.i).map(|x| x.columns()).unwrap_or(&[]);
        let col = cols.get(self.j);
        note(format!("  {:?} row group {} column {}", e, self.i, self.j));
        Ok(match (e, col) {
            (MetaSync, _) => val(meta_sync(fid)),
            (MetaAsync, _) => val(meta_async(fid)?),
            (MetaSize, _) => val(read_metadata_with_size(&mut open(fid), self.size)),
            (_, None) => Out::Value(Ok(String::new())),
            (Pages(h), Some(col)) => Out::Pages(pages(fid, col, h, self.filter.clone(), self.max)?),
            (Indexed, Some(col)) => Out::Pages(indexed(fid, col, self.sel.clone())?),
            (ColumnIndexes, _) => val(read_columns_indexes(&mut open(fid), cols)),
            (Locations, _) => val(read_pages_locations(&mut open(fid), cols)),
            (Bloom, Some(col)) => {
                let mut b = dirty();
                val(parquet2::bloom_filter::read(col, &mut open(fid), &mut b).map(|_| b))
            }
            (Column, Some(col)) => val(read_column(&mut open(fid), col)),
            (ColumnAsync, Some(col)) => val(block_on(read_column_async(factory(fid), col))?),
            (Columns, _) => val(read_columns(&mut open(fid), cols, &self.field).map(|x| x.into_iter().map(|(c, b)| (c.byte_range(), b)).collect::<Vec<_>>())),
            (ColumnsAsync, _) => {
                val(block_on(read_columns_async(factory(fid), cols, &self.field))?.map(|x| x.into_iter().map(|(c, b)| (c.byte_range(), b)).collect::<Vec<_>>()))
            }
            (Field, _) => {
                let mut out: Result<Vec<(u64, Vec<Rec>)>, Error> = Ok(vec![]);
                let mut it = get_column_iterator(open(fid), &c.md.row_groups[self.i], &self.field, self.filter.clone(), dirty(), self.max);
                loop {
                    match it.advance() {
                        Err(e) => {
                            out = Err(e);
                            break;
                        }
                        Ok(State::Finished(_)) => break,
                        Ok(State::Some(mut s)) => {
                            let Some((reader, meta)) = s.get() else { return Err("column-lost: advance succeeded but there is no column".into()) };
                            let mut got = Got::default();
                            drain(reader, &mut got)?;
                            if let Some(e) = got.err {
                                out = Err(Error::OutOfSpec(e));
                                break;
                            }
                            if let Ok(o) = &mut out {
                                o.push((meta.byte_range().0, got.pages));
                            }
                            it = s;
                        }
                    }
                }
                val(out)
            }
        })
    }
}

/// Bodies of uncompressed pages that look like pages themselves: a reader that lost its place in
/// the file finds something to read.
pub fn bait(t: &mut TableM) {
    for g in t.groups.iter_mut() {
        for c in g.chunks.iter_mut() {
            if c.codec != CompressionOptions::Uncompressed || chance(PLAN, 1, 3) {
                continue;
            }
            for p in c.pages.iter_mut() {
                if chance(PLAN, 1, 3) {
                    continue;
                }
                let mut b = vec![];
                for k in 0..1 + upick(PLAN, 3) {
                    let body = vec![0x55; [0, 3, 16, 60][upick(PLAN, 4)]];
                    let mut h = tf::PageHeader {
                        type_: tf::PageType::DATA_PAGE,
                        uncompressed_page_size: body.len() as i32,
                        compressed_page_size: body.len() as i32,
                        crc: None,
                        data_page_header: None,
                        index_page_header: None,
                        dictionary_page_header: None,
                        data_page_header_v2: None,
                    };
                    let n = k as i32;
                    match &p.header {
                        Some(DataPageHeader::V1(x)) => {
                            let mut x = x.clone();
                            x.statistics = None;
                            x.num_values = n;
                            h.data_page_header = Some(x);
                        }
                        Some(DataPageHeader::V2(x)) => {
                            let mut x = x.clone();
                            x.statistics = None;
                            x.num_values = n;
                            h.type_ = tf::PageType::DATA_PAGE_V2;
                            h.data_page_header_v2 = Some(x);
                        }
                        None => {
                            h.type_ = tf::PageType::DICTIONARY_PAGE;
                            h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: n, encoding: tf::Encoding::PLAIN, is_sorted: None });
                        }
                    }
                    b.extend(thrift!(h));
                    b.extend(body);
                }
                p.body = b;
                p.real = false;
            }
        }
    }
}
fn draw_case() -> R<FileCase> {
    let mut f = FBASE;
    f.table.huge = false;
    f.blooms = true;
    f.table.leaves = 3;
    let mut t = draw_table(&f.table);
    if chance(PLAN, 1, 2) {
        cover("bait=yes");
        bait(&mut t);
    }
    make_file(t, &f)
}
fn draw_ctx(case: &FileCase) -> R<Ctx<'_>> {
    let mut ctx = Ctx { case, i: 0, j: 0, sel: vec![], field: String::new(), size: file_len(case.fid) as u64, max: NOLIMIT, filter: None };
    let all = case.chunks();
    if !all.is_empty() {
        (ctx.i, ctx.j) = one_of(PLAN, &all);
        let locs = case_locations(case, ctx.i, ctx.j);
        let rows = case.t.groups[ctx.i].rows;
        ctx.sel = select_pages(&draw_intervals(rows), &locs, rows).map_err(|e| format!("select-pages: {:?}", e))?;
        let d = case.col(ctx.i, ctx.j).descriptor();
        ctx.field = d.path_in_schema[0].clone();
        if chance(PLAN, 1, 3) {
            ctx.filter = stateless_filter().0;
            cover(format!("page_filter={}", ctx.filter.is_some()));
        }
    }
    Ok(ctx)
}
fn page_ranges(case: &FileCase) -> Vec<u64> {
    case.page_at.iter().flatten().flatten().flat_map(|(a, b)| [*a as u64, *b as u64]).collect()
}
fn draw_fault(case: &FileCase, n: u64, sticky: Option<bool>) -> Fault {
    let len = file_len(case.fid) as u64;
    let kind = match pick(FAULT, 8) {
        0 | 1 => FaultKind::Io,
        2 | 3 => FaultKind::Zero,
        4 | 5 => {
            let marks = page_ranges(case);
            let to = match pick(FAULT, 4) {
                0 => pick(FAULT, len.max(1)),
                1 => len.saturating_sub(1 + pick(FAULT, 20)),
                2 if !marks.is_empty() => one_of(FAULT, &marks),
                _ => pick(FAULT, 16),
            };
            FaultKind::Shrink(to.min(len))
        }
        6 => FaultKind::Interrupted,
        _ => one_of(FAULT, &[FaultKind::TimedOut, FaultKind::WouldBlock]),
    };
    let ops = one_of(FAULT, &[1u8, 1, 1, 8, 9]);
    // an end of file stays one; an interruption passes
    let sticky = (sticky.unwrap_or_else(|| chance(FAULT, 1, 2)) || kind == FaultKind::Zero) && kind != FaultKind::Interrupted;
    Fault { ops, at: pick(FAULT, n + 2), kind, sticky }
}

/// Compares the outcome under faults with the outcome without.
fn judge(e: Entry, got: &Out, want: &Out) -> R {
    match (got, want) {
        (Out::Value(Err(_)), _) => Ok(()),
        (Out::Value(Ok(a)), Out::Value(Ok(b))) => {
            ensure!(a == b, "wrong-data: {:?} succeeds with {} instead of {}", e, short(a), short(b));
            Ok(())
        }
        (Out::Pages(a), Out::Pages(b)) => {
            for (k, (x, y)) in a.pages.iter().zip(&b.pages).enumerate() {
                ensure!(x == y, "wrong-data: {:?} yields page {} as {} instead of {}", e, k, x.short(), y.short());
            }
            ensure!(a.pages.len() <= b.pages.len(), "wrong-data: {:?} yields {} pages instead of {}", e, a.pages.len(), b.pages.len());
            ensure!(a.err.is_some() || a.pages.len() == b.pages.len(), "truncated: {:?} ends without an error after {} of {} pages", e, a.pages.len(), b.pages.len());
            for x in &a.late {
                ensure!(b.pages.contains(x), "not-genuine: after the error {:?} {:?} yields {} which is no page of the column", a.err, e, x.short());
            }
            Ok(())
        }
        _ => Err(format!("HARNESS {:?} against {:?}", got, want)),
    }
}
fn short(s: &str) -> String {
    format!("[{}] {}", s.len(), s.chars().take(160).collect::<String>())
}

pub fn p07() -> R {
    let case = draw_case()?;
    let mut ctx = draw_ctx(&case)?;
    let data = file_data(case.fid);
    for _ in 0..3 {
        let e = one_of(SCHED, &ENTRIES);
        cover(format!("entry={:?}", e));
        calm();
        set_data(case.fid, &data);
        ctx.max = NOLIMIT;
        let n0 = ops_total();
        let want = ctx.run(e)?;
        let n = ops_total() - n0;
        if let Out::Value(Err(m)) = &want {
            return Err(format!("read-error: {:?} of a sound file fails with {}", e, m));
        }
        if let Out::Pages(g) = &want {
            ensure!(g.err.is_none(), "read-error: {:?} of a sound file fails with {:?}", e, g.err);
        }
        set_io(draw_io(e.asyncy()));
        let split = with(|w| w.io.short) > 0;
        if matches!(e, Pages(_) | Field) && chance(FAULT, 1, 6) {
            // not a fault of the device: a page is larger than the reader may read
            ctx.max = pick(FAULT, 3000) as usize;
            count_fault("page_limit");
        } else {
            let f = draw_fault(&case, if split { n * 3 } else { n }, None);
            note(format!("  fault {:?}", f));
            arm(f);
        }
        let before = fired();
        set_step_limit(200_000);
        let got = ctx.run(e);
        set_step_limit(u64::MAX / 2);
        disarm();
        if fired() == before && ctx.max == NOLIMIT {
            cover("fault=not reached");
        }
        judge(e, &got?, &want)?;
    }
    Ok(())
}

/// what the run cost: (operations, polls of futures less the spurious ones)
fn cost() -> (u64, u64) {
    with(|w| (w.steps, w.polls - w.fault_counts.get("spurious_poll").copied().unwrap_or(0)))
}

pub fn p20() -> R {
    if chance(PLAN, 2, 5) {
        return p20_write();
    }
    let case = draw_case()?;
    let mut ctx = draw_ctx(&case)?;
    ctx.max = NOLIMIT;
    let data = file_data(case.fid);
    for _ in 0..2 {
        let e = one_of(SCHED, &ENTRIES);
        cover(format!("entry={:?}", e));
        calm();
        set_data(case.fid, &data);
        log_access(true);
        take_access();
        let n0 = ops_total();
        let want = ctx.run(e)?;
        let n = ops_total() - n0;
        let bytes: u64 = take_access().iter().map(|a| a.end - a.start).sum();
        log_access(false);
        let mut io = draw_io(e.asyncy());
        io.spurious = 0;
        set_io(io);
        let adverse = pick(FAULT, 3);
        match adverse {
            0 => {}
            1 => {
                // interruptions the source recovers from
                let at = pick(FAULT, n + 2);
                arm(Fault { ops: 1, at, kind: FaultKind::Interrupted, sticky: false });
            }
            _ => {
                let f = draw_fault(&case, if io.short > 0 { n * 3 } else { n }, Some(true));
                note(format!("  permanent fault {:?}", f));
                arm(f);
            }
        }
        // every operation moves a byte, ends a transfer, or is waited for once
        let bound = 4 * (n + bytes) + 200;
        let (s0, p0) = cost();
        set_step_limit(bound);
        let got = ctx.run(e);
        set_step_limit(u64::MAX / 2);
        disarm();
        let got = got?;
        let (s, p) = (cost().0 - s0, cost().1 - p0);
        ensure!(p <= s + 8, "busy-polling: {:?} is polled {} times for {} operations and waits", e, p, s);
        judge(e, &got, &want)?;
        if adverse == 0 {
            let bad = match &got {
                Out::Value(x) => x.as_ref().err().cloned(),
                Out::Pages(g) => g.err.clone(),
            };
            ensure!(bad.is_none(), "no-progress: {:?} fails with {:?} although its source works", e, bad);
        }
        set_data(case.fid, &data);
    }
    if !case.chunks().is_empty() {
        ended(&ctx)?;
    }
    Ok(())
}

/// Iterators that reached their end stay there; iterators over a failing source end.
fn ended(ctx: &Ctx) -> R {
    let case = ctx.case;
    let col = case.col(ctx.i, ctx.j);
    let failing = chance(FAULT, 1, 2);
    let npages = case.chunk(ctx.i, ctx.j).pages.len();
    calm();
    let kind = pick(SCHED, 5);
    cover(format!("ended={} {}", ["pages", "decompressor", "basic", "indexed", "stream"][kind as usize], if failing { "failing" } else { "sound" }));
    if failing {
        let at = pick(FAULT, 4 * npages as u64 + 2);
        arm(Fault { ops: 1, at: at + (kind == 3) as u64, kind: FaultKind::Io, sticky: true });
    }
    let limit = 4 * npages + 8;
    // at most this many items, errors included; then nothing, without touching the source
    macro_rules! exhaust {
        ($what:expr, $next:expr) => {{
            let mut k = 0;
            while $next {
                k += 1;
                ensure!(k <= limit, "never-ends: {} of a {} source still yields items after {} of a chunk of {} pages", $what, if failing { "failing" } else { "sound" }, k, npages);
            }
            let n = ops_total();
            for _ in 0..4 {
                ensure!(!$next, "iterator-restarts: {} yields items after its end", $what);
            }
            ensure!(ops_total() == n, "reads-after-end: {} touches the source after its end", $what);
        }};
    }
    let fid = case.fid;
    match kind {
        0..=2 => {
            let it = match get_page_iterator(col, open(fid), None, dirty(), NOLIMIT) {
                Ok(it) => it,
                Err(_) => return Ok(()),
            };
            match kind {
                0 => {
                    let mut it = it;
                    exhaust!("PageReader", it.next().is_some());
                }
                1 => {
                    let mut it = Decompressor::new(it, dirty());
                    exhaust!("Decompressor", !matches!(it.next(), Ok(None)));
                }
                _ => {
                    let mut it = BasicDecompressor::new(it, dirty());
                    exhaust!("BasicDecompressor", !matches!(it.next(), Ok(None)));
                }
            }
        }
        3 => {
            let mut it = IndexedPageReader::new(open(fid), col, ctx.sel.clone(), dirty(), dirty());
            exhaust!("IndexedPageReader", it.next().is_some());
        }
        _ => {
            let mut dev = aopen(fid);
            let r: R = block_on(async {
                use futures::StreamExt;
                let f: PageFilter = std::sync::Arc::new(|_, _| true);
                if let Ok(s) = get_page_stream(col, &mut dev, dirty(), f, NOLIMIT).await {
                    futures::pin_mut!(s);
                    exhaust!("page stream", s.next().await.is_some());
                }
                Ok(())
            })?;
            r?;
        }
    }
    disarm();
    Ok(())
}

fn p20_write() -> R {
    let mut cfg = BASE;
    cfg.huge = false;
    cfg.leaves = 3;
    let t = draw_table(&cfg);
    calm();
    let asyncy = chance(PLAN, 1, 2);
    // reference
    let fid = new_file(vec![]);
    let n0 = ops_total();
    let want = write_table(&t, fid, asyncy)?;
    let n = ops_total() - n0;
    let bytes = file_len(fid) as u64;
    let bound = 4 * (n + bytes) + 200;
    let mut io = draw_io(asyncy);
    io.spurious = 0;
    let adverse = pick(FAULT, 3);
    let fid = new_file(vec![]);
    set_io(io);
    cover(format!("write {} adverse={}", if asyncy { "async" } else { "sync" }, adverse));
    match adverse {
        0 => {}
        1 => arm(Fault { ops: 2, at: pick(FAULT, n + 2), kind: FaultKind::Interrupted, sticky: false }),
        _ => {
            let kind = one_of(FAULT, &[FaultKind::Io, FaultKind::Full, FaultKind::TimedOut, FaultKind::WouldBlock, FaultKind::Zero]);
            let f = Fault { ops: one_of(FAULT, &[2u8, 2, 4, 6]), at: pick(FAULT, n + 2), kind, sticky: true };
            note(format!("  permanent fault {:?}", f));
            arm(f);
        }
    }
    let (s0, p0) = cost();
    set_step_limit(bound);
    let mut w = Writer::new(&t, fid, asyncy);
    let mut outs = vec![];
    for g in &t.groups {
        outs.push(w.write(simple_iter(&t, g))?.map(|_| 0));
    }
    outs.push(w.end(t.kv.clone())?);
    set_step_limit(bound);
    // whatever happened, the writer keeps answering
    for _ in 0..2 {
        let again = w.end(None)?;
        ensure!(again.is_err() || outs.last().unwrap().is_err(), "ended-twice: a second end succeeds");
        if let Some(g) = t.groups.first() {
            let _ = w.write(simple_iter(&t, g))?;
        }
    }
    set_step_limit(u64::MAX / 2);
    disarm();
    let (s, p) = (cost().0 - s0, cost().1 - p0);
    ensure!(p <= s + 8 + 2 * outs.len() as u64, "busy-polling: the writer is polled {} times for {} operations and waits", p, s);
    if adverse == 0 && want.is_ok() {
        for (k, o) in outs.iter().enumerate() {
            ensure!(o.is_ok(), "no-progress: call {} fails with {:?} although the sink works", k, o);
        }
        ensure!(file_len(fid) as u64 == bytes, "wrong-data: {} bytes instead of {}", file_len(fid), bytes);
    }
    Ok(())
}
#[allow(dead_code)]
fn unused(_: CompressedPage) {}
