//! Scenarios of indexes, statistics, bloom filters and metadata: P11, P12, P13, P18, P23.
use super::read::{case_locations, indexed_want};
use crate::choices::*;
use crate::decode;
use crate::foreign::*;
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use parquet2::indexes::*;
use parquet2::metadata::{FileMetaData, RowGroupMetaData};
use parquet2::page::{CompressedPage, DataPage, Page};
use parquet2::read::*;
use parquet2::schema::types::PhysicalType;
use parquet2::statistics::*;
use parquet2::types::NativeType;
use parquet2::write::write_metadata_sidecar;
use parquet_format_safe as tf;
use std::cmp::Ordering;
use std::collections::{BTreeSet, VecDeque};
use std::io::Seek;

// ---------------------------------------------------------------- P11

fn rows_of(v: &[Interval]) -> BTreeSet<usize> {
    v.iter().flat_map(|i| i.start..i.start + i.length).collect()
}
/// a contiguous range of columns
/// some of the columns of a row group, mostly all of them or neighbours
fn draw_cols(n: usize) -> Vec<usize> {
    if n == 0 || chance(PLAN, 1, 2) {
        return (0..n).collect();
    }
    if chance(PLAN, 1, 2) {
        let a = upick(PLAN, n);
        return (a..range(PLAN, a, n)).collect();
    }
    cover("columns=scattered");
    (0..range(PLAN, 1, n)).map(|_| upick(PLAN, n)).collect()
}
fn of_cols(rg: &RowGroupMetaData, cols: &[usize]) -> Vec<parquet2::metadata::ColumnChunkMetaData> {
    cols.iter().map(|j| rg.columns()[*j].clone()).collect()
}
/// the logical rows of a page of a flat column
pub fn flat_rows(p: &PageM, max_def: i16) -> Vec<Option<Val>> {
    let mut v = p.vals.iter();
    p.defs.iter().map(|d| if *d as i16 == max_def { v.next().cloned() } else { None }).collect()
}
pub fn is_harness(e: &parquet2::error::Error) -> bool {
    format!("{:?}", e).contains("HARNESS")
}
pub fn decode_err(what: &str, e: parquet2::error::Error) -> String {
    let m = format!("{:?}", e);
    match m.find("HARNESS ") {
        Some(i) => m[i + 8..].trim_end_matches("\")").to_string(),
        None => format!("decode-error: {} fails with {}", what, m),
    }
}

/// Adjacent intervals joined, empty ones left out.
fn joined(v: impl IntoIterator<Item = (usize, usize)>) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = vec![];
    for (a, b) in v {
        match out.last_mut() {
            _ if a == b => {}
            Some(l) if l.1 == a => l.1 = b,
            _ => out.push((a, b)),
        }
    }
    out
}
/// The arithmetic of pages and selections for row groups of any length.
fn large_selections() -> R {
    let rows = match pick(PLAN, 4) {
        0 => pick(PLAN, 50),
        1 => (1 << 31) - 20 + pick(PLAN, 40),
        2 => (1 << 32) - 20 + pick(PLAN, 40),
        _ => raw(PLAN) >> (1 + pick(PLAN, 40)),
    } as usize;
    let cut = |rows: usize| if chance(PLAN, 1, 3) { upick(PLAN, rows.min(40) + 1) } else { (raw(PLAN) % (rows as u64 + 1)) as usize };
    let mut first: Vec<usize> = (0..upick(PLAN, 9)).map(|_| cut(rows)).collect();
    first.sort_unstable();
    if let Some(x) = first.first_mut() {
        *x = 0;
    }
    let mut l: Vec<parquet_format_safe::PageLocation> = first
        .iter()
        .map(|r| parquet_format_safe::PageLocation { offset: (raw(PLAN) >> (1 + pick(PLAN, 60))) as i64, compressed_page_size: (raw(PLAN) >> (33 + pick(PLAN, 30))) as i32, first_row_index: *r as i64 })
        .collect();
    let bounds: Vec<(usize, usize)> = first.iter().enumerate().map(|(k, r)| (*r, first.get(k + 1).copied().unwrap_or(rows))).collect();
    let iv = |v: &[(usize, usize)]| v.iter().map(|x| Interval::new(x.0, x.1 - x.0)).collect::<Vec<_>>();
    let picked: Vec<bool> = l.iter().map(|_| chance(PLAN, 1, 2)).collect();
    let got = compute_rows(&picked, &l, rows).map_err(|e| format!("compute-rows-error: {:?}", e))?;
    let want: Vec<(usize, usize)> = bounds.iter().zip(&picked).filter(|x| *x.1).map(|x| *x.0).collect();
    ensure!(joined(got.iter().map(|x| (x.start, x.start + x.length))) == joined(want.iter().copied()), "compute-rows: {:?} instead of {:?}", got, want);
    // a selection: sorted, possibly reaching beyond the last row
    let mut edges: Vec<usize> = (0..2 * upick(PLAN, 6)).map(|_| if chance(PLAN, 1, 3) && !first.is_empty() { first[upick(PLAN, first.len())] } else { cut(rows) }).collect();
    if chance(PLAN, 1, 4) && !edges.is_empty() {
        edges[0] = one_of(PLAN, &[rows, rows + 1, usize::MAX, rows + 1000]);
    }
    edges.sort_unstable();
    let sorted: Vec<(usize, usize)> = edges.chunks(2).map(|x| (x[0], x[1])).filter(|x| x.0 < x.1).collect();
    // a set of intervals has no order
    let mut sel = sorted.clone();
    if sel.len() > 1 && chance(PLAN, 1, 4) {
        let by = 1 + upick(PLAN, sel.len() - 1);
        sel.rotate_left(by);
        cover("selection=not_ascending");
    }
    let got = select_pages(&iv(&sel), &l, rows).map_err(|e| format!("select-error: {:?}", e))?;
    ensure!(got.len() == l.len(), "select-pages: {} pages of {}", got.len(), l.len());
    for ((g, x), (s, e)) in got.iter().zip(&l).zip(&bounds) {
        let want = joined(sorted.iter().map(|i| (i.0.max(*s), i.1.min(*e))).filter(|i| i.0 < i.1).map(|i| (i.0 - s, i.1 - s)));
        ensure!(g.start == x.offset as u64 && g.length == x.compressed_page_size as usize && g.num_rows == e - s, "select-pages: rows {}..{} at {:?} are {:?}", s, e, x, g);
        let mut have: Vec<(usize, usize)> = g.selected_rows.iter().map(|i| (i.start, i.start + i.length)).collect();
        if sel != sorted {
            have.sort_unstable();
        }
        let have = joined(have);
        ensure!(have == want, "select-pages: the page of rows {}..{} selects {:?} of {:?}", s, e, g.selected_rows, sel);
        ensure!(g.selected_rows.is_empty() == want.is_empty(), "select-pages: a page without selected rows would be read: {:?}", g);
    }
    // pages whose rows go backwards, or beyond the row group
    if !l.is_empty() {
        let k = upick(PLAN, l.len());
        let after = l.get(k + 1).map(|x| x.first_row_index).unwrap_or(rows as i64);
        let lie = match pick(PLAN, 3) {
            0 => -1 - pick(PLAN, 5) as i64,
            1 => after.saturating_add(1 + pick(PLAN, 5) as i64),
            _ => i64::MIN + pick(PLAN, 3) as i64,
        };
        l[k].first_row_index = lie;
        count_fault("page_rows_lie");
        ensure!(compute_rows(&picked, &l, rows).is_err() && select_pages(&iv(&sel), &l, rows).is_err(), "page-rows-lie: page {} of {} that starts at row {} although the rows before it end later is accepted: {:?}", k, l.len(), lie, select_pages(&iv(&sel), &l, rows));
    }
    cover("selection=arithmetic");
    Ok(())
}

pub fn p11() -> R {
    large_selections()?;
    let mut f = FBASE;
    f.table.real = true;
    f.table.big = false;
    f.table.groups = (1, 2);
    f.table.pages = 7;
    f.table.rows = one_of(PLAN, &[12, 60]);
    f.sparse = true;
    let case = draw_file(&f)?;
    set_io(draw_io(false));
    for i in 0..case.t.groups.len() {
        let rg = &case.md.row_groups[i];
        let rows = case.t.groups[i].rows;
        let n = rg.columns().len();
        let cols = draw_cols(n);
        let mut dev = open(case.fid);
        let got = read_pages_locations(&mut dev, &of_cols(rg, &cols)).map_err(|e| format!("locations-error: {:?}", e))?;
        if !case.has_oi[i] {
            ensure!(got.is_empty(), "locations-differ: {} columns of page locations although the file has none", got.len());
            continue;
        }
        ensure!(got.len() == cols.len(), "locations-differ: {} columns of page locations, not {}", got.len(), cols.len());
        for (l, j) in got.iter().zip(&cols) {
            let want = case_locations(&case, i, *j);
            ensure!(format!("{:?}", l) == format!("{:?}", want), "locations-differ: column {} has {:?} but its pages are at {:?}", j, l, want);
        }
        if cols.is_empty() {
            continue;
        }
        // what is selected
        let mut sel = if chance(PLAN, 1, 3) {
            let j = upick(PLAN, n);
            let l = case_locations(&case, i, j);
            let picked: Vec<bool> = l.iter().map(|_| chance(PLAN, 1, 2)).collect();
            let got = compute_rows(&picked, &l, rows).map_err(|e| format!("compute-rows-error: {:?}", e))?;
            let mut want = vec![];
            for (k, x) in l.iter().enumerate() {
                let e = l.get(k + 1).map(|x| x.first_row_index as usize).unwrap_or(rows);
                if picked[k] {
                    want.push(Interval::new(x.first_row_index as usize, e - x.first_row_index as usize));
                }
            }
            ensure!(got == want, "compute-rows: {:?} instead of {:?}", got, want);
            cover("selection=pages_of_a_column");
            got
        } else {
            draw_intervals(rows)
        };
        if chance(PLAN, 1, 8) {
            // intervals that select nothing
            let at = upick(PLAN, sel.len() + 1);
            let start = sel.get(at).map(|x| x.start).unwrap_or(rows);
            sel.insert(at, Interval::new(start, 0));
            cover("selection=with_empty_interval");
        }
        let chosen = rows_of(&sel);
        cover(if chosen.is_empty() { "selection=none" } else if chosen.len() == rows { "selection=all" } else { "selection=some" });
        for (l, j) in got.iter().zip(cols.iter().copied()) {
            let c = case.col(i, j);
            let pages = select_pages(&sel, l, rows).map_err(|e| format!("select-error: {:?}", e))?;
            ensure!(pages.len() == l.len(), "select-pages: {} pages of {}", pages.len(), l.len());
            for (k, (p, x)) in pages.iter().zip(l).enumerate() {
                let start = x.first_row_index as usize;
                let end = l.get(k + 1).map(|x| x.first_row_index as usize).unwrap_or(rows);
                ensure!(p.start == x.offset as u64 && p.length == x.compressed_page_size as usize && p.num_rows == end - start, "select-pages: page {} of column {} is {:?}", k, j, p);
                let want: BTreeSet<usize> = chosen.range(start..end).map(|r| r - start).collect();
                ensure!(rows_of(&p.selected_rows) == want, "select-pages: page {} of column {} (rows {}..{}) selects {:?} of {:?}", k, j, start, end, p.selected_rows, sel);
                ensure!(p.selected_rows.is_empty() == want.is_empty(), "select-pages: page {} has no selected row but would be read: {:?}", k, p);
                ensure!(p.selected_rows.windows(2).all(|w| w[0].start + w[0].length <= w[1].start), "select-pages: selected rows overlap or are unordered: {:?}", p.selected_rows);
            }
            let want = indexed_want(&case, i, j, &pages)?;
            let meta = PageMetaData::from(c);
            let mut it = if chance(SCHED, 1, 2) {
                IndexedPageReader::new(open(case.fid), c, pages, dirty(), dirty())
            } else {
                IndexedPageReader::new_with_page_meta(open(case.fid), meta, pages, dirty(), dirty())
            };
            let cm = case.chunk(i, j);
            // the rows selected of every page that is returned
            let mut model: Vec<Vec<Option<Val>>> = vec![];
            let d = case.t.descr(j);
            let flat = d.max_rep_level == 0;
            let mut row = 0;
            for p in cm.pages.iter().filter(|p| !p.is_dict()) {
                let r: Vec<usize> = chosen.range(row..row + p.rows).map(|r| r - row).collect();
                if !r.is_empty() {
                    let all = if flat { flat_rows(p, d.max_def_level) } else { vec![] };
                    model.push(if flat { r.iter().map(|x| all[*x].clone()).collect() } else { vec![] });
                }
                row += p.rows;
            }
            let mut dict: Option<Vec<Val>> = None;
            let (mut at, mut data) = (0, 0);
            let mut buf = dirty();
            while let Some(p) = it.next() {
                let p = p.map_err(|e| format!("read-error: an indexed read fails with {:?} at page {} of {}", e, at, want.len()))?;
                let sel: Option<Vec<(usize, usize)>> = match &p {
                    CompressedPage::Data(p) => p.selected_rows().map(|x| x.iter().map(|i| (i.start, i.length)).collect()),
                    _ => None,
                };
                let page = decompress(p, &mut buf).map_err(|e| format!("read-error: {:?}", e))?;
                ensure!(at < want.len(), "page-count: an indexed read returns more than {} pages", want.len());
                let mut r = rec_of(&page);
                ensure!(r.sel == sel, "selection-lost: decompressing changes the selected rows");
                r.sel = sel;
                ensure!(r == want[at], "page-differs: page {} of an indexed read is {} but should be {}", at, r.short(), want[at].short());
                at += 1;
                match &page {
                    Page::Dict(x) => dict = Some(decode::dict_vals(x, &d.primitive_type.physical_type).map_err(|e| decode_err("a dictionary", e))?),
                    Page::Data(x) => {
                        if decode::is_flat(x) {
                            cover("filtered_decode");
                            let sel: VecDeque<Interval> = x.selected_rows().unwrap_or(&[]).iter().copied().collect();
                            let got = decode::flat(x, dict.as_deref(), Some(sel.clone())).map_err(|e| decode_err("decoding selected rows", e))?;
                            ensure!(got == model[data], "filtered-values: rows {:?} of a page with {} rows decode to {:?} but are {:?}", sel, x.num_values(), got, model[data]);
                        }
                        data += 1;
                    }
                }
            }
            ensure!(at == want.len(), "page-count: an indexed read returns {} of {} pages", at, want.len());
            ensure!(it.next().is_none(), "iterator-restarts: an indexed page reader yields pages after its end");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P12 and P13

type Facts = (Option<i64>, Option<i64>, Option<Vec<u8>>, Option<Vec<u8>>);
/// what typed statistics say: nulls, distinct, min, max
pub fn facts(s: &dyn Statistics) -> Facts {
    fn nat<T: NativeType>(s: &dyn Statistics) -> Facts {
        let s = s.as_any().downcast_ref::<PrimitiveStatistics<T>>().unwrap();
        (s.null_count, s.distinct_count, s.min_value.map(|x| x.to_le_bytes().as_ref().to_vec()), s.max_value.map(|x| x.to_le_bytes().as_ref().to_vec()))
    }
    match s.physical_type() {
        PhysicalType::Boolean => {
            let s = s.as_any().downcast_ref::<BooleanStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.map(|x| vec![x as u8]), s.max_value.map(|x| vec![x as u8]))
        }
        PhysicalType::Int32 => nat::<i32>(s),
        PhysicalType::Int64 => nat::<i64>(s),
        PhysicalType::Int96 => nat::<[u32; 3]>(s),
        PhysicalType::Float => nat::<f32>(s),
        PhysicalType::Double => nat::<f64>(s),
        PhysicalType::ByteArray => {
            let s = s.as_any().downcast_ref::<BinaryStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
        PhysicalType::FixedLenByteArray(_) => {
            let s = s.as_any().downcast_ref::<FixedLenStatistics>().unwrap();
            (s.null_count, s.distinct_count, s.min_value.clone(), s.max_value.clone())
        }
    }
}
pub type Entry = (Option<Vec<u8>>, Option<Vec<u8>>, Option<i64>);
/// the entries of a column index: min, max, nulls
pub fn entries(x: &dyn Index) -> (Vec<Entry>, String) {
    fn of<T: Clone>(v: &[PageIndex<T>], f: impl Fn(&T) -> Vec<u8>) -> Vec<Entry> {
        v.iter().map(|p| (p.min.as_ref().map(&f), p.max.as_ref().map(&f), p.null_count)).collect()
    }
    fn nat<T: NativeType>(x: &dyn Index) -> (Vec<Entry>, String) {
        let x = x.as_any().downcast_ref::<NativeIndex<T>>().unwrap();
        (of(&x.indexes, |v| v.to_le_bytes().as_ref().to_vec()), format!("{:?}", x.boundary_order))
    }
    match x.physical_type() {
        PhysicalType::Boolean => {
            let x = x.as_any().downcast_ref::<BooleanIndex>().unwrap();
            (of(&x.indexes, |v| vec![*v as u8]), format!("{:?}", x.boundary_order))
        }
        PhysicalType::Int32 => nat::<i32>(x),
        PhysicalType::Int64 => nat::<i64>(x),
        PhysicalType::Int96 => nat::<[u32; 3]>(x),
        PhysicalType::Float => nat::<f32>(x),
        PhysicalType::Double => nat::<f64>(x),
        PhysicalType::ByteArray => {
            let x = x.as_any().downcast_ref::<ByteIndex>().unwrap();
            (of(&x.indexes, |v| v.clone()), format!("{:?}", x.boundary_order))
        }
        PhysicalType::FixedLenByteArray(_) => {
            let x = x.as_any().downcast_ref::<FixedLenByteIndex>().unwrap();
            (of(&x.indexes, |v| v.clone()), format!("{:?}", x.boundary_order))
        }
    }
}
fn page_stats(what: &str, want: Option<&tf::Statistics>, got: Option<Result<std::sync::Arc<dyn Statistics>, parquet2::error::Error>>, t: PhysicalType) -> R {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(Ok(g))) => {
            ensure!(*g.physical_type() == t, "page-statistics: {} has statistics of type {:?}", what, g.physical_type());
            ensure!(g.null_count() == w.null_count, "page-statistics: {} reports {:?} nulls, not {:?}", what, g.null_count(), w.null_count);
            let want = (w.null_count, w.distinct_count, w.min_value.clone(), w.max_value.clone());
            ensure!(facts(&*g) == want, "page-statistics: {} reports {:?} but was written with {:?}", what, facts(&*g), want);
            let back = serialize_statistics(&*g);
            ensure!((back.null_count, back.distinct_count, back.min_value, back.max_value) == want, "page-statistics: {} serializes to other statistics", what);
            Ok(())
        }
        (w, g) => Err(format!("page-statistics: {} reports {:?} but was written with {:?}", what, g, w)),
    }
}

pub fn p12() -> R {
    let mut f = FBASE;
    f.table.groups = (1, 2);
    f.table.pages = 6;
    f.table.write_statistics = Some(chance(PLAN, 3, 4));
    f.sparse = true;
    let case = draw_file(&f)?;
    set_io(draw_io(true));
    let mut unbounded = None;
    for (i, rg) in case.md.row_groups.iter().enumerate() {
        let cols = draw_cols(rg.columns().len());
        let chunks = of_cols(rg, &cols);
        let mut dev = open(case.fid);
        let got = read_columns_indexes(&mut dev, &chunks).map_err(|e| format!("index-error: {:?}", e))?;
        if !case.has_ci[i] {
            ensure!(got.is_empty(), "index-unexpected: {} column indexes although none was to be written", got.len());
            ensure!(rg.columns().iter().all(|c| c.column_chunk().column_index_offset.is_none()), "index-unexpected: the footer points to a column index");
            continue;
        }
        cover("column_indexes_read");
        ensure!(got.len() == cols.len(), "index-count: {} column indexes for {} columns", got.len(), cols.len());
        let again = read_columns_indexes(&mut dev, &chunks).map_err(|e| format!("index-error: {:?}", e))?;
        for (k, x) in got.iter().enumerate() {
            let j = cols[k];
            let t = &case.t.descr(j).primitive_type;
            ensure!(*x.physical_type() == t.physical_type, "index-type: the index of column {} ({:?}) is one of {:?}", j, t.physical_type, x.physical_type());
            let (e, order) = entries(&**x);
            // what the file has
            let cc = rg.columns()[j].column_chunk();
            let (at, len) = cc.column_index_offset.zip(cc.column_index_length).ok_or("index-missing: an index without a place")?;
            let data = file_data(case.fid);
            let bytes = data.get(at as usize..at as usize + len as usize).ok_or("index-missing: an index outside of the file")?;
            let stored = tf::ColumnIndex::read_from_in_protocol(&mut tf::thrift::protocol::TCompactInputProtocol::new(bytes, 1 << 24)).map_err(|e| format!("index-missing: {:?}", e))?;
            let stored_order = match stored.boundary_order.0 {
                1 => "Ascending",
                2 => "Descending",
                _ => "Unordered",
            };
            ensure!(order == stored_order, "index-order: the index of column {} is {} in the file and {} once read", j, stored_order, order);
            let counts = !case.foreign || stored.null_counts.is_some();
            let want: Vec<Entry> = case
                .chunk(i, j)
                .pages
                .iter()
                .filter(|p| !p.is_dict())
                .map(|p| {
                    let s = p.stats().unwrap();
                    (s.min_value.clone(), s.max_value.clone(), s.null_count.filter(|_| counts))
                })
                .collect();
            // the pages other readers skip because they only have nulls
            for (k, p) in case.chunk(i, j).pages.iter().filter(|p| !p.is_dict()).enumerate() {
                let says = stored.null_pages.get(k) == Some(&true);
                if says && !p.vals.is_empty() && !case.foreign {
                    let s = p.stats().unwrap();
                    ensure!(s.min_value.is_none() && s.max_value.is_none(), "index-null-page: page {} of column {} with {} values and bounds is a null page", k, j, p.vals.len());
                    unbounded = Some((i, j, k, p.vals.len()));
                }
            }
            ensure!(e == want, "index-differs: the index of column {} says {:?} but its pages say {:?}", j, e, want);
            ensure!(**x == *again[k], "index-unequal: the same index read twice is not equal to itself");
            // a claimed order must be there
            let o = order_of(t);
            let want_ord = match order.as_str() {
                "Ascending" => Some(Ordering::Greater),
                "Descending" => Some(Ordering::Less),
                _ => None,
            };
            if let (Some(bad), true) = (want_ord, o != Order::Undefined) {
                let get = |b: &Vec<u8>| val_of(t.physical_type, b);
                let full: Vec<&Entry> = e.iter().filter(|x| x.0.is_some()).collect();
                for w in full.windows(2) {
                    for (x, y) in [(&w[0].0, &w[1].0), (&w[0].1, &w[1].1)] {
                        let c = get(x.as_ref().unwrap()).zip(get(y.as_ref().unwrap())).and_then(|(x, y)| cmp(o, &x, &y));
                        ensure!(c != Some(bad), "index-order: the index of column {} claims to be {}", j, order);
                    }
                }
            }
        }
        for x in 1..got.len() {
            if *got[x - 1] == *got[x] {
                let (p, q) = (entries(&*got[x - 1]), entries(&*got[x]));
                ensure!(got[x - 1].physical_type() == got[x].physical_type() && p == q, "index-equal: different indexes compare equal");
            }
        }
    }
    // statistics attached to pages
    for (i, j) in case.chunks() {
        let c = case.col(i, j);
        let t = c.physical_type();
        let vis = case.chunk(i, j).visible();
        let it = get_page_iterator(c, open(case.fid), None, dirty(), NOLIMIT).map_err(|e| format!("read-error: {:?}", e))?;
        let mut buf = dirty();
        let mut n = 0;
        let mut last: Option<std::sync::Arc<dyn Statistics>> = None;
        for (k, p) in it.enumerate() {
            let p = p.map_err(|e| format!("read-error: {:?}", e))?;
            ensure!(k < vis.len(), "page-count: too many pages");
            n += 1;
            let want = vis[k].stats();
            if let CompressedPage::Data(x) = &p {
                page_stats(&format!("compressed page {} of row group {} column {}", k, i, j), want, x.statistics(), t)?;
            }
            if let CompressedPage::Data(x) = &p {
                // statistics are equal when they say the same
                if let (Some(Ok(a)), Some(Ok(b))) = (x.statistics(), x.statistics()) {
                    if !matches!(t, PhysicalType::Float | PhysicalType::Double) {
                        ensure!(&*a == &*b, "statistics-equal: statistics of page {} differ from themselves", k);
                        if let Some(l) = &last {
                            ensure!((&**l == &*a) == (facts(&**l) == facts(&*a)), "statistics-equal: statistics of pages {} and before compare wrongly: {:?} and {:?}", k, facts(&**l), facts(&*a));
                        }
                    }
                    last = Some(a);
                }
            }
            if let Page::Data(x) = decompress(p, &mut buf).map_err(|e| format!("read-error: {:?}", e))? {
                page_stats(&format!("page {} of row group {} column {}", k, i, j), want, x.statistics(), t)?;
                cover(if want.is_some() { "page_statistics=some" } else { "page_statistics=none" });
            }
        }
        ensure!(n == vis.len(), "page-count: {} pages", n);
    }
    // last, because it is a known finding
    if let Some((i, j, k, n)) = unbounded {
        return Err(format!("null-page-without-bounds: the index of row group {} column {} says that page {} only has nulls, but it has {} values (and statistics without bounds)", i, j, k, n));
    }
    Ok(())
}

/// The comparisons the library offers are the orders of the types.
fn orders() -> R {
    use parquet2::types::NativeType;
    let mut r = Rng::new(raw(DATA));
    let mut same = |what: &str, got: std::cmp::Ordering, want: std::cmp::Ordering, back: std::cmp::Ordering| -> R {
        ensure!(got == want && back == want.reverse(), "wrong-order: {} compare as {:?} and {:?}, not {:?}", what, got, back, want);
        Ok(())
    };
    for _ in 0..4 {
        let a: Vec<u8> = (0..r.next() % 6).map(|_| (r.next() % 3 * 127) as u8).collect();
        let b: Vec<u8> = match r.next() % 3 {
            0 => a.iter().copied().chain((0..r.next() % 3).map(|k| k as u8)).collect(),
            _ => (0..r.next() % 6).map(|_| (r.next() % 3 * 127) as u8).collect(),
        };
        same(&format!("{:?} and {:?}", a, b), parquet2::types::ord_binary(&a, &b), a.cmp(&b), parquet2::types::ord_binary(&b, &a))?;
        let (a, b) = (r.next() as i64 >> (r.next() % 64), r.next() as i64 >> (r.next() % 64));
        same(&format!("{} and {}", a, b), NativeType::ord(&a, &b), a.cmp(&b), NativeType::ord(&b, &a))?;
        let (a, b) = (a as i32, b as i32);
        same(&format!("{} and {}", a, b), NativeType::ord(&a, &b), a.cmp(&b), NativeType::ord(&b, &a))?;
        let (a, b) = (f32::from_bits(r.next() as u32), f32::from_bits(r.next() as u32));
        if let Some(o) = a.partial_cmp(&b) {
            same(&format!("{} and {}", a, b), NativeType::ord(&a, &b), o, NativeType::ord(&b, &a))?;
        }
        let (a, b) = (f64::from_bits(r.next()), f64::from_bits(r.next()));
        if let Some(o) = a.partial_cmp(&b) {
            same(&format!("{} and {}", a, b), NativeType::ord(&a, &b), o, NativeType::ord(&b, &a))?;
        }
        // timestamps within the range of nanoseconds of an i64
        let mut time = || (2_440_588 + (r.next() % 4) * 30_000, r.next() % 3 * 43_000_000_000_000);
        let (x, y) = (time(), time());
        let at = |t: (u64, u64)| [t.1 as u32, (t.1 >> 32) as u32, t.0 as u32];
        same(&format!("times {:?} and {:?}", x, y), NativeType::ord(&at(x), &at(y)), x.cmp(&y), NativeType::ord(&at(y), &at(x)))?;
    }
    Ok(())
}

pub fn p13() -> R {
    if chance(PLAN, 1, 16) {
        return orders();
    }
    let mut cfg = BASE;
    cfg.groups = (1, 2);
    cfg.pages = 6;
    cfg.big = false;
    let ws = chance(PLAN, 1, 3);
    cfg.write_statistics = Some(ws);
    cfg.stats = Some(if ws { Stats::All } else { one_of(PLAN, &[Stats::Mixed, Stats::Mixed, Stats::All]) });
    let mut t = draw_table(&cfg);
    if chance(PLAN, 1, 4) {
        // one page declares nothing
        let g = upick(PLAN, t.groups.len());
        let j = upick(PLAN, t.groups[g].chunks.len());
        if !ws {
            let pages = &mut t.groups[g].chunks[j].pages;
            let at: Vec<usize> = (0..pages.len()).filter(|k| !pages[*k].is_dict()).collect();
            if !at.is_empty() {
                let k = one_of(PLAN, &at);
                match pages[k].header.as_mut().unwrap() {
                    parquet2::page::DataPageHeader::V1(h) => h.statistics = None,
                    parquet2::page::DataPageHeader::V2(h) => h.statistics = None,
                }
            }
        }
    }
    let asyncy = chance(PLAN, 1, 3);
    set_io(draw_io(asyncy));
    let fid = new_file(vec![]);
    write_table(&t, fid, asyncy)?.map_err(|e| format!("write-refused: writing pages with statistics fails: {:?}", e))?;
    let md = meta_sync(fid).map_err(|e| format!("metadata-unreadable: {:?}", e))?;
    for (i, g) in t.groups.iter().enumerate() {
        for (j, c) in g.chunks.iter().enumerate() {
            let col = &md.row_groups[i].columns()[j];
            let d = t.descr(j);
            let what = format!("row group {} column {} ({:?})", i, j, d.primitive_type.physical_type);
            let s = match col.statistics() {
                None => {
                    cover("chunk_statistics=none");
                    continue;
                }
                Some(Err(e)) => return Err(format!("chunk-statistics: those of {} cannot be read: {:?}", what, e)),
                Some(Ok(s)) => s,
            };
            cover("chunk_statistics=some");
            check_chunk_stats(&what, c, &d.primitive_type, facts(&*s))?;
            let m = col.metadata().statistics.as_ref().unwrap();
            ensure!(m.min.is_none() && m.max.is_none(), "chunk-statistics: {} carries deprecated bounds, whose order is not the type's", what);
        }
    }
    Ok(())
}
fn check_chunk_stats(what: &str, c: &ChunkM, t: &parquet2::schema::types::PrimitiveType, (nulls, distinct, min, max): Facts) -> R {
    let o = order_of(t);
    let pages: Vec<&PageM> = c.pages.iter().filter(|p| !p.is_dict()).collect();
    let comparable = |v: &Val| cmp(o, v, v).is_some() || o == Order::Undefined;
    if let Some(n) = nulls {
        let all: Option<i64> = pages.iter().map(|p| p.stats().and_then(|s| s.null_count)).sum();
        // pages without values cannot have nulls
        let lenient: Option<i64> = pages.iter().filter(|p| p.n() > 0).map(|p| p.stats().and_then(|s| s.null_count)).sum();
        ensure!(all.or(lenient) == Some(n), "chunk-nulls: {} declares {} nulls but its pages declare {:?}", what, n, pages.iter().map(|p| p.stats().map(|s| s.null_count)).collect::<Vec<_>>());
        cover("chunk_nulls=some");
    }
    if let Some(n) = distinct {
        let declared: Vec<&PageM> = pages.iter().copied().filter(|p| !p.vals.is_empty()).collect();
        ensure!(declared.len() <= 1, "chunk-distinct: {} declares {} distinct values, which cannot be known from {} pages", what, n, declared.len());
        ensure!(pages.iter().any(|p| p.stats().and_then(|s| s.distinct_count) == Some(n)), "chunk-distinct: {} declares {} distinct values but no page does", what, n);
    }
    for (is_min, b) in [(true, min), (false, max)] {
        let name = if is_min { "minimum" } else { "maximum" };
        let Some(b) = b else { continue };
        let bound = val_of(t.physical_type, &b).ok_or_else(|| format!("chunk-bound: the {} of {} is not a value: {:02x?}", name, what, b))?;
        cover("chunk_bounds=some");
        if o == Order::SignedBytes && t.physical_type == PhysicalType::ByteArray {
            let own: Vec<Vec<u8>> = pages.iter().filter_map(|p| p.stats().and_then(|s| if is_min { s.min_value.clone() } else { s.max_value.clone() })).collect();
            cover(if own.iter().any(|x| x.len() != own[0].len()) { "signed_bounds=of_several_lengths" } else { "signed_bounds=of_one_length" });
        }
        for p in &pages {
            let s = p.stats();
            let (pmin, pmax) = (s.and_then(|s| s.min_value.clone()), s.and_then(|s| s.max_value.clone()));
            let own = if is_min { &pmin } else { &pmax };
            ensure!(own.is_some() || !p.vals.iter().any(comparable), "chunk-bound: {} has a {} although a page with {} values does not declare one", what, name, p.vals.len());
            for x in [pmin, pmax].into_iter().flatten() {
                let v = val_of(t.physical_type, &x).unwrap();
                let c = cmp(o, &bound, &v);
                let bad = if is_min { Ordering::Greater } else { Ordering::Less };
                ensure!(o == Order::Undefined || (c.is_some() && c != Some(bad)), "chunk-bound: the {} of {} is {:?} but a page has the bound {:?} ({:?} order)", name, what, bound, v, o);
            }
        }
        // a bound of a type without order still has to be one of the pages' bounds
        ensure!(pages.iter().any(|p| p.stats().map(|s| s.min_value.as_ref() == Some(&b) || s.max_value.as_ref() == Some(&b)).unwrap_or(false)), "chunk-bound: the {} of {} is no bound of any page: {:?}", name, what, bound);
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

fn lib_hash(v: &Val) -> Option<u64> {
    use parquet2::bloom_filter::*;
    Some(match v {
        Val::B(_) => return None,
        Val::I32(x) => hash_native(*x),
        Val::I64(x) => hash_native(*x),
        Val::I96(x) => hash_native(*x),
        Val::F32(x) => hash_native(f32::from_bits(*x)),
        Val::F64(x) => hash_native(f64::from_bits(*x)),
        Val::Bin(b) => hash_byte(b),
    })
}
const TYPES: [PhysicalType; 7] = [PhysicalType::Int32, PhysicalType::Int64, PhysicalType::Int96, PhysicalType::Float, PhysicalType::Double, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(7)];

pub fn p18() -> R {
    use parquet2::bloom_filter::*;
    // in memory
    let blocks = one_of(PLAN, &[1usize, 2, 3, 5, 8, 31, 100, 1000]);
    let n = one_of(PLAN, &[0usize, 1, 5, 40, 200]);
    let t = one_of(PLAN, &TYPES);
    let style = pick(PLAN, 4);
    let mut r = Rng::new(raw(DATA));
    let vals: Vec<Val> = (0..n).map(|_| draw_val(&t, style, &mut r)).collect();
    let mut bits = vec![0u8; 32 * blocks];
    let mut reference = bits.clone();
    for (k, v) in vals.iter().enumerate() {
        let h = lib_hash(v).unwrap();
        ensure!(h == crate::bloom::hash(v), "bloom-hash: {:?} hashes to {:x}, not to its xxh64 {:x}", v, h, crate::bloom::hash(v));
        insert(&mut bits, h);
        crate::bloom::insert(&mut reference, h);
        ensure!(is_in_set(&bits, h), "bloom-negative: {:?} is not found right after it was inserted", v);
        ensure!(bits == reference, "bloom-bits: after inserting {} values the bitset is not the one of the format", k + 1);
    }
    for v in &vals {
        ensure!(is_in_set(&bits, lib_hash(v).unwrap()), "bloom-negative: {:?} was inserted but is reported absent", v);
    }
    // another order and repetitions
    let mut other = vec![0u8; 32 * blocks];
    for _ in 0..n / 3 {
        let v = &vals[(r.next() % n as u64) as usize];
        insert(&mut other, lib_hash(v).unwrap());
    }
    for v in vals.iter().rev() {
        insert(&mut other, lib_hash(v).unwrap());
    }
    ensure!(other == bits, "bloom-order: the bitset depends on the order of insertions");
    for _ in 0..50 {
        let h = r.next();
        ensure!(is_in_set(&bits, h) == crate::bloom::contains(&reference, h), "bloom-answer: hash {:x} is answered differently than the format says", h);
    }
    // in a file
    let mut f = FBASE;
    f.table.huge = false;
    f.blooms = true;
    f.foreign = Some(true);
    f.table.groups = (1, 2);
    f.table.big = false;
    f.table.codecs = false;
    f.sparse = true;
    let case = draw_file(&f)?;
    set_io(draw_io(false));
    for (i, j) in case.chunks() {
        let c = case.col(i, j);
        let mut bits = dirty();
        let mut dev = open(case.fid);
        parquet2::bloom_filter::read(c, &mut dev, &mut bits).map_err(|e| format!("bloom-read-error: {:?}", e))?;
        let want = case.blooms[i][j].clone().unwrap_or_default();
        ensure!(bits == want, "bloom-read: the filter of row group {} column {} has {} bytes and is not the stored one of {}", i, j, bits.len(), want.len());
        if want.is_empty() {
            cover("bloom=absent");
            // nothing is known about the values of the column: none is excluded
            let vals: Vec<&Val> = case.chunk(i, j).pages.iter().filter(|p| !p.is_dict()).flat_map(|p| &p.vals).take(50).collect();
            for h in vals.into_iter().filter_map(lib_hash).chain([0, u64::MAX, raw(DATA)]) {
                ensure!(is_in_set(&bits, h), "bloom-negative: a column without a filter has no value of hash {:x}", h);
                insert(&mut bits, h);
            }
            ensure!(bits.is_empty(), "bloom-bits: inserting into an empty bitset gave it {} bytes", bits.len());
            continue;
        }
        cover("bloom=read");
        for v in case.chunk(i, j).pages.iter().filter(|p| !p.is_dict()).flat_map(|p| &p.vals) {
            if let Some(h) = lib_hash(v) {
                ensure!(is_in_set(&bits, h), "bloom-negative: {:?} is in the column but its filter denies it", v);
            }
        }
        if case.sparse() {
            continue;
        }
        // a filter that cannot be read completely
        let data = file_data(case.fid);
        let off = c.metadata().bloom_filter_offset.unwrap() as usize;
        let fid = new_file(data.to_vec());
        let (cut, faulty) = match pick(FAULT, 4) {
            0 => (off + upick(FAULT, want.len() + 20), false),
            1 => (off + want.len() + 20 - upick(FAULT, 30), false),
            _ => (data.len(), true),
        };
        if faulty {
            arm(Fault { ops: 1 << Op::Read as u8 | 1 << Op::Seek as u8, at: pick(FAULT, 12), kind: one_of(FAULT, &[FaultKind::Io, FaultKind::Zero, FaultKind::Interrupted, FaultKind::TimedOut, FaultKind::Shrink((off + upick(FAULT, want.len() + 20)) as u64)]), sticky: false });
        } else if cut < data.len() {
            count_fault("file_truncated");
            set_file(fid, data[..cut].to_vec());
        }
        let mut bits = dirty();
        let mut dev = open(fid);
        let r = parquet2::bloom_filter::read(c, &mut dev, &mut bits);
        disarm();
        ensure!(r.is_err() || bits == want, "bloom-truncated: a filter of {} bytes that cannot be read completely is returned with {} bytes as success", want.len(), bits.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- P23

fn same_meta(what: &str, got: &FileMetaData, want: &FileMetaData) -> R {
    let m = |w: &str, a: String, b: String| -> R {
        ensure!(a == b, "metadata-carried: {}: {} reads back as {} but was {}", what, w, &a[..a.len().min(500)], &b[..b.len().min(500)]);
        Ok(())
    };
    m("version", format!("{:?}", got.version), format!("{:?}", want.version))?;
    m("rows", format!("{:?}", got.num_rows), format!("{:?}", want.num_rows))?;
    m("created_by", format!("{:?}", got.created_by), format!("{:?}", want.created_by))?;
    m("key-value metadata", format!("{:?}", got.key_value_metadata), format!("{:?}", want.key_value_metadata))?;
    m("schema", format!("{:?}", got.schema_descr), format!("{:?}", want.schema_descr))?;
    m("column orders", format!("{:?}", got.column_orders), format!("{:?}", want.column_orders))?;
    m("number of row groups", got.row_groups.len().to_string(), want.row_groups.len().to_string())?;
    for (i, (a, b)) in got.row_groups.iter().zip(&want.row_groups).enumerate() {
        m(&format!("row group {}", i), format!("{:?}", a), format!("{:?}", b))?;
    }
    Ok(())
}
/// writes a sidecar and reads it; None if a fault made it fail
fn sidecar(m: &tf::FileMetaData, faults: bool) -> R<Option<(usize, FileMetaData)>> {
    let fid = new_file(vec![]);
    set_io(draw_io(false));
    let mut eintr = false;
    if faults {
        let kind = one_of(FAULT, &[FaultKind::Io, FaultKind::Full, FaultKind::Zero, FaultKind::Interrupted, FaultKind::Io]);
        eintr = kind == FaultKind::Interrupted;
        // a flush transfers nothing, so it cannot come up short
        let ops = if kind == FaultKind::Zero { 1 << Op::Write as u8 } else { 1 << Op::Write as u8 | 1 << Op::Flush as u8 };
        arm(Fault { ops, at: pick(FAULT, 60), kind, sticky: kind == FaultKind::Zero || kind == FaultKind::Full });
    }
    let before = fired();
    let mut dev = open(fid);
    let r = write_metadata_sidecar(&mut dev, m);
    calm();
    let hit = fired() > before;
    match r {
        Err(e) => {
            ensure!(hit, "sidecar-error: {:?}", e);
            Ok(None)
        }
        Ok(len) => {
            ensure!(!hit || eintr, "sidecar-acknowledged: a sidecar is reported complete although writing it failed");
            let data = file_data(fid);
            ensure!(len as usize == data.len(), "sidecar-length: {} bytes were reported but {} written", len, data.len());
            ensure!(data.len() >= 12 && &data[..4] == b"PAR1" && &data[data.len() - 4..] == b"PAR1", "sidecar-frame: not a parquet file");
            ensure!(file_flushed(fid) == Some(data.len()), "sidecar-unflushed: a sidecar is reported complete before its sink was flushed");
            let p = crate::oracle::parse_footer(&data).map_err(|e| format!("sidecar-footer: {}", e))?;
            ensure!(p.meta == *m, "sidecar-differs: the footer of the sidecar is not the metadata it was given");
            set_io(draw_io(true));
            let md = meta_any(fid)?.map_err(|e| format!("sidecar-unreadable: {:?}", e))?;
            Ok(Some((fid, md)))
        }
    }
}
fn own_fields(what: &str, m: &tf::FileMetaData) -> R {
    for (i, rg) in m.row_groups.iter().enumerate() {
        let total: i64 = rg.columns.iter().map(|c| c.meta_data.as_ref().map(|m| m.total_compressed_size).unwrap_or(0)).sum();
        ensure!(rg.total_compressed_size.is_none() || rg.total_compressed_size == Some(total), "metadata-carried: {}: row group {} announces {:?} compressed bytes, its columns {}", what, i, rg.total_compressed_size, total);
        if let (Some(o), Some(c)) = (rg.file_offset, rg.columns.first()) {
            let m = c.meta_data.as_ref().unwrap();
            let start = m.dictionary_page_offset.unwrap_or(m.data_page_offset);
            ensure!(o == start || o == 0, "metadata-carried: {}: row group {} is said to start at {} but its first column starts at {}", what, i, o, start);
        }
    }
    Ok(())
}

pub fn p23() -> R {
    let mut f = FBASE;
    f.blooms = true;
    f.table.big = false;
    f.table.codecs = false;
    f.table.rows = 8;
    let faults = chance(PLAN, 1, 4);
    // the metadata a writer hands out
    if chance(PLAN, 1, 3) {
        cover("carried=writer_metadata");
        let mut t = draw_table(&Cfg { hollow: true, ..f.table });
        if chance(PLAN, 1, 40) {
            pad_table(&mut t);
        }
        set_io(draw_io(false));
        let fid = new_file(vec![]);
        let mut w = parquet2::write::FileWriter::new(open(fid), t.schema.clone(), t.options, t.created_by.clone());
        for g in &t.groups {
            w.write(simple_iter(&t, g)).map_err(|e| format!("write-refused: {:?}", e))?;
        }
        w.end(t.kv.clone()).map_err(|e| format!("write-refused: {:?}", e))?;
        let m = w.metadata().ok_or("metadata-missing: after end")?.clone();
        let Some((_, md)) = sidecar(&m, faults)? else { return Ok(()) };
        check_metadata(&md, &t)?;
        let own = meta_sync(fid).map_err(|e| format!("metadata-unreadable: {:?}", e))?;
        return same_meta("the sidecar of a written file", &md, &own);
    }
    // metadata that was read
    f.sparse = true;
    let mut case = draw_file(&f)?;
    if chance(PLAN, 1, 2) {
        cover("carried=read_metadata");
        if chance(PLAN, 1, 2) {
            case.fid = other_numbers(case.fid)?;
            case.md = meta_sync(case.fid).map_err(|e| format!("metadata-unreadable: {:?}", e))?;
            cover("carried=numbers_of_any_size");
        }
        let m = case.md.clone().into_thrift();
        own_fields("metadata written again", &m)?;
        let data = file_data(case.fid);
        let raw = crate::oracle::parse_footer(&data).map_err(|e| format!("footer-unparsable: {}", e))?.meta;
        // as an independent reader sees it
        ensure!(m.schema == raw.schema, "metadata-carried: the schema elements change: {:?} instead of {:?}", m.schema, raw.schema);
        ensure!((m.version, m.num_rows, &m.key_value_metadata, &m.created_by, &m.column_orders) == (raw.version, raw.num_rows, &raw.key_value_metadata, &raw.created_by, &raw.column_orders), "metadata-carried: version, rows, key-value metadata, created_by or column orders change");
        ensure!(m.row_groups.len() == raw.row_groups.len(), "metadata-carried: {} row groups", m.row_groups.len());
        for (i, (a, b)) in m.row_groups.iter().zip(&raw.row_groups).enumerate() {
            ensure!(a.columns == b.columns, "metadata-carried: the columns of row group {} change: {:?} instead of {:?}", i, a.columns, b.columns);
            ensure!((a.num_rows, a.total_byte_size) == (b.num_rows, b.total_byte_size), "metadata-carried: the rows or bytes of row group {} change", i);
        }
        let Some((_, md)) = sidecar(&m, faults)? else { return Ok(()) };
        same_meta("metadata written again", &md, &case.md)?;
        for rg in &case.md.row_groups {
            serde_trip(rg)?;
        }
        return Ok(());
    }
    // the row groups of several files in one sidecar
    cover("carried=several_files");
    let mut parts = vec![case];
    for _ in 0..1 + upick(PLAN, 2) {
        // another table of the same schema
        let mut t = draw_table(&f.table);
        let first = &parts[0].t;
        t.schema = first.schema.clone();
        let paths = leaf_paths(&t.schema);
        for g in t.groups.iter_mut() {
            g.chunks = t.schema.columns().iter().zip(&paths).map(|(c, p)| draw_chunk(g.rows, p, &c.descriptor, &f.table, Stats::All)).collect();
        }
        parts.push(make_file(t, &f)?);
    }
    let mut all = parts[0].md.clone();
    all.row_groups = vec![];
    all.num_rows = 0;
    let mut want: Vec<(usize, usize)> = vec![];
    let mut order: Vec<usize> = (0..parts.len()).collect();
    if chance(PLAN, 1, 2) {
        order.reverse();
    }
    for k in order {
        let p = &parts[k];
        for (i, rg) in p.md.row_groups.iter().enumerate() {
            let cols = rg
                .columns()
                .iter()
                .map(|c| {
                    let d = c.descriptor().clone();
                    let mut t = c.clone().into_thrift();
                    t.file_path = Some(format!("part-{}.parquet", k));
                    parquet2::metadata::ColumnChunkMetaData::new(t, d)
                })
                .collect();
            all.row_groups.push(RowGroupMetaData::new(cols, rg.num_rows(), rg.total_byte_size()));
            want.push((k, i));
        }
        all.num_rows += p.md.num_rows;
    }
    let m = all.clone().into_thrift();
    own_fields("combined metadata", &m)?;
    let Some((_, md)) = sidecar(&m, faults)? else { return Ok(()) };
    same_meta("combined metadata", &md, &all)?;
    for (rg, (k, i)) in md.row_groups.iter().zip(want) {
        let p = &parts[k];
        for (j, c) in rg.columns().iter().enumerate() {
            ensure!(c.file_path().as_deref() == Some(&format!("part-{}.parquet", k)), "metadata-carried: the file of a column is {:?}", c.file_path());
            let got = pages(p.fid, c, How::Plain, None, NOLIMIT)?;
            same_pages("a column found through combined metadata", &got, &p.expected(i, j))?;
        }
    }
    Ok(())
}
/// the same metadata with numbers of any size, as those of very large files
fn other_numbers(fid: usize) -> R<usize> {
    let mut m = crate::oracle::parse_footer(&file_data(fid)).map_err(|e| format!("footer-unparsable: {}", e))?.meta;
    let mut r = Rng::new(raw(DATA));
    // bits of the largest number, such that sums do not overflow
    let bits = one_of(PLAN, &[20, 31, 32, 33, 40, 45]);
    let mut big = |x: &mut i64| {
        if r.next() % 2 == 0 {
            *x = (r.next() >> (64 - bits)) as i64;
        }
    };
    big(&mut m.num_rows);
    for g in m.row_groups.iter_mut() {
        big(&mut g.num_rows);
        big(&mut g.total_byte_size);
        for c in g.columns.iter_mut() {
            big(&mut c.file_offset);
            for x in [&mut c.offset_index_offset, &mut c.column_index_offset].into_iter().flatten() {
                big(x);
            }
            let Some(d) = &mut c.meta_data else { continue };
            for x in [&mut d.num_values, &mut d.total_uncompressed_size, &mut d.total_compressed_size, &mut d.data_page_offset] {
                big(x);
            }
            for x in [&mut d.index_page_offset, &mut d.dictionary_page_offset, &mut d.bloom_filter_offset].into_iter().flatten() {
                big(x);
            }
            if let Some(s) = &mut d.statistics {
                for x in [&mut s.null_count, &mut s.distinct_count].into_iter().flatten() {
                    big(x);
                }
            }
            for e in d.encoding_stats.iter_mut().flatten() {
                let mut n = e.count as i64;
                big(&mut n);
                e.count = n as i32;
            }
        }
    }
    let f = crate::foreign::thrift!(m);
    let mut out = b"PAR1".to_vec();
    out.extend_from_slice(&f);
    out.extend_from_slice(&(f.len() as u32).to_le_bytes());
    out.extend_from_slice(b"PAR1");
    Ok(new_file(out))
}
/// row group metadata through a serde format
fn serde_trip(rg: &RowGroupMetaData) -> R {
    let text = serde_json::to_string(rg).map_err(|e| format!("serde-error: {:?}", e))?;
    // the depth of the text is a limit of the format used here, not of the library
    let mut de = serde_json::Deserializer::from_str(&text);
    de.disable_recursion_limit();
    let back = <RowGroupMetaData as serde::Deserialize>::deserialize(&mut de).map_err(|e| format!("serde-error: row group metadata that was serialized cannot be deserialized: {:?}", e))?;
    let (a, b) = (format!("{:?}", back), format!("{:?}", rg));
    ensure!(a == b, "serde-differs: row group metadata deserializes to {} but was {}", &a[..a.len().min(400)], &b[..b.len().min(400)]);
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &DataPage) {
    let mut d = open(0);
    let _ = d.stream_position();
}
