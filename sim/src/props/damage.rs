//! Damaged files (P08) and lying sizes (P09).
use super::fault::{Ctx, Entry};
use super::read::*;
use crate::alloc;
use crate::choices::*;
use crate::decode;
use crate::exec::*;
use crate::foreign::*;
use crate::lie;
use crate::model::*;
use crate::ops::*;
use crate::oracle;
use crate::world::*;
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::FileMetaData;
use parquet2::page::{split_buffer, CompressedPage, DataPage, Page};
use parquet2::read::*;
use parquet_format_safe as tf;
use std::collections::VecDeque;

// ---------------------------------------------------------------- damage

/// where the Thrift structure at `at` ends
fn struct_end(data: &[u8], at: usize) -> Option<usize> {
    lie::fields(data.get(at..)?, 0, 0, &mut vec![]).map(|x| x + at)
}
/// edits the structure at a..b of the file; false if it cannot be edited
fn edit_struct(data: &mut Vec<u8>, a: usize, b: usize, lies: bool, times: usize) -> bool {
    let mut s = data[a..b].to_vec();
    let mut any = false;
    for _ in 0..times {
        any |= lie::tweak(&mut s, lies);
    }
    lie::splice(data, a, b, &s);
    any
}
fn edit_footer(data: &mut Vec<u8>, lies: bool, times: usize) -> bool {
    let Ok(p) = oracle::parse_footer(data) else { return false };
    let mut f = data[p.at..data.len() - 8].to_vec();
    let mut any = false;
    for _ in 0..times {
        any |= lie::tweak(&mut f, lies);
    }
    data.truncate(p.at);
    lie::footer(data, &f);
    any
}
/// the structures of a kind in the file: 0 page headers, 1 column indexes, 2 offset indexes, 3 bloom filters
fn structs(data: &[u8], kind: u64) -> Vec<(usize, usize)> {
    let Ok(p) = oracle::parse_footer(data) else { return vec![] };
    let mut out = vec![];
    for c in p.meta.row_groups.iter().flat_map(|g| &g.columns) {
        let Some(m) = &c.meta_data else { continue };
        match kind {
            0 => {
                let s = m.dictionary_page_offset.unwrap_or(m.data_page_offset);
                let (Ok(s), Ok(l)) = (usize::try_from(s), usize::try_from(m.total_compressed_size)) else { continue };
                if let Ok(w) = oracle::walk(data, s, s.saturating_add(l).min(data.len())) {
                    out.extend(w.iter().map(|p| (p.at, p.body_at)));
                }
            }
            k => {
                let o = [c.column_index_offset, c.offset_index_offset, m.bloom_filter_offset][k as usize - 1];
                if let Some(o) = o.and_then(|x| usize::try_from(x).ok()) {
                    if let Some(e) = struct_end(data, o) {
                        out.push((o, e));
                    }
                }
            }
        }
    }
    out
}
/// Damages bytes of page bodies before they are compressed.
fn damage_bodies(t: &mut TableM) {
    for c in t.groups.iter_mut().flat_map(|g| g.chunks.iter_mut()) {
        for p in c.pages.iter_mut() {
            if p.body.is_empty() || chance(FAULT, 1, 2) {
                continue;
            }
            // the start holds the lengths and widths
            let lo = if chance(FAULT, 1, 2) { 0 } else { p.levels.min(p.body.len() - 1) };
            if chance(FAULT, 1, 2) {
                let at = lo + upick(FAULT, (p.body.len() - lo).min(12));
                p.body[at] = one_of(FAULT, &[0u8, 1, 0x7f, 0x80, 0xff, raw(FAULT) as u8]);
                count_fault("byte_set");
            } else {
                damage(&mut p.body, lo, 1);
            }
            if chance(FAULT, 1, 8) {
                let n = upick(FAULT, p.body.len() + 1);
                p.body.truncate(n);
                count_fault("body_truncated");
            }
            p.levels = p.levels.min(p.body.len());
        }
    }
}
/// Pages of every encoding instead of plain ones.
fn recode_all(t: &mut TableM) {
    let schema = t.schema.clone();
    for g in t.groups.iter_mut() {
        for (j, c) in g.chunks.iter_mut().enumerate() {
            let d = &schema.columns()[j].descriptor;
            let dict = c.pages.iter().find(|p| p.is_dict()).map(|p| p.vals.clone());
            for p in c.pages.iter_mut().filter(|p| !p.is_dict()) {
                if chance(PLAN, 3, 4) {
                    let mut q = p.clone();
                    if let Ok(Ok(())) = crate::run::guard(|| super::codec::recode(&mut q, d, dict.as_deref())) {
                        *p = q;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P08

/// No more of a value is looked at than this.
const SOME: usize = 2000;

fn look_at(md: &FileMetaData) {
    let mut n = md.schema().columns().len();
    for rg in &md.row_groups {
        let _ = (rg.num_rows(), rg.total_byte_size(), rg.compressed_size());
        n = n.max(rg.columns().len());
        for c in rg.columns() {
            let _ = (c.file_path(), c.file_offset(), c.physical_type(), c.num_values(), c.compression(), c.compressed_size(), c.uncompressed_size());
            let _ = (c.data_page_offset(), c.has_index_page(), c.index_page_offset(), c.dictionary_page_offset(), c.column_encoding().len(), c.byte_range());
            let _ = c.metadata();
            if let Some(Ok(s)) = c.statistics() {
                cover("statistics=some");
                let _ = (format!("{:?}", s), s.null_count());
                super::index::facts(s.as_ref());
            }
        }
    }
    for i in 0..n.min(md.schema().columns().len()) {
        let o = md.column_order(i);
        let _ = o.sort_order();
    }
    let _ = format!("{:?}", md).len();
    // what can be done with it afterwards
    let _ = filter_row_groups(md, &|_, i| i % 2 == 0).row_groups.len();
    let t = md.clone().into_thrift();
    if let Ok(again) = FileMetaData::try_from_thrift(t) {
        let _ = again.num_rows;
    }
}
/// Text that should describe a schema.
fn schema_text() -> String {
    let base = one_of(
        PLAN,
        &[
            "message schema { REQUIRED INT32 a; OPTIONAL BYTE_ARRAY b (UTF8); REPEATED group c { REQUIRED FIXED_LEN_BYTE_ARRAY (5) d (DECIMAL(11,4)); } }",
            "message m { OPTIONAL INT64 t (TIMESTAMP(MICROS,true)); OPTIONAL INT32 d = 4 (TIME(MILLIS,false)); OPTIONAL INT32 i (INTEGER(8,true)); }",
            "message x { OPTIONAL group l (LIST) { REPEATED group list { OPTIONAL INT96 element; } } REQUIRED DOUBLE z; }",
        ],
    );
    let mut s: Vec<String> = base.split(' ').map(String::from).collect();
    for _ in 0..1 + upick(FAULT, 4) {
        if s.is_empty() {
            break;
        }
        let i = upick(FAULT, s.len());
        match pick(FAULT, 6) {
            0 => {
                s.remove(i);
            }
            1 => {
                let w = s[upick(FAULT, s.len())].clone();
                s.insert(i, w);
            }
            2 => s[i] = one_of(FAULT, &["", "{", "}", "(", ")", ";", "=", "99999999999999999999", "-1", "é", "0", ",", "group", "message"]).into(),
            3 => {
                let mut c: Vec<char> = s[i].chars().collect();
                if !c.is_empty() {
                    let k = upick(FAULT, c.len());
                    c[k] = one_of(FAULT, &['(', ')', '0', 'A', '\u{1F600}', ' ', '\n', '-', ';']);
                }
                s[i] = c.into_iter().collect();
            }
            4 => s.truncate(i),
            _ => {
                let n = one_of(FAULT, &[2usize, 50, 400]);
                for _ in 0..n {
                    s.insert(i, one_of(FAULT, &["(", "{", "REQUIRED group g {", "}"]).into());
                }
            }
        }
        count_fault("schema_text");
    }
    s.join(" ")
}
fn look_at_page(page: &DataPage, dict: Option<&[Val]>) -> R {
    if let Some(Ok(s)) = page.statistics() {
        super::index::facts(s.as_ref());
    }
    let _ = (page.num_values(), page.encoding(), page.definition_level_encoding(), page.repetition_level_encoding());
    let _ = split_buffer(page);
    match decode::content(page, dict) {
        Ok(c) => {
            cover("decoded=ok");
            let _ = (c.reps.len(), c.defs.len(), c.vals.len());
        }
        Err(_) => cover("decoded=error"),
    }
    decode::past(page)?;
    if decode::is_flat(page) {
        let sel = if chance(PLAN, 1, 2) { Some(VecDeque::from(draw_intervals(page.num_values().min(SOME)))) } else { None };
        match decode::flat(page, dict, sel) {
            Ok(_) => cover("flat=ok"),
            Err(_) => cover("flat=error"),
        }
        if page.descriptor.max_def_level == 1 {
            let _ = decode::runs(page);
        }
    }
    Ok(())
}
fn look_at_pages(it: &mut dyn Iterator<Item = Result<CompressedPage, Error>>) -> R {
    let mut buf = dirty();
    let mut dict: Option<Vec<Val>> = None;
    for p in it.take(SOME) {
        let Ok(p) = p else {
            cover("page=error");
            continue;
        };
        let t = match &p {
            CompressedPage::Data(d) => {
                let _ = (d.uncompressed_size(), d.compressed_size(), d.compression(), d.num_values(), d.selected_rows().map(|x| x.len()));
                if let Some(Ok(s)) = d.statistics() {
                    super::index::facts(s.as_ref());
                }
                None
            }
            CompressedPage::Dict(d) => {
                let _ = d.compression();
                Some(())
            }
        };
        match decompress(p, &mut buf) {
            Err(_) => cover("page=undecompressable"),
            Ok(Page::Data(mut d)) => {
                cover("page=data");
                look_at_page(&d, dict.as_deref())?;
                buf = std::mem::take(d.buffer_mut());
            }
            Ok(Page::Dict(d)) => {
                cover("page=dict");
                let _ = t;
                DICT.with(|t| {
                    if let Some(t) = t.borrow().as_ref() {
                        if let Ok(v) = decode::dict_vals(&d, t) {
                            dict = Some(v);
                        }
                    }
                });
                buf = d.buffer;
            }
        }
    }
    Ok(())
}
thread_local! {
    /// the type of the column being read (a dictionary page does not know its own)
    static DICT: std::cell::RefCell<Option<parquet2::schema::types::PhysicalType>> = const { std::cell::RefCell::new(None) };
}

/// Exercises the whole read path on the file.
fn exercise(fid: usize) -> R {
    let a = meta_sync(fid);
    let b = if chance(SCHED, 1, 3) { Some(meta_async(fid)?) } else { None };
    let md = match (a, b) {
        (_, Some(Ok(m))) => m,
        (Ok(m), _) => m,
        _ => {
            cover("metadata=error");
            return Ok(());
        }
    };
    cover("metadata=ok");
    look_at(&md);
    let groups: Vec<usize> = (0..md.row_groups.len()).take(6).collect();
    for i in groups {
        let rg = &md.row_groups[i];
        let cols = rg.columns();
        let cols = &cols[..cols.len().min(6)];
        note(format!("row group {}", i));
        let indexes = read_columns_indexes(&mut open(fid), cols);
        if let Ok(v) = &indexes {
            for x in v {
                let _ = super::index::entries(x.as_ref());
                let _ = x.physical_type();
            }
        }
        let locations = read_pages_locations(&mut open(fid), cols).unwrap_or_default();
        for (j, c) in cols.iter().enumerate() {
            note(format!(" column {}", j));
            DICT.with(|t| *t.borrow_mut() = Some(c.physical_type()));
            let mut bits = dirty();
            if parquet2::bloom_filter::read(c, &mut open(fid), &mut bits).is_ok() {
                cover("bloom=ok");
                for h in [0, u64::MAX, 1 << 40, raw(DATA)] {
                    parquet2::bloom_filter::is_in_set(&bits, h);
                }
            }
            // pages: one way per column, and the decoders on them
            let some_filter = stateless_filter().0;
            let filter = || some_filter.clone().unwrap_or_else(|| std::sync::Arc::new(|_, _| true));
            match pick(SCHED, 4) {
                0 => {
                    if let Ok(mut it) = get_page_iterator(c, open(fid), some_filter.clone(), dirty(), NOLIMIT) {
                        look_at_pages(&mut it)?;
                    }
                }
                1 => {
                    if let Ok(v) = read_column(&mut open(fid), c) {
                        let mut it = PageReader::new(std::io::Cursor::new(v), c, filter(), dirty(), NOLIMIT);
                        look_at_pages(&mut it)?;
                    }
                }
                2 => {
                    let mut pages = vec![];
                    let mut dev = aopen(fid);
                    block_on(async {
                        use futures::StreamExt;
                        if let Ok(s) = get_page_stream(c, &mut dev, dirty(), filter(), NOLIMIT).await {
                            futures::pin_mut!(s);
                            while let Some(p) = s.next().await {
                                pages.push(p);
                                if pages.len() > SOME {
                                    break;
                                }
                            }
                        }
                    })?;
                    look_at_pages(&mut pages.into_iter())?;
                }
                _ => {
                    let _ = pages(fid, c, one_of(SCHED, &HOWS), some_filter.clone(), NOLIMIT)?;
                }
            }
            // pages through the index
            let locs = locations.get(j).cloned().unwrap_or_default();
            let rows = if chance(PLAN, 3, 4) { rg.num_rows() } else { upick(PLAN, 100) };
            let some = draw_intervals(rows.min(SOME));
            let n = locs.len().min(SOME);
            let picks: Vec<bool> = (0..n).map(|_| chance(PLAN, 1, 2)).collect();
            let computed = compute_rows(&picks, &locs[..n], rows).unwrap_or_default();
            let iv = if chance(PLAN, 1, 3) { computed } else { some };
            if let Ok(sel) = select_pages(&iv, &locs, rows) {
                let mut it = IndexedPageReader::new(open(fid), c, sel, dirty(), dirty());
                look_at_pages(&mut it)?;
            }
        }
        // whole fields
        if let Some(f) = md.schema().fields().first().map(|f| f.name().to_string()) {
            let _ = read_columns(&mut open(fid), cols, &f);
            if chance(SCHED, 1, 3) {
                let _ = block_on(read_columns_async(factory(fid), cols, &f))?.is_ok();
            }
        }
    }
    Ok(())
}
/// A file whose schema nests (or claims to nest) very deeply.
fn deep_file() -> usize {
    let depth = one_of(PLAN, &[30usize, 200, 3000, 20_000, 60_000]);
    let rep = one_of(PLAN, &[tf::FieldRepetitionType::OPTIONAL, tf::FieldRepetitionType::REPEATED, tf::FieldRepetitionType::REQUIRED]);
    count_fault("deep_schema");
    cover(format!("depth={}", depth));
    let el = |name: &str, kids: Option<i32>, t: Option<tf::Type>| tf::SchemaElement {
        type_: t,
        type_length: None,
        repetition_type: Some(rep),
        name: name.into(),
        num_children: kids,
        converted_type: None,
        scale: None,
        precision: None,
        field_id: None,
        logical_type: None,
    };
    let mut schema = vec![];
    for k in 0..depth {
        schema.push(el(if k == 0 { "r" } else { "" }, Some(1), None));
    }
    if chance(PLAN, 3, 4) {
        schema.push(el("x", None, Some(tf::Type::INT32)));
    }
    let m = tf::FileMetaData { version: 1, schema, num_rows: 0, row_groups: vec![], key_value_metadata: None, created_by: None, column_orders: None, encryption_algorithm: None, footer_signing_key_metadata: None };
    let mut data = b"PAR1".to_vec();
    lie::footer(&mut data, &thrift!(m));
    new_file(data)
}

pub fn p08() -> R {
    alloc::set_limit(64 << 20);
    // the window a brotli stream announces is up to 1 GiB, which its decoder reserves and does not touch
    alloc::set_zeroed_limit((1 << 30) + (1 << 20));
    if chance(PLAN, 1, 100) {
        let fid = deep_file();
        return exercise(fid);
    }
    if chance(PLAN, 1, 40) {
        for _ in 0..8 {
            let s = schema_text();
            note(format!("schema {:.300}", s));
            match parquet2::metadata::SchemaDescriptor::try_from_message(&s) {
                Ok(s) => {
                    cover("schema-text=ok");
                    let _ = format!("{:?}", s).len();
                }
                Err(_) => cover("schema-text=error"),
            }
        }
        return Ok(());
    }
    let mut f = FBASE;
    f.table.huge = false;
    f.blooms = true;
    f.table.groups = (1, 2);
    f.table.leaves = 3;
    f.table.big = false;
    let mut t = draw_table(&f.table);
    if chance(PLAN, 1, 2) {
        recode_all(&mut t);
    }
    let inside = chance(FAULT, 1, 3);
    if inside {
        f.foreign = Some(true);
        damage_bodies(&mut t);
    } else if chance(PLAN, 1, 2) {
        f.foreign = Some(true);
    }
    let case = make_file(t, &f)?;
    let fid = case.fid;
    let mut data = file_copy(fid);
    let rounds = if inside { upick(FAULT, 2) } else { 1 + upick(FAULT, 3) };
    for _ in 0..rounds {
        let what = pick(FAULT, 10);
        let times = 1 + upick(FAULT, 3);
        match what {
            0 | 1 => {
                set_file(fid, data);
                damage_file(&case, fid);
                data = file_copy(fid);
            }
            2..=4 => {
                edit_footer(&mut data, false, times);
            }
            k => {
                let v = structs(&data, [0, 0, 1, 2, 3][k as usize - 5]);
                if !v.is_empty() {
                    let (a, b) = one_of(FAULT, &v);
                    edit_struct(&mut data, a, b, false, times);
                }
            }
        }
    }
    set_file(fid, data);
    set_io(draw_io(false));
    set_step_limit(3_000_000);
    let r = exercise(fid);
    set_step_limit(u64::MAX / 2);
    r
}

// ---------------------------------------------------------------- P09

/// What the bookkeeping of the simulation itself may allocate meanwhile.
const SLACK: usize = 1 << 20;

fn within<T>(what: &str, bound: usize, f: impl FnOnce() -> T) -> R<T> {
    let (r, u) = alloc::measure(f);
    ensure!(u.largest <= bound, "over-allocation: {} asks for {} bytes at once; a bound is {}", what, u.largest, bound);
    ensure!(u.peak <= bound, "over-allocation: {} holds {} bytes; a bound is {}", what, u.peak, bound);
    Ok(r)
}
/// the stored size of a page (read as an uncompressed one)
fn stored_size(p: CompressedPage) -> usize {
    match p {
        CompressedPage::Data(d) => d.compressed_size(),
        p => match decompress(p, &mut vec![]) {
            Ok(Page::Dict(d)) => d.buffer.len(),
            _ => 0,
        },
    }
}

fn p09_pages() -> R {
    let mut f = FBASE;
    f.table.huge = false;
    f.table.leaves = 2;
    f.table.groups = (1, 1);
    let mut t = draw_table(&f.table);
    if chance(PLAN, 1, 2) {
        super::fault::bait(&mut t);
    }
    let case = make_file(t, &f)?;
    let fid = case.fid;
    let all: Vec<(usize, usize)> = case.chunks().into_iter().filter(|(i, j)| !case.chunk(*i, *j).pages.is_empty()).collect();
    if all.is_empty() {
        return Ok(());
    }
    let (i, j) = one_of(PLAN, &all);
    let at = case.page_at[i][j].clone();
    let data0 = file_data(fid);
    let walked = oracle::walk(&data0, at[0].0, at.last().unwrap().1).map_err(|e| format!("HARNESS {}", e))?;
    // (header length, stored size)
    let sizes: Vec<(usize, usize)> = walked.iter().map(|p| (p.body_at - p.at, p.end - p.body_at)).collect();
    let mut data = data0.to_vec();
    // from this page on the headers lie
    let mut honest = sizes.len();
    if chance(FAULT, 3, 4) {
        honest = upick(FAULT, sizes.len());
        let p = &walked[honest];
        let mut h = data[p.at..p.body_at].to_vec();
        let mut hd = p.header.clone();
        let big = one_of(FAULT, &[i32::MAX, 1 << 30, 1 << 24, (p.end - p.body_at) as i32 + 1, 5_000_000, -1, i32::MIN]);
        let mut as_struct = true;
        match pick(FAULT, 6) {
            0 => hd.compressed_page_size = big,
            1 => hd.uncompressed_page_size = big,
            2 => {
                hd.compressed_page_size = big;
                hd.uncompressed_page_size = big;
            }
            3 => {
                if let Some(x) = hd.data_page_header.as_mut() {
                    x.num_values = big
                }
                if let Some(x) = hd.data_page_header_v2.as_mut() {
                    x.num_values = big
                }
                if let Some(x) = hd.dictionary_page_header.as_mut() {
                    x.num_values = big
                }
            }
            4 => {
                as_struct = false;
                for _ in 0..1 + upick(FAULT, 2) {
                    lie::tweak(&mut h, chance(FAULT, 2, 3));
                }
            }
            _ => {
                as_struct = false;
                damage(&mut h, 0, 1 + upick(FAULT, 2));
            }
        }
        if as_struct {
            count_fault("size_lie");
            h = thrift!(hd);
        }
        data.splice(p.at..p.body_at, h);
    }
    set_file(fid, data.clone());
    // a limit: anything, or at the edge of a page
    let k = upick(PLAN, sizes.len());
    let m = match pick(PLAN, 6) {
        0 => sizes[k].1,
        1 => sizes[k].1.saturating_sub(1),
        2 => sizes[k].1 + 1,
        3 => upick(PLAN, 400),
        4 => upick(PLAN, 5000),
        _ => upick(PLAN, 60_000),
    };
    note(format!("limit {}; pages {:?}; lies from page {}", m, sizes, honest));
    let bound = 8 * m + SLACK + data.len();
    let md = &raw_view(case.col(i, j));
    let rg = {
        let rg = &case.md.row_groups[i];
        parquet2::metadata::RowGroupMetaData::new(rg.columns().iter().map(raw_view).collect(), rg.num_rows(), rg.total_byte_size())
    };
    let how = pick(SCHED, 5);
    cover(format!("reader={}", ["iterator", "column", "stream", "stream from start", "bytes"][how as usize]));
    set_io(draw_io(how == 2 || how == 3));
    set_step_limit(2_000_000);
    let mut got: Vec<Result<usize, String>> = vec![];
    let push = |got: &mut Vec<Result<usize, String>>, p: Option<Result<CompressedPage, Error>>| -> bool {
        match p {
            None => false,
            Some(Ok(p)) => {
                got.push(Ok(stored_size(p)));
                got.len() < sizes.len() + 50
            }
            Some(Err(e)) => {
                got.push(Err(format!("{:?}", e)));
                false
            }
        }
    };
    match how {
        0 | 4 => {
            let mut it: Box<dyn Iterator<Item = Result<CompressedPage, Error>>> = if how == 0 {
                match get_page_iterator(md, open(fid), None, vec![], m) {
                    Ok(x) => Box::new(x),
                    Err(e) => return Err(format!("read-error: {:?}", e)),
                }
            } else {
                let v = data[at[0].0..].to_vec();
                Box::new(PageReader::new(std::io::Cursor::new(v), md, std::sync::Arc::new(|_, _| true), vec![], m))
            };
            while push(&mut got, within("the page reader", bound, || it.next())?) {}
        }
        1 => {
            let mut it = get_column_iterator(open(fid), &rg, &md.descriptor().path_in_schema[0], None, vec![], m);
            loop {
                match within("the column iterator", bound, || it.advance())? {
                    Err(e) => return Err(format!("read-error: {:?}", e)),
                    Ok(State::Finished(_)) => break,
                    Ok(State::Some(mut s)) => {
                        let Some((reader, c)) = s.get() else { break };
                        let this = c.byte_range() == md.byte_range();
                        let mut other = vec![];
                        let g = if this { &mut got } else { &mut other };
                        while push(g, within("the column iterator", bound, || reader.next())?) {}
                        if let Some(x) = g.iter().flatten().find(|x| **x > m) {
                            return Err(format!("over-limit: a page of {} stored bytes is returned under a limit of {}", x, m));
                        }
                        it = s;
                    }
                }
            }
        }
        _ => {
            let mut dev = aopen(fid);
            dev.0.pos = at[0].0 as u64;
            use futures::StreamExt;
            type S<'a> = std::pin::Pin<Box<dyn futures::Stream<Item = Result<CompressedPage, Error>> + 'a>>;
            let keep: PageFilter = std::sync::Arc::new(|_, _| true);
            let s: Result<S, Error> = if how == 2 {
                block_on(get_page_stream(md, &mut dev, vec![], keep, m))?.map(|s| Box::pin(s) as S)
            } else {
                block_on(get_page_stream_from_column_start(md, &mut dev, vec![], keep, m))?.map(|s| Box::pin(s) as S)
            };
            let mut s = s.map_err(|e| format!("read-error: {:?}", e))?;
            while push(&mut got, within("the page stream", bound, || block_on(s.next()))??) {}
        }
    }
    set_step_limit(u64::MAX / 2);
    for x in got.iter().flatten() {
        ensure!(*x <= m, "over-limit: a page of {} stored bytes is returned under a limit of {}", x, m);
    }
    // honest pages within the limit come as they are
    let mut left = case.md.row_groups[i].columns()[j].num_values();
    for (k, (h, s)) in sizes.iter().enumerate().take(honest) {
        if left <= 0 {
            break;
        }
        let enough = m >= *s && m >= 3 * h + 64;
        match got.get(k) {
            Some(Ok(x)) => {
                ensure!(x == s, "page-differs: page {} of {} stored bytes is returned with {}", k, s, x);
                cover("page=returned");
            }
            o => {
                ensure!(!enough, "refused: page {} of {} stored bytes (header {}) is not returned under a limit of {}: {:?}", k, s, h, m, o);
                cover("page=refused");
                break;
            }
        }
        left -= case.chunk(i, j).pages[k].n() as i64;
    }
    Ok(())
}

/// Elements of lists in memory are larger than the bytes that announce them.
fn widest() -> usize {
    use std::mem::size_of as s;
    [s::<tf::RowGroup>(), s::<tf::ColumnChunk>(), s::<tf::SchemaElement>(), s::<tf::KeyValue>(), s::<tf::PageLocation>(), s::<tf::SortingColumn>(), s::<Vec<u8>>()].into_iter().max().unwrap()
}
fn p09_meta() -> R {
    let mut f = FBASE;
    f.table.huge = false;
    f.table.big = false;
    let case = draw_file(&f)?;
    let fid = case.fid;
    let mut data = file_copy(fid);
    let honest = alloc::measure(|| meta_sync(fid)).1.peak;
    let per = 2 * (widest() / 8 + 2);
    let bound_of = |len: usize| 4 * honest + (10 * len + 1024) * per + SLACK;
    if chance(FAULT, 1, 5) {
        // the length of the footer lies
        count_fault("length_lie");
        let n = data.len();
        let v = one_of(FAULT, &[u32::MAX, i32::MAX as u32, 1 << 31, n as u32, n as u32 - 8, n as u32 - 7, 1 << 24, 0]);
        data[n - 8..n - 4].copy_from_slice(&v.to_le_bytes());
    } else {
        edit_footer(&mut data, true, 1 + upick(FAULT, 2));
    }
    set_file(fid, data.clone());
    set_io(draw_io(false));
    set_step_limit(2_000_000);
    let bound = bound_of(data.len());
    note(format!("file of {} bytes, honest use {}, bound {}", data.len(), honest, bound));
    let what = pick(SCHED, 4);
    cover(format!("metadata={}", ["sync", "async", "with size", "deserialize"][what as usize]));
    match what {
        0 => {
            let _ = within("read_metadata", bound, || meta_sync(fid))?;
        }
        1 => {
            let _ = within("read_metadata_async", bound, || meta_async(fid))??;
        }
        2 => {
            // the size the caller gives is a bound as well
            let n = data.len() as u64 - upick(FAULT, 3) as u64;
            let _ = within("read_metadata_with_size", bound, || read_metadata_with_size(&mut open(fid), n))?;
        }
        _ => {
            let Ok(p) = oracle::parse_footer(&file_data(fid)).map(|p| p.at).or_else(|_| {
                let n = data.len();
                let l = u32::from_le_bytes(data[n - 8..n - 4].try_into().unwrap()) as usize;
                n.checked_sub(8 + l).ok_or(())
            }) else {
                return Ok(());
            };
            let max = one_of(PLAN, &[0usize, 10, 100, 1000, 20_000]);
            let bound = 4 * honest + max * per + SLACK;
            let _ = within("deserialize_metadata", bound, || deserialize_metadata(&data[p..], max))?;
        }
    }
    Ok(())
}
fn p09_index() -> R {
    let mut f = FBASE;
    f.table.huge = false;
    f.table.big = false;
    let case = draw_file(&f)?;
    let fid = case.fid;
    let mut data = file_copy(fid);
    let all = case.chunks();
    if all.is_empty() {
        return Ok(());
    }
    let kind = 1 + pick(FAULT, 2);
    let v = structs(&data, kind);
    if v.is_empty() {
        return Ok(());
    }
    let (a, b) = one_of(FAULT, &v);
    edit_struct(&mut data, a, b, true, 1 + upick(FAULT, 2));
    set_file(fid, data.clone());
    let Ok(md) = meta_sync(fid) else { return Ok(()) };
    let per = 2 * (widest() / 8 + 2);
    for rg in &md.row_groups {
        let bound = (10 * data.len() + 1024 * (1 + rg.columns().len())) * per + SLACK;
        let _ = within("read_columns_indexes", bound, || read_columns_indexes(&mut open(fid), rg.columns()))?;
        let _ = within("read_pages_locations", bound, || read_pages_locations(&mut open(fid), rg.columns()))?;
    }
    cover("indexes=read");
    Ok(())
}
fn p09_indexed() -> R {
    let mut f = FBASE;
    f.table.huge = false;
    f.table.leaves = 2;
    let case = draw_file(&f)?;
    let fid = case.fid;
    let all: Vec<(usize, usize)> = case.chunks().into_iter().filter(|(i, j)| !case.chunk(*i, *j).pages.is_empty()).collect();
    if all.is_empty() {
        return Ok(());
    }
    let (i, j) = one_of(PLAN, &all);
    let locs = case_locations(&case, i, j);
    let rows = case.t.groups[i].rows;
    let sel = select_pages(&draw_intervals(rows), &locs, rows).map_err(|e| format!("select-pages: {:?}", e))?;
    let mut data = file_copy(fid);
    // a page header that lies, in the bytes the index gives the page
    let (a, b) = one_of(FAULT, &case.page_at[i][j]);
    if let Some(h) = struct_end(&data, a) {
        let mut s = data[a..h.min(b)].to_vec();
        for _ in 0..1 + upick(FAULT, 2) {
            lie::tweak(&mut s, chance(FAULT, 1, 2));
        }
        s.extend(data[h.min(b)..b].to_vec());
        s.resize(b - a, 0);
        data[a..b].copy_from_slice(&s);
    }
    set_file(fid, data);
    set_io(draw_io(false));
    let longest = sel.iter().map(|x| x.length).chain([locs.first().map_or(0, |x| x.offset as usize - case.col(i, j).byte_range().0 as usize)]).max().unwrap_or(0);
    let bound = 8 * longest + 4 * (1 << 20) + SLACK;
    let mut it = IndexedPageReader::new(open(fid), &raw_view(case.col(i, j)), sel, vec![], vec![]);
    for _ in 0..200 {
        match within("the indexed page reader", bound, || it.next())? {
            None => break,
            Some(Ok(p)) => {
                let n = stored_size(p);
                ensure!(n <= longest, "over-limit: a page of {} stored bytes is returned from {} bytes", n, longest);
                cover("indexed=page");
            }
            Some(Err(_)) => cover("indexed=error"),
        }
    }
    Ok(())
}

pub fn p09() -> R {
    alloc::set_limit(256 << 20);
    let r = match pick(PLAN, 10) {
        0..=4 => p09_pages(),
        5..=7 => p09_meta(),
        8 => p09_index(),
        _ => p09_indexed(),
    };
    alloc::set_limit(usize::MAX);
    r
}

#[allow(dead_code)]
fn unused(_: Ctx, _: Entry) {}
