//! Edits of Thrift compact structures: bytes that still parse, but say something else.
use crate::choices::*;
use crate::world::*;

pub enum Kind {
    Byte,
    Int(i64),
    /// the nibble of the field header holds the value
    Bool,
    /// span of the content
    Bytes(usize, usize),
    /// element type, spans of the elements
    List(u8, Vec<(usize, usize)>),
    /// header and whole span; the header of the field that follows it, with its id
    Field { head: usize, end: usize, next: Option<(usize, usize, u8, i64)> },
}
/// A token of the encoding: where it starts and ends (for strings and lists: their count only).
pub struct Spot {
    pub at: usize,
    pub end: usize,
    pub kind: Kind,
}
fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut x = 0u64;
    for k in 0..10 {
        let c = *b.get(*at)?;
        *at += 1;
        x |= ((c & 0x7f) as u64).wrapping_shl(7 * k);
        if c < 0x80 {
            return Some(x);
        }
    }
    None
}
fn unzig(x: u64) -> i64 {
    (x >> 1) as i64 ^ -((x & 1) as i64)
}
pub fn zig(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}
pub fn put(x: u64, out: &mut Vec<u8>) {
    crate::model::varint(x, out)
}
fn value(b: &[u8], at: &mut usize, t: u8, depth: usize, out: &mut Vec<Spot>) -> Option<()> {
    let s = *at;
    match t {
        3 => {
            *at += 1;
            out.push(Spot { at: s, end: *at, kind: Kind::Byte });
        }
        4..=6 => {
            let x = varint(b, at)?;
            out.push(Spot { at: s, end: *at, kind: Kind::Int(unzig(x)) });
        }
        7 => *at += 8,
        8 => {
            let n = varint(b, at)? as usize;
            let e = at.checked_add(n).filter(|x| *x <= b.len())?;
            out.push(Spot { at: s, end: *at, kind: Kind::Bytes(*at, e) });
            *at = e;
        }
        9 | 10 => {
            let h = *b.get(*at)?;
            *at += 1;
            let n = if h >> 4 == 15 { varint(b, at)? as usize } else { (h >> 4) as usize };
            if n > b.len() {
                return None;
            }
            let k = out.len();
            out.push(Spot { at: s, end: *at, kind: Kind::Byte });
            let mut spans = vec![];
            for _ in 0..n {
                let s = *at;
                match h & 15 {
                    1 | 2 => *at += 1,
                    t => value(b, at, t, depth, out)?,
                }
                spans.push((s, *at));
            }
            out[k].kind = Kind::List(h & 15, spans);
        }
        12 => *at = fields(b, *at, depth + 1, out)?,
        _ => return None,
    }
    if *at > b.len() {
        return None;
    }
    Some(())
}
/// Walks a struct; returns where it ends.
pub fn fields(b: &[u8], mut at: usize, depth: usize, out: &mut Vec<Spot>) -> Option<usize> {
    if depth > 40 {
        return None;
    }
    let mut id = 0i64;
    let mut last: Option<usize> = None;
    loop {
        let s = at;
        let h = *b.get(at)?;
        at += 1;
        if h & 15 == 0 {
            return Some(at);
        }
        id = if h >> 4 == 0 { unzig(varint(b, &mut at)?) } else { id + (h >> 4) as i64 };
        if let Some(l) = last {
            if let Kind::Field { next, .. } = &mut out[l].kind {
                *next = Some((s, at, h & 15, id));
            }
        }
        last = Some(out.len());
        out.push(Spot { at: s, end: at, kind: Kind::Field { head: at, end: at, next: None } });
        match h & 15 {
            1 | 2 => out.push(Spot { at: s, end: at, kind: Kind::Bool }),
            t => value(b, &mut at, t, depth, out)?,
        }
        let l = last.unwrap();
        if let Kind::Field { end, .. } = &mut out[l].kind {
            *end = at;
        }
    }
}
fn draw_int(v: i64) -> i64 {
    match pick(FAULT, 18) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i32::MAX as i64,
        4 => i32::MIN as i64,
        5 => i64::MAX,
        6 => i64::MIN,
        7 => v.wrapping_add(1),
        8 => v.wrapping_sub(1),
        9 => v.wrapping_neg(),
        10 => v.wrapping_mul(2),
        11 => i16::MAX as i64 + pick(FAULT, 3) as i64 - 1,
        12 => 1 << (20 + pick(FAULT, 11)),
        13 => -(pick(FAULT, 100) as i64),
        14 => v ^ (1i64 << pick(FAULT, 40)),
        15 => v / 2,
        _ => pick(FAULT, 40) as i64,
    }
}
fn draw_count(n: usize) -> u64 {
    match pick(FAULT, 10) {
        0 => 0xffff_ffff,
        1 => 0x7fff_ffff,
        2 => 0x8000_0000,
        3 => n as u64 + 1,
        4 => (n as u64).saturating_sub(1),
        5 => 0,
        6 => 1 << (20 + pick(FAULT, 11)),
        7 => n as u64 + pick(FAULT, 2000),
        8 => 15,
        _ => pick(FAULT, 40),
    }
}
/// One edit of the struct that starts at the start of `b`. Only counts and lengths with `lies`.
pub fn tweak(b: &mut Vec<u8>, lies: bool) -> bool {
    let mut spots = vec![];
    if fields(b, 0, 0, &mut spots).is_none() || spots.is_empty() {
        return false;
    }
    if lies {
        spots.retain(|s| matches!(s.kind, Kind::Bytes(..) | Kind::List(..)));
        if spots.is_empty() {
            return false;
        }
    }
    let k = upick(FAULT, spots.len());
    let s = &spots[k];
    let (at, end) = (s.at, s.end);
    let mut new = vec![];
    let (from, to) = match &s.kind {
        Kind::Byte => {
            count_fault("field_value");
            new.push(one_of(FAULT, &[0u8, 1, 0x7f, 0x80, 0xff]));
            (at, end)
        }
        Kind::Int(v) => {
            count_fault("field_value");
            put(zig(draw_int(*v)), &mut new);
            (at, end)
        }
        Kind::Bool => {
            count_fault("field_value");
            new.extend(&b[at..end]);
            new[0] ^= 3;
            (at, end)
        }
        Kind::Bytes(x, y) => {
            if lies || chance(FAULT, 1, 2) {
                count_fault("length_lie");
                put(draw_count(y - x), &mut new);
                (at, end)
            } else {
                count_fault("string_edited");
                let mut c = b[*x..*y].to_vec();
                match pick(FAULT, 5) {
                    0 => c.clear(),
                    1 => {
                        let n = upick(FAULT, c.len() + 1);
                        c.truncate(n);
                    }
                    2 => c.push(raw(FAULT) as u8),
                    3 => c.extend((0..upick(FAULT, 300)).map(|i| i as u8)),
                    _ => c.iter_mut().for_each(|x| *x = x.wrapping_mul(7)),
                }
                put(c.len() as u64, &mut new);
                new.extend(c);
                (at, *y)
            }
        }
        Kind::List(t, spans) => {
            if lies || chance(FAULT, 1, 2) {
                count_fault("count_lie");
                new.push(0xf0 | t);
                put(draw_count(spans.len()), &mut new);
                (at, end)
            } else {
                count_fault("list_edited");
                let mut v = spans.clone();
                let i = upick(FAULT, v.len().max(1));
                match pick(FAULT, 5) {
                    0 => v.clear(),
                    1 if !v.is_empty() => {
                        v.remove(i);
                    }
                    2 if !v.is_empty() => {
                        for _ in 0..1 + upick(FAULT, 20) {
                            v.insert(i, v[i]);
                        }
                    }
                    3 if !v.is_empty() => {
                        let j = upick(FAULT, v.len());
                        v.swap(i, j);
                    }
                    _ => {
                        v.pop();
                    }
                }
                new.push(0xf0 | t);
                put(v.len() as u64, &mut new);
                for (x, y) in v {
                    new.extend(&b[x..y]);
                }
                (at, spans.last().map_or(end, |x| x.1))
            }
        }
        Kind::Field { head, end, next } => match pick(FAULT, 3) {
            0 => {
                // another field id
                count_fault("field_renamed");
                new.extend(&b[at..*head]);
                new[0] = (new[0] & 15) | ((1 + pick(FAULT, 10) as u8) << 4);
                new.truncate(1);
                (at, *head)
            }
            _ => {
                count_fault("field_lost");
                match next {
                    None => (at, *end),
                    Some((_, h, t, id)) => {
                        new.push(*t);
                        put(zig(*id), &mut new);
                        (at, *h)
                    }
                }
            }
        },
    };
    ev(10, from as u64, 20 + k as u64, new.len() as u64);
    b.splice(from..to, new);
    true
}

/// Replaces bytes of a file and moves what its footer points to.
pub fn splice(data: &mut Vec<u8>, a: usize, b: usize, new: &[u8]) {
    let delta = new.len() as i64 - (b - a) as i64;
    let meta = crate::oracle::parse_footer(data).ok();
    data.splice(a..b, new.iter().copied());
    let Some(p) = meta else { return };
    if delta == 0 || a >= p.at {
        return;
    }
    let mut m = p.meta;
    let mv = |o: &mut i64| {
        if *o > a as i64 {
            *o = o.wrapping_add(delta)
        }
    };
    for c in m.row_groups.iter_mut().flat_map(|g| g.columns.iter_mut()) {
        let within = |o: i64, l: i64| (o..o.saturating_add(l)).contains(&(a as i64));
        for (o, l) in [(&mut c.column_index_offset, &mut c.column_index_length), (&mut c.offset_index_offset, &mut c.offset_index_length)] {
            if let (Some(o), Some(l)) = (o.as_mut(), l.as_mut()) {
                if within(*o, *l as i64) {
                    *l = (*l as i64).wrapping_add(delta) as i32;
                }
                mv(o);
            }
        }
        if let Some(x) = c.meta_data.as_mut() {
            let s = x.dictionary_page_offset.unwrap_or(x.data_page_offset);
            if within(s, x.total_compressed_size) {
                x.total_compressed_size = x.total_compressed_size.wrapping_add(delta);
            }
            mv(&mut x.data_page_offset);
            x.dictionary_page_offset.as_mut().map(mv);
            x.bloom_filter_offset.as_mut().map(mv);
        }
    }
    let at = (p.at as i64 + delta) as usize;
    data.truncate(at);
    footer(data, &crate::foreign::thrift!(m));
}
/// Ends a file with these metadata bytes.
pub fn footer(data: &mut Vec<u8>, bytes: &[u8]) {
    data.extend(bytes);
    data.extend((bytes.len() as u32).to_le_bytes());
    data.extend(b"PAR1");
}
