//! Decoding pages with the library's decoders, along several of its paths.
use crate::model::*;
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, HybridRleDecoder};
use parquet2::encoding::{delta_bitpacked, delta_byte_array, delta_length_byte_array, hybrid_rle, plain_byte_array::BinaryIter, Encoding};
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::page::{split_buffer, DataPage, DictPage};
use parquet2::read::levels::get_bit_width;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;
use parquet2::types::NativeType;
use std::collections::VecDeque;

/// No decoder is asked for more items than this.
pub const CAP: usize = 300_000;

fn bad(m: impl Into<String>) -> Error {
    Error::OutOfSpec(m.into())
}

/// A native value as a model value.
pub trait Nat: NativeType {
    fn val(self) -> Val;
}
impl Nat for i32 {
    fn val(self) -> Val {
        Val::I32(self)
    }
}
impl Nat for i64 {
    fn val(self) -> Val {
        Val::I64(self)
    }
}
impl Nat for f32 {
    fn val(self) -> Val {
        Val::F32(self.to_bits())
    }
}
impl Nat for f64 {
    fn val(self) -> Val {
        Val::F64(self.to_bits())
    }
}
impl Nat for [u32; 3] {
    fn val(self) -> Val {
        Val::I96(self)
    }
}

/// checks the remaining count an iterator declares while draining it
pub fn drain_exact<T, I: Iterator<Item = T>>(what: &str, mut it: I, n: Option<usize>) -> Result<Vec<T>, String> {
    let (lo, hi) = it.size_hint();
    if let Some(n) = n {
        if lo != n || hi != Some(n) {
            return Err(format!("remaining-count: {} declares ({}, {:?}) remaining items, not {}", what, lo, hi, n));
        }
    }
    let mut out = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        match it.next() {
            None => {
                if lo != 0 && n.is_some() {
                    return Err(format!("remaining-count: {} declares {} remaining items at its end", what, lo));
                }
                return Ok(out);
            }
            Some(x) => {
                if hi == Some(0) && n.is_some() {
                    return Err(format!("remaining-count: {} declares no remaining items but yields one more", what));
                }
                out.push(x);
                if let Some(n) = n {
                    if out.len() <= n && it.size_hint() != (n - out.len(), Some(n - out.len())) {
                        return Err(format!("remaining-count: {} declares {:?} remaining items after {} of {}", what, it.size_hint(), out.len(), n));
                    }
                    if out.len() > n {
                        return Err(format!("too-many-items: {} yields more than {} items", what, n));
                    }
                }
                if out.len() >= CAP {
                    return Ok(out);
                }
            }
        }
    }
}

pub fn plain_vals(values: &[u8], t: &PhysicalType, n: usize) -> Result<Vec<Val>, Error> {
    fn nat<T: Nat>(v: &[u8], n: usize) -> Vec<Val> {
        v.chunks_exact(std::mem::size_of::<T>()).map(parquet2::types::decode::<T>).take(n.min(CAP)).map(|x| x.val()).collect()
    }
    Ok(match t {
        PhysicalType::Boolean => BitmapIter::new(values, 0, n.min(values.len() * 8).min(CAP)).map(Val::B).collect(),
        PhysicalType::Int32 => nat::<i32>(values, n),
        PhysicalType::Int64 => nat::<i64>(values, n),
        PhysicalType::Int96 => nat::<[u32; 3]>(values, n),
        PhysicalType::Float => nat::<f32>(values, n),
        PhysicalType::Double => nat::<f64>(values, n),
        PhysicalType::ByteArray => BinaryIter::new(values, Some(n)).take(n.min(CAP)).map(|x| x.map(|b| Val::Bin(b.to_vec()))).collect::<Result<_, _>>()?,
        PhysicalType::FixedLenByteArray(s) => FixexBinaryIter::new(values, *s).take(n.min(CAP)).map(|b| Val::Bin(b.to_vec())).collect(),
    })
}
pub fn dict_vals(p: &DictPage, t: &PhysicalType) -> Result<Vec<Val>, Error> {
    plain_vals(&p.buffer, t, p.num_values)
}
pub fn delta_lengths(values: &[u8]) -> Result<Vec<Val>, Error> {
    let mut d = delta_length_byte_array::Decoder::try_new(values)?;
    let mut lens = vec![];
    for x in d.by_ref().take(CAP) {
        lens.push(x?);
    }
    if lens.len() == CAP {
        return Err(bad("harness: too many"));
    }
    if d.values() != {
        let mut e = delta_length_byte_array::Decoder::try_new(values)?;
        for x in e.by_ref() {
            x?;
        }
        e.into_values()
    } {
        return Err(bad("harness: into_values and values differ"));
    }
    let v = d.values();
    let mut at = 0;
    let mut out = vec![];
    for l in lens {
        let l = usize::try_from(l)?;
        out.push(Val::Bin(v.get(at..at + l).ok_or_else(|| bad("length"))?.to_vec()));
        at += l;
    }
    Ok(out)
}
pub fn delta_strings(values: &[u8]) -> Result<Vec<Val>, Error> {
    let mut d = delta_byte_array::Decoder::try_new(values)?;
    let mut pre = vec![];
    for x in d.by_ref().take(CAP) {
        pre.push(x? as usize);
    }
    if pre.len() == CAP {
        return Err(bad("harness: too many"));
    }
    let mut l = d.into_lengths()?;
    let mut lens = vec![];
    for x in l.by_ref().take(CAP) {
        lens.push(usize::try_from(x?)?);
    }
    let v = l.into_values();
    let mut at = 0;
    let mut out: Vec<Val> = vec![];
    let mut prev: Vec<u8> = vec![];
    let mut total = 0;
    for (p, s) in pre.into_iter().zip(lens) {
        let mut x = prev.get(..p).ok_or_else(|| bad("prefix"))?.to_vec();
        x.extend(v.get(at..at + s).ok_or_else(|| bad("suffix"))?);
        at += s;
        total += x.len();
        if total > 64 * CAP {
            return Err(bad("harness: too many"));
        }
        prev = x.clone();
        out.push(Val::Bin(x));
    }
    Ok(out)
}

pub struct Content {
    pub reps: Vec<u32>,
    pub defs: Vec<u32>,
    pub vals: Vec<Val>,
}
/// Decodes any page through `split_buffer` and the encodings.
pub fn content(page: &DataPage, dict: Option<&[Val]>) -> Result<Content, Error> {
    let d = &page.descriptor;
    let n = page.num_values();
    let (r, l, values) = split_buffer(page)?;
    let level = |b: &[u8], max: i16| -> Result<Vec<u32>, Error> {
        if max == 0 {
            return Ok(vec![]);
        }
        HybridRleDecoder::try_new(b, get_bit_width(max), n)?.take(CAP).collect()
    };
    let reps = level(r, d.max_rep_level)?;
    let defs = level(l, d.max_def_level)?;
    let nv = if d.max_def_level == 0 { n } else { defs.iter().filter(|x| **x == d.max_def_level as u32).count() };
    let t = &d.primitive_type.physical_type;
    let vals = match page.encoding() {
        Encoding::Plain => plain_vals(values, t, nv)?,
        Encoding::PlainDictionary | Encoding::RleDictionary => {
            let dict = dict.ok_or_else(|| bad("no dictionary"))?;
            if values.is_empty() && nv == 0 {
                vec![]
            } else {
                let w = *values.first().ok_or_else(|| bad("no bit width"))?;
                if w > 32 {
                    return Err(bad("bit width"));
                }
                let mut out = vec![];
                for i in HybridRleDecoder::try_new(&values[1..], w as u32, nv)?.take(CAP) {
                    out.push(dict.get(i? as usize).ok_or_else(|| bad("index"))?.clone());
                }
                out
            }
        }
        Encoding::DeltaBinaryPacked => {
            let mut out = vec![];
            for x in delta_bitpacked::Decoder::try_new(values)?.take(CAP) {
                out.push(if *t == PhysicalType::Int32 { Val::I32(x? as i32) } else { Val::I64(x?) });
            }
            out
        }
        Encoding::DeltaLengthByteArray => delta_lengths(values)?,
        Encoding::DeltaByteArray => delta_strings(values)?,
        Encoding::Rle if *t == PhysicalType::Boolean => {
            let b = values.get(4..).ok_or_else(|| bad("length"))?;
            HybridRleDecoder::try_new(b, 1, nv)?.take(CAP).map(|x| x.map(|x| Val::B(x != 0))).collect::<Result<_, _>>()?
        }
        e => return Err(bad(format!("harness: encoding {:?}", e))),
    };
    Ok(Content { reps, defs, vals })
}

type RV = Result<Val, Error>;
/// validity and the non-null values, with or without a selection
fn optional<'a>(v: DefLevelsDecoder<'a>, mut vals: Box<dyn Iterator<Item = RV> + 'a>, sel: Option<VecDeque<Interval>>, n: usize) -> Result<Vec<Option<Val>>, Error> {
    let err = |e: String| bad(format!("HARNESS {}", e));
    let mut out = vec![];
    match (v, sel) {
        (DefLevelsDecoder::Bitmap(it), None) => {
            let it = OptionalValues::new(HybridRleDecoderIter::new(it), vals);
            let it = drain_exact("OptionalValues", it, if n <= CAP { Some(n) } else { None }).map_err(err)?;
            for x in it {
                out.push(x?.transpose()?);
            }
        }
        (DefLevelsDecoder::Levels(it, max), None) => {
            let it = it.map(|x| x.map(|x| x == max));
            for x in OptionalValues::new(it, vals).take(CAP) {
                out.push(x?.transpose()?);
            }
        }
        (DefLevelsDecoder::Bitmap(it), Some(sel)) => {
            let want: usize = sel.iter().map(|x| x.length).sum();
            let mut it = FilteredHybridRleDecoderIter::new(it, sel);
            let mut steps = 0;
            loop {
                if it.len() != want - out.len() {
                    return Err(err(format!("remaining-count: the filtered iterator declares {} remaining rows, not {}", it.len(), want - out.len())));
                }
                steps += 1;
                let Some(x) = it.next() else { break };
                if steps > CAP {
                    break;
                }
                let x = x?;
                let declared = (x.len(), x.is_empty());
                let before = out.len();
                match x {
                    FilteredHybridEncoded::Bitmap { values, offset, length } => {
                        for b in BitmapIter::new(values, offset, length) {
                            out.push(if b { vals.next().transpose()? } else { None });
                        }
                    }
                    FilteredHybridEncoded::Repeated { is_set, length } => {
                        for _ in 0..length.min(CAP) {
                            out.push(if is_set { vals.next().transpose()? } else { None });
                        }
                    }
                    FilteredHybridEncoded::Skipped(k) => {
                        if k > 0 {
                            vals.nth(k - 1);
                        }
                    }
                }
                let got = out.len() - before;
                if declared != (got, got == 0) && out.len() < CAP {
                    return Err(err(format!("remaining-count: a filtered run declares {} rows and has {}", declared.0, got)));
                }
                if out.len() > want {
                    return Err(err(format!("too-many-items: the filtered iterator yields more than {} rows", want)));
                }
            }
        }
        (DefLevelsDecoder::Levels(it, max), Some(sel)) => {
            let mut all = vec![];
            for x in OptionalValues::new(it.map(|x| x.map(|x| x == max)), vals).take(CAP) {
                all.push(x?.transpose()?);
            }
            for x in SliceFilteredIter::new(all.into_iter(), sel) {
                out.push(x);
            }
        }
    }
    Ok(out)
}
fn required<'a>(vals: Box<dyn Iterator<Item = RV> + 'a>, sel: Option<VecDeque<Interval>>) -> Result<Vec<Option<Val>>, Error> {
    match sel {
        None => vals.take(CAP).map(|x| x.map(Some)).collect(),
        Some(sel) => {
            let want = sel.iter().map(|x| x.length).sum();
            let it = SliceFilteredIter::new(vals, sel);
            let v = drain_exact("SliceFilteredIter", it, if want <= CAP { Some(want) } else { None }).map_err(|e| bad(format!("HARNESS {}", e)))?;
            v.into_iter().map(|x| x.map(Some)).collect()
        }
    }
}
fn dict_len(d: usize, n: usize) -> Result<(), Error> {
    if d != n {
        return Err(bad(format!("HARNESS remaining-count: {} dictionary indices are declared for {} values", d, n)));
    }
    Ok(())
}
fn look<'a>(idx: HybridRleDecoder<'a>, dict: &'a [Val]) -> Box<dyn Iterator<Item = RV> + 'a> {
    Box::new(idx.map(move |i| dict.get(i? as usize).cloned().ok_or_else(|| bad("index"))))
}
macro_rules! state {
    ($kind:ident, $page:expr, $dict:expr, $sel:expr, $n:expr, $map:expr) => {{
        let st = $kind::try_new($page, $dict)?;
        match st {
            $kind::Optional(v, it) => optional(v, Box::new(it.map($map)), $sel, $n),
            $kind::Required(it) => required(Box::new(it.map($map)), $sel),
            $kind::RequiredDictionary(d) => {
                dict_len(d.len(), $n)?;
                required(look(d.indexes, d.dict), $sel)
            }
            $kind::OptionalDictionary(v, d) => optional(v, look(d.indexes, d.dict), $sel, $n),
        }
    }};
}
/// Decodes a page of a flat column (no repetition, no optional parents) through the page states.
pub fn flat(page: &DataPage, dict: Option<&[Val]>, sel: Option<VecDeque<Interval>>) -> Result<Vec<Option<Val>>, Error> {
    let n = page.num_values();
    fn nat<T: Nat>(page: &DataPage, dict: Option<&[Val]>, sel: Option<VecDeque<Interval>>, n: usize) -> Result<Vec<Option<Val>>, Error> {
        let st = NativePageState::<T, &[Val]>::try_new(page, dict)?;
        match st {
            NativePageState::Optional(v, it) => optional(v, Box::new(it.map(|x| Ok(x.val()))), sel, n),
            NativePageState::Required(it) => required(Box::new(it.map(|x| Ok(x.val()))), sel),
            NativePageState::RequiredDictionary(d) => {
                if d.is_empty() != (d.len() == 0) {
                    return Err(bad("HARNESS remaining-count: is_empty of a dictionary page"));
                }
                dict_len(d.len(), n)?;
                required(look(d.indexes, d.dict), sel)
            }
            NativePageState::OptionalDictionary(v, d) => optional(v, look(d.indexes, d.dict), sel, n),
        }
    }
    match page.descriptor.primitive_type.physical_type {
        PhysicalType::Int32 => nat::<i32>(page, dict, sel, n),
        PhysicalType::Int64 => nat::<i64>(page, dict, sel, n),
        PhysicalType::Int96 => nat::<[u32; 3]>(page, dict, sel, n),
        PhysicalType::Float => nat::<f32>(page, dict, sel, n),
        PhysicalType::Double => nat::<f64>(page, dict, sel, n),
        PhysicalType::Boolean => match BooleanPageState::try_new(page)? {
            BooleanPageState::Optional(v, it) => optional(v, Box::new(it.map(|b| Ok(Val::B(b)))), sel, n),
            BooleanPageState::Required(v, k) => required(Box::new(BitmapIter::new(v, 0, k.min(v.len() * 8)).map(|b| Ok(Val::B(b)))), sel),
        },
        PhysicalType::ByteArray => state!(BinaryPageState, page, dict, sel, n, |x: Result<&[u8], Error>| x.map(|b| Val::Bin(b.to_vec()))),
        PhysicalType::FixedLenByteArray(_) => state!(FixedLenBinaryPageState, page, dict, sel, n, |x: &[u8]| Ok(Val::Bin(x.to_vec()))),
    }
}
/// the flat path applies to this page
pub fn is_flat(page: &DataPage) -> bool {
    let d = &page.descriptor;
    let opt = d.primitive_type.field_info.repetition == Repetition::Optional;
    d.max_rep_level == 0 && d.max_def_level == opt as i16
}
/// Runs over the levels of the page as validity runs (only columns of one definition level).
pub fn runs(page: &DataPage) -> Result<Vec<bool>, Error> {
    let (_, l, _) = split_buffer(page)?;
    runs_of(l, page.num_values())
}
pub fn runs_of(l: &[u8], n: usize) -> Result<Vec<bool>, Error> {
    let it = HybridRleIter::new(hybrid_rle::Decoder::new(l, 1), n);
    let mut out = vec![];
    let mut it = it;
    for _ in 0..CAP {
        if n <= CAP && (it.len() != n - out.len() || it.number_of_elements() != n - out.len() || it.is_empty() != (n == out.len())) {
            return Err(bad(format!("HARNESS remaining-count: the runs declare {} remaining items, not {}", it.len(), n - out.len())));
        }
        let Some(r) = it.next() else { break };
        let r = r?;
        let declared = (r.len(), r.is_empty());
        let before = out.len();
        match r {
            HybridEncoded::Bitmap(b, n) => out.extend(BitmapIter::new(b, 0, n.min(CAP))),
            HybridEncoded::Repeated(b, n) => out.extend(std::iter::repeat(b).take(n.min(CAP))),
        }
        if out.len() > CAP {
            break;
        }
        let got = out.len() - before;
        if declared != (got, got == 0) {
            return Err(bad(format!("HARNESS remaining-count: a run declares {} items and has {}", declared.0, got)));
        }
    }
    Ok(out)
}

/// Asks an iterator past its errors, as a caller that skips them does: it has to end, after at most
/// one error per byte and value it was made for.
fn past_one<T, I: Iterator<Item = Result<T, Error>>>(what: &str, it: Result<I, Error>, bytes: usize) -> Result<(), String> {
    let Ok(it) = it else { return Ok(()) };
    let mut errs = 0;
    // an announced number of items is an end as well
    let bytes = bytes.saturating_add(it.size_hint().1.unwrap_or(0));
    for x in it.take(CAP) {
        errs += x.is_err() as usize;
        if errs > bytes.saturating_add(16) {
            return Err(format!("endless-errors: {} over {} bytes and values reported {} errors and goes on", what, bytes, errs));
        }
    }
    Ok(())
}
pub fn past(page: &DataPage) -> Result<(), String> {
    let Ok((r, l, v)) = split_buffer(page) else { return Ok(()) };
    let n = page.num_values();
    let d = &page.descriptor;
    for (b, max) in [(r, d.max_rep_level), (l, d.max_def_level)] {
        if max > 0 {
            let bits = get_bit_width(max);
            past_one("hybrid_rle::Decoder", Ok(hybrid_rle::Decoder::new(b, bits as usize)), b.len())?;
            past_one("HybridRleDecoder", HybridRleDecoder::try_new(b, bits, n), b.len())?;
        }
    }
    if d.max_def_level == 1 {
        let it = || HybridRleIter::new(hybrid_rle::Decoder::new(l, 1), n);
        past_one("HybridRleIter", Ok(it()), l.len())?;
        past_one("HybridRleBooleanIter", Ok(HybridRleDecoderIter::new(it())), l.len())?;
        let sel = VecDeque::from(vec![Interval::new(0, n.min(7)), Interval::new(n / 2 + 7, n / 3)]);
        past_one("FilteredHybridBitmapIter", Ok(FilteredHybridRleDecoderIter::new(it(), sel)), l.len())?;
    }
    if let Some(w) = v.first() {
        if (1..=32).contains(w) {
            past_one("hybrid_rle::Decoder", Ok(hybrid_rle::Decoder::new(&v[1..], *w as usize)), v.len())?;
            past_one("HybridRleDecoder", HybridRleDecoder::try_new(&v[1..], *w as u32, n), v.len())?;
        }
    }
    past_one("BinaryIter", Ok(BinaryIter::new(v, Some(n))), v.len())?;
    // the lengths do not tell how many they are, their packing does
    let announced = delta_bitpacked::Decoder::try_new(v).map(|x| x.size_hint().0).unwrap_or(0);
    match page.encoding() {
        Encoding::DeltaBinaryPacked => past_one("delta_bitpacked::Decoder", delta_bitpacked::Decoder::try_new(v), v.len()),
        Encoding::DeltaLengthByteArray => past_one("delta_length_byte_array::Decoder", delta_length_byte_array::Decoder::try_new(v), v.len().saturating_add(announced)),
        Encoding::DeltaByteArray => past_one("delta_byte_array::Decoder", delta_byte_array::Decoder::try_new(v), v.len().saturating_add(announced)),
        _ => Ok(()),
    }
}
