//! Scenarios of encoded values: P21.
use super::index::{decode_err, flat_rows};
use crate::choices::*;
use crate::decode::{self, drain_exact};
use parquet2::indexes::Interval;
use std::collections::VecDeque;
use crate::exec::block_on;
use crate::foreign::{make_file, FBASE};
use crate::model::*;
use crate::ops::*;
use crate::world::*;
use futures::StreamExt;
use parquet2::encoding::{bitpacked, delta_bitpacked, delta_byte_array, delta_length_byte_array, hybrid_rle, plain_byte_array::BinaryIter, uleb128, zigzag_leb128, Encoding};
use parquet2::deserialize::{DefLevelsDecoder, FixexBinaryIter, HybridRleDecoderIter};
use parquet2::page::{split_buffer, DataPage, DataPageHeader, Page};
use parquet2::read::{decompress, get_page_iterator, get_page_stream, levels::get_bit_width};
use parquet2::schema::types::PhysicalType;
use parquet2::types::NativeType;
use parquet_format_safe as tf;

// ---------------------------------------------------------------- independent encoders and decoders

fn zigzag(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}
/// Packs `v` with `w` bits each, least significant bit first.
fn pack(v: &[u64], w: usize, out: &mut Vec<u8>) {
    let mut acc: u128 = 0;
    let mut nb = 0;
    for x in v {
        acc |= (*x as u128) << nb;
        nb += w;
        while nb >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            nb -= 8;
        }
    }
    if nb > 0 {
        out.push(acc as u8)
    }
}
/// the i-th value of `w` bits; bits beyond the data are zero
fn unpack(b: &[u8], w: usize, i: usize) -> u64 {
    (0..w).filter(|k| b.get((i * w + k) / 8).map_or(false, |x| x >> ((i * w + k) % 8) & 1 == 1)).map(|k| 1u64 << k).sum()
}
fn read_varint(b: &[u8], at: &mut usize) -> R<u64> {
    let mut x = 0u64;
    let mut s = 0;
    loop {
        let y = *b.get(*at).ok_or("encoded-bytes: a varint is cut off")?;
        *at += 1;
        x |= ((y & 127) as u64) << s;
        if y < 128 {
            return Ok(x);
        }
        s += 7;
        ensure!(s < 64, "encoded-bytes: a varint is too long");
    }
}
fn ref_hybrid(b: &[u8], w: usize, n: usize) -> R<Vec<u32>> {
    let mut out = vec![];
    let mut at = 0;
    if w == 0 {
        return Ok(vec![0; n]);
    }
    while out.len() < n {
        let h = read_varint(b, &mut at)?;
        let k = (h >> 1) as usize;
        ensure!(k > 0, "encoded-bytes: an empty run");
        if h & 1 == 1 {
            let len = (k * w).min(b.len() - at);
            ensure!(len * 8 >= (k * 8).min(n - out.len()) * w, "encoded-bytes: a bit-packed run of {} values of {} bits has {} bytes", (k * 8).min(n - out.len()), w, len);
            for i in 0..(k * 8).min(n - out.len()) {
                out.push(unpack(&b[at..at + len], w, i) as u32);
            }
            at += len;
        } else {
            let nb = (w + 7) / 8;
            ensure!(at + nb <= b.len(), "encoded-bytes: a repeated value is cut off");
            out.extend(std::iter::repeat(unpack(&b[at..at + nb], nb * 8, 0) as u32).take(k.min(n - out.len())));
            at += nb;
        }
    }
    Ok(out)
}
/// Delta binary packing with other block and miniblock sizes than the library's own encoder.
fn ref_delta(v: &[i64], r: &mut Rng, narrow: bool, out: &mut Vec<u8>) {
    let block = [128usize, 128, 256, 512][r.next() as usize % 4];
    let mini = [1usize, 2, 4][r.next() as usize % 3];
    let per = block / mini;
    varint(block as u64, out);
    varint(mini as u64, out);
    varint(v.len() as u64, out);
    varint(zigzag(v.first().copied().unwrap_or(0)), out);
    if v.len() < 2 {
        return;
    }
    let d: Vec<i64> = v.windows(2).map(|x| if narrow { (x[1] as i32).wrapping_sub(x[0] as i32) as i64 } else { x[1].wrapping_sub(x[0]) }).collect();
    for b in d.chunks(block) {
        let min = *b.iter().min().unwrap();
        varint(zigzag(min), out);
        let rel: Vec<u64> = b.iter().map(|x| x.wrapping_sub(min) as u64).collect();
        let widths: Vec<usize> = rel.chunks(per).map(|m| 64 - m.iter().max().unwrap().leading_zeros() as usize).map(|w| if r.next() % 6 == 0 { (w + 1 + r.next() as usize % 3).min(64) } else { w }).collect();
        for k in 0..mini {
            // widths of miniblocks that are not needed are to be ignored
            out.push(match widths.get(k) {
                Some(w) => *w as u8,
                None => [0, 0, 7][r.next() as usize % 3],
            });
        }
        for (m, w) in rel.chunks(per).zip(&widths) {
            let mut m = m.to_vec();
            let fill = if r.next() % 3 == 0 && *w > 0 { 1 } else { 0 };
            m.resize(per, fill);
            pack(&m, *w, out);
        }
    }
}
fn ref_undelta(b: &[u8], at: &mut usize) -> R<Vec<i64>> {
    let unz = |x: u64| (x >> 1) as i64 ^ -((x & 1) as i64);
    let block = read_varint(b, at)? as usize;
    let mini = read_varint(b, at)? as usize;
    let n = read_varint(b, at)? as usize;
    ensure!(block > 0 && mini > 0 && block % 128 == 0 && block % mini == 0 && (block / mini) % 32 == 0, "encoded-bytes: delta blocks of {} values in {} miniblocks", block, mini);
    let per = block / mini;
    let mut x = unz(read_varint(b, at)?);
    if n == 0 {
        return Ok(vec![]);
    }
    let mut out = vec![x];
    while out.len() < n {
        let min = unz(read_varint(b, at)?);
        ensure!(*at + mini <= b.len(), "encoded-bytes: bit widths are cut off");
        let widths = b[*at..*at + mini].to_vec();
        *at += mini;
        for w in widths {
            if out.len() == n {
                break;
            }
            let w = w as usize;
            let len = per * w / 8;
            ensure!(w <= 64 && *at + len <= b.len(), "encoded-bytes: a miniblock is cut off");
            for i in 0..per.min(n - out.len()) {
                x = x.wrapping_add(min).wrapping_add(unpack(&b[*at..*at + len], w, i) as i64);
                out.push(x);
            }
            *at += len;
        }
    }
    Ok(out)
}
fn ref_lengths(b: &[u8], at: &mut usize) -> R<Vec<Vec<u8>>> {
    let l = ref_undelta(b, at)?;
    let mut out = vec![];
    for n in l {
        let v = usize::try_from(n).ok().and_then(|n| b.get(*at..*at + n)).ok_or("encoded-bytes: a length is out of range")?;
        out.push(v.to_vec());
        *at += v.len();
    }
    Ok(out)
}
fn prefixes(v: &[&[u8]], r: &mut Rng) -> Vec<usize> {
    let mut prev: &[u8] = b"";
    v.iter()
        .map(|x| {
            let p = x.iter().zip(prev).take_while(|(a, b)| a == b).count();
            prev = x;
            // a writer need not use the longest prefix
            if r.next() % 4 == 0 {
                r.next() as usize % (p + 1)
            } else {
                p
            }
        })
        .collect()
}

// ---------------------------------------------------------------- encoding pages

#[derive(Clone, Copy, PartialEq, Debug)]
enum Venc {
    Plain,
    Rle,
    Delta,
    Lengths,
    Strings,
    Dict,
}
fn bins(v: &[Val]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.bytes()).collect()
}
fn ints(v: &[Val]) -> Vec<i64> {
    v.iter()
        .map(|x| match x {
            Val::I32(x) => *x as i64,
            Val::I64(x) => *x,
            _ => 0,
        })
        .collect()
}
fn flags(v: &[Val]) -> Vec<bool> {
    v.iter().map(|x| *x == Val::B(true)).collect()
}
fn lib_plain(v: &[Val], out: &mut Vec<u8>) {
    for x in v {
        match x {
            Val::I32(x) => out.extend(NativeType::to_le_bytes(x)),
            Val::I64(x) => out.extend(NativeType::to_le_bytes(x)),
            Val::I96(x) => out.extend(NativeType::to_le_bytes(x)),
            Val::F32(x) => out.extend(NativeType::to_le_bytes(&f32::from_bits(*x))),
            Val::F64(x) => out.extend(NativeType::to_le_bytes(&f64::from_bits(*x))),
            _ => {}
        }
    }
}
/// a value sequence with some structure: constants, slopes, shared prefixes, extremes
fn draw_vals(n: usize, t: &PhysicalType, r: &mut Rng) -> Vec<Val> {
    let shape = pick(PLAN, 6);
    let style = pick(PLAN, 4);
    cover(&format!("values=shape{}", shape));
    let mut out: Vec<Val> = vec![];
    let step = one_of(PLAN, &[0i64, 1, -3, 1 << 20, i64::MAX / 3]);
    let mut at = r.next() as i64 >> one_of(PLAN, &[0u32, 40, 60]);
    // what byte arrays have in common
    let stem = if chance(PLAN, 1, 4) { one_of(PLAN, &[62usize, 64, 130, 260, 1000]) } else { 0 };
    let stem = if stem * n > 200_000 { 0 } else { stem };
    for i in 0..n {
        let v = match (shape, t) {
            (0, _) if i > 0 => out[0].clone(),
            (1, PhysicalType::Int32) => Val::I32(at as i32),
            (1, PhysicalType::Int64) => Val::I64(at),
            (1 | 2, PhysicalType::ByteArray) if i == 0 && stem > 0 => {
                cover("values=stem");
                Val::Bin((0..stem).map(|_| r.next() as u8).collect())
            }
            (1, PhysicalType::FixedLenByteArray(_)) if i > 0 && r.next() % 3 != 0 => {
                // differs from the previous one in a byte
                let mut b = out[i - 1].bytes();
                if !b.is_empty() {
                    let k = r.next() as usize % b.len();
                    b[k] = b[k].wrapping_add(1);
                }
                Val::Bin(b)
            }
            (1 | 2, PhysicalType::ByteArray) if i > 0 => {
                // grows, shrinks and changes at the end of the previous one, or the one before
                let mut b = out[if i > 1 && r.next() % 4 == 0 { i - 2 } else { i - 1 }].bytes();
                match r.next() % 5 {
                    0 if stem > 0 => {
                        // something in the middle
                        if !b.is_empty() {
                            let k = r.next() as usize % b.len();
                            b[k] = b[k].wrapping_add(1);
                        }
                    }
                    0 | 4 => b.truncate(r.next() as usize % (b.len() + 1)),
                    1 => b.push(r.next() as u8),
                    2 if b.len() < 60 + stem => b.extend([1, 2, 3]),
                    _ => {
                        if let Some(x) = b.last_mut() {
                            *x = x.wrapping_add(1)
                        }
                    }
                }
                Val::Bin(b)
            }
            (2, _) if i > 0 && i % 40 != 0 => out[i - 1].clone(),
            // one block unlike the others
            (3, _) if i / 128 == 1 => draw_val(t, 3, r),
            (3, _) => draw_val(t, 0, r),
            _ => draw_val(t, style, r),
        };
        out.push(v);
        at = at.wrapping_add(step);
    }
    out
}
/// What an encoder gives a sink that accepts fewer bytes than offered, or fails, is what it gives a buffer.
fn to_sink(what: &str, want: &[u8], encode: impl Fn(&mut Dev) -> std::io::Result<()>) -> R {
    if !chance(PLAN, 1, 6) {
        return Ok(());
    }
    let io = with(|w| w.io);
    set_io(IoCfg { short: one_of(PLAN, &[64, 160, 250]), ..IoCfg::default() });
    let fid = new_file(vec![]);
    encode(&mut open(fid)).map_err(|e| format!("encode-error: {} into a sink taking a few bytes at a time: {:?}", what, e))?;
    ensure!(file_data(fid)[..] == *want, "encoded-differs: {} stores {} of {} bytes, or others, in a sink taking a few bytes at a time", what, file_len(fid), want.len());
    cover("sink=partial");
    let kind = one_of(PLAN, &[FaultKind::Io, FaultKind::Full, FaultKind::Zero, FaultKind::Interrupted]);
    let fid = new_file(vec![]);
    let before = fired();
    arm(Fault { ops: 2, at: pick(PLAN, want.len() as u64 + 2), kind, sticky: kind != FaultKind::Interrupted });
    let got = encode(&mut open(fid));
    disarm();
    set_io(io);
    if fired() > before {
        cover(&format!("sink={:?}", kind));
        ensure!(got.is_err() || kind == FaultKind::Interrupted, "sink-error-lost: {} succeeds although its sink fails with {:?}", what, kind);
    }
    let data = file_data(fid);
    ensure!(if got.is_ok() { data[..] == *want } else { want.starts_with(&data) }, "encoded-differs: {} stores {:?} instead of {:?} in a sink failing with {:?}", what, data, want, kind);
    Ok(())
}
fn lib_levels(v: &[u32], max: i16, r: &mut Rng, out: &mut Vec<u8>) -> R {
    if max == 1 && chance(PLAN, 1, 2) {
        let before = out.len();
        hybrid_rle::encode_bool(out, v.iter().map(|x| *x == 1)).map_err(|e| format!("encode-error: {:?}", e))?;
        to_sink("encode_bool", &out[before..], |w| hybrid_rle::encode_bool(w, v.iter().map(|x| *x == 1)))?;
        cover("levels=encode_bool");
    } else if chance(PLAN, 2, 3) {
        let before = out.len();
        hybrid_rle::encode_u32(out, v.iter().copied(), get_bit_width(max)).map_err(|e| format!("encode-error: {:?}", e))?;
        to_sink("encode_u32", &out[before..], |w| hybrid_rle::encode_u32(w, v.iter().copied(), get_bit_width(max)))?;
        cover("levels=encode_u32");
    } else {
        hybrid(v, bits_for(max as u32), r, out);
        cover("levels=foreign");
        return Ok(());
    }
    let w = bits_for(max as u32) as usize;
    ensure!(get_bit_width(max) as usize == w, "level-width: levels up to {} take {} bits, not {}", max, w, get_bit_width(max));
    let got = ref_hybrid(out, w, v.len())?;
    ensure!(got == v, "encoded-differs: encoded levels {:?} are read as {:?}", v, got);
    Ok(())
}
fn values(e: Venc, v: &[Val], t: &PhysicalType, dict: Option<&[Val]>, idx: &[u32], lib: bool, r: &mut Rng) -> R<Vec<u8>> {
    let mut out = vec![];
    let err = |e: std::io::Error| format!("encode-error: {:?}", e);
    match e {
        Venc::Plain => match t {
            PhysicalType::Boolean if lib => {
                hybrid_rle::bitpacked_encode(&mut out, flags(v).into_iter()).map_err(err)?;
                let mut want = vec![];
                plain(v, &mut want, t);
                ensure!(out == want, "encoded-differs: booleans {:?} are packed as {:?}", v, out);
                to_sink("bitpacked_encode", &out, |w| hybrid_rle::bitpacked_encode(w, flags(v).into_iter()))?;
            }
            PhysicalType::Boolean | PhysicalType::ByteArray | PhysicalType::FixedLenByteArray(_) => plain(v, &mut out, t),
            _ if lib => {
                lib_plain(v, &mut out);
                let mut want = vec![];
                plain(v, &mut want, t);
                ensure!(out == want, "encoded-differs: values {:?} are stored as {:?}", v, out);
            }
            _ => plain(v, &mut out, t),
        },
        Venc::Rle => {
            let mut b = vec![];
            let f = flags(v);
            let w: Vec<u32> = f.iter().map(|x| *x as u32).collect();
            if lib {
                hybrid_rle::encode_bool(&mut b, f.iter().copied()).map_err(err)?;
                to_sink("encode_bool", &b, |s| hybrid_rle::encode_bool(s, f.iter().copied()))?;
                let got = ref_hybrid(&b, 1, v.len())?;
                ensure!(got == w, "encoded-differs: booleans {:?} are read as {:?}", v, got);
            } else {
                hybrid(&w, 1, r, &mut b);
            }
            out.extend((b.len() as u32).to_le_bytes());
            out.extend(b);
        }
        Venc::Delta => {
            let x = ints(v);
            if lib {
                delta_bitpacked::encode(x.iter().copied(), &mut out);
                let mut at = 0;
                let got = ref_undelta(&out, &mut at)?;
                ensure!(got == x && at == out.len(), "encoded-differs: integers {:?} are read as {:?}", x, got);
            } else {
                ref_delta(&x, r, *t == PhysicalType::Int32, &mut out);
            }
        }
        Venc::Lengths => {
            let b = bins(v);
            if lib {
                if chance(PLAN, 1, 2) {
                    delta_length_byte_array::encode(b.iter(), &mut out);
                } else {
                    // an encoder appends to what is there
                    let before = dirty();
                    out = before.clone();
                    delta_length_byte_array::encode(b.iter(), &mut out);
                    ensure!(out.starts_with(&before), "encoder-overwrites: an encoder changes what was in its buffer");
                    out.drain(..before.len());
                }
                let mut at = 0;
                let got = ref_lengths(&out, &mut at)?;
                ensure!(got == b && at == out.len(), "encoded-differs: strings {:?} are read as {:?}", b, got);
            } else {
                let l: Vec<i64> = b.iter().map(|x| x.len() as i64).collect();
                ref_delta(&l, r, false, &mut out);
                out.extend(b.concat());
            }
        }
        Venc::Strings => {
            let b = bins(v);
            let s: Vec<&[u8]> = b.iter().map(|x| x.as_slice()).collect();
            if lib {
                delta_byte_array::encode(s.iter().copied(), &mut out);
                let mut at = 0;
                let p = ref_undelta(&out, &mut at)?;
                let x = ref_lengths(&out, &mut at)?;
                let mut prev: Vec<u8> = vec![];
                ensure!(p.len() == b.len() && x.len() == b.len() && at == out.len(), "encoded-differs: {} strings are read as {} prefixes and {} suffixes", b.len(), p.len(), x.len());
                for (k, (p, x)) in p.into_iter().zip(x).enumerate() {
                    prev = usize::try_from(p).ok().and_then(|p| prev.get(..p)).ok_or("encoded-differs: a prefix is longer than the previous string")?.to_vec();
                    prev.extend(x);
                    ensure!(prev == b[k], "encoded-differs: string {:?} is read as {:?}", b[k], prev);
                }
            } else {
                let p = prefixes(&s, r);
                ref_delta(&p.iter().map(|x| *x as i64).collect::<Vec<_>>(), r, false, &mut out);
                ref_delta(&s.iter().zip(&p).map(|(s, p)| (s.len() - p) as i64).collect::<Vec<_>>(), r, false, &mut out);
                for (s, p) in s.iter().zip(&p) {
                    out.extend(&s[*p..]);
                }
            }
        }
        Venc::Dict => {
            let need = bits_for(dict.unwrap().len() as u32 - 1);
            let w = if chance(PLAN, 1, 4) { range(PLAN, need as usize, 32) as u32 } else { need };
            cover(&format!("dictionary_width={}", match w { 0 => "0", 1..=8 => "1-8", 9..=16 => "9-16", _ => "17-32" }));
            out.push(w as u8);
            if lib {
                let mut b = vec![];
                hybrid_rle::encode_u32(&mut b, idx.iter().copied(), w).map_err(err)?;
                to_sink("encode_u32", &b, |s| hybrid_rle::encode_u32(s, idx.iter().copied(), w))?;
                let got = ref_hybrid(&b, w as usize, idx.len())?;
                ensure!(got == idx, "encoded-differs: indices {:?} of {} bits are read as {:?}", idx, w, got);
                out.extend(b);
            } else {
                hybrid(idx, w, r, &mut out);
            }
        }
    }
    Ok(out)
}
/// Replaces the values and the encoding of a data page.
pub fn recode(p: &mut PageM, d: &parquet2::metadata::Descriptor, dict: Option<&[Val]>) -> R {
    let mut r = Rng::new(raw(DATA));
    let t = &d.primitive_type.physical_type;
    let nv = p.vals.len();
    let mut encs = vec![Venc::Plain];
    match t {
        PhysicalType::Boolean => encs.push(Venc::Rle),
        PhysicalType::Int32 | PhysicalType::Int64 => encs.extend([Venc::Delta, Venc::Delta]),
        PhysicalType::ByteArray => encs.extend([Venc::Lengths, Venc::Strings]),
        PhysicalType::FixedLenByteArray(_) => encs.push(Venc::Strings),
        _ => {}
    }
    if dict.map_or(false, |d| !d.is_empty()) {
        encs.extend([Venc::Dict, Venc::Dict]);
    }
    let e = one_of(PLAN, &encs);
    let mut idx = vec![];
    if e == Venc::Dict {
        let dv = dict.unwrap();
        let shape = pick(PLAN, 3);
        for i in 0..nv {
            let x = r.next() % dv.len() as u64;
            idx.push(match shape {
                0 => x as u32,
                1 if i > 0 && r.next() % 12 != 0 => idx[i - 1],
                _ => x as u32,
            });
        }
        p.vals = idx.iter().map(|i| dv[*i as usize].clone()).collect();
    } else {
        p.vals = draw_vals(nv, t, &mut r);
    }
    let lib = chance(PLAN, 3, 5);
    cover(&format!("encoded={:?}/{}", e, if lib { "library" } else { "foreign" }));
    let bytes = values(e, &p.vals, t, dict, &idx, lib, &mut r)?;
    let encoding = match e {
        Venc::Plain => tf::Encoding::PLAIN,
        Venc::Rle => tf::Encoding::RLE,
        Venc::Delta => tf::Encoding::DELTA_BINARY_PACKED,
        Venc::Lengths => tf::Encoding::DELTA_LENGTH_BYTE_ARRAY,
        Venc::Strings => tf::Encoding::DELTA_BYTE_ARRAY,
        Venc::Dict => one_of(PLAN, &[tf::Encoding::RLE_DICTIONARY, tf::Encoding::PLAIN_DICTIONARY]),
    };
    // users of the library name encodings by its own type
    let encoding = if lib {
        let named: tf::Encoding = Encoding::try_from(encoding).map_err(|e| format!("encoding-name: {:?}", e))?.into();
        ensure!(named == encoding, "encoding-name: encoding {:?} becomes {:?}", encoding, named);
        named
    } else {
        encoding
    };
    let mut lv = [vec![], vec![]];
    for (k, (v, max)) in [(&p.reps, d.max_rep_level), (&p.defs, d.max_def_level)].into_iter().enumerate() {
        if max > 0 {
            lib_levels(v, max, &mut r, &mut lv[k])?;
        }
    }
    p.body.clear();
    match p.header.as_mut().unwrap() {
        DataPageHeader::V1(h) => {
            h.encoding = encoding;
            h.statistics = None;
            for (v, max) in lv.iter().zip([d.max_rep_level, d.max_def_level]) {
                if max > 0 {
                    p.body.extend((v.len() as u32).to_le_bytes());
                    p.body.extend(v);
                }
            }
        }
        DataPageHeader::V2(h) => {
            h.encoding = encoding;
            h.statistics = None;
            h.repetition_levels_byte_length = lv[0].len() as i32;
            h.definition_levels_byte_length = lv[1].len() as i32;
            p.body.extend(&lv[0]);
            p.body.extend(&lv[1]);
            p.levels = p.body.len();
        }
    }
    p.body.extend(bytes);
    Ok(())
}

// ---------------------------------------------------------------- checks

/// Every decoder of a page reports exactly what is left.
fn counts(page: &DataPage, p: &PageM) -> R {
    let d = &page.descriptor;
    let err = |e: parquet2::error::Error| decode_err("a decoder", e);
    let (r, l, v) = split_buffer(page).map_err(err)?;
    let n = p.n();
    for (b, lv, max) in [(r, &p.reps, d.max_rep_level), (l, &p.defs, d.max_def_level)] {
        if max > 0 {
            let it = hybrid_rle::HybridRleDecoder::try_new(b, get_bit_width(max), n).map_err(err)?;
            let got: Result<Vec<u32>, _> = drain_exact("HybridRleDecoder", it, Some(n))?.into_iter().collect();
            let got = got.map_err(err)?;
            ensure!(got == *lv, "levels-differ: {:?} instead of {:?}", got, lv);
            if max == 1 {
                let got = decode::runs_of(b, n).map_err(err)?;
                ensure!(got.iter().map(|x| *x as u32).eq(lv.iter().copied()), "levels-differ: validity runs {:?} instead of {:?}", got, lv);
            }
        }
    }
    match DefLevelsDecoder::try_new(page).map_err(err)? {
        DefLevelsDecoder::Bitmap(it) => {
            let got: Result<Vec<bool>, _> = drain_exact("HybridRleDecoderIter", HybridRleDecoderIter::new(it), Some(n))?.into_iter().collect();
            let got = got.map_err(err)?;
            ensure!(got.iter().map(|x| *x as u32).eq(p.defs.iter().copied()), "levels-differ: validity {:?} instead of {:?}", got, p.defs);
        }
        DefLevelsDecoder::Levels(it, _) => {
            if d.max_def_level > 0 {
                drain_exact("HybridRleDecoder", it, Some(n))?;
            }
        }
    }
    let nv = p.vals.len();
    match (page.encoding(), d.primitive_type.physical_type) {
        (Encoding::Plain, PhysicalType::ByteArray) => {
            drain_exact("BinaryIter", BinaryIter::new(v, Some(nv)), Some(nv))?;
        }
        (Encoding::Plain, PhysicalType::FixedLenByteArray(s)) => {
            drain_exact("FixexBinaryIter", FixexBinaryIter::new(v, s), Some(nv))?;
        }
        (Encoding::Plain, PhysicalType::Boolean) => {
            drain_exact("BitmapIter", hybrid_rle::BitmapIter::new(v, 0, nv), Some(nv))?;
        }
        (Encoding::DeltaBinaryPacked, _) => {
            drain_exact("delta_bitpacked::Decoder", delta_bitpacked::Decoder::try_new(v).map_err(err)?, Some(nv))?;
            // what follows the integers is found by how many bytes they are
            let mut more = v.to_vec();
            more.extend([0xA5; 9]);
            let mut it = delta_bitpacked::Decoder::try_new(&more).map_err(err)?;
            let n = it.by_ref().count();
            ensure!(n == nv && it.consumed_bytes() == v.len(), "wrong-size: {} integers in {} bytes are {} integers in {} bytes", nv, v.len(), n, it.consumed_bytes());
        }
        (Encoding::DeltaLengthByteArray, _) => {
            let mut more = v.to_vec();
            more.extend([0xA5; 9]);
            let mut it = delta_length_byte_array::Decoder::try_new(&more).map_err(err)?;
            let lens = it.by_ref().collect::<Result<Vec<_>, _>>().map_err(err)?;
            let total: i64 = lens.iter().map(|x| *x as i64).sum();
            let want = &v[v.len().saturating_sub(total as usize)..];
            ensure!(lens.len() == nv && it.values() == want, "values-differ: {} strings of {} bytes are {} strings and end {} bytes early", nv, v.len(), lens.len(), want.len() as i64 - it.values().len() as i64);
            let rest = it.into_values();
            ensure!(rest.starts_with(want), "values-differ: the bytes of {} strings are not where they are", nv);
        }
        (Encoding::RleDictionary | Encoding::PlainDictionary, _) if nv > 0 => {
            drain_exact("dictionary indices", hybrid_rle::HybridRleDecoder::try_new(&v[1..], v[0] as u32, nv).map_err(err)?, Some(nv))?;
        }
        _ => {}
    }
    Ok(())
}
/// Disjoint intervals of `n` rows, in order. They may touch or be empty.
fn draw_selection(n: usize) -> VecDeque<Interval> {
    let mut out = VecDeque::new();
    let mut at = 0;
    for _ in 0..upick(PLAN, 6) {
        let start = at + if chance(PLAN, 1, 4) { 0 } else { upick(PLAN, (n - at).min(20) + 1) };
        let length = match pick(PLAN, 8) {
            0 => 0,
            1 => n - start,
            2 => (n - start).min(8),
            _ => upick(PLAN, (n - start).min(20) + 1),
        };
        out.push_back(Interval::new(start, length));
        at = start + length;
    }
    out
}
fn check_page(page: &Page, p: &PageM, dict: &mut Option<Vec<Val>>, t: &PhysicalType) -> R {
    match page {
        Page::Dict(x) => {
            let v = decode::dict_vals(x, t).map_err(|e| decode_err("a dictionary", e))?;
            ensure!(v == p.vals, "values-differ: a dictionary decodes to {:?} instead of {:?}", v, p.vals);
            *dict = Some(v);
        }
        Page::Data(x) => {
            counts(x, p)?;
            let what = format!("a page of {} values encoded as {:?}", p.n(), x.encoding());
            let c = decode::content(x, dict.as_deref()).map_err(|e| decode_err(&what, e))?;
            ensure!(c.reps == p.reps || x.descriptor.max_rep_level == 0, "levels-differ: repetition {:?} instead of {:?}", c.reps, p.reps);
            ensure!(c.defs == p.defs || x.descriptor.max_def_level == 0, "levels-differ: definition {:?} instead of {:?}", c.defs, p.defs);
            ensure!(c.vals == p.vals, "values-differ: {} decodes to {:?} instead of {:?}", what, c.vals, p.vals);
            if decode::is_flat(x) && matches!(x.encoding(), Encoding::Plain | Encoding::RleDictionary | Encoding::PlainDictionary) {
                if matches!(t, PhysicalType::Boolean) && x.encoding() != Encoding::Plain {
                    return Ok(());
                }
                cover("decoded=page_state");
                let got = decode::flat(x, dict.as_deref(), None).map_err(|e| decode_err(&what, e))?;
                let want = flat_rows(p, x.descriptor.max_def_level);
                ensure!(got == want, "values-differ: the page state of {} yields {:?} instead of {:?}", what, got, want);
                if chance(PLAN, 1, 3) {
                    let sel = draw_selection(want.len());
                    let want: Vec<_> = sel.iter().flat_map(|i| want[i.start..i.start + i.length].to_vec()).collect();
                    cover("decoded=selected rows");
                    let got = decode::flat(x, dict.as_deref(), Some(sel.clone())).map_err(|e| decode_err(&what, e))?;
                    ensure!(got == want, "values-differ: rows {:?} of {} are {:?} instead of {:?}", sel, what, got, want);
                }
            }
        }
    }
    Ok(())
}
fn packs<T: bitpacked::Unpackable + PartialEq + std::fmt::Debug>(bits: usize, from: fn(u64) -> T) -> R {
    let w = 1 + upick(PLAN, bits);
    let n = one_of(PLAN, &[0usize, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 130]);
    let mut r = Rng::new(raw(DATA));
    let mask = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let v: Vec<u64> = (0..n).map(|_| r.next() & mask).collect();
    let t: Vec<T> = v.iter().map(|x| from(*x)).collect();
    let mut want = vec![];
    pack(&v, w, &mut want);
    // room for whole packs: the encoder stores packs
    let mut out = vec![0u8; want.len() + 8 * 64 * 8];
    bitpacked::encode::<T>(&t, w, &mut out);
    ensure!(out[..want.len()] == want, "encoded-differs: {:?} packed with {} bits is {:?}, not {:?}", t, w, &out[..want.len()], want);
    let it = bitpacked::Decoder::<T>::try_new(&want, w, n).map_err(|e| decode_err("bit-packed values", e))?;
    let got = drain_exact("bitpacked::Decoder", it, Some(n))?;
    ensure!(got == t, "values-differ: values of {} bits unpack to {:?} instead of {:?}", w, got, t);
    // any bytes, width and length: what is there is unpacked, or it is an error
    let b: Vec<u8> = (0..one_of(PLAN, &[0usize, 1, 2, 5, 64, 200, 700])).map(|_| r.next() as u8).collect();
    let w = upick(PLAN, bits + 4);
    let fit = b.len() * 8 / w.max(1);
    let n = one_of(PLAN, &[0, 1, fit.saturating_sub(1), fit, fit, fit + 1, fit + 9, usize::MAX / 8, usize::MAX]);
    let valid = w >= 1 && w <= bits && n <= fit;
    match bitpacked::Decoder::<T>::try_new(&b, w, n) {
        Ok(it) => {
            ensure!(valid, "values-invented: {} values of {} bits are there in {} bytes", n, w, b.len());
            let got = drain_exact("bitpacked::Decoder", it, Some(n))?;
            let want: Vec<T> = (0..n).map(|i| from(unpack(&b, w, i))).collect();
            ensure!(got == want, "values-differ: {} values of {} bits unpack to {:?} instead of {:?}", n, w, got, want);
        }
        Err(e) => ensure!(!valid, "decode-error: {} values of {} bits in {} bytes: {:?}", n, w, b.len(), e),
    }
    Ok(())
}
/// Every codec at every level: compressed bytes are appended, and give back what they were made of.
fn codecs() -> R {
    use parquet2::compression::*;
    let mut r = Rng::new(raw(DATA));
    let n = one_of(PLAN, &[0usize, 1, 5, 100, 3000, 70_000]);
    let style = pick(PLAN, 3);
    let data: Vec<u8> = (0..n).map(|i| match style { 0 => r.next() as u8, 1 => (i / 100) as u8, _ => (r.next() % 3) as u8 }).collect();
    let kind = pick(PLAN, 8);
    // the highest levels of zstd take hundreds of MB
    let level = match kind {
        2 if !chance(PLAN, 1, 20) => range(PLAN, 0, 19) as i32,
        _ => range(PLAN, 0, 30) as i32,
    };
    let some = chance(PLAN, 7, 8);
    let o = match kind {
        0 => GzipLevel::try_new(level as u8).map(|l| (CompressionOptions::Gzip(some.then_some(l)), l.compression_level() as i32)),
        1 => BrotliLevel::try_new(level as u32).map(|l| (CompressionOptions::Brotli(some.then_some(l)), l.compression_level() as i32)),
        2 => ZstdLevel::try_new(level).map(|l| (CompressionOptions::Zstd(some.then_some(l)), l.compression_level())),
        3 => Ok((CompressionOptions::Snappy, level)),
        4 => Ok((CompressionOptions::Lz4Raw, level)),
        5 => Ok((CompressionOptions::Lz4, level)),
        6 => Ok((CompressionOptions::Lzo, level)),
        _ => Ok((CompressionOptions::Uncompressed, level)),
    };
    cover(&format!("codec={}", ["gzip", "brotli", "zstd", "snappy", "lz4_raw", "lz4", "lzo", "none"][kind as usize]));
    let (o, l) = match o {
        Ok(o) => o,
        Err(_) => {
            let highest = [10, 11, 22][kind as usize];
            ensure!(level > highest || (kind == 2 && level == 0), "level-refused: {} of codec {}", level, kind);
            return Ok(());
        }
    };
    ensure!(l == level, "level-differs: {} instead of {}", l, level);
    let c: Compression = o.into();
    ensure!(c == crate::codec::of(o), "codec-differs: {:?} is {:?}", o, c);
    let before = dirty();
    let mut out = before.clone();
    let stored = match compress(o, &data, &mut out) {
        Ok(()) => {
            ensure!(out.starts_with(&before), "encoder-overwrites: {:?} changes what was in its buffer", o);
            out.split_off(before.len())
        }
        Err(e) => {
            // these are only read, or need no compressor
            ensure!(kind >= 5, "encode-error: {:?} of {} bytes: {:?}", o, n, e);
            if kind != 5 {
                ensure!(decompress(c, &data, &mut vec![0; n]).is_err(), "values-invented: {:?} decompresses", c);
                return Ok(());
            }
            crate::codec::compress(c, &data)
        }
    };
    let mut back = vec![0x5A; n];
    decompress(c, &stored, &mut back).map_err(|e| decode_err(&format!("{:?} at level {} of {} bytes", o, level, n), e))?;
    ensure!(back == data, "values-differ: {:?} of {} bytes does not give them back", o, n);
    // sizes that are not those of the data: no byte is made up
    let other = one_of(PLAN, &[0usize, 1, n / 2, n + 1, n + 100, n * 2 + 1]);
    let mut back = vec![0x5A; other];
    if decompress(c, &stored, &mut back).is_ok() {
        ensure!(other <= n && back[..] == data[..other], "values-invented: {:?} of {} bytes fills {} bytes", o, n, other);
    }
    Ok(())
}
fn scalars() -> R {
    let mut r = Rng::new(raw(DATA));
    for _ in 0..8 {
        let x = r.next() >> (r.next() % 64);
        let x = if r.next() % 8 == 0 { u64::MAX - r.next() % 3 } else { x };
        let mut want = vec![];
        varint(x, &mut want);
        let mut b = [0u8; 10];
        let n = uleb128::encode(x, &mut b);
        ensure!(b[..n] == want[..], "encoded-differs: {} as ULEB128 is {:?}", x, &b[..n]);
        want.extend([r.next() as u8; 3]);
        let got = uleb128::decode(&want).map_err(|e| decode_err("a varint", e))?;
        ensure!(got == (x, n), "values-differ: ULEB128 {:?} reads as {:?}", want, got);
        let y = x as i64;
        let mut want = vec![];
        varint(zigzag(y), &mut want);
        let (b, n) = zigzag_leb128::encode(y);
        ensure!(b[..n] == want[..], "encoded-differs: {} as zigzag is {:?}", y, &b[..n]);
        let got = zigzag_leb128::decode(&want).map_err(|e| decode_err("a varint", e))?;
        ensure!(got == (y, n), "values-differ: zigzag {:?} reads as {:?}", want, got);
    }
    // times within the range of nanoseconds of an i64
    let day = 2_440_588 + (r.next() % 200_000) as i64 - 100_000;
    let ns = (r.next() % 86_400_000_000_000) as i64;
    let v = [ns as u32, (ns >> 32) as u32, day as u32];
    let got = parquet2::types::int96_to_i64_ns(v);
    let want = (day - 2_440_588) * 86_400_000_000_000 + ns;
    ensure!(got == want, "values-differ: the timestamp {:?} is {} ns, not {}", v, got, want);
    Ok(())
}

/// Values of every width in runs and packs, from this encoder and others.
fn hybrids() -> R {
    let mut r = Rng::new(raw(DATA));
    let w = range(PLAN, 0, 32);
    let n = one_of(PLAN, &[0usize, 1, 7, 8, 9, 40, 64, 65, 300, 1000]);
    let mask = if w == 32 { u32::MAX } else { (1u32 << w) - 1 };
    let repeat = one_of(PLAN, &[0, 1, 4, 15]);
    let mut v: Vec<u32> = vec![];
    for i in 0..n {
        let x = match v.last() {
            Some(x) if r.next() % 16 < repeat => *x,
            _ if r.next() % 8 == 0 => mask,
            _ => r.next() as u32 & mask,
        };
        v.push(x);
        // whole stretches of one value
        if repeat > 4 && i % 50 < 40 {
            v[i] = v[i / 50 * 50];
        }
    }
    let lib = chance(PLAN, 1, 2) && w > 0;
    cover(if lib { "hybrid=library" } else { "hybrid=foreign" });
    let mut b = vec![];
    if lib {
        hybrid_rle::encode_u32(&mut b, v.iter().copied(), w as u32).map_err(|e| format!("encode-error: {:?}", e))?;
        to_sink("encode_u32", &b, |s| hybrid_rle::encode_u32(s, v.iter().copied(), w as u32))?;
        let got = ref_hybrid(&b, w, n)?;
        ensure!(got == v, "encoded-differs: values {:?} of {} bits are encoded as {:?}", v, w, got);
    } else if w > 0 {
        hybrid(&v, w as u32, &mut r, &mut b);
    }
    let err = |e| decode_err("runs of values", e);
    let it = hybrid_rle::HybridRleDecoder::try_new(&b, w as u32, n).map_err(err)?;
    let got: Vec<u32> = drain_exact("HybridRleDecoder", it, Some(n))?.into_iter().collect::<Result<_, _>>().map_err(err)?;
    ensure!(got == v, "values-differ: values {:?} of {} bits decode to {:?}", v, w, got);
    if w == 0 {
        return Ok(());
    }
    let mut got = vec![];
    for run in hybrid_rle::Decoder::new(&b, w) {
        match run.map_err(err)? {
            hybrid_rle::HybridEncoded::Bitpacked(p) => got.extend((0..(p.len() * 8 / w).min(n - got.len())).map(|i| unpack(p, w, i) as u32)),
            hybrid_rle::HybridEncoded::Rle(p, k) => got.extend(std::iter::repeat(unpack(p, p.len() * 8, 0) as u32).take(k.min(n - got.len()))),
        }
    }
    ensure!(got == v, "values-differ: the runs of {:?} of {} bits are {:?}", v, w, got);
    // bits from anywhere of a bitmap
    let bits: Vec<bool> = v.iter().map(|x| x & 1 == 1).collect();
    let mut b = vec![];
    hybrid_rle::bitpacked_encode(&mut b, bits.iter().copied()).map_err(|e| format!("encode-error: {:?}", e))?;
    let from = upick(PLAN, n + 1);
    let len = upick(PLAN, n - from + 1);
    let got = drain_exact("BitmapIter", hybrid_rle::BitmapIter::new(&b, from, len), Some(len))?;
    ensure!(got == bits[from..from + len], "values-differ: bits {}..{} of {:?} are {:?}", from, from + len, bits, got);
    Ok(())
}

pub fn p21() -> R {
    if chance(PLAN, 1, 8) {
        hybrids()?;
        cover("direct=packs");
        packs::<u8>(8, |x| x as u8)?;
        packs::<u16>(16, |x| x as u16)?;
        packs::<u32>(32, |x| x as u32)?;
        packs::<u64>(64, |x| x)?;
        codecs()?;
        return scalars();
    }
    let mut f = FBASE;
    f.table.real = true;
    f.table.big = false;
    f.table.groups = (1, 2);
    f.table.leaves = 3;
    f.table.stats = Some(Stats::None);
    f.table.write_statistics = Some(false);
    f.table.rows = one_of(PLAN, &[12, 40, 150, 700]);
    let mut t = draw_table(&f.table);
    for (j, c) in t.schema.columns().to_vec().iter().enumerate() {
        for g in t.groups.iter_mut() {
            let mut dict: Option<Vec<Val>> = None;
            for p in g.chunks[j].pages.iter_mut() {
                if p.is_dict() {
                    if chance(PLAN, 1, 3) {
                        // bigger dictionaries
                        let mut r = Rng::new(raw(DATA));
                        let n = one_of(PLAN, &[1usize, 2, 200, 300]);
                        let style = pick(PLAN, 4);
                        p.vals = (0..n).map(|_| draw_val(&c.descriptor.primitive_type.physical_type, style, &mut r)).collect();
                        p.dict_n = n;
                        p.body.clear();
                        plain(&p.vals, &mut p.body, &c.descriptor.primitive_type.physical_type);
                        dict = Some(p.vals.clone());
                        continue;
                    }
                    dict = Some(p.vals.clone());
                } else if dict.is_some() || chance(PLAN, 4, 5) {
                    recode(p, &c.descriptor, dict.as_deref())?;
                }
            }
        }
    }
    let case = make_file(t, &f)?;
    set_io(draw_io(true));
    for i in 0..case.t.groups.len() {
        for j in 0..case.t.groups[i].chunks.len() {
            let c = case.col(i, j);
            let model = &case.chunk(i, j).pages[..case.expected(i, j).len()];
            let mut dict = None;
            let phys = case.t.descr(j).primitive_type.physical_type;
            let mut k = 0;
            let mut buf = dirty();
            let err = |e: parquet2::error::Error| format!("read-error: {:?}", e);
            if chance(SCHED, 1, 2) {
                for p in get_page_iterator(c, open(case.fid), None, dirty(), NOLIMIT).map_err(err)? {
                    let page = decompress(p.map_err(err)?, &mut buf).map_err(err)?;
                    ensure!(k < model.len(), "page-count: more than {} pages", model.len());
                    check_page(&page, &model[k], &mut dict, &phys)?;
                    k += 1;
                }
            } else {
                let mut dev = aopen(case.fid);
                let pages: R<Vec<Page>> = block_on(async {
                    let s = get_page_stream(c, &mut dev, dirty(), std::sync::Arc::new(|_, _| true), NOLIMIT).await.map_err(err)?;
                    futures::pin_mut!(s);
                    let mut out = vec![];
                    while let Some(p) = s.next().await {
                        out.push(decompress(p.map_err(err)?, &mut vec![]).map_err(err)?);
                    }
                    Ok(out)
                })?;
                for page in pages? {
                    ensure!(k < model.len(), "page-count: more than {} pages", model.len());
                    check_page(&page, &model[k], &mut dict, &phys)?;
                    k += 1;
                }
            }
            ensure!(k == model.len(), "page-count: {} of {} pages", k, model.len());
        }
    }
    Ok(())
}
