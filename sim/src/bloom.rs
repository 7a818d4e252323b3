//! Split-block bloom filter as the format specification describes it; written for this harness.
use crate::model::Val;

pub const SALT: [u32; 8] = [0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31];

/// xxHash64 with seed 0, from its specification
pub fn xxh64(b: &[u8]) -> u64 {
    const P1: u64 = 0x9E3779B185EBCA87;
    const P2: u64 = 0xC2B2AE3D27D4EB4F;
    const P3: u64 = 0x165667B19E3779F9;
    const P4: u64 = 0x85EBCA77C2B2AE63;
    const P5: u64 = 0x27D4EB2F165667C5;
    let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
    let q = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let n = b.len();
    let mut i = 0;
    let mut h = if n >= 32 {
        let mut v = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while i + 32 <= n {
            for (k, x) in v.iter_mut().enumerate() {
                *x = round(*x, q(i + 8 * k));
            }
            i += 32;
        }
        let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
        for x in v {
            h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
        }
        h
    } else {
        P5
    };
    h = h.wrapping_add(n as u64);
    while i + 8 <= n {
        h = (h ^ round(0, q(i))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        i += 8;
    }
    if i + 4 <= n {
        let x = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64;
        h = (h ^ x.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        i += 4;
    }
    while i < n {
        h = (h ^ (b[i] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        i += 1;
    }
    h = (h ^ (h >> 33)).wrapping_mul(P2);
    h = (h ^ (h >> 29)).wrapping_mul(P3);
    h ^ (h >> 32)
}
/// hash of the value's plain encoding (byte arrays without their length)
pub fn hash(v: &Val) -> u64 {
    xxh64(&v.bytes())
}
fn block(bits: &[u8], h: u64) -> usize {
    let z = (bits.len() / 32) as u64;
    (((h >> 32) * z) >> 32) as usize * 32
}
fn words(h: u64) -> [u32; 8] {
    SALT.map(|s| 1u32 << ((h as u32).wrapping_mul(s) >> 27))
}
pub fn insert(bits: &mut [u8], h: u64) {
    let at = block(bits, h);
    for (k, m) in words(h).into_iter().enumerate() {
        let r = at + 4 * k..at + 4 * k + 4;
        let w = u32::from_le_bytes(bits[r.clone()].try_into().unwrap()) | m;
        bits[r].copy_from_slice(&w.to_le_bytes());
    }
}
pub fn contains(bits: &[u8], h: u64) -> bool {
    let at = block(bits, h);
    words(h).into_iter().enumerate().all(|(k, m)| u32::from_le_bytes(bits[at + 4 * k..at + 4 * k + 4].try_into().unwrap()) & m != 0)
}
