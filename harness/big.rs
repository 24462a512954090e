//! wide unsigned integers for oracles beyond 128 bits (shared by C20, C22..C26)
#![allow(dead_code)]
use crate::vs::*;
/// wide unsigned integers of L words for operands beyond 128 bits; no branching on values
pub const L: usize = 36;
pub type B = [u32; L];
pub fn bmant(p: u64, lo: u64, hi: u64, pat: u64) -> B { let w = bitsel(p, lo, hi, pat); let mut v = [0; L]; for i in 0..w.len() { v[i] = w[i]; } v }
pub fn bshl(x: &B, k: u64) -> B { let (w, b) = ((k / 32) as usize, k % 32); let mut v = [0; L]; for i in w..L { let mut t = (x[i - w] as u64) << b; if b > 0 && i > w { t |= x[i - w - 1] as u64 >> (32 - b); } v[i] = t as u32; } v }
pub fn bsub(x: &B, y: &B) -> (B, u64) { let mut v = [0; L]; let mut c = 0u64; for i in 0..L { let t = (x[i] as u64).wrapping_sub(y[i] as u64).wrapping_sub(c); v[i] = t as u32; c = t >> 63; } (v, c) }
pub fn badd(x: &B, y: &B) -> B { let mut v = [0; L]; let mut c = 0u64; for i in 0..L { let t = x[i] as u64 + y[i] as u64 + c; v[i] = t as u32; c = t >> 32; } v }
pub fn bmul(x: &B, nx: usize, y: &B, ny: usize) -> B { let mut v = [0u32; L]; for i in 0..nx { let mut c = 0u64; for j in 0..ny { let t = (x[i] as u64).wrapping_mul(y[j] as u64) + v[i + j] as u64 + c; v[i + j] = t as u32; c = t >> 32; } v[i + ny] = c as u32; } v }
pub fn bite(c: bool, x: &B, y: &B) -> B { let mut v = [0; L]; for i in 0..L { v[i] = ite(c, x[i] as u64, y[i] as u64) as u32; } v }
pub fn bzero(x: &B) -> bool { let mut d = 0; for i in 0..L { d |= x[i]; } d == 0 }
/// quotient to `n` bits and whether a remainder is left, for x < 2 y
pub fn bdiv(x: &B, y: &B, n: u64) -> (B, bool) {
    let (mut r, mut q) = (*x, [0; L]);
    for _ in 0..n { let (d, c) = bsub(&r, y); r = bite(c == 0, &d, &r); q = bshl(&q, 1); q[0] |= (c == 0) as u32; r = bshl(&r, 1); }
    (q, !bzero(&r))
}
pub fn bwords(w: &[u32]) -> B { let mut v = [0; L]; for i in 0..w.len() { v[i] = w[i]; } v }
pub fn bcmp0(x: &B, y: &B) -> bool { let mut d = 0; for i in 0..L { d |= x[i] ^ y[i]; } d == 0 }
/// the words of x without leading zeros
pub fn btrim(x: &B) -> Vec<u32> { let mut n = L; while n > 1 && x[n - 1] == 0 { n -= 1; } x[..n].to_vec() }
/// greatest common divisor of two non-zero integers (halving and subtraction)
pub fn bgcd(x: &[u32], y: &[u32]) -> Vec<u32> {
    fn tz(v: &[u32]) -> u32 { let mut n = 0; for &w in v { if w != 0 { return n + w.trailing_zeros(); } n += 32; } n }
    fn shr(v: &mut Vec<u32>, k: u32) { let (w, b) = ((k / 32) as usize, k % 32); let n = v.len(); for i in 0..n { let lo = if i + w < n { v[i + w] } else { 0 }; let hi = if i + w + 1 < n { v[i + w + 1] } else { 0 }; v[i] = if b == 0 { lo } else { lo >> b | hi << (32 - b) }; } trim(v) }
    fn shl(v: &mut Vec<u32>, k: u32) { for _ in 0..k / 32 { v.insert(0, 0); } if k % 32 > 0 { let mut c = 0; for w in v.iter_mut() { let t = *w >> (32 - k % 32); *w = *w << (k % 32) | c; c = t; } v.push(c); } trim(v) }
    fn trim(v: &mut Vec<u32>) { while v.len() > 1 && v[v.len() - 1] == 0 { v.pop(); } }
    fn lt(x: &[u32], y: &[u32]) -> bool { if x.len() != y.len() { return x.len() < y.len(); } for i in (0..x.len()).rev() { if x[i] != y[i] { return x[i] < y[i]; } } false }
    let (mut x, mut y) = (x.to_vec(), y.to_vec());
    trim(&mut x); trim(&mut y);
    let (kx, ky) = (tz(&x), tz(&y));
    shr(&mut x, kx); shr(&mut y, ky);
    loop {
        if lt(&x, &y) { std::mem::swap(&mut x, &mut y); }
        let mut c = 0u64;
        for i in 0..x.len() { let t = (x[i] as u64).wrapping_sub(if i < y.len() { y[i] as u64 } else { 0 }).wrapping_sub(c); x[i] = t as u32; c = t >> 63; }
        trim(&mut x);
        if x.len() == 1 && x[0] == 0 { break; }
        let k = tz(&x); shr(&mut x, k);
    }
    shl(&mut y, kx.min(ky));
    y
}
/// number of bits
pub fn blen(x: &B) -> u64 { let mut n = 0; for i in 0..L { n = ite(x[i] != 0, 32 * i as u64 + 32 - x[i].leading_zeros() as u64, n); } n }
/// x times a small number
pub fn bmul1(x: &B, y: u32) -> B { let mut v = [0u32; L]; let mut c = 0u64; for i in 0..L { let t = (x[i] as u64).wrapping_mul(y as u64) + c; v[i] = t as u32; c = t >> 32; } v }
pub fn b1(x: u64) -> B { let mut v = [0; L]; v[0] = x as u32; v[1] = (x >> 32) as u32; v }
pub fn bpow10(n: u64) -> B { let mut v = b1(1); let mut n = n; while n >= 9 { v = bmul1(&v, 1_000_000_000); n -= 9; } while n > 0 { v = bmul1(&v, 10); n -= 1; } v }
/// x < y
pub fn blt(x: &B, y: &B) -> bool { bsub(x, y).1 == 1 }
/// x / y (y of exactly ylen bits, x of xlen bits, both > 0) as v 2^k with v of n - 1 or n bits and a remainder flag: n quotient bits from the top
pub fn bquo(x: &B, xlen: u64, y: &B, ylen: u64, n: u64) -> (B, bool, i64) {
    let (u, w) = (bshl(x, ylen.saturating_sub(xlen)), bshl(y, xlen.saturating_sub(ylen)));
    let (q, st) = bdiv(&u, &w, n);
    (q, st, xlen as i64 - ylen as i64 - (n as i64 - 1))
}
