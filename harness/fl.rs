//! reading and building Floats; the exact rounding oracle (shared by C23..C26)
#![allow(dead_code)]
use crate::vs::*;
pub use rmath::bigint::float::{Accuracy, RoundingMode};
pub use rmath::bigint::{BigInt, Float, Nat, Rat};
/// what a Float is, read through its public queries
#[derive(Clone, Copy)]
pub struct R { pub kind: u64, pub neg: bool, pub m: u64, pub e: i64, pub fits: bool, pub prec: u64, pub acc: u64 }
pub fn acc(a: Accuracy) -> u64 { match a { Accuracy::Below => 0, Accuracy::Exact => 1, Accuracy::Above => 2 } }
pub fn rmode(k: u64) -> RoundingMode { match k { 0 => RoundingMode::ToNearestEven, 1 => RoundingMode::ToNearestAway, 2 => RoundingMode::ToZero, 3 => RoundingMode::AwayFromZero, 4 => RoundingMode::ToNegativeInf, _ => RoundingMode::ToPositiveInf } }
pub fn mode_no(m: RoundingMode) -> u64 { match m { RoundingMode::ToNearestEven => 0, RoundingMode::ToNearestAway => 1, RoundingMode::ToZero => 2, RoundingMode::AwayFromZero => 3, RoundingMode::ToNegativeInf => 4, RoundingMode::ToPositiveInf => 5 } }
pub const ZERO: u64 = 0;
pub const FIN: u64 = 1;
pub const INF: u64 = 2;
pub const NAN: u64 = 3;
/// m is the mantissa aligned to bit 63 (|x| = m * 2^(e-64), m >= 2^63), fits: the mantissa has at most 64 bits
pub fn rd(x: &Float) -> R {
    let mut r = R { kind: NAN, neg: false, m: 0, e: 0, fits: true, prec: x.get_precision() as u64, acc: acc(x.get_accuracy()) };
    if x.is_nan() { return r; }
    r.neg = x.is_negative() == Some(true);
    if x.is_infinite() == Some(true) { r.kind = INF; return r; }
    if x.signnum() == Some(0) { r.kind = ZERO; return r; }
    r.kind = FIN;
    let (m, e) = x.abs().mant_exp();
    r.e = e as i64;
    let mut t = Float::default();
    t.set_mant_exp(m, 64);
    let (u, a) = t.truncate_to_u64().unwrap();
    r.m = u;
    r.fits = acc(a) == 1;
    r
}
pub fn out_fl(x: &Float) { let r = rd(x); out(r.kind); out(r.neg as u64); out(r.m); out(r.e as u64); out(r.prec); out(r.acc); }
pub fn special(kind: u64, neg: bool) -> Float {
    match kind { ZERO => if neg { -Float::default() } else { Float::default() }, INF => Float::get_inf(neg), _ => Float::from(f64::NAN) }
}
/// the value (-1)^neg (u + s) * 2^k, u > 0, 0 <= s < 1 with s > 0 iff sticky (u then has more than p + 1 bits), rounded to p <= 127 bits; the mantissa is aligned to bit 127
pub struct W { pub r: R, pub mw: u128 }
pub fn rounded(neg: bool, u: u128, sticky: bool, k: i64, p: u64, mode: u64) -> W {
    let len = 128 - u.leading_zeros() as u64;
    let top = u << (128 - len);
    let q = top >> (128 - p);
    let rest = top << p;
    let half = 1u128 << 127;
    let inexact = (rest != 0) | sticky;
    let up = match mode {
        0 => (rest > half) | ((rest == half) & (sticky | (q & 1 == 1))),
        1 => rest >= half,
        2 => false,
        3 => inexact,
        4 => inexact & neg,
        _ => inexact & !neg,
    };
    let m = q.wrapping_add(up as u128);
    let over = m >> p != 0;
    let m = m << (128 - p);
    let (hi, lo) = (ite(over, 1 << 63, (m >> 64) as u64), ite(over, 0, m as u64));
    let e = (len as i64).wrapping_add(k).wrapping_add(over as i64);
    W { mw: (hi as u128) << 64 | lo as u128, r: R { kind: FIN, neg, m: hi, e, fits: true, prec: p, acc: ite(!inexact, 1, ite(up != neg, 2, 0)) } }
}
pub fn other(kind: u64, neg: bool, p: u64) -> W { W { mw: 0, r: R { kind, neg, m: 0, e: 0, fits: true, prec: p, acc: 1 } } }
/// (-1)^neg mw * 2^(e-128)
pub fn wide(neg: bool, mw: u128, e: i64) -> Float {
    let w: Vec<u32> = (0..4).map(|i| (mw >> (32 * i)) as u32).collect();
    let x = Float::from(int(&w, neg));
    let mut z = Float::default();
    z.set_mant_exp(x, e as isize - 128);
    z
}
/// the Float reads as expected (kind, sign, value, precision, accuracy)
pub fn same(x: &Float, w: &W, id: u32) {
    let (r, w, mw) = (rd(x), &w.r, w.mw);
    check(r.kind == w.kind, id);
    if w.kind != NAN { check(r.prec == w.prec, id); check(r.neg == w.neg, id); check(r.acc == w.acc, id); }
    if w.kind == FIN {
        check(r.m == w.m, id); check(r.e == w.e, id);
        if w.prec <= 64 { check(r.fits, id); } else { check(*x == wide(w.neg, mw, r.e), id); }
    }
}
/// p bits, top one set; `lo` lowest and `hi` next-to-top symbolic, the rest pattern `pat`
pub fn mant(p: u64, lo: u64, hi: u64, pat: u64) -> u128 { let w = bitsel(p, lo, hi, pat); let mut v = 0u128; for i in 0..w.len() { v |= (w[i] as u128) << (32 * i); } v }
/// (-1)^neg a * 2^k, a of exactly p bits, precision p
pub fn flp(neg: bool, a: u128, k: i64, p: u64, mode: u64) -> Float {
    let w: Vec<u32> = (0..(p + 31) / 32).map(|i| (a >> (32 * i)) as u32).collect();
    let mut x = Float::from(int(&w, neg));
    x.set_precision(p as usize);
    x.set_mode(rmode(mode));
    let mut z = Float::default();
    z.set_mant_exp(x, k as isize);
    z
}
#[macro_export]
macro_rules! same { ($a:expr, $b:expr) => { $crate::h::fl::same($a, $b, line!()) } }
#[path = "big.rs"]
pub mod big;
pub use big::*;
/// (-1)^neg (v + sticky) 2^k rounded to p bits: mantissa words (top aligned), exponent, accuracy
pub fn bround(neg: bool, v: &B, sticky: bool, k: i64, p: u64, mode: u64) -> (Vec<u32>, i64, u64) {
    let (mut v, mut e) = (*v, (L * 32) as u64);
    for s in [1024u64, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1] {
        let (w, b) = ((s / 32) as usize, s % 32);
        let mut hi = 0; for i in L - w..L { hi |= v[i]; }
        if b > 0 { hi |= v[L - 1] >> (32 - b); }
        let z = hi == 0;
        v = bite(z, &bshl(&v, s), &v);
        e = e.wrapping_sub(ite(z, s, 0));
    }
    let n = ((p + 31) / 32) as usize;
    let mut m: Vec<u32> = v[L - n..].to_vec();
    let ntz = n as u64 * 32 - p;
    let at = (L * 32) as u64 - 1 - p;
    let half = v[(at / 32) as usize] >> (at % 32) & 1;
    let mut rest = v[(at / 32) as usize] & ((1u32 << (at % 32)) - 1); for i in 0..(at / 32) as usize { rest |= v[i]; }
    m[0] = m[0] >> ntz << ntz;
    let st = (rest != 0) | sticky;
    let inexact = st | (half == 1);
    let odd = m[0] >> ntz & 1 == 1;
    let up = match mode { 0 => (half == 1) & (st | odd), 1 => half == 1, 2 => false, 3 => inexact, 4 => inexact & neg, _ => inexact & !neg };
    let mut c = (up as u64) << ntz;
    for i in 0..n { let t = m[i] as u64 + c; m[i] = t as u32; c = t >> 32; }
    m[n - 1] = ite(c == 1, 1 << 31, m[n - 1] as u64) as u32;
    (m, (e as i64).wrapping_add(k).wrapping_add(c as i64), ite(!inexact, 1, ite(up != neg, 2, 0)))
}
pub fn bfl(neg: bool, a: &B, k: i64, p: u64, mode: u64) -> Float {
    let mut x = Float::from(int(&a[..((p + 31) / 32) as usize], neg));
    x.set_precision(p as usize);
    x.set_mode(rmode(mode));
    let mut z = Float::default();
    z.set_mant_exp(x, k as isize);
    z
}
/// the finite Float reads as the mantissa words, exponent and accuracy given, with precision p
pub fn bsame(z: &Float, (m, e, ac): (Vec<u32>, i64, u64), neg: bool, p: u64) {
    let r = rd(z);
    va!(r.kind == FIN); va!(r.neg == neg); va!(r.prec == p); va!(r.acc == ac); va!(r.e == e);
    let mut w = Float::default();
    w.set_mant_exp(Float::from(int(&m, neg)), r.e as isize - 32 * m.len() as isize);
    va!(*z == w);
}
