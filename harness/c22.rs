//! C22: rationals from and to f32 / f64
use crate::vs::*;
use rmath::bigint::{Nat, Rat};
#[path = "big.rs"]
pub mod big;
use big::*;
fn mk(n: &[u32], neg: bool, d: &[u32]) -> Rat { match Rat::from_frac_bigint(&int(n, neg), &int(d, false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } } }
/// v * 2^k as words
fn shifted(v: u128, k: u64) -> Vec<u32> {
    let (q, r) = ((k / 32) as usize, k % 32);
    let mut w = vec![0u32; q];
    let (lo, hi) = (v << r, if r == 0 { 0 } else { v >> (128 - r) });
    for i in 0..4 { w.push((lo >> (32 * i)) as u32); }
    w.push(hi as u32);
    while w.len() > 1 && w[w.len() - 1] == 0 { w.pop(); }
    w
}
/// magnitude bits of the float of precision p and least exponent emin nearest to a/b * 2^k (ties to even), and whether it is equal; inf: bits of infinity
fn nearest(a: u128, b: u128, k: i64, p: u32, emin: i64, inf: u64) -> (u64, bool) {
    if a == 0 { return (0, true); }
    const S: i64 = 64;
    let n = a << S;
    let (q, rem) = (n / b, n % b != 0);
    let len = 128 - q.leading_zeros() as i64;
    let e = k - S;
    let u0 = e + len - p as i64;
    let u = ite(u0 < emin, emin as u64, u0 as u64) as i64;
    let drop = u - e;
    let drop = ite(drop > 127, 127, drop as u64) as u32;
    let keep = (q >> drop) as u64;
    let rest = q & ((1u128 << drop) - 1);
    let half = 1u128 << (drop - 1);
    let up = rest > half || (rest == half && (rem || keep & 1 == 1));
    let m = keep + up as u64;
    let bits = (((u - emin) as u64) << (p - 1)).wrapping_add(m);
    let over = (u - emin) as u64 >= 4096 || bits >= inf;
    (ite(over, inf, bits), rest == 0 && !rem && !over)
}
/// conversion of (-1)^neg a/b * 2^k, p0: 0 f64, 1 f32
fn to_ok(a: u128, b: u128, k: i64, neg: bool, single: bool) {
    let x = if k >= 0 { mk(&shifted(a, k as u64), neg, &shifted(b, 0)) } else { mk(&shifted(a, 0), neg, &shifted(b, (-k) as u64)) };
    let s = (neg && a != 0) as u64;
    if single {
        let (f, exact) = x.to_f32();
        let (w, e) = nearest(a, b, k, 24, -149, 0x7f80_0000);
        va!(f.to_bits() as u64 == (w | s << 31)); va!(exact == e);
        out(f.to_bits() as u64);
    } else {
        let (f, exact) = x.to_f64();
        let (w, e) = nearest(a, b, k, 53, -1074, 0x7ff0_0000_0000_0000);
        va!(f.to_bits() == (w | s << 63)); va!(exact == e);
        out(f.to_bits());
    }
}
/// x = (-1)^neg m * 2^e exactly, in lowest terms
fn is_dyadic(x: &Rat, neg: bool, m: u64, e: i64) {
    va!(!x.is_nan());
    let (p, q) = (x.numerator(), x.denominator());
    va!(canon(p) && canon(q) && q.is_positive());
    if e >= 0 { zeq!(zint(p), sgn(Z::u(m).shl(e as u64).mul(zint(q)), neg)); } else { zeq!(zint(p).shl((-e) as u64), sgn(Z::u(m).mul(zint(q)), neg)); }
    // lowest terms: the denominator divides 2^-e, so it is a power of two; coprime iff it is 1 or the numerator is odd
    let (pn, qn): (&Nat, &Nat) = (p.as_ref(), q.as_ref());
    let (pw, qw): (&[u32], &[u32]) = (pn.as_ref(), qn.as_ref());
    let one = qw.len() == 1 && qw[0] == 1;
    va!(one || pw[0] & 1 == 1);
    out_int(p); out(qw.len() as u64);
}
fn sgn(z: Z, neg: bool) -> Z { if neg { Z::u(0).sub(z) } else { z } }
/// the float of precision p and least exponent emin nearest to (m + s) 2^(e-64), m with bit 63 set, 0 <= s < 1, s > 0 iff st; whether equal
fn nearest_top(m: u64, e: i64, st: bool, p: i64, emin: i64, inf: u64) -> (u64, bool) {
    let u = (e - p).max(emin);
    let drop = u - (e - 64);
    if drop > 64 { return (0, false); }
    if (u - emin) as u64 >= 4096 { return (inf, false); }
    let m = m as u128;
    let keep = (m >> drop) as u64;
    let rest = m & ((1u128 << drop) - 1);
    let half = 1u128 << (drop - 1);
    let up = (rest > half) | ((rest == half) & (st | (keep & 1 == 1)));
    let bits = (((u - emin) as u64) << (p - 1)).wrapping_add(keep).wrapping_add(up as u64);
    let over = bits >= inf;
    (ite(over, inf, bits), (rest == 0) & !st & !over)
}
harnesses! {
    // f64 of biased exponent p0, p1 low and p2 high mantissa bits symbolic, the others pattern p3, sign p4
    fn c22_from64() {
        let (lo, hi) = (bits(param(1)), bits(param(2)));
        let mid = match param(3) { 0 => 0, 1 => u64::MAX, _ => 0x5A5A_3C3C_9669_A55A } & ((1u64 << (52 - param(2))) - 1) & !((1u64 << param(1)) - 1);
        let m = lo | (hi << (52 - param(2))) | mid;
        let f = f64::from_bits((param(4) << 63) | (param(0) << 52) | m);
        let x = if param(5) == 0 { Rat::from_f64(f) } else { Rat::from(f) };
        if param(0) == 2047 { va!(x.is_nan()); }
        else if param(0) == 0 { is_dyadic(&x, param(4) != 0, m, -1074); }
        else { is_dyadic(&x, param(4) != 0, m | 1 << 52, param(0) as i64 - 1075); }
    }
    fn c22_from32() {
        let (lo, hi) = (bits(param(1)) as u32, bits(param(2)) as u32);
        let mid = match param(3) { 0 => 0, 1 => u32::MAX, _ => 0x5A5A_A55A } & ((1u32 << (23 - param(2))) - 1) & !((1u32 << param(1)) - 1);
        let m = lo | (hi << (23 - param(2))) | mid;
        let x = Rat::from(f32::from_bits((param(4) as u32) << 31 | (param(0) as u32) << 23 | m));
        if param(0) == 255 { va!(x.is_nan()); }
        else if param(0) == 0 { is_dyadic(&x, param(4) != 0, m as u64, -149); }
        else { is_dyadic(&x, param(4) != 0, (m | 1 << 23) as u64, param(0) as i64 - 150); }
    }
    // small fraction a/b scaled by 2^k: p0 bits / p1 bits, k = p2 - 1200, sign p3, p4: f32
    fn c22_to_small() {
        let (a, b) = (bits(param(0)), bits(param(1)));
        assume(b != 0);
        to_ok(a as u128, b as u128, param(2) as i64 - 1200, param(3) != 0, param(4) != 0);
    }
    // numerator 2^p0 - 1 - low bits (p5: or 2^p0 + low bits) over b: rounding boundaries; k = p2 - 1200
    fn c22_to_edge() {
        let l = bits(param(1)) as u128;
        let a = if param(5) == 0 { (1u128 << param(0)) + l } else { (1u128 << param(0)) - 1 - l };
        to_ok(a, param(6) as u128, param(2) as i64 - 1200, param(3) != 0, param(4) != 0);
    }
    // every float converts to itself: exponent p0, low and high mantissa bits symbolic
    fn c22_round64() {
        let m = bits(param(1)) | bits(param(2)) << (52 - param(2));
        let f = f64::from_bits(param(3) << 63 | param(0) << 52 | m);
        let (g, e) = Rat::from(f).to_f64();
        va!(g == f && e);
        if f != 0.0 { va!(g.to_bits() == f.to_bits()); }
    }
    fn c22_round32() {
        let m = bits(param(1)) | bits(param(2)) << (23 - param(2));
        let f = f32::from_bits((param(3) << 31 | param(0) << 23 | m) as u32);
        let (g, e) = Rat::from(f).to_f32();
        va!(g == f && e);
        if f != 0.0 { va!(g.to_bits() == f.to_bits()); }
    }
    fn c22_nan() {
        // every NaN and infinity, fully symbolic mantissa and sign
        let (s, m) = (sym(1), sym(52));
        let x = Rat::from_f64(f64::from_bits(s << 63 | 2047 << 52 | m));
        va!(x.is_nan());
        let (f, e) = x.to_f64(); va!(f.is_nan() && !e);
        let (f, e) = x.to_f32(); va!(f.is_nan() && !e);
    }
    // any lengths: p0/p1 bits of numerator/denominator, p2/p3 patterns, p4 sign, p5 symbolic low bits, p6 - 1200: power of two on top
    fn c22_long() {
        let (pa, pb, neg, k) = (param(0), param(1), param(4) != 0, param(6) as i64 - 1200);
        let (a, b) = (bmant(pa, param(5), 1, param(2)), bmant(pb, param(5), 1, param(3)));
        let (mut u, mut v) = (btrim(&a), btrim(&b));
        let s = |w: &mut Vec<u32>, k: u64| { let (q, r) = ((k / 32) as usize, k % 32); if r > 0 { let mut c = 0; for x in w.iter_mut() { let t = (*x as u64) << r | c; *x = t as u32; c = t >> 32; } w.push(c as u32); } let mut z = vec![0u32; q]; z.extend_from_slice(w); while z.len() > 1 && z[z.len() - 1] == 0 { z.pop(); } *w = z; };
        if k >= 0 { s(&mut u, k as u64) } else { s(&mut v, (-k) as u64) }
        let x = mk(&u, neg, &v);
        let (q, st, kq) = bquo(&a, pa, &b, pb, 67);
        // 66 or 67 quotient bits; the 64 leading ones
        let lq = conc(blen(&q));
        let d = lq - 64;
        let all = q[0] as u64 | (q[1] as u64) << 32;
        let m = all >> d | (q[2] as u64) << (64 - d);
        let st = st | (all & ((1 << d) - 1) != 0);
        let e = lq as i64 + kq + k;
        let (f, exact) = x.to_f64();
        let (w, eq) = nearest_top(m, e, st, 53, -1074, 0x7ff0_0000_0000_0000);
        va!(f.to_bits() == (w | (neg as u64) << 63)); va!(exact == eq);
        out(f.to_bits());
        let (f, exact) = x.to_f32();
        let (w, eq) = nearest_top(m, e, st, 24, -149, 0x7f80_0000);
        va!(f.to_bits() as u64 == (w | (neg as u64) << 31)); va!(exact == eq);
        out(f.to_bits() as u64);
    }
}
