//! C25: Float conversions
use crate::vs::*;
#[macro_use]
#[path = "fl.rs"]
pub mod fl;
use fl::*;
/// x is exactly (-1)^neg v 2^k with the precision (v < 2^64, v = 0: a zero)
fn is_exact(x: &Float, neg: bool, v: u64, k: i64, prec: u64) {
    let r = rd(x);
    va!(r.prec == prec); va!(r.acc == 1); va!(r.neg == neg);
    if v == 0 { va!(r.kind == ZERO); } else {
        let lz = v.leading_zeros();
        va!(r.kind == FIN && r.fits); va!(r.m == v << lz); va!(r.e == 64 - lz as i64 + k);
    }
    va!(mode_no(x.get_mode()) == 0);
}
/// the double / single nearest to m 2^(e-64), m with bit 63 set: magnitude bits and 0 exact / 1 rounded down / 2 rounded up in magnitude
fn nearest(m: u64, e: i64, st: bool, p: i64, emin: i64, inf: u64) -> (u64, u64) {
    let u = (e - p).max(emin);
    let drop = u - (e - 64);
    if drop > 64 { return (0, 1); }
    let m = m as u128;
    let keep = (m >> drop) as u64;
    let rest = m & ((1u128 << drop) - 1);
    let half = 1u128 << (drop - 1);
    let up = (rest > half) | ((rest == half) & (st | (keep & 1 == 1)));
    let exact = (rest == 0) & !st;
    if (u - emin) as u64 >= 4096 { return (inf, 2); }
    let bits = (((u - emin) as u64) << (p - 1)).wrapping_add(keep).wrapping_add(up as u64);
    let over = bits >= inf;
    (ite(over, inf, bits), ite(over, 2, ite(exact, 0, ite(up, 2, 1))))
}
fn acc_of(dir: u64, neg: bool) -> u64 { ite(dir == 0, 1, ite((dir == 2) != neg, 2, 0)) }
fn floats(x: &Float, neg: bool, m: u64, e: i64, st: bool) {
    let (f, a) = x.to_f64();
    let (w, d) = nearest(m, e, st, 53, -1074, 0x7ff0_0000_0000_0000);
    va!(f.to_bits() == (w | (neg as u64) << 63)); va!(acc(a) == acc_of(d, neg));
    out(f.to_bits());
    let (f, a) = x.to_f32();
    let (w, d) = nearest(m, e, st, 24, -149, 0x7f80_0000);
    va!(f.to_bits() as u64 == (w | (neg as u64) << 31)); va!(acc(a) == acc_of(d, neg));
    out(f.to_bits() as u64);
}
/// truncation of m 2^(e-64) (plus a positive part below one unit of m when st)
fn truncs(x: &Float, neg: bool, m: u64, e: i64, st: bool) {
    let (i, a) = x.truncate_to_i64().unwrap();
    let (u, b) = x.truncate_to_u64().unwrap();
    let whole = if e <= 0 { 0 } else if e >= 64 { m } else { m >> (64 - e) };
    let exact = (if e <= 0 { false } else if e >= 64 { true } else { m << e == 0 }) & !st;
    let low = if neg { 2 } else { 0 };
    // u64
    if neg { va!(u == 0); va!(acc(b) == 2); }
    else if e > 64 { va!(u == u64::MAX); va!(acc(b) == 0); }
    else { va!(u == whole); va!(acc(b) == ite(exact, 1, 0)); }
    // i64
    if e > 64 || (e == 64 && !neg) { va!(i == if neg { i64::MIN } else { i64::MAX }); va!(acc(a) == low); }
    else if e == 64 { va!(i == i64::MIN); va!(acc(a) == ite((m == 1 << 63) & !st, 1, 2)); }
    else { va!(i == if neg { (whole as i64).wrapping_neg() } else { whole as i64 }); va!(acc(a) == ite(exact, 1, low)); }
    out(i as u64); out(u);
}
/// the 64 leading bits of a p-bit number and whether anything follows
fn top64(a: &B, p: u64) -> (u64, bool) { let v = bshl(a, (L as u64) * 32 - p); let mut lo = 0; for i in 0..L - 2 { lo |= v[i]; } ((v[L - 1] as u64) << 32 | v[L - 2] as u64, lo != 0) }
harnesses! {
    // p0 type, p1 leading zero bits of the magnitude (the type's width: the value zero), p2 sign; all other bits symbolic
    fn c25_from_int() {
        let w = [64, 32, 16, 8][param(0) as usize & 3];
        let (lz, neg) = (param(1), param(2) != 0);
        let signed = param(0) >= 4;
        if lz > w || (!signed && neg) || (signed && lz == 0 && !neg) { out(0); return reach(0); }
        let v = if lz == w { 0 } else if signed && lz == 0 { 1 << (w - 1) } else { (sym(w as u32) | 1 << (w - 1)) >> lz };
        let i = if neg { (v as i64).wrapping_neg() } else { v as i64 };
        let x = match param(0) { 0 => Float::from(v), 1 => Float::from(v as u32), 2 => Float::from(v as u16), 3 => Float::from(v as u8), 4 => Float::from(i), 5 => Float::from(i as i32), 6 => Float::from(i as i16), _ => Float::from(i as i8) };
        is_exact(&x, neg && v != 0, v, 0, 64);
        out_fl(&x);
    }
    // p0: 0 f64 / 1 f32 with the exponent field p1 and all mantissa bits symbolic (subnormals: p2 low bits symbolic, the rest pattern p3), sign symbolic
    fn c25_from_float() {
        let single = param(0) == 1;
        let (mb, bias) = if single { (23, 127) } else { (52, 1023) };
        let ef = param(1);
        let neg = bools();
        let m = if ef != 0 { sym(mb) } else if param(2) >= 64 { (sym(mb) | 1 << (mb - 1)) >> param(3) } else { (match param(3) { 0 => 0, 1 => ((1u64 << mb) - 1) & !((1 << param(2)) - 1), k => 1 << (mb as u64 - k) }) | bits(param(2)) };
        let bits = (neg as u64) << (if single { 31 } else { 63 }) | ef << mb | m;
        let x = if single { Float::from(f32::from_bits(bits as u32)) } else { Float::from(f64::from_bits(bits)) };
        let top = if single { 255 } else { 2047 };
        if ef == top { if m == 0 { let r = rd(&x); va!(r.kind == INF && r.neg == neg && r.acc == 1 && r.prec == 53); } else { va!(x.is_nan()); } }
        else if ef == 0 { is_exact(&x, neg, m, 1 - bias - mb as i64, 53); }
        else { is_exact(&x, neg, m | 1 << mb, ef as i64 - bias - mb as i64, 53); }
        // and back, losslessly
        if ef != top {
            if single { let (f, a) = x.to_f32(); va!(f.to_bits() as u64 == bits); va!(acc(a) == 1); } else { let (f, a) = x.to_f64(); va!(f.to_bits() == bits); va!(acc(a) == 1); }
        } else if m == 0 {
            if single { let (f, a) = x.to_f32(); va!(f.to_bits() as u64 == bits); va!(acc(a) == 1); } else { let (f, a) = x.to_f64(); va!(f.to_bits() == bits); va!(acc(a) == 1); }
            let (i, a) = x.truncate_to_i64().unwrap(); let (u, b) = x.truncate_to_u64().unwrap();
            va!(i == if neg { i64::MIN } else { i64::MAX }); va!(acc(a) == if neg { 2 } else { 0 }); va!(u == if neg { 0 } else { u64::MAX }); va!(acc(b) == if neg { 2 } else { 0 });
        } else { if single { va!(x.to_f32().0.is_nan()); } else { va!(x.to_f64().0.is_nan()); } }
        out_fl(&x);
    }
    // zeros convert to signed zeros
    fn c25_zero() {
        let neg = bools();
        let x = special(ZERO, neg);
        let (f, a) = x.to_f64(); va!(f.to_bits() == (neg as u64) << 63); va!(acc(a) == 1);
        let (f, a) = x.to_f32(); va!(f.to_bits() == (neg as u32) << 31); va!(acc(a) == 1);
        let (i, a) = x.truncate_to_i64().unwrap(); va!(i == 0); va!(acc(a) == 1);
        let (u, a) = x.truncate_to_u64().unwrap(); va!(u == 0); va!(acc(a) == 1);
        out(0);
    }
    // integers of p0 words (fully symbolic, top word with p1 leading zero bits), sign p2: exact, precision the larger of 64 and the length
    fn c25_from_big() {
        let n = param(0) as usize;
        let mut w = words(n as u64);
        w[n - 1] = (w[n - 1] | 1 << 31) >> param(1);
        let neg = param(2) == 1;
        let x = if param(2) == 2 { Float::from(Nat::from(w.clone())) } else { Float::from(int(&w, neg)) };
        let len = 32 * n as u64 - param(1);
        let mut v = 0u128; for i in 0..n { v |= (w[i] as u128) << (32 * i); }
        if len <= 64 { is_exact(&x, neg, v as u64, 0, 64); } else {
            let r = rd(&x);
            va!(r.kind == FIN && r.neg == neg && r.prec == len && r.acc == 1 && r.e == len as i64);
            va!(r.m == (v >> (len - 64)) as u64);
            let (hi, lo) = ((v >> 64) as u64, v as u64);
            let mut h = Float::from(hi); h.set_precision(200); let mut s = Float::default(); s.set_mant_exp(h, 64);
            let y = s + Float::from(lo);
            va!(x == if neg { -y } else { y });
        }
        out_fl(&x);
    }
    // the value zero of the integer types
    fn c25_big_zero() { for x in [Float::from(Nat::from(0u32)), Float::from(BigInt::from(0u32)), Float::from(Rat::from(0u32))] { let r = rd(&x); va!(r.kind == ZERO && !r.neg && r.prec == 64 && r.acc == 1); } va!(Float::from(Nat::default()).is_nan()); out(0); }
    // rationals: p0/p1 bits of numerator / denominator, p2 p3 patterns, p4 sign
    fn c25_from_rat() {
        let (pa, pb) = (param(0), param(1));
        let (a, b) = (mant(pa, 2, 1, param(2)), mant(pb, 2, 1, param(3)));
        let neg = param(4) == 1;
        let wv = |v: u128| -> Vec<u32> { let mut w: Vec<u32> = (0..4).map(|i| (v >> (32 * i)) as u32).collect(); while w.len() > 1 && w[w.len() - 1] == 0 { w.pop(); } w };
        let q = Rat::from_frac_bigint(&int(&wv(a), neg), &int(&wv(b), false)).ok().unwrap();
        let dl: &Nat = q.denominator().as_ref(); let nl: &Nat = q.numerator().as_ref();
        let integer = dl == &1u32;
        let p = (nl.bits_len().max(if integer { 0 } else { dl.bits_len() })).max(64) as u64;
        let x = Float::from(q.deep_clone());
        let s = 127 - pa;
        let n = a << s;
        let (u, r) = (n / b, n % b != 0);
        same!(&x, &rounded(neg, u, r, -(s as i64), p, 0));
        out_fl(&x);
    }
    // truncation: mantissa of p1 bits fully symbolic, exponent p0 - 10
    fn c25_trunc() {
        let (e, p) = (param(0) as i64 - 10, param(1));
        let neg = param(2) != 0;
        let a = sym(p as u32); assume(a >> (p - 1) == 1);
        let x = flp(neg, a as u128, e - p as i64, p, 0);
        truncs(&x, neg, a << (64 - p), e, false);
    }
    // truncation of wide values: p1 bits, p3 pattern, low and high bits symbolic
    fn c25_trunc_wide() {
        let (e, p) = (param(0) as i64 - 10, param(1));
        let neg = param(2) != 0;
        let a = mant(p, 2, 2, param(3));
        let x = flp(neg, a, e - p as i64, p, 0);
        truncs(&x, neg, (a >> (p - 64)) as u64, e, a << (128 - (p - 64)) != 0);
    }
    // to f32/f64: mantissa of p1 bits fully symbolic, exponent p0 - 1200, mode p3 of the Float irrelevant
    fn c25_to_float() {
        let (e, p) = (param(0) as i64 - 1200, param(1));
        let neg = param(2) != 0;
        let a = sym(p as u32); assume(a >> (p - 1) == 1);
        let x = flp(neg, a as u128, e - p as i64, p, param(3));
        floats(&x, neg, a << (64 - p), e, false);
    }
    fn c25_to_float_wide() {
        let (e, p) = (param(0) as i64 - 1200, param(1));
        let neg = param(2) != 0;
        let a = mant(p, 2, 3, param(3));
        let x = flp(neg, a, e - p as i64, p, 2);
        floats(&x, neg, (a >> (p - 64)) as u64, e, a << (128 - (p - 64)) != 0);
    }
    // values of any length: p1 bits, p3 pattern, low and high bits symbolic; truncation at exponent p0 - 10
    fn c25_trunc_long() {
        let (e, p) = (param(0) as i64 - 10, param(1));
        let neg = param(2) != 0;
        let a = bmant(p, 2, 2, param(3));
        let (m, st) = top64(&a, p);
        truncs(&bfl(neg, &a, e - p as i64, p, 0), neg, m, e, st);
    }
    // to f32/f64, exponent p0 - 1200
    fn c25_to_float_long() {
        let (e, p) = (param(0) as i64 - 1200, param(1));
        let neg = param(2) != 0;
        let a = bmant(p, 2, 3, param(3));
        let (m, st) = top64(&a, p);
        floats(&bfl(neg, &a, e - p as i64, p, 1), neg, m, e, st);
    }
    // integers of p0 bits, pattern p1, sign p2: exact with as much precision as bits
    fn c25_from_big_long() {
        let p = param(0);
        let a = bmant(p, 3, 2, param(1));
        let neg = param(2) == 1;
        let w = &a[..((p + 31) / 32) as usize];
        let x = if param(2) == 2 { Float::from(Nat::from(w.to_vec())) } else { Float::from(int(w, neg)) };
        let r = rd(&x);
        va!(r.kind == FIN && r.neg == neg && r.prec == p && r.acc == 1 && r.e == p as i64);
        // read off 64 bits at a time, the bits read subtracted
        let mut v = [0u32; L];
        let mut y = x.abs();
        for _ in 0..(p + 63) / 64 {
            let r = rd(&y);
            if r.kind == ZERO { break; }
            let e = conc(r.e as u64) as i64;
            va!(e > 0 && e <= p as i64);
            v = badd(&v, &if e >= 64 { bshl(&b1(r.m), e as u64 - 64) } else { va!(r.m << e == 0); b1(r.m >> (64 - e)) });
            let mut h = Float::default(); h.set_mant_exp(Float::from(r.m), e as isize - 64);
            y = y - h;
        }
        va!(rd(&y).kind == ZERO);
        va!(bcmp0(&v, &a));
        out_fl(&x);
    }
    // rationals: p0/p1 bits of numerator / denominator, p2 p3 patterns, p4 sign
    fn c25_from_rat_long() {
        let (pa, pb, neg) = (param(0), param(1), param(4) == 1);
        let (a, b) = (bmant(pa, 1, 1, param(2)), bmant(pb, 1, 1, param(3)));
        let q = Rat::from_frac_bigint(&int(&a[..((pa + 31) / 32) as usize], neg), &int(&b[..((pb + 31) / 32) as usize], false)).ok().unwrap();
        let dl: &Nat = q.denominator().as_ref(); let nl: &Nat = q.numerator().as_ref();
        let integer = dl == &1u32;
        let p = conc((nl.bits_len().max(if integer { 0 } else { dl.bits_len() })).max(64) as u64);
        let x = Float::from(q.deep_clone());
        let (v, st, k) = bquo(&a, pa, &b, pb, p + 3);
        bsame(&x, bround(neg, &v, st, k, p, 0), neg, p);
        out_fl(&x);
    }
}
