//! C18: range products and binomial coefficients
use crate::vs::*;
use rmath::bigint::BigInt;
/// product of lo, lo+1, ..., lo+n-1, exactly
fn prod(lo: i64, n: u64) -> Z { let mut z = Z::u(1); for i in 0..n { z = z.mul(Z::i(lo.wrapping_add(i as i64))); } z }
fn ok(r: &BigInt, e: Z) { zeq!(zint(r), e); va!(canon(r)); out_int(r); }
harnesses! {
    // p1 factors from every 64-bit start of the class p0 (0 any, 1 non-negative < 2^32, 2 negative >= -2^32, 3 at least 2^62, 4 near i64::MIN, 5 near i64::MAX)
    fn c18_range() {
        let n = param(1);
        let a = match param(0) { 0 => i64s(), 1 => u32s() as i64, 2 => -1 - u32s() as i64, 3 => (1 << 62) | sym(20) as i64, 4 => i64::MIN + bits(4) as i64, 5 => i64::MAX - 15 + bits(3) as i64, _ => bits(5) as i64 - 16 };
        assume(a <= i64::MAX - n as i64);
        let r = if n == 0 { assume(a > i64::MIN); BigInt::mul_range(a, a - 1) } else { BigInt::mul_range(a, a + (n as i64 - 1)) };
        ok(&r, prod(a, n));
    }
    // small bounds, both symbolic (p0 bits around zero)
    fn c18_small() {
        let k = param(0);
        let h = 1i64 << (k - 1);
        let (a, b) = (bits(k) as i64 - h, bits(k) as i64 - h);
        let r = BigInt::mul_range(a, b);
        let mut z = Z::u(1);
        let mut zero = false;
        for i in -h..h { let inside = i >= a && i <= b; zero |= inside && i == 0; if i != 0 { let f = ite(inside, i as u64, 1); z = z.mul(Z::i(f as i64)); } }
        z = z.mul(Z::u(ite(zero, 0, 1)));
        ok(&r, z);
    }
    // ranges that contain zero or are empty: any bounds
    fn c18_zero() {
        let (a, b) = (i64s(), i64s());
        match param(0) {
            0 => { assume(a <= 0 && b >= 0); ok(&BigInt::mul_range(a, b), Z::u(0)); }
            1 => { assume(a > b); ok(&BigInt::mul_range(a, b), Z::u(1)); }
            2 => { assume(a < 0); ok(&BigInt::mul_range(a, a), Z::i(a)); }
            _ => { assume(a > 0); ok(&BigInt::mul_range(a, a), Z::i(a)); }
        }
    }
    // long concrete-length ranges: p1 factors starting at p0 + (2 symbolic bits), negated if p2
    fn c18_long() {
        let a = param(0) as i64 + bits(2) as i64;
        let n = param(1);
        if param(2) == 0 { ok(&BigInt::mul_range(a, a + (n as i64 - 1)), prod(a, n)); }
        else { let h = -a; let lo = h - (n as i64 - 1); ok(&BigInt::mul_range(lo, h), prod(lo, n)); }
    }
    // every n, k of p0 bits: Pascal's triangle
    fn c18_binomial() {
        let m = 1usize << param(0);
        let mut t = vec![0u64; m * m];
        for i in 0..m { t[i * m] = 1; for j in 1..=i { t[i * m + j] = t[(i - 1) * m + j - 1] + if j < i { t[(i - 1) * m + j] } else { 0 }; } }
        let (n, k) = (bits(param(0)), bits(param(0)));
        let r = BigInt::binomial(n as i64, k as i64);
        let e = t[n as usize * m + k as usize];
        ok(&r, Z::u(e));
    }
    // larger n = p0 + 2 symbolic bits, k = p1 or n - p1: C(n,k) * k! = n (n-1) ... (n-k+1)
    fn c18_binomial_wide() {
        let n = param(0).wrapping_add(bits(2)) as i64;
        let j = param(1);
        let k = if param(2) == 0 { j as i64 } else { n - j as i64 };
        let r = BigInt::binomial(n, k);
        let mut f = Z::u(1);
        for i in 1..=j { f = f.mul(Z::u(i)); }
        zeq!(zint(&r).mul(f), prod(n - j as i64 + if j == 0 { 0 } else { 1 }, j)); va!(canon(&r)); out_int(&r);
    }
    // k > n: zero; any 63-bit n for k = 0, 1, n - 1, n
    fn c18_binomial_edge() {
        let n = (u64s() >> 1) as i64;
        match param(0) {
            0 => ok(&BigInt::binomial(n, 0), Z::u(1)),
            1 => ok(&BigInt::binomial(n, n), Z::u(1)),
            2 => { let n = n & 0xff | (param(1) << 8) as i64; ok(&BigInt::binomial(n, 1), Z::i(n)) }
            _ => { let d = bits(3); let n = bits(3) as i64; ok(&BigInt::binomial(n, n + 1 + d as i64), Z::u(0)) }
        }
    }
}
