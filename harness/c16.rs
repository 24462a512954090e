//! C16: gcd, Bezout coefficients, modular inverse, linear congruences
use crate::vs::*;
use rmath::bigint::{BigInt, Nat};
fn gcd_ok(a: &[u32], na: bool, b: &[u32], nb: bool) {
    let (x, y) = (int(a, na), int(b, nb));
    let (za, zb) = (zsw(a, na), zsw(b, nb));
    let (d, u, v) = x.gcd(y.clone());
    va!(canon(&d)); va!(canon(&u)); va!(canon(&v)); va!(!d.is_negative());
    zeq!(za.mul(zint(&u)).add(zb.mul(zint(&v))), zint(&d));
    // d divides both (the quotient is a witness, whoever computed it); with the identity above d is the greatest
    if d == 0u32 { zeq!(za, Z::u(0)); zeq!(zb, Z::u(0)); }
    else { let (p, q) = (x.clone() / d.clone(), y.clone() / d.clone()); zeq!(zint(&p).mul(zint(&d)), za); zeq!(zint(&q).mul(zint(&d)), zb); }
    va!(is_int(&x, a, na) && is_int(&y, b, nb));
    out_int(&d); out_int(&u); out_int(&v);
}
/// a * i = 1 (mod n), 0 <= i < |n|
fn inv_ok(a: &[u32], na: bool, n: &[u32], nn: bool) {
    let (x, m) = (int(a, na), int(n, nn));
    let i = x.mod_inverse(m.clone());
    va!(canon(&i) && !i.is_negative());
    zlt!(zint(&i), Z::words(n));
    let t = x.clone() * i.clone() - BigInt::from(1u32);
    let q = t.clone() / m.clone();
    zeq!(zsw(a, na).mul(zint(&i)), zint(&q).mul(zsw(n, nn)).add(Z::u(1)));
    va!(is_int(&x, a, na) && is_int(&m, n, nn));
    out_int(&i);
}
fn gcd_tab(a: u64, b: u64, k: u64) -> u64 { let mut g = ite(a > b, a, b); for d in 1..=(1u64 << k) { g = ite(a != 0 && b != 0 && a % d == 0 && b % d == 0, d, ite(a != 0 && b != 0 && d == 1, 1, g)); } g }
fn nw(b: &BigInt) -> u64 { let n: &Nat = b.as_ref(); let w: &[u32] = n.as_ref(); w[0] as u64 | if w.len() > 1 { (w[1] as u64) << 32 } else { 0 } }
harnesses! {
    // all values of p0 / p1 bits, signs p2
    fn c16_gcd_small() {
        let (a, b) = (bits(param(0)), bits(param(1)));
        let (na, nb) = (param(2) & 1 != 0, param(2) & 2 != 0);
        gcd_ok(&[a as u32], na && a != 0, &[b as u32], nb && b != 0);
        let g = gcd_tab(a, b, param(0).max(param(1)));
        va!(nw(&int(&[a as u32], na).gcd(int(&[b as u32], nb)).0) == g);
    }
    // wider operands: p0 / p1 bits, p2 low + p3 high symbolic bits of each, pattern p4, signs p5
    fn c16_gcd_bits() {
        let (a, b) = (bitsel(param(0), param(2), param(3), param(4)), bitsel(param(1), param(2), param(3), param(4) + 1));
        gcd_ok(&a, param(5) & 1 != 0, &b, param(5) & 2 != 0);
    }
    // one operand is zero, the other fully symbolic; or both are the same object
    fn c16_gcd_zero() {
        let a = if param(2) < 4 || param(0) == 0 { norm_words(param(0)) } else { bitsel(param(0) * 32, 2, 2, 2) };
        let na = param(1) & 1 != 0;
        let na = na && param(0) != 0;
        match param(2) { 0 => gcd_ok(&a, na, &[0], false), 1 => gcd_ok(&[0], false, &a, na), 2 => gcd_ok(&a, na, &a, na), 3 => gcd_ok(&a, na, &a, !na && param(0) != 0), 4 => gcd_ok(&a, na, &[1], param(1) & 2 != 0), _ => gcd_ok(&[1], param(1) & 2 != 0, &a, na) }
    }
    // common factor: a = g*p, b = g*q
    fn c16_gcd_factor() {
        let g = bitsel(param(0), param(1), 0, param(2));
        let (p, q) = (bits(param(3)) as u32, bits(param(3)) as u32);
        let m = |k: u32| { let mut v = vec![]; let mut c = 0u64; for &x in &g { let t = x as u64 * k as u64 + c; v.push(t as u32); c = t >> 32; } if c != 0 { v.push(c as u32); } if k == 0 { v = vec![0]; } v };
        let (a, b) = (m(p), m(q));
        gcd_ok(&a, param(4) & 1 != 0 && p != 0, &b, param(4) & 2 != 0 && q != 0);
    }
    // inverse of every unit of p0 bits modulo every modulus of p1 bits, signs p2
    fn c16_inv_small() {
        let (a, n) = (bits(param(0)), bits(param(1)));
        assume(n != 0 && gcd_tab(a, n, param(0).max(param(1))) == 1);
        inv_ok(&[a as u32], param(2) & 1 != 0 && a != 0, &[n as u32], param(2) & 2 != 0);
    }
    // wide modulus: a odd, n a power of two (plus 0), or n odd and a a power of two
    fn c16_inv_wide() {
        let (la, ln) = (param(0), param(1));
        let p2 = |k: u64| { let mut v = vec![0u32; (k / 32) as usize + 1]; v[(k / 32) as usize] = 1 << (k % 32); v };
        let mut a = if param(4) == 0 { bitsel(la, param(2), param(2), param(3)) } else { p2(la) };
        let mut n = if param(4) == 0 { p2(ln) } else { bitsel(ln, param(2), param(2), param(3)) };
        if param(4) == 0 { a[0] |= 1; } else { n[0] |= 1; }
        inv_ok(&a, param(5) & 1 != 0, &n, param(5) & 2 != 0);
    }
    // a*x = b (mod n): all solutions, each once, exactly when gcd(a, n) divides b
    fn c16_linear() {
        let k = param(0);
        let (a, b, n) = (bits(k), bits(k), param(1));
        let sg = param(2);
        let (na, nb, nn) = (sg & 1 != 0, sg & 2 != 0, sg & 4 != 0);
        let e = |v: u64, s: bool| if s { 0i64.wrapping_sub(v as i64) } else { v as i64 };
        let r = int(&[a as u32], na).solve_mod_linear_equation(int(&[b as u32], nb), int(&[n as u32], nn));
        let (ia, ib) = (e(a, na).rem_euclid(n as i64) as u64, e(b, nb).rem_euclid(n as i64) as u64);
        // the set of solutions as a bit mask
        let mut want = 0u64;
        for x in 0..n { want |= ((ia.wrapping_mul(x) % n == ib) as u64) << x; }
        match r {
            None => va!(want == 0),
            Some(v) => { let mut got = 0u64; let mut ok = true; for s in &v { let w = nw(s); ok &= canon(s) && !s.is_negative() && w < n && (got >> (w & 63)) & 1 == 0; got |= 1 << (w & 63); } va!(ok); va!(got == want && !v.is_empty()); out(v.len() as u64); }
        }
    }
    fn c16_nan() {
        let a = int(&norm_words(param(0)), param(1) != 0);
        let nan = BigInt::from(Nat::default());
        let t = |r: (BigInt, BigInt, BigInt)| r.0.is_nan() && r.1.is_nan() && r.2.is_nan();
        va!(t(a.gcd(nan.clone())) && t(nan.gcd(a.clone())));
        va!(a.mod_inverse(nan.clone()).is_nan() && nan.mod_inverse(a.clone()).is_nan());
        va!(a.solve_mod_linear_equation(nan.clone(), a.clone()).is_none() && nan.solve_mod_linear_equation(a.clone(), a.clone()).is_none() && a.solve_mod_linear_equation(a.clone(), nan).is_none());
    }
}
