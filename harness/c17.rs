//! C17: integer modular exponent, Jacobi symbol, modular square root
use crate::vs::*;
use rmath::bigint::{BigInt, Nat};
fn nw(b: &BigInt) -> u64 { let n: &Nat = b.as_ref(); let w: &[u32] = n.as_ref(); w[0] as u64 | if w.len() > 1 { (w[1] as u64) << 32 } else { 0 } }
fn sgn(v: u64, s: bool) -> i64 { if s { 0i64.wrapping_sub(v as i64) } else { v as i64 } }
/// a^b mod n by repeated multiplication (tables; n below 2^16)
fn powmod(a: u64, b: u64, max: u64, n: u64) -> u64 { let mut r = 1 % n; for i in 0..max { r = ite(i < b, r.wrapping_mul(a) % n, r); } r }
fn one(v: u32) -> BigInt { BigInt::from(v) }
/// odd primes by index
fn prime(i: u64) -> BigInt {
    let p2 = |k: usize| one(1) << k;
    match i {
        100 => p2(31) - one(1), 101 => p2(61) - one(1), 102 => p2(89) - one(1),                 // 7 mod 8
        103 => p2(64) - one(59), 104 => p2(255) - one(19), 105 => p2(32) - one(99),              // 5 mod 8
        106 => p2(64) - p2(32) + one(1), 107 => p2(40) - one(87), 108 => one(65537), 109 => one(12289), // 1 mod 8
        110 => p2(33) - one(9), 111 => p2(128) - one(159), 112 => p2(96) - one(17),
        _ => one(i as u32),
    }
}
fn legendre(a: &BigInt, p: &BigInt) -> isize { // Euler's criterion with the modular power (C08)
    let e = (p.clone() - one(1)) >> 1;
    let r = a.rem_euclid(p.clone()).exp(&e, p);
    if r == 0u32 { 0 } else if r == 1u32 { 1 } else { va!(same_int(&(r + one(1)), p)); -1 }
}
harnesses! {
    // all x of p0 bits, y of p1 bits (sign p3 & 2 means negative: only when x and n are coprime), n of p2 bits, signs p3: x 1, y 2, n 4
    fn c17_exp_small() {
        let (a, b, n) = (bits(param(0)), bits(param(1)), bits(param(2)));
        assume(n != 0);
        let s = param(3);
        let (x, y, m) = (int(&[a as u32], s & 1 != 0), int(&[b as u32], s & 2 != 0), int(&[n as u32], s & 4 != 0));
        let r = (sgn(a, s & 1 != 0)).rem_euclid(n as i64) as u64;
        let w = powmod(r, b, (1 << param(1)) - 1, n);
        if s & 2 == 0 {
            let e = x.exp(&y, &m);
            va!(canon(&e) && !e.is_negative() && nw(&e) == w);
            out_int(&e);
        } else {
            let mut unit = false;
            for i in 0..(1u64 << param(2)) { unit |= r.wrapping_mul(i) % n == 1 % n; }
            assume(unit);
            let e = x.exp(&y, &m);
            va!(canon(&e) && !e.is_negative() && nw(&e) < n);
            va!(nw(&e).wrapping_mul(w) % n == 1 % n);
            out_int(&e);
        }
        va!(is_int(&x, &[a as u32], s & 1 != 0) && is_int(&y, &[b as u32], s & 2 != 0) && is_int(&m, &[n as u32], s & 4 != 0));
    }
    // modulus 0: the exact power for y > 0, 1 for y <= 0
    fn c17_exp_zero() {
        let a = norm_words(param(0));
        let na = param(1) != 0 && param(0) != 0;
        let k = param(2);
        let x = int(&a, na);
        let r = x.exp(&one(k as u32), &one(0));
        let mut z = Z::u(1);
        for _ in 0..k { z = z.mul(zsw(&a, na)); }
        zeq!(zint(&r), z); va!(canon(&r));
        let r = x.exp(&(-one(k as u32)), &one(0));
        va!(r == 1u32 || k == 0);
        out_int(&r);
    }
    // wide: base p0 bits, exponent p1 bits, modulus p2 bits, p3 symbolic low bits each, signs p4; oracle: multiplication and Euclidean remainder
    fn c17_exp_wide() {
        let (a, b, n) = (bitsel(param(0), param(3), 0, 2), bitsel(param(1), param(3), 0, 3), bitsel(param(2), param(3), 0, 4));
        let s = param(4);
        let (x, y, m) = (int(&a, s & 1 != 0), int(&b, false), int(&n, s & 2 != 0));
        let mut r = one(1).rem_euclid(m.clone());
        for i in (0..param(1)).rev() { r = (r.clone() * r.clone()).rem_euclid(m.clone()); if y.is_set_bit(i as usize) == Some(true) { r = (r * x.clone()).rem_euclid(m.clone()); } }
        let e = x.exp(&y, &m);
        va!(canon(&e) && same_int(&e, &r));
        out_int(&e);
    }
    // Jacobi symbol of every a of p0 bits (sign p1 & 1) over the odd n = p2 (negative: p1 & 2): by Zolotarev's lemma, the sign of the permutation x -> a*x of the residues
    fn c17_jacobi() {
        let (a, n) = (bits(param(0)), param(2));
        let s = param(1);
        let r = sgn(a, s & 1 != 0).rem_euclid(n as i64) as u64;
        let mut img = vec![];
        for i in 0..n { img.push(r.wrapping_mul(i) % n); }
        let mut zero = false; let mut odd = 0u64;
        for i in 1..n as usize { zero |= img[i] == 0; }
        for i in 0..n as usize { for j in 0..i { odd ^= (img[j] > img[i]) as u64; } }
        let neg = s & 3 == 3 && a != 0;
        let want = ite(zero, 1, ite((odd != 0) != neg, 0, 2));
        let (x, m) = (int(&[a as u32], s & 1 != 0 && a != 0), int(&[n as u32], s & 2 != 0));
        match x.jacobi(&m) { Some(v) => { va!((v + 1) as u64 == want); out((v + 1) as u64); } None => va!(false) }
        va!(is_int(&x, &[a as u32], s & 1 != 0) && is_int(&m, &[n as u32], s & 2 != 0));
    }
    // over a wide prime p = prime(p0), a of p1 bits with p2 low and p3 high symbolic bits, sign p4
    fn c17_jacobi_wide() {
        let p = prime(param(0));
        let x = int(&bitsel(param(1), param(2), param(3), 2), param(4) != 0);
        let l = legendre(&x, &p);
        va!(x.jacobi(&p) == Some(l));
        // multiplicative in the modulus
        let q = prime(param(5));
        let lq = legendre(&x, &q);
        va!(x.jacobi(&(p * q)) == Some(l * lq));
        out((l + 1) as u64);
    }
    fn c17_jacobi_none() {
        let x = int(&norm_words(param(0)), param(1) != 0);
        let nan = BigInt::from(Nat::default());
        va!(x.jacobi(&one(0)).is_none() && x.jacobi(&nan).is_none() && nan.jacobi(&x).is_none() && nan.jacobi(&one(3)).is_none());
        va!(nan.mod_sqrt(&one(7)).is_none() && x.mod_sqrt(&nan).is_none());
        va!(nan.exp(&one(2), &one(3)).is_nan() && one(2).exp(&nan, &one(3)).is_nan() && one(2).exp(&one(3), &nan).is_nan());
    }
    // square roots modulo the small prime p1 of every a of p0 bits, sign p2
    fn c17_sqrt() {
        let (a, n) = (bits(param(0)), param(1));
        let neg = param(2) != 0;
        let r = sgn(a, neg).rem_euclid(n as i64) as u64;
        let mut square = false;
        for i in 0..n { square |= i * i % n == r; }
        let x = int(&[a as u32], neg);
        match x.mod_sqrt(&one(n as u32)) {
            Some(y) => { va!(canon(&y) && !y.is_negative() && nw(&y) < n); va!(nw(&y).wrapping_mul(nw(&y)) % n == r); out_int(&y); }
            None => { va!(!square); out(99); }
        }
    }
    // wide prime(p0): the root of a square s*s exists and squares back; a = s*s + k*p with sign variants
    fn c17_sqrt_wide() {
        let p = prime(param(0));
        let s = int(&bitsel(param(1), param(2), param(3), 3), false);
        let sq = (s.clone() * s.clone()).rem_euclid(p.clone());
        let a = match param(4) { 0 => sq.clone(), 1 => sq.clone() - p.clone(), 2 => sq.clone() + p.clone() * one(3), _ => s.clone() * s.clone() };
        match a.mod_sqrt(&p) {
            Some(y) => { va!(canon(&y) && !y.is_negative() && y < p); va!((y.clone() * y.clone() - a).rem_euclid(p) == 0u32); out_int(&y); }
            None => va!(false),
        }
    }
    // wide prime(p0), any a: None exactly for non-residues (Euler's criterion)
    fn c17_sqrt_any() {
        let p = prime(param(0));
        let a = int(&bitsel(param(1), param(2), param(3), 5), param(4) != 0);
        let l = legendre(&a, &p);
        match a.mod_sqrt(&p) {
            Some(y) => { va!(l >= 0 && canon(&y) && !y.is_negative() && y < p); va!((y.clone() * y.clone() - a).rem_euclid(p) == 0u32); }
            None => va!(l < 0),
        }
        out((l + 1) as u64);
    }
}
