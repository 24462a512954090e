//! C20: rational arithmetic is exact and in lowest terms
use crate::vs::*;
use rmath::bigint::{BigInt, Nat, Rat, RatErrKind};
#[path = "big.rs"]
pub mod big;
use big::*;
const K: [u64; 8] = [1, 6, 10, 1 << 33, 3486784401, 0x1_0000_0001, 0xffff_ffff, 1 << 20];
fn w2(v: u128) -> Vec<u32> { let w = [v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32]; let mut n = 4; while n > 1 && w[n - 1] == 0 { n -= 1; } w[..n].to_vec() }
/// machine value of a magnitude of at most four words (anything longer fails the caller's check)
fn mag(n: &Nat) -> u128 { let w: &[u32] = n.as_ref(); if w.len() > 4 || w.is_empty() { return u128::MAX; } let mut v = 0u128; for i in 0..w.len() { v |= (w[i] as u128) << (32 * i); } v }
fn gcd(mut a: u128, mut b: u128, steps: u32) -> u128 {
    for _ in 0..steps { let z = b == 0; let d = b | z as u128; let r = a % d; let keep = 0u128.wrapping_sub(z as u128); a = (a & keep) | (b & !keep); b = r & !keep; }
    a
}
/// n/d in lowest terms, zero as 0/1
fn red(n: u128, d: u128, steps: u32) -> (u128, u128) { let g = gcd(n, d, steps); let g = g | (g == 0) as u128; (n / g, d / g) }
/// x is the rational (-1)^neg n/d (given in lowest terms), positive denominator
fn is_red(x: &Rat, neg: bool, (n, d): (u128, u128)) {
    va!(!x.is_nan());
    let (p, q) = (x.numerator(), x.denominator());
    va!(canon(p) && canon(q) && q.is_positive());
    va!(mag(p.as_ref()) == n && mag(q.as_ref()) == d);
    va!(p.is_negative() == (neg && n != 0));
    va!(x.signnum() == Some(if n == 0 { 0 } else if neg { -1 } else { 1 }));
    va!(x.is_integer() == Some(d == 1));
    out_int(p); out_int(q);
}
fn is_rat(x: &Rat, neg: bool, n: u128, d: u128, steps: u32) { is_red(x, neg, red(n, d, steps)) }
fn mk(n: u128, neg: bool, d: u128, nd: bool) -> Rat { match Rat::from_frac_bigint(&int(&w2(n), neg), &int(&w2(d), nd)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } } }
/// sign-magnitude sum
fn sadd(a: u128, na: bool, b: u128, nb: bool) -> (u128, bool) {
    let s = na == nb;
    let ge = a >= b;
    let m = |c: bool| 0u128.wrapping_sub(c as u128);
    let diff = (a.wrapping_sub(b) & m(ge)) | (b.wrapping_sub(a) & m(!ge));
    ((a.wrapping_add(b) & m(s)) | (diff & m(!s)), if s { na } else { na == ge })
}
fn op(kind: u64, x: &Rat, y: &Rat) -> Rat {
    match kind {
        0 => x.clone() + y.clone(), 1 => x.clone() - y.clone(), 2 => x.clone() * y.clone(), 3 => x.clone() / y.clone(),
        4 => { let mut z = x.deep_clone(); z += y.clone(); z } 5 => { let mut z = x.deep_clone(); z -= y.clone(); z }
        6 => { let mut z = x.deep_clone(); z *= y.clone(); z } _ => { let mut z = x.deep_clone(); z /= y.clone(); z }
    }
}
/// kind 0..7, operands (-1)^na a/b and (-1)^nc c/d (not necessarily reduced)
fn arith(kind: u64, a: u128, na: bool, b: u128, c: u128, nc: bool, d: u128, steps: u32) {
    let (x, y) = (mk(a, na, b, false), mk(c, nc, d, false));
    let (x0, y0) = (x.deep_clone(), y.deep_clone());
    let z = op(kind, &x, &y);
    same(&x, &x0); same(&y, &y0);
    match kind & 3 {
        0 => { let (s, n) = sadd(a.wrapping_mul(d), na, c.wrapping_mul(b), nc); is_rat(&z, n, s, b.wrapping_mul(d), steps) }
        1 => { let (s, n) = sadd(a.wrapping_mul(d), na, c.wrapping_mul(b), !nc); is_rat(&z, n, s, b.wrapping_mul(d), steps) }
        2 => is_rat(&z, na != nc, a.wrapping_mul(c), b.wrapping_mul(d), steps),
        _ => is_rat(&z, na != nc, a.wrapping_mul(d), b.wrapping_mul(c), steps),
    }
}
/// x = n/d (any common factor, d may be negative), in lowest terms with a positive denominator
fn wide_red(x: &Rat, n: Z, d: Z) {
    va!(!x.is_nan());
    let (p, q) = (x.numerator(), x.denominator());
    va!(canon(p) && canon(q) && q.is_positive());
    zeq!(zint(p).mul(d), n.mul(zint(q)));
    let (u, v): (&Nat, &Nat) = (p.as_ref(), q.as_ref());
    let (u, v): (&[u32], &[u32]) = (u.as_ref(), v.as_ref());
    if u.len() == 1 && u[0] == 0 { va!(v.len() == 1 && v[0] == 1); } else { let g = bgcd(u, v); va!(g.len() == 1 && g[0] == 1); }
    out_int(p); out_int(q);
}
fn same(x: &Rat, y: &Rat) { va!(same_int(x.numerator(), y.numerator()) && same_int(x.denominator(), y.denominator())); }
fn nz(v: u64) -> u128 { assume(v != 0); v as u128 }
harnesses! {
    // every pair of rationals whose terms have at most p1/p2/p3/p4 bits; signs p5
    fn c20_small() {
        let (a, b, c, d) = (bits(param(1)) as u128, nz(bits(param(2))), bits(param(3)) as u128, nz(bits(param(4))));
        if param(0) & 3 == 3 { assume(c != 0); }
        arith(param(0), a, param(5) & 1 != 0, b, c, param(5) & 2 != 0, d, 24);
    }
    // the same with every term multiplied by a fixed factor: common factors of many shapes, one- and two-word terms
    fn c20_scaled() {
        let (a, b, c, d) = (bits(param(1)) as u128, nz(bits(param(2))), bits(param(3)) as u128, nz(bits(param(4))));
        if param(0) & 3 == 3 { assume(c != 0); }
        let f = param(6);
        let k = |i: u64| K[((f >> (4 * i)) & 7) as usize] as u128;
        arith(param(0), a.wrapping_mul(k(3)), param(5) & 1 != 0, b.wrapping_mul(k(2)), c.wrapping_mul(k(1)), param(5) & 2 != 0, d.wrapping_mul(k(0)), param(7) as u32);
    }
    // an operation on a value and itself (the same object)
    fn c20_self() {
        let (a, b) = (bits(param(1)) as u128, nz(bits(param(2))));
        let na = param(3) != 0;
        if param(0) & 3 == 3 { assume(a != 0); }
        let x = mk(a, na, b, false);
        let z = op(param(0), &x, &x);
        match param(0) & 3 { 0 => is_rat(&z, na, a.wrapping_mul(2), b, 24), 1 => is_rat(&z, false, 0, 1, 2), 2 => is_rat(&z, false, a.wrapping_mul(a), b.wrapping_mul(b), 40), _ => is_rat(&z, false, 1, 1, 2) }
        is_rat(&x, na, a, b, 24);
    }
    // construction from a fraction of integers: every sign combination, operands not modified; p3, p4: factors, p5: gcd steps
    fn c20_frac() {
        let (n, d) = ((bits(param(0)) as u128).wrapping_mul(K[param(3) as usize] as u128), nz(bits(param(1))).wrapping_mul(K[param(4) as usize] as u128));
        let (nn, nd) = (param(2) & 1 != 0, param(2) & 2 != 0);
        let (p, q) = (int(&w2(n), nn), int(&w2(d), nd));
        match Rat::from_frac_bigint(&p, &q) { Ok(x) => is_rat(&x, nn != nd, n, d, param(5) as u32), Err(_) => va!(false) }
        va!(mag(p.as_ref()) == n && p.is_negative() == (nn && n != 0) && mag(q.as_ref()) == d && q.is_negative() == nd);
        // a zero denominator is an error
        match Rat::from_frac_bigint(&p, &int(&[0], false)) { Ok(_) => va!(false), Err(e) => va!(e.kind() == RatErrKind::DenominatorIsZero) }
    }
    // ... of machine integers, near p0 / p1 of the range
    fn c20_frac_isize() {
        let base = |k: u64| match k { 0 => 0isize, 1 => isize::MIN, 2 => isize::MAX - 15, 3 => -8, 4 => 1 << 32, _ => isize::MIN + 8 };
        let (n, d) = (base(param(0)).wrapping_add(bits(param(2)) as isize), base(param(1)).wrapping_add(bits(param(3)) as isize));
        match Rat::from_frac(n, d) {
            Ok(x) => { va!(d != 0); is_rat(&x, (n < 0) != (d < 0), n.unsigned_abs() as u128, d.unsigned_abs() as u128, 100); }
            Err(e) => va!(d == 0 && e.kind() == RatErrKind::DenominatorIsZero),
        }
    }
    // sign operations and inverse
    fn c20_unary() {
        let (a, b) = ((bits(param(0)) as u128).wrapping_mul(K[param(3) as usize] as u128), nz(bits(param(1))).wrapping_mul(K[param(4) as usize] as u128));
        let na = param(2) != 0;
        let x = mk(a, na, b, false);
        let r = red(a, b, param(5) as u32);
        is_red(&(-x.clone()), !na, r);
        is_red(&x.abs(), false, r);
        is_red(&x.deep_clone(), na, r);
        match x.inv() { Ok(i) => { va!(a != 0); is_red(&i, na, (r.1, r.0)); } Err(e) => va!(a == 0 && e.kind() == RatErrKind::NumeratorIsZero) }
        is_red(&x, na, r);
    }
    // integers: every value of p0 words
    fn c20_int() {
        let w = norm_words(param(0));
        let neg = param(1) != 0 && param(0) != 0;
        let x = Rat::from(int(&w, neg));
        let one = |q: &BigInt| same_words(q.as_ref(), &[1]) && !q.is_negative();
        let me = |x: &Rat, neg: bool| { va!(!x.is_nan() && is_int(x.numerator(), &w, neg) && one(x.denominator())); va!(x.is_integer() == Some(true)); };
        me(&x, neg);
        me(&-x.clone(), !neg);
        me(&x.abs(), false);
        let y = Rat::from(Nat::from(w.clone()));
        me(&y, false);
    }
    // integers of exactly p1 / p2 bits (denominators 1), 2 low and 2 high bits symbolic
    fn c20_int_arith() {
        let (a, b) = (bitsel(param(1), 2, 2, 2), bitsel(param(2), 2, 2, 3));
        let (na, nb) = (param(3) & 1 != 0 && param(1) != 0, param(3) & 2 != 0 && param(2) != 0);
        let (x, y) = (Rat::from(int(&a, na)), Rat::from(int(&b, nb)));
        let (za, zb) = (zsw(&a, na), zsw(&b, nb));
        let z = op(param(0), &x, &y);
        zeq!(zint(z.numerator()), match param(0) & 3 { 0 => za.add(zb), 1 => za.sub(zb), _ => za.mul(zb) });
        va!(canon(z.numerator()) && same_words(z.denominator().as_ref(), &[1]) && !z.denominator().is_negative());
        va!(is_int(x.numerator(), &a, na) && is_int(y.numerator(), &b, nb));
    }
    // primitives
    fn c20_from() {
        let (x, e) = match param(0) {
            0 => { let v = u8s(); (Rat::from(v), Z::u(v as u64)) } 1 => { let v = sym(16) as u16; (Rat::from(v), Z::u(v as u64)) }
            2 => { let v = u32s(); (Rat::from(v), Z::u(v as u64)) } 3 => { let v = u64s(); (Rat::from(v), Z::u(v)) }
            4 => { let v = u64s(); (Rat::from(v as usize), Z::u(v)) } 5 => { let v = u64s() as u128 | (u64s() as u128) << 64; (Rat::from(v), Z::u128(v)) }
            6 => { let v = u8s() as i8; (Rat::from(v), Z::i(v as i64)) } 7 => { let v = sym(16) as i16; (Rat::from(v), Z::i(v as i64)) }
            8 => { let v = u32s() as i32; (Rat::from(v), Z::i(v as i64)) } 9 => { let v = i64s(); (Rat::from(v), Z::i(v)) }
            10 => { let v = i64s(); (Rat::from(v as isize), Z::i(v)) }
            _ => { let (l, h) = (u64s(), i64s()); (Rat::from((l as u128 | (h as u128) << 64) as i128), Z::u(l).add(Z::i(h).shl(64))) }
        };
        zeq!(zint(x.numerator()), e);
        va!(canon(x.numerator()) && same_words(x.denominator().as_ref(), &[1]) && !x.denominator().is_negative());
    }
    // NaN operands on either side, in every form; queries
    fn c20_nan() {
        let x = mk(bits(2) as u128, param(1) != 0, nz(bits(2)), false);
        let n = Rat::from(f64::NAN);
        va!(n.is_nan());
        va!(op(param(0), &x, &n).is_nan()); va!(op(param(0), &n, &x).is_nan()); va!(op(param(0), &n, &n).is_nan());
        va!((-n.clone()).is_nan() && n.abs().is_nan() && n.deep_clone().is_nan() && n.signnum().is_none() && n.is_integer().is_none());
        match n.inv() { Ok(i) => va!(i.is_nan()), Err(_) => va!(false) }
        va!(Rat::from(BigInt::from(Nat::default())).is_nan());
    }
    // division by zero panics and never returns
    fn c20_div0() {
        let a = bits(3) as u128;
        let x = mk(a, param(0) != 0, nz(bits(2)), false);
        may_panic(true);
        let z = if param(1) == 0 { x.clone() / Rat::from(0u32) } else { let mut z = x.clone(); z /= Rat::from(0u32); z };
        va!(z.is_nan() && false);
    }
    // terms of several words: p0 operation, p1/p2 bits of the terms of the left/right operand, p3 signs, p4 pattern, p5 bits of a common
    // factor and p6 where it goes (1 left numerator, 2 left denominator, 4 right numerator, 8 right denominator), p7 symbolic bits of two terms
    fn c20_wide() {
        let (kind, p, q, pat, n) = (param(0), param(1), param(2), param(4), param(7));
        let g = bitsel(param(5), 0, 0, 1);
        let w = |v: Vec<u32>, on: u64| { let v = bwords(&v); if param(6) & on != 0 { btrim(&bmul(&v, 16, &bwords(&g), g.len())) } else { btrim(&v) } };
        let a = w(bitsel(p, n, 1, pat), 1);
        let b = w(bitsel(p, 0, 0, pat ^ 1), 2);
        let c = w(bitsel(q, 0, 0, pat), 4);
        let d = w(bitsel(q, n, 0, pat ^ 1), 8);
        let (na, nc) = (param(3) & 1 != 0, param(3) & 2 != 0);
        let m = |n: &[u32], neg: bool, d: &[u32]| match Rat::from_frac_bigint(&int(n, neg), &int(d, false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } };
        let (x, y) = (m(&a, na, &b), m(&c, nc, &d));
        let (x0, y0) = (x.deep_clone(), y.deep_clone());
        wide_red(&x, zsw(&a, na), Z::words(&b));
        wide_red(&y, zsw(&c, nc), Z::words(&d));
        let z = op(kind, &x, &y);
        same(&x, &x0); same(&y, &y0);
        let (za, zb, zc, zd) = (zsw(&a, na), Z::words(&b), zsw(&c, nc), Z::words(&d));
        match kind & 3 {
            0 => wide_red(&z, za.mul(zd).add(zc.mul(zb)), zb.mul(zd)),
            1 => wide_red(&z, za.mul(zd).sub(zc.mul(zb)), zb.mul(zd)),
            2 => wide_red(&z, za.mul(zc), zb.mul(zd)),
            _ => wide_red(&z, za.mul(zd), zb.mul(zc)),
        }
        let (s, t) = (x.inv(), y.abs());
        match s { Ok(s) => wide_red(&s, zb, za), Err(_) => va!(false) }
        wide_red(&t, Z::words(&c), zd);
        let t = -x.clone();
        wide_red(&t, Z::u(0).sub(za), zb);
    }
}
