//! C14: integer division
use crate::vs::*;
use rmath::bigint::BigInt;
fn zabs_lt(r: &BigInt, b: &[u32]) { zlt!(Z::nat(r.as_ref()), Z::words(b)); }
fn div(a: &[u32], na: bool, b: &[u32], nb: bool) {
    let (x, y) = (int(a, na), int(b, nb));
    let (za, zb) = (zsw(a, na), zsw(b, nb));
    let (q, r) = (x.clone() / y.clone(), x.clone() % y.clone());
    va!(canon(&q)); va!(canon(&r));
    zeq!(zint(&q).mul(zb).add(zint(&r)), za);
    zabs_lt(&r, b);
    va!(r == 0u32 || r.is_negative() == x.is_negative());
    let mut s = x.deep_clone(); s /= y.clone(); va!(same_int(&s, &q));
    let mut s = x.deep_clone(); s %= y.clone(); va!(same_int(&s, &r));
    let (qe, re) = (x.div_euclid(y.clone()), x.rem_euclid(y.clone()));
    va!(canon(&qe)); va!(canon(&re));
    zeq!(zint(&qe).mul(zb).add(zint(&re)), za);
    va!(!re.is_negative());
    zabs_lt(&re, b);
    let mut s = x.deep_clone(); s.div_euclid_assign(y.clone()); va!(same_int(&s, &qe));
    let mut s = x.deep_clone(); s.rem_euclid_assign(y.clone()); va!(same_int(&s, &re));
    va!(is_int(&x, a, na) && is_int(&y, b, nb));
    out_int(&q); out_int(&r); out_int(&qe); out_int(&re);
}
fn mul_small(b: &[u32], k: u32) -> Vec<u32> { let mut v = vec![]; let mut c = 0u64; for &x in b { let t = x as u64 * k as u64 + c; v.push(t as u32); c = t >> 32; } if c != 0 { v.push(c as u32); } v }
fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() { let mut c = 0u64; for j in 0..b.len() { let t = (a[i] as u64).wrapping_mul(b[j] as u64).wrapping_add(v[i + j] as u64).wrapping_add(c); v[i + j] = t as u32; c = t >> 32; } v[i + b.len()] = c as u32; }
    while v.len() > 1 && v[v.len() - 1] == 0 { v.pop(); }
    v
}
harnesses! {
    // exact multiples and neighbours with a quotient of any width: a = k*b + d; b of p0 bits, k of p1 bits (p2 symbolic low bits each, patterns p3, p3 + 1)
    fn c14_product() {
        let (b, k) = (bitsel(param(0), param(2), 0, param(3)), bitsel(param(1), param(2), 0, param(3) + 1));
        let mut a = mul(&b, &k);
        match param(4) { 1 => { a[0] = a[0].wrapping_add(1); assume(a[0] != 0); } 2 => { assume(a[0] != 0); a[0] -= 1; } _ => {} }
        div(&a, param(5) & 1 != 0, &b, param(5) & 2 != 0);
    }
    // all values of p0 / p1 bits, sign combination p2
    fn c14_small() {
        let (a, b) = ([bits(param(0)) as u32], [bits(param(1)) as u32]);
        assume(b[0] != 0);
        let (na, nb) = (param(2) & 1 != 0, param(2) & 2 != 0);
        div(&a, na, &b, nb);
        let (e, f) = (if na { -(a[0] as i64) } else { a[0] as i64 }, if nb { -(b[0] as i64) } else { b[0] as i64 });
        let (x, y) = (int(&a, na), int(&b, nb));
        va!(same_int(&(x.clone() / y.clone()), &smallint(e / f)) && same_int(&(x.clone() % y.clone()), &smallint(e % f)));
        va!(same_int(&x.div_euclid(y.clone()), &smallint(e.div_euclid(f))) && same_int(&x.rem_euclid(y), &smallint(e.rem_euclid(f))));
    }
    // p0 / p1 bits with p2 low and p3 high symbolic bits, pattern p4, signs p5
    fn c14_bits() {
        let (a, b) = (bitsel(param(0), param(2), param(3), param(4)), bitsel(param(1), param(2), param(3), param(4) + 1));
        div(&a, param(5) & 1 != 0, &b, param(5) & 2 != 0);
    }
    // exact multiples and neighbours: a = k*b + d, d in -1, 0, 1; b = p0 bits (p1 symbolic low bits)
    fn c14_multiple() {
        let b = bitsel(param(0), param(1), 0, param(2));
        let k = param(3) as u32;
        let mut a = mul_small(&b, k);
        match param(4) { 1 => { a[0] = a[0].wrapping_add(1); assume(a[0] != 0); } 2 => { assume(a[0] != 0); a[0] -= 1; } _ => {} }
        while a.len() > 1 && a[a.len() - 1] == 0 { a.pop(); }
        div(&a, param(5) & 1 != 0, &b, param(5) & 2 != 0);
    }
    // dividend smaller than the divisor (quotient 0), fully symbolic: p0 < p1 words
    fn c14_less() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        div(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0);
    }
    fn c14_zero() {
        let a = norm_words(param(0));
        let (mut x, z) = (int(&a, param(1) != 0), BigInt::from(0u32));
        may_panic(true);
        match param(2) { 0 => { let _ = x / z; } 1 => { let _ = x % z; } 2 => { x /= z; } 3 => { x %= z; } 4 => { let _ = x.div_euclid(z); } 5 => { let _ = x.rem_euclid(z); } 6 => x.div_euclid_assign(z), _ => x.rem_euclid_assign(z) }
        may_panic(false);
        va!(false);
    }
    // the divisor is a clone of the dividend
    fn c14_alias() {
        let a = norm_words(param(0));
        if a.len() == 1 { assume(a[0] != 0); }
        let neg = param(1) != 0;
        let mk = || int(&a, neg);
        let one = Z::u(1); let zero = Z::u(0);
        let x = mk(); let r = x.clone() / x.clone(); zeq!(zint(&r), one); va!(canon(&r));
        let r = x.clone() % x.clone(); zeq!(zint(&r), zero); va!(canon(&r));
        let r = x.div_euclid(x.clone()); zeq!(zint(&r), one); va!(canon(&r));
        let r = x.rem_euclid(x.clone()); zeq!(zint(&r), zero); va!(canon(&r));
        va!(is_int(&x, &a, neg));
        let mut s = mk(); let t = s.clone(); s /= t; zeq!(zint(&s), one); va!(canon(&s));
        let mut s = mk(); let t = s.clone(); s %= t; zeq!(zint(&s), zero); va!(canon(&s));
        let mut s = mk(); let t = s.clone(); s.div_euclid_assign(t); zeq!(zint(&s), one); va!(canon(&s));
        let mut s = mk(); let t = s.clone(); s.rem_euclid_assign(t); zeq!(zint(&s), zero); va!(canon(&s));
    }
}
