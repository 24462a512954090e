//! C15: integer bitwise operations and shifts follow infinite two's complement
use crate::vs::*;
use rmath::bigint::BigInt;
/// two's complement words (n of them) of a sign and magnitude
fn twos(w: &[u32], neg: bool, n: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(n);
    let mut c = 1u64;
    for i in 0..n { let x = if i < w.len() { w[i] } else { 0 }; if neg { let t = (!x) as u64 + c; v.push(t as u32); c = t >> 32; } else { v.push(x); } }
    v
}
fn nw(b: &BigInt) -> Vec<u32> { let n: &rmath::bigint::Nat = b.as_ref(); let w: &[u32] = n.as_ref(); w.to_vec() }
/// the integer r has the given two's complement representation
fn is_twos(r: &BigInt, t: &[u32]) -> bool { let w = nw(r); if w.len() > t.len() { return false; } let v = twos(&w, r.is_negative(), t.len()); let mut d = 0; for i in 0..t.len() { d |= v[i] ^ t[i]; } d == 0 && (t[t.len() - 1] >> 31 == 1) == r.is_negative() }
fn each(a: &[u32], na: bool, b: &[u32], nb: bool, op: u64) {
    let n = a.len().max(b.len()) + 1;
    let (ta, tb) = (twos(a, na, n), twos(b, nb, n));
    let (x, y) = (int(a, na), int(b, nb));
    let mut s = x.deep_clone();
    let mut t = Vec::with_capacity(n);
    for i in 0..n { t.push(match op { 0 => ta[i] & tb[i], 1 => ta[i] | tb[i], 2 => ta[i] ^ tb[i], _ => ta[i] & !tb[i] }); }
    let r = match op { 0 => { s &= y.clone(); x.clone() & y.clone() } 1 => { s |= y.clone(); x.clone() | y.clone() } 2 => { s ^= y.clone(); x.clone() ^ y.clone() } _ => { s.and_not_assign(y.clone()); x.clone().and_not(y.clone()) } };
    va!(canon(&r));
    va!(is_twos(&r, &t));
    va!(same_int(&s, &r));
    va!(is_int(&x, a, na) && is_int(&y, b, nb));
    out_int(&r);
}
harnesses! {
    // p0 / p1 words, signs p2, operation p3 (and, or, xor, and-not)
    fn c15_ops() { let (a, b) = (norm_words(param(0)), norm_words(param(1))); each(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0, param(3)); }
    fn c15_small() {
        let (a, b) = ([bits(param(0)) as u32], [bits(param(1)) as u32]);
        let (na, nb) = (param(2) & 1 != 0, param(2) & 2 != 0);
        let (na, nb) = (na && a[0] != 0, nb && b[0] != 0);
        each(&a, na, &b, nb, param(3));
    }
    fn c15_not() {
        let a = norm_words(param(0));
        let neg = param(1) != 0;
        let x = int(&a, neg);
        let r = !x.clone();
        va!(canon(&r));
        zeq!(zint(&r), Z::u(0).sub(zsw(&a, neg)).sub(Z::u(1)));
        va!(is_int(&x, &a, neg));
        out_int(&r);
    }
    // p0 words, sign p1, distance p2
    fn c15_shl() {
        let a = norm_words(param(0));
        let (neg, k) = (param(1) != 0, param(2) as usize);
        let x = int(&a, neg);
        let r = x.clone() << k;
        va!(canon(&r));
        zeq!(zint(&r), zsw(&a, neg).shl(k as u64));
        let mut s = x.deep_clone(); s <<= k; va!(same_int(&s, &r));
        va!(is_int(&x, &a, neg));
        out_int(&r);
    }
    // floor: r * 2^k <= x < (r + 1) * 2^k
    fn c15_shr() {
        let a = norm_words(param(0));
        let (neg, k) = (param(1) != 0, param(2) as usize);
        let x = int(&a, neg);
        let r = x.clone() >> k;
        va!(canon(&r));
        let n = a.len() + 1;
        let t = twos(&a, neg && !(a.len() == 1 && a[0] == 0), n);
        let mut e = Vec::with_capacity(n);
        for i in 0..n { let at = |j: usize| if j < n { t[j] } else { 0u32.wrapping_sub(t[n - 1] >> 31) }; let j = i + k / 32; e.push(if k % 32 == 0 { at(j) } else { at(j) >> (k % 32) | at(j + 1) << (32 - k % 32) }); }
        va!(is_twos(&r, &e));
        let mut s = x.deep_clone(); s >>= k; va!(same_int(&s, &r));
        va!(is_int(&x, &a, neg));
        out_int(&r);
    }
    // bit query: Some(two's complement bit) below the bit length of the magnitude, None from there on
    fn c15_bit() {
        let a = norm_words(param(0));
        let neg = param(1) != 0 && !(a.len() == 1 && a[0] == 0);
        let x = int(&a, neg);
        let t = twos(&a, neg, a.len() + 1);
        let i = param(2) as usize;
        let l = a.len() - 1;
        let len = l as u64 * 32 + if a[l] == 0 { 1 } else { 32 - a[l].leading_zeros() as u64 };
        va!(x.bits_len() as u64 == len);
        match x.is_set_bit(i) { Some(b) => { va!((i as u64) < len); va!(b == (t[i / 32] >> (i % 32) & 1 == 1)); } None => va!(i as u64 >= len) }
        va!(is_int(&x, &a, neg));
    }
    // right operand is a clone of the left
    fn c15_alias() {
        let a = norm_words(param(0));
        if a.len() == 1 { assume(a[0] != 0); }
        let neg = param(1) != 0;
        let x = int(&a, neg);
        va!(is_int(&(x.clone() & x.clone()), &a, neg) && is_int(&(x.clone() | x.clone()), &a, neg));
        va!((x.clone() ^ x.clone()) == 0u32 && x.clone().and_not(x.clone()) == 0u32);
        va!(is_int(&x, &a, neg));
        let mk = || int(&a, neg);
        let mut s = mk(); let t = s.clone(); s &= t; va!(is_int(&s, &a, neg));
        let mut s = mk(); let t = s.clone(); s |= t; va!(is_int(&s, &a, neg));
        let mut s = mk(); let t = s.clone(); s ^= t; va!(s == 0u32 && canon(&s));
        let mut s = mk(); let t = s.clone(); s.and_not_assign(t); va!(s == 0u32 && canon(&s));
    }
}
