//! C04: shifts, bitwise operations and bit queries on naturals
use crate::vs::*;
use rmath::bigint::Nat;
fn at(a: &[u32], i: usize) -> u32 { if i < a.len() { a[i] } else { 0 } }
fn wordwise(r: &Nat, a: &[u32], b: &[u32], f: fn(u32, u32) -> u32) -> bool {
    let w: &[u32] = r.as_ref();
    let n = a.len().max(b.len()).max(w.len());
    let mut d = 0u32;
    for i in 0..n { d |= at(w, i) ^ f(at(a, i), at(b, i)); }
    d == 0 && normalised(r)
}
fn shl_ok(r: &Nat, za: Z, k: u64) { zeq!(Z::nat(r), za.shl(k)); va!(normalised(r)); }
fn shr_ok(r: &Nat, za: Z, k: u64) {
    zle!(Z::nat(r).shl(k), za);
    zlt!(za, Z::nat(r).add(Z::u(1)).shl(k));
    va!(normalised(r));
}
harnesses! {
    // p0 words, p1 shift distance
    fn c04_shl() {
        let a = norm_words(param(0));
        let k = param(1);
        let x = Nat::from(a.clone());
        let r = x.clone() << k as usize;
        shl_ok(&r, Z::words(&a), k);
        va!(same_words(&x, &a));
        let mut s = x.deep_clone();
        s <<= k as usize;
        va!(same_words(&s, r.as_ref()));
        out_nat(&r);
    }
    fn c04_shr() {
        let a = norm_words(param(0));
        let k = param(1);
        let x = Nat::from(a.clone());
        let r = x.clone() >> k as usize;
        shr_ok(&r, Z::words(&a), k);
        va!(same_words(&x, &a));
        let mut s = x.deep_clone();
        s >>= k as usize;
        va!(same_words(&s, r.as_ref()));
        out_nat(&r);
    }
    // symbolic distance of p1 bits
    fn c04_sshl() {
        let a = norm_words(param(0));
        let k = conc(sym(param(1) as u32));
        let r = Nat::from(a.clone()) << k as usize;
        shl_ok(&r, Z::words(&a), k);
        out_nat(&r);
    }
    fn c04_sshr() {
        let a = norm_words(param(0));
        let k = conc(sym(param(1) as u32));
        let r = Nat::from(a.clone()) >> k as usize;
        shr_ok(&r, Z::words(&a), k);
        out_nat(&r);
    }
    // zero stays the canonical zero
    fn c04_zero() {
        let k = param(0) as usize;
        let mut z = Nat::from(0u32);
        let l = z.clone() << k;
        va!(same_words(&l, &[0]));
        va!(l == Nat::from(0u32));
        let r = z.clone() >> k;
        va!(same_words(&r, &[0]));
        z <<= k;
        va!(same_words(&z, &[0]));
        z >>= k;
        va!(same_words(&z, &[0]));
    }
    fn c04_bitops() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = x.clone() & y.clone();
        va!(wordwise(&r, &a, &b, |p, q| p & q));
        let r = x.clone() | y.clone();
        va!(wordwise(&r, &a, &b, |p, q| p | q));
        let r = x.clone() ^ y.clone();
        va!(wordwise(&r, &a, &b, |p, q| p ^ q));
        let r = x.clone().and_not(y.clone());
        va!(wordwise(&r, &a, &b, |p, q| p & !q));
        va!(same_words(&x, &a) && same_words(&y, &b));
        out_nat(&r);
    }
    fn c04_bitops_assign() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let y = Nat::from(b.clone());
        let mut s = Nat::from(a.clone());
        s &= y.clone();
        va!(wordwise(&s, &a, &b, |p, q| p & q));
        let mut s = Nat::from(a.clone());
        s |= y.clone();
        va!(wordwise(&s, &a, &b, |p, q| p | q));
        let mut s = Nat::from(a.clone());
        s ^= y.clone();
        va!(wordwise(&s, &a, &b, |p, q| p ^ q));
        let mut s = Nat::from(a.clone());
        s.and_not_assign(y.clone());
        va!(wordwise(&s, &a, &b, |p, q| p & !q));
        va!(same_words(&y, &b));
        out_nat(&s);
    }
    // complement within the value's own bit length: !x + x == 2^bits_len(x) - 1
    fn c04_not() {
        let a = norm_words(param(0));
        let x = Nat::from(a.clone());
        let l = conc(x.bits_len() as u64);
        let r = !x.clone();
        zeq!(Z::nat(&r).add(Z::words(&a)), Z::u(1).shl(l).sub(Z::u(1)));
        va!(normalised(&r));
        va!(same_words(&x, &a));
        out_nat(&r);
    }
    // bits_len, is_set_bit, trailling_zeros
    fn c04_bits_len() {
        let a = norm_words(param(0));
        let x = Nat::from(a.clone());
        let l = conc(x.bits_len() as u64);
        let za = Z::words(&a);
        if param(0) == 0 { va!(l == 1); }
        else { zlt!(za, Z::u(1).shl(l)); zle!(Z::u(1).shl(l - 1), za); }
        out(l);
    }
    fn c04_is_set() {
        let a = norm_words(param(0));
        let x = Nat::from(a.clone());
        let i = param(1);
        let l = x.bits_len() as u64;
        match x.is_set_bit(i as usize) {
            Some(b) => { va!(i < l); va!(b == (at(&a, (i / 32) as usize) >> (i % 32) & 1 == 1)); }
            None => va!(i >= l),
        }
        va!(same_words(&x, &a));
    }
    fn c04_tz() {
        let a = norm_words(param(0));
        let x = Nat::from(a.clone());
        let t = conc(x.trailling_zeros() as u64);
        if param(0) > 0 {
            let (i, s) = ((t / 32) as usize, t % 32);
            va!(i < a.len());
            let mut low = 0u32;
            for k in 0..i { low |= a[k]; }
            va!(low == 0);
            va!(a[i] >> s & 1 == 1 && (a[i] & ((1u32 << s).wrapping_sub(1))) == 0);
        }
        out(t);
    }
    // shifting back and forth
    fn c04_round() {
        let a = norm_words(param(0));
        let k = param(1) as usize;
        let x = Nat::from(a.clone());
        let r = (x.clone() << k) >> k;
        va!(same_words(&r, &a));
        out_nat(&r);
    }
}
