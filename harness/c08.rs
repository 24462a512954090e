//! C08: powers and modular powers of naturals
use crate::vs::*;
use rmath::bigint::Nat;
fn zpow(a: &[u32], e: u64) -> Z { let z = Z::words(a); let mut r = Z::u(1); for _ in 0..e { r = r.mul(z); } r }
/// a^b mod n by the definition-level loop on machine integers (n below 2^64)
fn mpow(a: u64, b: &[u32], n: u64) -> u64 {
    let n = n as u128;
    let mut r = 1u128 % n;
    let a = a as u128 % n;
    for i in (0..b.len() * 32).rev() { let t = r.wrapping_mul(r) % n; let u = t.wrapping_mul(a) % n; r = ite(b[i / 32] >> (i % 32) & 1 == 1, u as u64, t as u64) as u128; }
    r as u64
}
/// the same on naturals, with the product and remainder operators (C02, C03)
fn npow(a: &Nat, b: &[u32], n: &Nat) -> Nat {
    let a = a.deep_clone() % n.deep_clone();
    let mut r = Nat::from(1u32) % n.deep_clone();
    let mut on = false;
    for i in (0..b.len() * 32).rev() {
        let s = b[i / 32] >> (i % 32) & 1 == 1;
        if on { r = r.deep_clone() * r.deep_clone() % n.deep_clone(); }
        if s { r = r * a.deep_clone() % n.deep_clone(); on = true; }
    }
    r
}
fn both(a: &[u32], b: &[u32], n: &[u32]) -> (Nat, Nat) {
    let (x, e, m) = (Nat::from(a.to_vec()), Nat::from(b.to_vec()), Nat::from(n.to_vec()));
    let r = x.pow_mod(e.clone(), m.clone());
    let s = x.exp(&e, &m);
    va!(normalised(&r));
    va!(normalised(&s));
    va!(same_words(&r, s.as_ref()));
    va!(same_words(&x, a) && same_words(&e, b) && same_words(&m, n));
    (r, s)
}
fn trim(mut v: Vec<u32>) -> Vec<u32> { while v.len() > 1 && v[v.len() - 1] == 0 { v.pop(); } v }
harnesses! {
    // a^b for p0-bit bases and p1-bit exponents, fully symbolic, against repeated exact multiplication
    fn c08_pow() {
        let a = vec![bits(param(0)) as u32];
        let e = conc(bits(param(1)));
        let x = Nat::from(a.clone());
        let r = x.pow(Nat::from(e));
        va!(normalised(&r));
        zeq!(Z::nat(&r), zpow(&a, e));
        va!(same_words(&x, &a));
        let s = x.exp(&Nat::from(e), &Nat::from(0u32));
        va!(normalised(&s));
        va!(same_words(&s, r.as_ref()));
        let t = x.pow_mod(Nat::from(e), Nat::from(0u32));
        va!(same_words(&t, r.as_ref()));
        out_nat(&r);
    }
    // p0-word fully symbolic base, exponent p1
    fn c08_pow_words() {
        let a = norm_words(param(0));
        let e = param(1);
        let x = Nat::from(a.clone());
        let r = x.pow(Nat::from(e));
        va!(normalised(&r));
        zeq!(Z::nat(&r), zpow(&a, e));
        va!(same_words(&x, &a));
    }
    // p0-word base with p1 symbolic words complemented, exponent p2 (operand sizes around the Karatsuba thresholds)
    fn c08_pow_long() {
        let a = sel(param(0), param(1), param(3));
        let e = param(2);
        let x = Nat::from(a.clone());
        let r = x.pow(Nat::from(e));
        va!(normalised(&r));
        zeq!(Z::nat(&r), zpow(&a, e));
        let s = x.exp(&Nat::from(e), &Nat::from(0u32));
        va!(same_words(&s, r.as_ref()));
    }
    // base and modulus of p0, p2 symbolic bits, exponent p1 (modulus > 0)
    fn c08_mod_small() {
        let (a, b, n) = (bits(param(0)), param(1), bits(param(2)));
        assume(n != 0);
        let (r, _) = both(&[a as u32], &[b as u32], &[n as u32]);
        va!(same_words(&r, &[mpow(a, &[b as u32], n) as u32]));
        out_nat(&r);
    }
    // wide operands: p0/p1/p2 words of base/exponent/modulus, pattern p3, p4 symbolic bits each, p5 bit set = odd modulus; modulus at most 2 words
    fn c08_mod() {
        let (la, lb, ln, pat, k, odd) = (param(0), param(1), param(2), param(3), param(4), param(5));
        let a = if la == 0 { vec![param(6) as u32] } else { sel(la, if la > 1 { k.min(la - 1) } else { 0 }, pat) };
        let mut b = sel(lb, 0, pat + 1);
        let i = (pat % lb) as usize;
        for j in 0..k { b[i] ^= (sym(1) as u32) << (j * 7 % 31); }
        let l = b.len() - 1;
        if b[l] == 0 { b[l] = 1; }
        if param(7) == 1 { b[l] = 1; }
        let mut n = sel(ln, 0, pat + 2);
        for j in 0..k { n[0] ^= (sym(1) as u32) << (j * 11 % 31 + 1); }
        n[0] = if odd == 1 { n[0] | 1 } else { n[0] & !1 };
        if odd == 2 { n[0] = 0; }
        let b = trim(b);
        let n = trim(n);
        if n.len() == 1 { assume(n[0] != 0); }
        let (r, _) = both(&a, &b, &n);
        if n.len() <= 2 && a.len() <= 2 {
            let (m, x) = (n[0] as u64 | if n.len() > 1 { (n[1] as u64) << 32 } else { 0 }, a[0] as u64 | if a.len() > 1 { (a[1] as u64) << 32 } else { 0 });
            let v = mpow(x, &b, m);
            let w: &[u32] = r.as_ref();
            va!(w.len() <= 2 && w[0] as u64 | (if w.len() > 1 { w[1] as u64 } else { 0 }) << 32 == v);
        } else {
            let v = npow(&Nat::from(a.clone()), &b, &Nat::from(n.clone()));
            va!(same_words(&r, v.as_ref()));
        }
        out_nat(&r);
    }
    // extreme moduli and bases: all-ones / power-of-two neighbours. p0 words of modulus, p1 = words of the exponent
    fn c08_mod_edge() {
        let (ln, lb) = (param(0), param(1));
        let mut n = match conc(bits(2)) { 0 => fixed(ln, 1), 1 => fixed(ln, 0), 2 => { let mut v = fixed(ln, 0); v[0] |= 1; v[ln as usize - 1] = 0x8000_0000 | (ln == 1) as u32; v } _ => { let mut v = fixed(ln, 1); v[ln as usize - 1] = 1; v } };
        if n[0] == 0 || bools() { n[0] |= 1; } else { n[0] ^= 1; }
        if ln == 1 { assume(n[0] != 0); }
        let m = Nat::from(n.clone());
        let a: Nat = match conc(bits(3)) { 0 => m.deep_clone(), 1 => m.deep_clone() - 1u32, 2 => m.deep_clone() + 1u32, 3 => Nat::from(0u32), 4 => Nat::from(1u32), 5 => Nat::from(2u32), 6 => m.deep_clone() * m.deep_clone() - 1u32, _ => Nat::from(fixed(ln, 1)) };
        let mut b = if bools() { fixed(lb, 0) } else { fixed(lb, 1) };
        if bools() { b[0] ^= 1; }
        if b[lb as usize - 1] == 0 { b[lb as usize - 1] = 1; }
        let (r, _) = both(a.as_ref(), &b, &n);
        let v = npow(&a, &b, &m);
        va!(same_words(&r, v.as_ref()));
        out_nat(&r);
    }
    // the same object as base, exponent and modulus
    fn c08_alias() {
        let a = vec![bits(param(0)) as u32];
        let x = Nat::from(a.clone());
        let y = x.clone();
        let e = a[0] as u64;
        assume(e < 20);
        let r = x.pow(y.clone());
        zeq!(Z::nat(&r), zpow(&a, conc(e)));
        let s = x.pow_mod(y.clone(), x.clone());
        let t = x.exp(&y, &y);
        if e == 0 { va!(s == 1u32 && t == 1u32); } else { va!(s == 0u32 && t == 0u32); }
        va!(same_words(&x, &a) && same_words(&y, &a));
    }
}
