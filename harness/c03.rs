//! C03: natural-number division and remainder
use crate::vs::*;
use rmath::bigint::Nat;
/// little-endian words of q*b + r (schoolbook, harness side)
pub fn muladd(b: &[u32], q: u32, r: &[u32]) -> Vec<u32> {
    let mut v = Vec::with_capacity(b.len() + 2);
    let mut c = 0u64;
    for i in 0..b.len() { let t = b[i] as u64 * q as u64 + c + if i < r.len() { r[i] as u64 } else { 0 }; v.push(t as u32); c = t >> 32; }
    v.push(c as u32);
    v
}
fn shl_words(a: &[u32], k: u64) -> Vec<u32> {
    let (n, m) = ((k / 32) as usize, k % 32);
    let mut v = vec![0u32; n];
    let mut pre = 0u32;
    for &x in a { v.push(if m == 0 { x } else { (x << m) | pre }); pre = if m == 0 { 0 } else { x >> (32 - m) }; }
    v.push(pre);
    v
}
fn divcheck(x: &Nat, y: &Nat, a: &[u32], b: &[u32]) {
    let (za, zb) = (Z::words(a), Z::words(b));
    let q = x.clone() / y.clone();
    let r = x.clone() % y.clone();
    zeq!(Z::nat(&q).mul(zb).add(Z::nat(&r)), za);
    zlt!(Z::nat(&r), zb);
    va!(normalised(&q));
    va!(normalised(&r));
    va!(same_words(y, b));
    let mut s = x.deep_clone();
    s /= y.clone();
    va!(same_words(&s, q.as_ref()));
    let mut s = x.deep_clone();
    s %= y.clone();
    va!(same_words(&s, r.as_ref()));
    out_nat(&q); out_nat(&r);
}
harnesses! {
    // small values: both operands symbolic, p0 and p1 bits
    fn c03_small() {
        let (a, b) = (bits(param(0)) as u32, bits(param(1)) as u32);
        assume(b != 0);
        let (x, y) = (Nat::from(a), Nat::from(b));
        let q = x.clone() / y.clone();
        let r = x.clone() % y.clone();
        va!(same_words(&q, &[a / b]) && same_words(&r, &[a % b]));
        va!(same_words(&x, &[a]) && same_words(&y, &[b]));
        out_nat(&q); out_nat(&r);
    }
    // dividend below, equal to or a little above the divisor: p0 words, fully symbolic
    fn c03_near() {
        let b = norm_words(param(0));
        let n = b.len();
        assume(n > 1 || b[0] != 0);
        let a = words(n as u64);
        // b <= a < 2b or a < b: the quotient is 0 or 1
        let y = Nat::from(b.clone());
        let x = Nat::from(a.clone());
        assume(a[n - 1] >> 31 == 0 || b[n - 1] >> 31 == 1);
        let aw: u64 = ((a[n - 1] as u64) << 32) | if n > 1 { a[n - 2] as u64 } else { 0 };
        let bw: u64 = ((b[n - 1] as u64) << 32) | if n > 1 { b[n - 2] as u64 } else { 0 };
        assume(aw >> 1 < bw);
        divcheck(&x, &y, &a, &b);
    }
    // dividend = divisor * q + r with every word of divisor and remainder symbolic: p0 divisor words, p1 quotient bits, p2 extra shift
    fn c03_gen() {
        let b = norm_words(param(0));
        let n = b.len();
        let q = sym(param(1) as u32) as u32;
        let mut r = words(n as u64);
        let k = param(2);
        if param(3) == 1 { for i in 0..n { r[i] = 0; } }
        assume(n > 1 || b[0] != 0);
        // r < b
        let mut lt = false;
        let mut eq = true;
        for i in (0..n).rev() { lt = lt | (eq & (r[i] < b[i])); eq = eq & (r[i] == b[i]); }
        assume(lt);
        // (b*q)<<k + r
        let p = shl_words(&muladd(&b, q, &[]), k);
        let mut a = Vec::with_capacity(p.len());
        let mut c = 0u64;
        for i in 0..p.len() { let t = p[i] as u64 + c + if i < n { r[i] as u64 } else { 0 }; a.push(t as u32); c = t >> 32; }
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let qq = x.clone() / y.clone();
        let rr = x.clone() % y.clone();
        zeq!(Z::nat(&qq), Z::u(q as u64).shl(k));
        zeq!(Z::nat(&rr), Z::words(&r));
        va!(normalised(&qq) && normalised(&rr));
        va!(same_words(&y, &b));
        out_nat(&qq); out_nat(&rr);
    }
    // operands of p0 / p1 bits with a few symbolic bits at both ends (p2, p3) around pattern p4
    fn c03_bits() {
        let (a, b) = (bitsel(param(0), param(2), param(3), param(4)), bitsel(param(1), param(2), param(3), param(4) + 1));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        divcheck(&x, &y, &a, &b);
    }
    // powers of two and multiples: a = b << p1 (p0 words symbolic)
    fn c03_shift() {
        let b = norm_words(param(0));
        assume(b[b.len() - 1] != 0);
        let k = param(1);
        let a = shl_words(&b, k);
        let (x, y) = (Nat::from(a), Nat::from(b.clone()));
        let q = x.clone() / y.clone();
        zeq!(Z::nat(&q), Z::u(1).shl(k));
        let r = x % y;
        zeq!(Z::nat(&r), Z::u(0));
        va!(normalised(&r) && normalised(&q));
        out_nat(&q);
    }
    fn c03_u32() {
        let a = norm_words(param(0));
        let d = sym(param(1) as u32) as u32;
        assume(d != 0);
        let x = Nat::from(a.clone());
        let q = x.clone() / d;
        let r = x.clone() % d;
        zeq!(Z::nat(&q).mul(Z::u(d as u64)).add(Z::nat(&r)), Z::words(&a));
        zlt!(Z::nat(&r), Z::u(d as u64));
        va!(normalised(&q) && normalised(&r));
        va!(same_words(&x, &a));
        let mut s = x.deep_clone();
        s /= d;
        va!(same_words(&s, q.as_ref()));
        let mut s = x.deep_clone();
        s %= d;
        va!(same_words(&s, r.as_ref()));
        out_nat(&q); out_nat(&r);
    }
    // division by zero is a panic, never a value
    fn c03_zero() {
        let x = nat(param(0));
        may_panic(true);
        match param(1) {
            0 => { let _ = x / Nat::from(0u32); }
            1 => { let _ = x % Nat::from(0u32); }
            2 => { let _ = x / 0u32; }
            3 => { let _ = x % 0u32; }
            4 => { let mut x = x; x /= Nat::from(0u32); }
            5 => { let mut x = x; x %= Nat::from(0u32); }
            6 => { let mut x = x; x /= 0u32; }
            _ => { let mut x = x; x %= 0u32; }
        }
        may_panic(false);
        va!(false);
    }
    fn c03_alias() {
        let a = norm_words(param(0));
        assume(a[a.len() - 1] != 0);
        let mut s = Nat::from(a.clone());
        let t = s.clone();
        s /= t;
        zeq!(Z::nat(&s), Z::u(1));
        let mut s = Nat::from(a.clone());
        let t = s.clone();
        s %= t;
        zeq!(Z::nat(&s), Z::u(0));
        let s = Nat::from(a.clone());
        let q = s.clone() / s.clone();
        zeq!(Z::nat(&q), Z::u(1));
        let r = s.clone() % s.clone();
        zeq!(Z::nat(&r), Z::u(0));
        va!(same_words(&s, &a));
        out_nat(&q);
    }
}
