//! C06: bytes, words and primitives to and from naturals
use crate::vs::*;
use rmath::bigint::Nat;
fn bytes(n: u64) -> Vec<u8> { let mut v = Vec::with_capacity(n as usize + 1); for _ in 0..n { v.push(u8s()); } v }
/// the value of little-endian bytes as words (any leading zeros)
fn le_words(b: &[u8]) -> Vec<u32> {
    let n = (b.len() + 3) / 4;
    let mut v = vec![0u32; n];
    for i in 0..b.len() { v[i / 4] |= (b[i] as u32) << (8 * (i % 4)); }
    v
}
/// n denotes the value of w and is canonical
fn denotes(n: &Nat, w: &[u32]) -> bool {
    let m: &[u32] = n.as_ref();
    let mut d = 0u32;
    for i in 0..m.len().max(w.len()) { d |= (if i < m.len() { m[i] } else { 0 }) ^ (if i < w.len() { w[i] } else { 0 }); }
    d == 0 && normalised(n)
}
/// le is the shortest little-endian form of w
fn shortest(le: &[u8], w: &[u32]) -> bool {
    let l = le.len();
    if l == 0 || l > 4 * w.len() { return false; }
    let mut d = 0u32;
    for i in 0..4 * w.len() { let e = (w[i / 4] >> (8 * (i % 4))) as u8; d |= (e ^ if i < l { le[i] } else { 0 }) as u32; }
    d == 0 && (l == 1 || le[l - 1] != 0)
}
fn reversed(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[b.len() - 1 - i]; }
    d == 0
}
harnesses! {
    fn c06_from_bytes() {
        let b = bytes(param(0));
        let w = le_words(&b);
        let x = Nat::from_le_bytes(&b);
        va!(denotes(&x, &w));
        va!(denotes(&Nat::from(b.as_slice()), &w));
        va!(denotes(&Nat::from(&b), &w));
        let mut r = b.clone(); r.reverse();
        let y = Nat::from_be_bytes(&r);
        va!(denotes(&y, &w));
        va!(denotes(&Nat::from(b), &w));
        out_nat(&x);
    }
    fn c06_empty() {
        va!(Nat::from_le_bytes(&[]).is_nan());
        va!(Nat::from_be_bytes(&[]).is_nan());
        va!(Nat::from(&[][..] as &[u8]).is_nan());
        va!(Nat::from(Vec::<u8>::new()).is_nan());
        va!(Nat::from(Vec::<u32>::new()).is_nan());
        va!(Nat::default().is_nan());
        va!(Nat::default().to_le_bytes().is_empty() && Nat::default().to_be_bytes().is_empty());
        let mut d = vec![1u8, 2];
        Nat::default().copy_to_le(&mut d);
        va!(d.is_empty());
        let mut d = vec![1u8, 2];
        Nat::default().copy_to_be(&mut d);
        va!(d.is_empty());
        va!(!Nat::from(0u32).is_nan());
    }
    fn c06_from_words() {
        let w = words(param(0));
        va!(denotes(&Nat::from(w.as_slice()), &w));
        va!(denotes(&Nat::from(&w), &w));
        let x = Nat::from(w.clone());
        va!(denotes(&x, &w));
        va!(!x.is_nan());
        va!(denotes(&x.deep_clone(), &w));
        out_nat(&x);
    }
    fn c06_to_bytes() {
        let w = norm_words(param(0));
        let x = Nat::from(w.clone());
        let le = x.to_le_bytes();
        va!(shortest(&le, &w));
        let be = x.to_be_bytes();
        va!(reversed(&le, &be));
        let mut d = vec![9u8; param(1) as usize];
        x.copy_to_le(&mut d);
        va!(shortest(&d, &w));
        let mut e = vec![9u8; param(1) as usize];
        x.copy_to_be(&mut e);
        va!(reversed(&d, &e));
        va!(Nat::from_le_bytes(&le) == x);
        va!(Nat::from_be_bytes(&be) == x);
        va!(same_words(&x, &w));
        for &b in le.iter() { out(b as u64); }
    }
    fn c06_prim() {
        let b = u8s(); va!(denotes(&Nat::from(b), &[b as u32]));
        let h = sym(16) as u16; va!(denotes(&Nat::from(h), &[h as u32]));
        let w = u32s(); va!(denotes(&Nat::from(w), &[w]));
        let q = u64s(); va!(denotes(&Nat::from(q), &[q as u32, (q >> 32) as u32]));
        let q = u64s() as usize; va!(denotes(&Nat::from(q), &[q as u32, (q >> 32) as u32]));
        let (l, m) = (u64s(), u64s()); va!(denotes(&Nat::from((m as u128) << 64 | l as u128), &[l as u32, (l >> 32) as u32, m as u32, (m >> 32) as u32]));
    }
}
