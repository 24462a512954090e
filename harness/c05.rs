//! C05: equality and ordering of naturals
use crate::vs::*;
use rmath::bigint::Nat;
use std::cmp::Ordering;
/// -1, 0, 1 by value; words little endian, any leading zeros
fn order(a: &[u32], b: &[u32]) -> i32 {
    let n = a.len().max(b.len());
    let mut r = 0i32;
    for i in 0..n {
        let (x, y) = (if i < a.len() { a[i] } else { 0 }, if i < b.len() { b[i] } else { 0 });
        let here = (x > y) as i32 - (x < y) as i32;
        r = if here != 0 { here } else { r };
    }
    r
}
fn ord(o: Option<Ordering>) -> i32 { match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 9 } }
macro_rules! agree { ($x:expr, $y:expr, $r:expr) => {{
    let r = $r;
    va!(ord($x.partial_cmp(&$y)) == r);
    va!(($x == $y) == (r == 0));
    va!(($x != $y) == (r != 0));
    va!(($x < $y) == (r < 0));
    va!(($x <= $y) == (r <= 0));
    va!(($x > $y) == (r > 0));
    va!(($x >= $y) == (r >= 0));
}} }
macro_rules! unordered { ($x:expr, $y:expr) => {{
    va!($x.partial_cmp(&$y).is_none());
    va!(!($x == $y) && $x != $y);
    va!(!($x < $y) && !($x <= $y) && !($x > $y) && !($x >= $y));
}} }
fn split(x: u128, n: usize) -> Vec<u32> { (0..n).map(|i| (x >> (32 * i)) as u32).collect() }
harnesses! {
    // words with any (also zero) top words: construction must canonicalise
    fn c05_cmp() {
        let (a, b) = (words(param(0)), words(param(1)));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = order(&a, &b);
        agree!(x, y, r);
        out((r + 1) as u64);
    }
    // the same top words, one symbolic difference position: p0 words, p1 position
    fn c05_one_word() {
        let a = norm_words(param(0));
        let mut b = a.clone();
        let i = param(1) as usize;
        b[i] = u32s();
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = (a[i] > b[i]) as i32 - (a[i] < b[i]) as i32;
        agree!(x, y, r);
    }
    // values produced by operations compare like freshly built ones
    fn c05_produced() {
        let (a, b) = (words(param(0)), words(param(1)));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let s = x.clone() + y.clone();
        va!(s == y.clone() + x.clone());
        va!(s >= x && s >= y);
        let d = s.clone() - y.clone();
        va!(d == x && d <= x && d >= x);
        let z = x.clone() - x.clone();
        va!(z == Nat::from(0u32) && z == 0u8 && z <= x);
        let k = (x.clone() << 64) >> 64;
        va!(k == x);
        let k = (x.clone() ^ y.clone()) ^ y.clone();
        va!(k == x);
        let k = (x.clone() | y.clone()).and_not(y.clone());
        va!(k == x.clone().and_not(y.clone()));
    }
    fn c05_prim() {
        let a = words(param(0));
        let x = Nat::from(a.clone());
        match param(1) {
            0 => { let p = u8s(); let r = order(&a, &[p as u32]); agree!(x, p, r); }
            1 => { let p = sym(16) as u16; let r = order(&a, &[p as u32]); agree!(x, p, r); }
            2 => { let p = u32s(); let r = order(&a, &[p]); agree!(x, p, r); }
            3 => { let p = u64s(); let r = order(&a, &split(p as u128, 2)); agree!(x, p, r); }
            4 => { let p = u64s() as usize; let r = order(&a, &split(p as u128, 2)); agree!(x, p, r); }
            _ => { let p = (u64s() as u128) << 64 | u64s() as u128; let r = order(&a, &split(p, 4)); agree!(x, p, r); }
        }
        va!(same_words(&x, &a) || a[a.len() - 1] == 0);
    }
    fn c05_nan() {
        let n = Nat::default();
        let x = Nat::from(words(param(0)));
        unordered!(n, x);
        unordered!(x, n);
        unordered!(n, n.clone());
        unordered!(n, 0u8);
        unordered!(n, sym(16) as u16);
        unordered!(n, u32s());
        unordered!(n, u64s());
        unordered!(n, 0usize);
        unordered!(n, 7u128);
    }
}
