//! C19: integer comparison, text and conversions
use crate::vs::*;
use rmath::bigint::{BigInt, Nat};
use std::cmp::Ordering;
use std::str::FromStr;
fn val(c: u8) -> u32 { match c { b'0'..=b'9' => (c - b'0') as u32, b'a'..=b'f' => (c - b'a') as u32 + 10, b'A'..=b'F' => (c - b'A') as u32 + 10, _ => 99 } }
fn digits(s: &str, neg: bool, prefix: &str, base: u32, upper: bool, w: &[u32]) {
    let mut b = s.as_bytes();
    va!(neg == (b.len() > 0 && b[0] == b'-'));
    if neg { b = &b[1..]; }
    let p = prefix.len();
    va!(b.len() > p && &b[..p] == prefix.as_bytes());
    let d = &b[p..];
    let mut z = Z::u(0);
    let mut ok = true;
    for &c in d { let x = val(c); ok &= x < base; ok &= !((upper && c >= b'a') || (!upper && c >= b'A' && c <= b'F')); z = z.mul(Z::u(base as u64)).add(Z::u(x as u64)); }
    va!(ok);
    va!(d.len() == 1 || d[0] != b'0');
    zeq!(z, Z::words(w));
    out(b.len() as u64); out(b[b.len() - 1] as u64);
}
fn show(a: &[u32], neg: bool, form: u64) {
    let x = int(a, neg);
    let s = match form {
        0 => { let s = format!("{}", x); digits(&s, neg, "", 10, false, a); s }
        1 => { let s = format!("{:#}", x); digits(&s, neg, "", 10, false, a); s }
        2 => { let s = format!("{:x}", x); digits(&s, neg, "", 16, false, a); s }
        3 => { let s = format!("{:#x}", x); digits(&s, neg, "0x", 16, false, a); s }
        4 => { let s = format!("{:X}", x); digits(&s, neg, "", 16, true, a); s }
        5 => { let s = format!("{:#X}", x); digits(&s, neg, "0x", 16, true, a); s }
        6 => { let s = format!("{:b}", x); digits(&s, neg, "", 2, false, a); s }
        7 => { let s = format!("{:#b}", x); digits(&s, neg, "0b", 2, false, a); s }
        8 => { let s = format!("{:o}", x); digits(&s, neg, "", 8, false, a); s }
        _ => { let s = format!("{:#o}", x); digits(&s, neg, "0o", 8, false, a); s }
    };
    va!(is_int(&x, a, neg));
    if form < 2 || form & 1 == 1 { match BigInt::from_str(&s) { Ok(y) => { va!(same_int(&x, &y) && canon(&y)); } Err(_) => va!(false) } }
}
/// what a text denotes (see C07; an optional minus sign before it): Some(sign, magnitude), None: error
fn meaning(t: &[u8]) -> Result<Option<(bool, u64)>, ()> {
    let (mut i, mut j) = (0, t.len());
    let blank = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    while i < j && blank(t[i]) { i += 1; }
    while j > i && blank(t[j - 1]) { j -= 1; }
    let neg = i < j && t[i] == b'-';
    if neg { i += 1; while i < j && blank(t[i]) { i += 1; } }
    while i < j && (t[i] == b'+' || t[i] == b' ') { i += 1; }
    let t = &t[i..j];
    if t.is_empty() || !t[0].is_ascii_digit() { return Ok(None); }
    let (d, base) = if t.len() > 1 && t[0] == b'0' {
        match t[1] { b'o' => (&t[2..], 8), b'b' | b'B' => (&t[2..], 2), b'x' | b'X' => (&t[2..], 16), _ => return Ok(None) }
    } else { (t, 10) };
    if d.is_empty() { return Err(()); }
    let mut v = 0u64;
    for &c in d { let x = val(c); if x >= base { return Ok(None); } v = v * base as u64 + x as u64; }
    Ok(Some((neg && v != 0, v)))
}
fn parse_check(b: &[u8]) {
    let r = BigInt::from_str(unsafe { std::str::from_utf8_unchecked(b) });
    match (meaning(b), r) {
        (Ok(Some((neg, v))), Ok(n)) => { va!(canon(&n)); let m: &Nat = n.as_ref(); let w: &[u32] = m.as_ref(); va!(w.len() <= 2 && w[0] as u64 | (if w.len() > 1 { w[1] as u64 } else { 0 }) << 32 == v); va!(n.is_negative() == neg); out(1); }
        (Ok(None), Err(_)) => out(2),
        (Err(()), Err(_)) => out(3),
        (Err(()), Ok(n)) => va!(n.is_nan()),
        _ => va!(false),
    }
}
fn pick(alpha: &[u8]) -> u8 { let k = alpha.len() as u64; let mut n = 0; while (1 << n) < k { n += 1; } let i = bits(n); assume(i < k); let mut c = alpha[0]; for j in 1..alpha.len() { c = ite(i == j as u64, alpha[j] as u64, c as u64) as u8; } c }
fn from_ok(x: &BigInt, e: Z) { zeq!(zint(x), e); va!(canon(x)); out_int(x); }
fn cmp_ok(a: &[u32], na: bool, b: &[u32], nb: bool) {
    let (x, y) = (int(a, na), int(b, nb));
    let (na, nb) = (na && !(a.len() == 1 && a[0] == 0), nb && !(b.len() == 1 && b[0] == 0));
    // lexicographic from the top word, most significant first, over the common length
    let n = a.len().max(b.len());
    let at = |v: &[u32], i: usize| if i < v.len() { v[i] } else { 0 };
    let mut c = 1u64; // 0 less, 1 equal, 2 greater
    for i in 0..n { let (p, q) = (at(a, i), at(b, i)); c = ite(p < q, 0, ite(p > q, 2, c)); }
    let want = if na && nb { 2 - c } else if na { 0 } else if nb { 2 } else { c };
    let got = match x.partial_cmp(&y) { Some(Ordering::Less) => 0, Some(Ordering::Equal) => 1, Some(Ordering::Greater) => 2, None => 3 };
    va!(got == want);
    va!((x == y) == (want == 1) && (x != y) == (want != 1));
    va!((x < y) == (want == 0) && (x > y) == (want == 2) && (x <= y) == (want <= 1) && (x >= y) == (want >= 1));
    va!(is_int(&x, a, na) && is_int(&y, b, nb));
    out(got);
}
harnesses! {
    fn c19_cmp() { let (a, b) = (norm_words(param(0)), norm_words(param(1))); cmp_ok(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0); }
    // operands equal but for one symbolic word
    fn c19_cmp_near() { let a = norm_words(param(0)); let mut b = a.clone(); b[param(1) as usize] = u32s(); let l = b.len() - 1; assume(b[l] != 0); cmp_ok(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0); }
    fn c19_eq_u32() {
        let a = norm_words(param(0));
        let neg = param(1) != 0 && param(0) != 0;
        let v = u32s();
        let x = int(&a, neg);
        va!((x == v) == (!neg && a.len() == 1 && a[0] == v));
        va!((x != v) != (!neg && a.len() == 1 && a[0] == v));
    }
    // NaN: equal to nothing ordered; parse never yields it silently
    fn c19_nan() {
        let n = BigInt::from(Nat::default());
        let x = int(&norm_words(param(0)), param(1) != 0);
        va!(n.is_nan() && !n.is_negative() && !n.is_natural() && !n.is_positive() && n.signnum().is_none());
        va!(x.partial_cmp(&n).is_none() && n.partial_cmp(&x).is_none() && !(n < x) && !(x < n) && !(n >= x) && !(x >= n));
        va!(x != n && n != x && !(n == 0u32));
        va!(format!("{}", n) == "NaN" && format!("{:x}", n) == "NaN" && format!("{:#b}", n) == "NaN" && format!("{:o}", n) == "NaN");
    }
    fn c19_from() {
        match param(0) {
            0 => { let x = u8s(); from_ok(&BigInt::from(x), Z::u(x as u64)); }
            1 => { let x = sym(16) as u16; from_ok(&BigInt::from(x), Z::u(x as u64)); }
            2 => { let x = u32s(); from_ok(&BigInt::from(x), Z::u(x as u64)); }
            3 => { let x = u64s(); from_ok(&BigInt::from(x), Z::u(x)); }
            4 => { let x = u64s() as usize; from_ok(&BigInt::from(x), Z::u(x as u64)); }
            5 => { let x = u64s() as u128 | (u64s() as u128) << 64; from_ok(&BigInt::from(x), Z::u128(x)); }
            6 => { let x = u8s() as i8; from_ok(&BigInt::from(x), Z::i(x as i64)); }
            7 => { let x = sym(16) as i16; from_ok(&BigInt::from(x), Z::i(x as i64)); }
            8 => { let x = u32s() as i32; from_ok(&BigInt::from(x), Z::i(x as i64)); }
            9 => { let x = i64s(); from_ok(&BigInt::from(x), Z::i(x)); }
            10 => { let x = i64s() as isize; from_ok(&BigInt::from(x), Z::i(x as i64)); }
            11 => { let (l, h) = (u64s(), i64s()); let x = (l as u128 | (h as u128) << 64) as i128; from_ok(&BigInt::from(x), Z::u(l).add(Z::i(h).shl(64))); }
            12 => { let w = norm_words(param(1)); let n = Nat::from(w.clone()); let x = BigInt::from(n.clone()); from_ok(&x, Z::words(&w)); va!(same_words(&n, &w)); }
            13 => { let w = words(param(1)); let x = BigInt::from(&w); from_ok(&x, Z::words(&w)); let y = BigInt::from(&w[..]); va!(same_int(&x, &y)); let z = BigInt::from(w); va!(same_int(&x, &z)); }
            _ => {
                let mut b = vec![]; for _ in 0..param(1) { b.push(u8s()); }
                let mut z = Z::u(0); for (i, c) in b.iter().enumerate() { z = z.add(Z::u(*c as u64).shl(8 * i as u64)); }
                let x = BigInt::from_le_bytes(&b); from_ok(&x, z);
                let y = BigInt::from(&b[..]); va!(same_int(&x, &y));
                let mut r = b.clone(); r.reverse();
                let y = BigInt::from_be_bytes(&r); va!(same_int(&x, &y));
            }
        }
    }
    // byte images of the magnitude
    fn c19_bytes() {
        let w = norm_words(param(0));
        let neg = param(1) != 0;
        let x = int(&w, neg);
        let le = x.to_le_bytes();
        let mut z = Z::u(0); for (i, c) in le.iter().enumerate() { z = z.add(Z::u(*c as u64).shl(8 * i as u64)); }
        zeq!(z, Z::words(&w));
        let mut be = x.to_be_bytes(); be.reverse();
        va!(be == le);
        let mut v = Vec::new(); x.copy_to_le(&mut v); va!(v == le);
        let mut v = Vec::new(); x.copy_to_be(&mut v); v.reverse(); va!(v == le);
        va!(is_int(&x, &w, neg));
    }
    fn c19_fmt() { let a = bitsel(param(0), param(1), param(2), param(3)); show(&a, param(5) != 0, param(4)); }
    fn c19_fmt_full() { let a = norm_words(param(0)); show(&a, param(2) != 0 && param(0) != 0, param(1)); }
    fn c19_parse_ascii() { let mut b = Vec::with_capacity(9); for _ in 0..param(0) { b.push(sym(7) as u8); } parse_check(&b); }
    fn c19_parse_alpha() { let mut b = Vec::with_capacity(9); for _ in 0..param(0) { b.push(pick(b"-0+ 1x9")); } parse_check(&b); }
    fn c19_parse_signed() {
        let mut b = Vec::with_capacity(40);
        b.extend_from_slice(match param(0) { 0 => b"-0x", 1 => b"-0b", 2 => b"-0o", 3 => b" -", 4 => b"--", 5 => b"-+", 6 => b"+-", _ => b"- " });
        for _ in 0..param(1) { b.push(pick(b"01789afAFg-+x ")); }
        parse_check(&b);
    }
    // signed decimal / prefixed digits of length p1 with p2 symbolic digits
    fn c19_parse_digits() {
        let (base, n, k) = (param(0), param(1), param(2));
        let mut b = Vec::with_capacity(n as usize + 3);
        b.push(b'-');
        b.extend_from_slice(match base { 2 => b"0b", 8 => b"0o", 16 => b"0x", _ => b"" });
        let mut z = Z::u(0);
        let mut left = k;
        for i in 0..n {
            let s = left > 0 && (i * k / n) >= k - left;
            let d = if s { left -= 1; if base == 2 { bits(1) } else if base == 8 { bits(3) } else if base == 16 { bits(4) } else { let x = bits(4); assume(x < 10); x } } else { (i * 7 + 3) % base };
            if i == 0 && base == 10 { assume(d != 0); }
            b.push(ite(d < 10, b'0' as u64 + d, b'a' as u64 + d - 10) as u8);
            z = z.mul(Z::u(base)).add(Z::u(d));
        }
        match BigInt::from_str(unsafe { std::str::from_utf8_unchecked(&b) }) { Ok(y) => { zeq!(zint(&y), Z::u(0).sub(z)); va!(canon(&y)); out_int(&y); } Err(_) => va!(false) }
    }
    fn c19_parse_wide() {
        let wide = ["é", "٣", "€", "\u{1F600}", "０"];
        let (i, j) = (conc(sym(3)), conc(sym(3)));
        assume(i < 5 && j < 5);
        let parts = ["", "-0x", "-12", "- +3", "-"];
        for s in [format!("{}{}", wide[i as usize], parts[j as usize]), format!("{}{}", parts[j as usize], wide[i as usize]), format!("{}{}7", parts[j as usize], wide[i as usize])] { va!(BigInt::from_str(&s).is_err()); }
    }
    // integer square root: floor for non-negative values, NaN below zero
    fn c19_sqrt() {
        let a = bits(param(0));
        let x = BigInt::from(a);
        let r = x.sqrt();
        va!(canon(&r));
        zle!(zint(&r).mul(zint(&r)), Z::u(a));
        zlt!(Z::u(a), zint(&r).add(Z::u(1)).mul(zint(&r).add(Z::u(1))));
        if a != 0 { va!((-x).sqrt().is_nan()); }
    }
}
