//! C07: text of naturals
use crate::vs::*;
use rmath::bigint::Nat;
use std::str::FromStr;
fn val(c: u8) -> u32 { match c { b'0'..=b'9' => (c - b'0') as u32, b'a'..=b'f' => (c - b'a') as u32 + 10, b'A'..=b'F' => (c - b'A') as u32 + 10, _ => 99 } }
/// s is prefix + canonical digits (in the given letter case) of the value of w
fn digits(s: &str, prefix: &str, base: u32, upper: bool, w: &[u32]) {
    let b = s.as_bytes();
    let p = prefix.len();
    va!(b.len() > p && &b[..p] == prefix.as_bytes());
    let d = &b[p..];
    let mut z = Z::u(0);
    let mut ok = true;
    let zb = Z::u(base as u64);
    for &c in d { let x = val(c); ok &= x < base; ok &= !((upper && c >= b'a') || (!upper && c >= b'A' && c <= b'F')); z = z.mul(zb).add(Z::u(x as u64)); }
    va!(ok);
    va!(d.len() == 1 || d[0] != b'0');
    zeq!(z, Z::words(w));
    out(b.len() as u64);
    out(b[b.len() - 1] as u64);
}
fn show(a: &[u32], form: u64) -> (String, Nat) {
    let x = Nat::from(a.to_vec());
    let s = match form {
        0 => { let s = format!("{}", x); digits(&s, "", 10, false, a); s }
        1 => { let s = format!("{:#}", x); digits(&s, "", 10, false, a); s }
        2 => { let s = format!("{:x}", x); digits(&s, "", 16, false, a); s }
        3 => { let s = format!("{:#x}", x); digits(&s, "0x", 16, false, a); s }
        4 => { let s = format!("{:X}", x); digits(&s, "", 16, true, a); s }
        5 => { let s = format!("{:#X}", x); digits(&s, "0x", 16, true, a); s }
        6 => { let s = format!("{:b}", x); digits(&s, "", 2, false, a); s }
        7 => { let s = format!("{:#b}", x); digits(&s, "0b", 2, false, a); s }
        8 => { let s = format!("{:o}", x); digits(&s, "", 8, false, a); s }
        _ => { let s = format!("{:#o}", x); digits(&s, "0o", 8, false, a); s }
    };
    va!(same_words(&x, a));
    (s, x)
}
/// decimal and prefixed forms parse back
fn back(s: &str, x: &Nat, form: u64) {
    if form < 2 || form & 1 == 1 { match Nat::from_str(s) { Ok(y) => { va!(same_words(&y, x.as_ref())); } Err(_) => va!(false) } }
}
/// what the text denotes: Some(value) number, None error; Err(()) unspecified (a prefix without digits)
fn meaning(t: &[u8]) -> Result<Option<u64>, ()> {
    let (mut i, mut j) = (0, t.len());
    let blank = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    while i < j && blank(t[i]) { i += 1; }
    while j > i && blank(t[j - 1]) { j -= 1; }
    while i < j && (t[i] == b'+' || t[i] == b' ') { i += 1; }
    let t = &t[i..j];
    if t.is_empty() || !t[0].is_ascii_digit() { return Ok(None); }
    let (d, base) = if t.len() > 1 && t[0] == b'0' {
        match t[1] { b'o' => (&t[2..], 8), b'b' | b'B' => (&t[2..], 2), b'x' | b'X' => (&t[2..], 16), _ => return Ok(None) }
    } else { (t, 10) };
    if d.is_empty() { return Err(()); }
    let mut v = 0u64;
    for &c in d { let x = val(c); if x >= base { return Ok(None); } v = v * base as u64 + x as u64; }
    Ok(Some(v))
}
fn parse_check(b: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    let r = Nat::from_str(s);
    match (meaning(b), r) {
        (Ok(Some(v)), Ok(n)) => { let w: &[u32] = n.as_ref(); va!(normalised(&n) && w.len() <= 2 && w[0] as u64 | (if w.len() > 1 { w[1] as u64 } else { 0 }) << 32 == v); out(1); }
        (Ok(None), Err(_)) => out(2),
        (Err(()), Err(_)) => out(3),
        (Err(()), Ok(n)) => va!(n.is_nan()),
        _ => va!(false),
    }
}
/// a symbolic character of the alphabet the grammar distinguishes (p bits of choice)
fn pick(alpha: &[u8]) -> u8 { let k = alpha.len() as u64; let mut n = 0; while (1 << n) < k { n += 1; } let i = bits(n); assume(i < k); let mut c = alpha[0]; for j in 1..alpha.len() { c = ite(i == j as u64, alpha[j] as u64, c as u64) as u8; } c }
harnesses! {
    // p0 bits, p1 low symbolic bits, p2 high symbolic bits, p3 pattern, p4 format
    fn c07_fmt() {
        let a = bitsel(param(0), param(1), param(2), param(3));
        let (s, x) = show(&a, param(4));
        back(&s, &x, param(4));
    }
    // fully symbolic words: p0 words, p1 format (bases 2, 8, 16)
    fn c07_fmt_full() {
        let a = norm_words(param(0));
        let (s, x) = show(&a, param(1));
        back(&s, &x, param(1));
    }
    fn c07_nan() {
        let n = Nat::default();
        va!(format!("{}", n) == "NaN" && format!("{:#}", n) == "NaN" && format!("{:x}", n) == "NaN" && format!("{:#x}", n) == "NaN" && format!("{:X}", n) == "NaN");
        va!(format!("{:b}", n) == "NaN" && format!("{:#b}", n) == "NaN" && format!("{:o}", n) == "NaN" && format!("{:#o}", n) == "NaN");
    }
    // every ASCII string of p0 characters
    fn c07_parse_ascii() {
        let mut b = Vec::with_capacity(9);
        for _ in 0..param(0) { b.push(sym(7) as u8); }
        parse_check(&b);
    }
    // strings of p0 characters over the grammar's alphabet
    fn c07_parse_alpha() {
        let mut b = Vec::with_capacity(9);
        for _ in 0..param(0) { b.push(pick(b"0+ 1xobX9fF7A-B8_")); }
        parse_check(&b);
    }
    // prefix p0 followed by p1 characters from the interesting ones, then fixed tail of p2 digits
    fn c07_parse_prefixed() {
        let mut b = Vec::with_capacity(40);
        b.extend_from_slice(match param(0) { 0 => b"0x", 1 => b"0b", 2 => b"0o", 3 => b"0X", 4 => b"0B", 5 => b" +", 6 => b"\t1", _ => b"00" });
        for _ in 0..param(1) { b.push(pick(b"01789afAFgG/:@`x ")); }
        for i in 0..param(2) { b.push(b'0' + (i % 2) as u8); }
        parse_check(&b);
    }
    // n symbolic digits in base p0, against the exact positional value: p1 digits of which p2 symbolic, spread
    fn c07_parse_digits() {
        let (base, n, k) = (param(0), param(1), param(2));
        let mut b = Vec::with_capacity(n as usize + 3);
        b.extend_from_slice(match base { 2 => b"0b", 8 => b"0o", 16 => b"0x", _ => b"" });
        let mut z = Z::u(0);
        let mut left = k;
        for i in 0..n {
            let is_sym = left > 0 && (i * k / n) >= k - left;
            let d = if is_sym { left -= 1; let x = if base == 2 { bits(1) } else if base == 8 { bits(3) } else if base == 16 { bits(4) } else { let x = bits(4); assume(x < 10); x }; x } else { (i * 7 + 3) % base };
            if i == 0 && base == 10 { assume(d != 0); }
            b.push(ite(d < 10, b'0' as u64 + d, b'a' as u64 + d - 10) as u8);
            z = z.mul(Z::u(base)).add(Z::u(d));
        }
        match Nat::from_str(unsafe { std::str::from_utf8_unchecked(&b) }) { Ok(y) => { zeq!(Z::nat(&y), z); va!(normalised(&y)); out_nat(&y); } Err(_) => va!(false) }
    }
    // text with a multi-byte character at any place is an error (or trimmed blank), never a panic
    fn c07_parse_wide() {
        let wide = ["é", "٣", "€", "\u{1F600}", "\u{2003}", "０"];
        let (i, j) = (conc(sym(3)), conc(sym(3)));
        assume(i < 6 && j < 5);
        let parts = ["", "0x", "12", " +3", "0b"];
        let s1 = format!("{}{}", wide[i as usize], parts[j as usize]);
        let s2 = format!("{}{}", parts[j as usize], wide[i as usize]);
        let s3 = format!("{}{}7", parts[j as usize], wide[i as usize]);
        if i != 4 { va!(Nat::from_str(&s1).is_err() && Nat::from_str(&s2).is_err()); } else { let _ = Nat::from_str(&s1); let _ = Nat::from_str(&s2); }
        va!(Nat::from_str(&s3).is_err() || i == 4);
        let _ = Nat::from_str(&s3);
    }
}
