//! C26: Float text
use crate::vs::*;
#[macro_use]
#[path = "fl.rs"]
pub mod fl;
use fl::*;
use std::str::FromStr;
fn pow10(n: u64) -> u128 { let mut v = 1u128; for _ in 0..n { v = v.wrapping_mul(10); } v }
/// a decimal digit string, nothing else; its value
fn dec(b: &[u8]) -> u128 { let mut v = 0u128; let mut ok = true; for &c in b { ok &= c.is_ascii_digit(); v = v.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u128); } va!(ok); v }
fn sign<'a>(b: &'a [u8], neg: bool) -> &'a [u8] { va!(!b.is_empty()); let m = b[0] == b'-'; va!(m == neg); if m { &b[1..] } else { b } }
/// n / d rounded to the nearest integer, ties to even
fn half_even(n: u128, d: u128) -> u128 { let (q, r) = (n / d, n % d); let up = (r > d - r) | ((r == d - r) & (q & 1 == 1)); q.wrapping_add(up as u128) }
/// text is iii.fff with `dp` decimals (no point when dp = 0), no superfluous zero in front, digits (point left out) of value v followed by `zeros` zeros
fn fixed_text(t: &[u8], dp: usize, v: u128, zeros: usize) {
    va!(t.len() > dp);
    let il = if dp == 0 { t.len() } else { t.len() - dp - 1 };
    va!(il > 0 && (il == 1 || t[0] != b'0'));
    let mut d: Vec<u8> = t[..il].to_vec();
    if dp > 0 { va!(t[il] == b'.'); d.extend_from_slice(&t[il + 1..]); }
    va!(zeros < d.len());
    let k = d.len() - zeros;
    va!(dec(&d[..k]) == v);
    let mut z = true;
    for &c in &d[k..] { z &= c == b'0'; }
    va!(z);
    for &c in t { out(c as u64); }
}
/// the text denotes the exact value of D 10^-j rounded to n + 1 significant digits: d.ddde[-]xx
fn exp_text(t: &[u8], letter: u8, n: usize, d: u128, j: i64) {
    let mut len = 0i64;
    let mut p = 1u128;
    for _ in 0..39 { len += ite(d >= p, 1, 0) as i64; p = p.wrapping_mul(10); if p % 10 != 0 { break; } }
    let len = conc(len as u64) as i64;
    let want = n as i64 + 1;
    let (m, e) = if len <= want { (d.wrapping_mul(pow10((want - len) as u64 % 39)), len - 1 - j) } else {
        let q = half_even(d, pow10((len - want) as u64));
        let over = q == pow10(want as u64);
        (ite(over, pow10(want as u64 - 1) as u64, q as u64) as u128 | (ite(over, (pow10(want as u64 - 1) >> 64) as u64, (q >> 64) as u64) as u128) << 64, (len - 1 - j).wrapping_add(over as i64))
    };
    let pad = len <= want && want - len >= 39 - len;
    va!(t.len() > n + 3);
    let ml = if n == 0 { 1 } else { n + 2 };
    let mut b = vec![t[0]];
    if n > 0 { va!(t[1] == b'.'); b.extend_from_slice(&t[2..ml]); }
    if pad { // more digits than the oracle's words hold: the exact digits, then zeros
        let l = len as usize;
        va!(dec(&b[..l]) == d);
        let mut z = true; for &c in &b[l..] { z &= c == b'0'; } va!(z);
    } else { va!(dec(&b) == m); }
    va!(t[ml] == letter);
    let x = &t[ml + 1..];
    let eneg = x[0] == b'-';
    va!(eneg == (e < 0));
    let x = if eneg { &x[1..] } else { x };
    va!(x.len() >= 2 && (x.len() == 2 || x[0] != b'0'));
    va!(dec(x) == e.unsigned_abs() as u128);
    for &c in t { out(c as u64); }
}
fn is_blank(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
enum M { Bad, Unspec, Val(bool, u128, u128) }
/// what an integer text denotes (see C19)
fn integer(t: &[u8]) -> M {
    let (mut i, j) = (0, t.len());
    let neg = i < j && t[i] == b'-';
    if neg { i += 1; while i < j && is_blank(t[i]) { i += 1; } }
    while i < j && (t[i] == b'+' || t[i] == b' ') { i += 1; }
    let t = &t[i..j];
    if t.is_empty() || !t[0].is_ascii_digit() { return M::Bad; }
    let (d, base) = if t.len() > 1 && t[0] == b'0' { match t[1] { b'o' => (&t[2..], 8), b'b' | b'B' => (&t[2..], 2), b'x' | b'X' => (&t[2..], 16), _ => return M::Bad } } else { (t, 10) };
    if d.is_empty() { return M::Unspec; }
    let mut v = 0u128;
    for &c in d { let x = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => 99 } as u128; if x >= base { return M::Bad; } v = v.wrapping_mul(base).wrapping_add(x); }
    M::Val(neg, v, 1)
}
fn meaning(t: &[u8]) -> M {
    let (mut i, mut j) = (0, t.len());
    while i < j && is_blank(t[i]) { i += 1; }
    while j > i && is_blank(t[j - 1]) { j -= 1; }
    let t = &t[i..j];
    if t.is_empty() { return M::Bad; }
    let body = if t[0] == b'-' || t[0] == b'+' { &t[1..] } else { t };
    let neg = t[0] == b'-';
    let isx = |b: &[u8]| b.len() > 1 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X');
    let mut marked = false;
    for &c in t { if c == b'.' || c == b'e' || c == b'E' { marked = true; } }
    if !marked || isx(body) { return integer(t); }
    let mut k = 0;
    while k < body.len() && (is_blank(body[k]) || body[k] == b'+') { k += 1; }
    if k > 0 && isx(&body[k..]) { return M::Unspec; }
    let (mut n, mut digits, mut frac, mut dot, mut i) = (0u128, 0, 0i64, false, 0);
    let t = body;
    while i < t.len() && t[i] != b'e' && t[i] != b'E' {
        if t[i] == b'.' { if dot { return M::Bad; } dot = true; }
        else if t[i].is_ascii_digit() { n = n.wrapping_mul(10).wrapping_add((t[i] - b'0') as u128); digits += 1; if dot { frac += 1; } }
        else { return M::Bad; }
        i += 1;
    }
    if digits == 0 { return M::Bad; }
    let mut e = 0i64;
    if i < t.len() {
        i += 1;
        let en = i < t.len() && t[i] == b'-';
        if i < t.len() && (t[i] == b'-' || t[i] == b'+') { i += 1; }
        if i == t.len() { return M::Bad; }
        while i < t.len() { if !t[i].is_ascii_digit() { return M::Bad; } e = e * 10 + (t[i] - b'0') as i64; i += 1; }
        if en { e = -e; }
    }
    let e = conc(e as u64) as i64 - frac;
    if e > 30 || e < -18 { return M::Unspec; }
    if e >= 0 { M::Val(neg, n.wrapping_mul(pow10(e as u64)), 1) } else { M::Val(neg, n, pow10((-e) as u64)) }
}
fn is_val(x: &Float, neg: bool, n: u128, d: u128) {
    let p = conc(x.get_precision() as u64);
    va!(p >= 64 && p <= 127);
    va!(mode_no(x.get_mode()) == 0);
    if n == 0 { let r = rd(x); va!(r.kind == ZERO && r.acc == 1); out(0); return; }
    let k = n.leading_zeros();
    let u = n << k;
    same!(x, &rounded(neg, u / d, u % d != 0, -(k as i64), p, 0));
    out_fl(x);
}
fn parse_check(b: &[u8]) {
    let r = Float::from_str(unsafe { std::str::from_utf8_unchecked(b) });
    match (meaning(b), r) {
        (M::Val(neg, n, d), Ok(x)) => is_val(&x, neg, n, d),
        (M::Bad, Err(_)) => out(2),
        (M::Unspec, _) => out(3),
        _ => va!(false),
    }
}
fn pick(alpha: &[u8]) -> u8 { let k = alpha.len() as u64; let mut n = 0; while (1 << n) < k { n += 1; } let i = bits(n); assume(i < k); let mut c = alpha[0]; for j in 1..alpha.len() { c = ite(i == j as u64, alpha[j] as u64, c as u64) as u8; } c }
/// a p-bit mantissa: p2 == 255 all low bits symbolic, otherwise `lo` low and `hi` high ones over a pattern
fn operand(p: u64, lo: u64, hi: u64, pat: u64) -> u128 { mant(p, lo.min(p - 1), hi, pat) }
/// the decimal digits d, read as an integer D, make D 10^-t the value a 2^k rounded half-even to a multiple of 10^-t
fn dec_is(d: &[u8], t: i64, a: &B, k: i64) {
    let mut v = b1(0); let mut ok = true;
    for &c in d { ok &= c.is_ascii_digit(); v = badd(&bmul1(&v, 10), &b1(c.wrapping_sub(b'0') as u64)); }
    va!(ok);
    let p10 = |x: &B, n: i64| { let (mut x, mut n) = (*x, n); while n >= 9 { x = bmul1(&x, 1_000_000_000); n -= 9; } while n > 0 { x = bmul1(&x, 10); n -= 1; } x };
    let x = p10(&bshl(a, k.max(0) as u64), t);
    let (y, u) = (p10(&bshl(&v, (-k).max(0) as u64), -t), p10(&bshl(&b1(1), (-k).max(0) as u64), -t));
    let ((f, c), (g, _)) = (bsub(&x, &y), bsub(&y, &x));
    let w = bshl(&bite(c == 0, &f, &g), 1);
    va!(blt(&w, &u) | (bcmp0(&w, &u) & (v[0] & 1 == 0)));
}
harnesses! {
    // {} and {:?}: p0-bit mantissa (p1 low, p2 high bits symbolic, pattern p3) times 2^(p4-100), sign p5, p0 decimals
    fn c26_fixed() {
        let (p, k, neg) = (param(0), param(4) as i64 - 100, param(5) != 0);
        let a = operand(p, param(1), param(2), param(3));
        let x = flp(neg, a, k, p, param(6));
        let s = if param(7) == 0 { format!("{}", x) } else { format!("{:?}", x) };
        let t = sign(s.as_bytes(), neg);
        let dp = p as usize;
        if k >= 0 { fixed_text(t, dp, a << k, dp); }
        else {
            let j = (-k) as u64;
            if j <= p { let mut v = a; for _ in 0..j { v = v.wrapping_mul(5); } fixed_text(t, dp, v, (p - j) as usize); }
            else { fixed_text(t, dp, half_even(a.wrapping_mul(pow10(p)), 1u128 << j), 0); }
        }
        // the text holds every digit: it denotes x again
        if k >= -(p as i64) && param(8) != 0 { match Float::from_str(&s) { Ok(y) => { va!(y == x); va!(acc(y.get_accuracy()) == 1); } Err(_) => va!(false) } }
    }
    // values so small that they vanish (p4: 1 just above half of the last decimal)
    fn c26_fixed_tiny() {
        let (p, neg) = (param(0), param(2) != 0);
        let a = operand(p, 3, 0, 0);
        let x = flp(neg, a, -(param(1) as i64), p, 0);
        let s = format!("{}", x);
        fixed_text(sign(s.as_bytes(), neg), p as usize, half_even(a.wrapping_mul(pow10(p)), 1u128 << param(1)), 0);
    }
    // {:.Ne} / {:.NE}: N = p6 (255: default), mantissa p0..p3, exponent p4 - 100, sign p5, p7 letter
    fn c26_exp() {
        let (p, k, neg) = (param(0), param(4) as i64 - 100, param(5) != 0);
        let a = operand(p, param(1), param(2), param(3));
        let x = flp(neg, a, k, p, 0);
        let n = param(6) as usize;
        let (s, c, n) = match (n, param(7)) { (255, 0) => (format!("{:e}", x), b'e', 7), (255, _) => (format!("{:E}", x), b'E', 7), (_, 0) => (format!("{:.*e}", n, x), b'e', n), _ => (format!("{:.*E}", n, x), b'E', n) };
        let t = sign(s.as_bytes(), neg);
        if k >= 0 { exp_text(t, c, n, a << k, 0); }
        else { let mut d = a; for _ in 0..-k { d = d.wrapping_mul(5); } exp_text(t, c, n, d, -k); }
        if param(8) != 0 { match Float::from_str(&s) { Ok(y) => va!(y == x), Err(_) => va!(false) } }
    }
    fn c26_special() {
        let neg = param(1) != 0;
        let mut x = special(param(0), neg);
        if param(2) != 0 { x.set_precision(param(2) as usize); }
        let w = match (param(0), neg) { (ZERO, _) => "0", (INF, false) => "+Inf", (INF, true) => "-Inf", _ => "NaN" };
        let fix = |s: String| { let z = param(0) == ZERO && s.starts_with('-'); if z { s[1..].to_string() } else { s } };
        va!(fix(format!("{}", x)) == w && fix(format!("{:?}", x)) == w && fix(format!("{:e}", x)) == w && fix(format!("{:.3E}", x)) == w);
        if bits(1) == 1 { out(1); }
    }
    // every ASCII string of p0 characters, the first ones (below the last) given by p1 in base 128
    fn c26_parse_ascii() { let mut b = vec![]; for i in 1..param(0) { b.push((param(1) >> (7 * (i - 1)) & 127) as u8); } if param(0) > 0 { b.push(bits(7) as u8); } parse_check(&b); }
    // every string of p0 characters over an alphabet
    fn c26_parse_alpha() {
        let mut b = vec![];
        for _ in 0..param(0) { b.push(match param(1) { 0 => pick(b"05.e-+"), 1 => pick(b"1E.9- x0"), _ => pick(b"e.1+") }); }
        parse_check(&b);
    }
    // templates, # digits symbolic
    fn c26_parse_form() {
        let t: &[u8] = match param(0) {
            0 => b"#.#", 1 => b"-#.#", 2 => b"+.##", 3 => b"##.", 4 => b"#.#e#", 5 => b"#.#E-#", 6 => b" -#.#e+2 ", 7 => b"#e#", 8 => b"-#2e1#", 9 => b"0x#e", 10 => b"-0x1e#", 11 => b"0b1#", 12 => b"0.0#e#", 13 => b"123#56.78#", 14 => b"00#.#00", 15 => b"1#e-1#", 16 => b"#.#.#", 17 => b"1.#e1.#", 18 => b"#. #", 19 => b"#.#e", 20 => b"--#.#", 21 => b"#.#e- #", 22 => b"98765432109876543#.5#", 23 => b"-1234567890123456789012#e#", 24 => b".-#5", 25 => b"#.0x#", 26 => b"#e5E#", 27 => b"0.00000000000#", 28 => b"#.e#", 29 => b".e#", 30 => b"+-#.#", 31 => b"#.#e+-#", 32 => b"0x#.#", 33 => b"9999999999999999999#.5", 34 => b"1844674407370955161#", 35 => b"3689348814741910323#.#e0", 36 => b"00#e0#", 37 => b"#e00000000000000000000000000#", 38 => b"0x8000000000000000#", 39 => b"#,#", _ => b"#",
        };
        let b: Vec<u8> = t.iter().map(|&c| if c == b'#' { let d = bits(4); assume(d < 10); b'0' + d as u8 } else { c }).collect();
        parse_check(&b);
    }
    // exponents beyond the representable range are refused
    fn c26_parse_range() {
        let d = bits(3);
        let c = (b'0' + d as u8) as char;
        let s = match param(0) { 0 => format!("{}e99999999999999999999999", c), 1 => format!("{}.5e-99999999999999999999999", c), 2 => format!("1.5E{}9223372036854775808", c), _ => format!("-.5e-{}9223372036854775809", c) };
        match Float::from_str(&s) { Ok(_) => va!(false), Err(_) => out(1) }
    }
    // {} of operands of any length: p0 bits, p1/p2 symbolic low/high bits, pattern p3, exponent p4 - 500, sign p5
    fn c26_fixed_long() {
        let (p, k, neg) = (param(0), param(4) as i64 - 500, param(5) != 0);
        let a = bmant(p, param(1), param(2), param(3));
        let x = bfl(neg, &a, k, p, 0);
        let s = format!("{}", x);
        let t = sign(s.as_bytes(), neg);
        let dp = p as usize;
        va!(t.len() > dp + 1);
        let il = t.len() - dp - 1;
        va!((il == 1 || t[0] != b'0') && t[il] == b'.');
        let mut d: Vec<u8> = t[..il].to_vec(); d.extend_from_slice(&t[il + 1..]);
        dec_is(&d, dp as i64, &a, k);
        for &c in t { out(c as u64); }
    }
    // {:.Ne}: the same, N = p6
    fn c26_exp_long() {
        let (p, k, neg, n) = (param(0), param(4) as i64 - 500, param(5) != 0, param(6) as usize);
        let a = bmant(p, param(1), param(2), param(3));
        let x = bfl(neg, &a, k, p, 0);
        let s = format!("{:.*e}", n, x);
        let t = sign(s.as_bytes(), neg);
        va!(t.len() > n + 3);
        let ml = if n == 0 { 1 } else { n + 2 };
        let mut d = vec![t[0]];
        if n > 0 { va!(t[1] == b'.'); d.extend_from_slice(&t[2..ml]); }
        va!(t[ml] == b'e' && t[0] != b'0');
        let e = &t[ml + 1..];
        let eneg = e[0] == b'-';
        let e = if eneg { &e[1..] } else { e };
        va!(e.len() >= 2 && (e.len() == 2 || e[0] != b'0'));
        let e = conc(dec(e) as u64) as i64;
        dec_is(&d, n as i64 - if eneg { -e } else { e }, &a, k);
        for &c in t { out(c as u64); }
    }
    // decimal text of p0 digits (pattern p1, the first and last of them and one in the middle symbolic below 2^p2), point after p3 of them, exponent p4 - 500, sign p5
    fn c26_parse_long() {
        let (n, f) = (param(0) as usize, fixed(param(0), 2 + param(1)));
        let dig = |i: usize| -> u8 { let v = match param(1) { 0 => 0, 1 => 9, _ => f[i] % 10 } as u64; let v = if i == 0 || i + 1 == n || i == n / 2 { let b = bits(param(2)); if param(1) == 1 { 9 - b } else { b } } else { v }; v as u8 };
        let d: Vec<u8> = (0..n).map(dig).collect();
        let (neg, at, e) = (param(5) != 0, param(3) as usize, param(4) as i64 - 500);
        let mut t: Vec<u8> = vec![];
        if neg { t.push(b'-'); }
        for i in 0..n { if i == at { t.push(b'.'); } t.push(b'0' + d[i]); }
        t.extend_from_slice(format!("e{}", e).as_bytes());
        let r = Float::from_str(unsafe { std::str::from_utf8_unchecked(&t) });
        let x = match r { Ok(x) => x, Err(_) => { va!(false); return; } };
        let mut v = b1(0); for &c in &d { v = badd(&bmul1(&v, 10), &b1(c as u64)); }
        assume(!bzero(&v));
        let e = e - (n - at.min(n)) as i64;
        let p = conc(x.get_precision() as u64);
        va!(p >= 64 && p < 1100);
        let w = bpow10(e.unsigned_abs());
        if e >= 0 {
            // n 10^e in pieces of nine digits
            let mut u = v; let mut m = e; while m >= 9 { u = bmul1(&u, 1_000_000_000); m -= 9; } while m > 0 { u = bmul1(&u, 10); m -= 1; }
            bsame(&x, bround(neg, &u, false, 0, p, 0), neg, p);
        } else {
            let (lv, lw) = (conc(blen(&v)), conc(blen(&w)));
            let (q, st, k) = bquo(&v, lv, &w, lw, p + 3);
            bsame(&x, bround(neg, &q, st, k, p, 0), neg, p);
        }
        out_fl(&x);
    }
}
