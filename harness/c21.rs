//! C21: rational comparison and text
use crate::vs::*;
use rmath::bigint::{BigInt, Nat, Rat};
use std::cmp::Ordering;
use std::str::FromStr;
#[path = "big.rs"]
pub mod big;
use big::*;
const K: [u64; 8] = [1, 6, 10, 1 << 33, 3486784401, 0x1_0000_0001, 0xffff_ffff, 1 << 20];
fn w2(v: u128) -> Vec<u32> { let w = [v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32]; let mut n = 4; while n > 1 && w[n - 1] == 0 { n -= 1; } w[..n].to_vec() }
fn mag(n: &Nat) -> u128 { let w: &[u32] = n.as_ref(); if w.len() > 4 || w.is_empty() { return u128::MAX; } let mut v = 0u128; for i in 0..w.len() { v |= (w[i] as u128) << (32 * i); } v }
fn gcd(mut a: u128, mut b: u128, steps: u32) -> u128 {
    for _ in 0..steps { let z = b == 0; let d = b | z as u128; let r = a % d; let keep = 0u128.wrapping_sub(z as u128); a = (a & keep) | (b & !keep); b = r & !keep; }
    a
}
fn red(n: u128, d: u128, steps: u32) -> (u128, u128) { let g = gcd(n, d, steps); let g = g | (g == 0) as u128; (n / g, d / g) }
fn mk(n: u128, neg: bool, d: u128) -> Rat { match Rat::from_frac_bigint(&int(&w2(n), neg), &int(&w2(d), false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } } }
fn nz(v: u64) -> u128 { assume(v != 0); v as u128 }
fn is_red(x: &Rat, neg: bool, (n, d): (u128, u128)) {
    va!(!x.is_nan());
    let (p, q) = (x.numerator(), x.denominator());
    va!(canon(p) && canon(q) && q.is_positive());
    va!(mag(p.as_ref()) == n && mag(q.as_ref()) == d);
    va!(p.is_negative() == (neg && n != 0));
    out_int(p); out_int(q);
}
/// every comparison of x and y agrees with want (0 less, 1 equal, 2 greater)
fn cmps(x: &Rat, y: &Rat, want: u64) {
    let got = match x.partial_cmp(y) { Some(Ordering::Less) => 0, Some(Ordering::Equal) => 1, Some(Ordering::Greater) => 2, None => 3 };
    va!(got == want);
    va!((*x == *y) == (want == 1) && (*x != *y) == (want != 1));
    va!((*x < *y) == (want == 0) && (*x > *y) == (want == 2) && (*x <= *y) == (want <= 1) && (*x >= *y) == (want >= 1));
    out(got);
}
fn order(a: u128, na: bool, b: u128, nb: bool) -> u64 {
    let (na, nb) = (na && a != 0, nb && b != 0);
    let c = ite(a < b, 0, ite(a > b, 2, 1));
    ite(na, ite(nb, 2 - c, 0), ite(nb, 2, c))
}
fn val(c: u8) -> u32 { match c { b'0'..=b'9' => (c - b'0') as u32, b'a'..=b'f' => (c - b'a') as u32 + 10, b'A'..=b'F' => (c - b'A') as u32 + 10, _ => 99 } }
/// b is the canonical digit string of v in the base (with the prefix), read from the front; the rest is returned
fn number<'a>(b: &'a [u8], prefix: &str, base: u32, upper: bool, v: u128) -> &'a [u8] {
    let p = prefix.len();
    va!(b.len() > p && &b[..p] == prefix.as_bytes());
    let d = &b[p..];
    let mut n = 0;
    while n < d.len() && d[n] != b'/' { n += 1; }
    let mut z = 0u128;
    let mut ok = n > 0;
    for i in 0..n { let c = d[i]; let x = val(c); ok &= x < base; ok &= !((upper && c >= b'a') || (!upper && c >= b'A' && c <= b'F')); z = z.wrapping_mul(base as u128).wrapping_add(x as u128); }
    va!(ok && (n == 1 || d[0] != b'0') && z == v);
    &d[n..]
}
/// what a text of an integer denotes (see C19)
fn meaning(t: &[u8]) -> Result<Option<(bool, u64)>, ()> {
    let (mut i, mut j) = (0, t.len());
    let blank = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    while i < j && blank(t[i]) { i += 1; }
    while j > i && blank(t[j - 1]) { j -= 1; }
    let neg = i < j && t[i] == b'-';
    if neg { i += 1; while i < j && blank(t[i]) { i += 1; } }
    while i < j && (t[i] == b'+' || t[i] == b' ') { i += 1; }
    let t = &t[i..j];
    if t.is_empty() || !t[0].is_ascii_digit() { return Ok(None); }
    let (d, base) = if t.len() > 1 && t[0] == b'0' {
        match t[1] { b'o' => (&t[2..], 8), b'b' | b'B' => (&t[2..], 2), b'x' | b'X' => (&t[2..], 16), _ => return Ok(None) }
    } else { (t, 10) };
    if d.is_empty() { return Err(()); }
    let mut v = 0u64;
    for &c in d { let x = val(c); if x >= base { return Ok(None); } v = v.wrapping_mul(base as u64).wrapping_add(x as u64); }
    Ok(Some((neg, v)))
}
/// what a text denotes as a rational: None error, Some(neg, numerator, denominator) not reduced; Err: unspecified (never a panic)
fn rational(t: &[u8]) -> Result<Option<(bool, u128, u128)>, ()> {
    let (mut i, mut j) = (0, t.len());
    let blank = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    while i < j && blank(t[i]) { i += 1; }
    while j > i && blank(t[j - 1]) { j -= 1; }
    let t = &t[i..j];
    if t.iter().any(|&c| c == b'.') {
        let mut i = 0;
        let neg = t[0] == b'-';
        if t[0] == b'-' || t[0] == b'+' { i = 1; }
        let (mut n, mut digits, mut frac, mut dot) = (0u128, 0, 0i32, false);
        while i < t.len() && t[i] != b'e' && t[i] != b'E' {
            if t[i] == b'.' { if dot { return Ok(None); } dot = true; }
            else if t[i].is_ascii_digit() { n = n.wrapping_mul(10).wrapping_add((t[i] - b'0') as u128); digits += 1; if dot { frac += 1; } }
            else { return Ok(None); }
            i += 1;
        }
        if !dot || digits == 0 { return Ok(None); }
        let mut e = 0i32;
        if i < t.len() {
            i += 1;
            let en = i < t.len() && t[i] == b'-';
            if i < t.len() && (t[i] == b'-' || t[i] == b'+') { i += 1; }
            if i == t.len() { return Ok(None); }
            while i < t.len() { if !t[i].is_ascii_digit() { return Ok(None); } e = e * 10 + (t[i] - b'0') as i32; i += 1; }
            if en { e = -e; }
        }
        e -= frac;
        let mut d = 1u128;
        while e > 0 { n = n.wrapping_mul(10); e -= 1; }
        while e < 0 { d = d.wrapping_mul(10); e += 1; }
        return Ok(Some((neg, n, d)));
    }
    let k = t.iter().position(|&c| c == b'/');
    let (a, b) = match k { Some(i) => (meaning(&t[..i]), meaning(&t[i + 1..])), None => (meaning(t), Ok(Some((false, 1)))) };
    match (a, b) {
        (Ok(None), _) | (_, Ok(None)) => Ok(None),
        (Ok(Some((na, n))), Ok(Some((nb, d)))) => if d == 0 { Ok(None) } else { Ok(Some((na != nb, n as u128, d as u128))) },
        _ => Err(()),
    }
}
fn parse_check(b: &[u8], steps: u32) {
    let r = Rat::from_str(unsafe { std::str::from_utf8_unchecked(b) });
    match (rational(b), r) {
        (Ok(Some((neg, n, d))), Ok(x)) => is_red(&x, neg, red(n, d, steps)),
        (Ok(None), Err(_)) => out(2),
        (Err(()), _) => out(3),
        _ => va!(false),
    }
}
fn pick(alpha: &[u8]) -> u8 { let k = alpha.len() as u64; let mut n = 0; while (1 << n) < k { n += 1; } let i = bits(n); assume(i < k); let mut c = alpha[0]; for j in 1..alpha.len() { c = ite(i == j as u64, alpha[j] as u64, c as u64) as u8; } c }
harnesses! {
    // all pairs with terms of p0/p1/p2/p3 bits, signs p4, factors p5 (4 hex digits)
    fn c21_cmp() {
        let (a, b, c, d) = (bits(param(0)) as u128, nz(bits(param(1))), bits(param(2)) as u128, nz(bits(param(3))));
        let f = param(5);
        let k = |i: u64| K[((f >> (4 * i)) & 7) as usize] as u128;
        let (a, b, c, d) = (a.wrapping_mul(k(3)), b.wrapping_mul(k(2)), c.wrapping_mul(k(1)), d.wrapping_mul(k(0)));
        let (na, nc) = (param(4) & 1 != 0, param(4) & 2 != 0);
        cmps(&mk(a, na, b), &mk(c, nc, d), order(a.wrapping_mul(d), na, c.wrapping_mul(b), nc));
    }
    // integers, fully symbolic words
    fn c21_cmp_int() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let (na, nb) = (param(2) & 1 != 0 && param(0) != 0, param(2) & 2 != 0 && param(1) != 0);
        let (x, y) = (Rat::from(int(&a, na)), Rat::from(int(&b, nb)));
        let at = |v: &[u32], i: usize| if i < v.len() { v[i] } else { 0 };
        let mut c = 1u64;
        for i in 0..a.len().max(b.len()) { let (p, q) = (at(&a, i), at(&b, i)); c = ite(p < q, 0, ite(p > q, 2, c)); }
        cmps(&x, &y, if na && nb { 2 - c } else if na { 0 } else if nb { 2 } else { c });
    }
    // neighbours: n/d against (n+-1)/d and n/(d+-1), operands of p0 bits with symbolic low bits
    fn c21_cmp_near() {
        let n = (1u128 << param(0)) + bits(param(3)) as u128;
        let d = (1u128 << param(1)) + bits(param(3)) as u128;
        let (x, y, w) = match param(2) { 0 => (mk(n, false, d), mk(n + 1, false, d), 0), 1 => (mk(n, false, d), mk(n, false, d + 1), 2), 2 => (mk(n, true, d), mk(n + 1, true, d), 2), _ => (mk(n, true, d), mk(n, true, d), 1) };
        cmps(&x, &y, w);
    }
    fn c21_nan() {
        let n = Rat::from(f64::NAN);
        let x = mk(bits(2) as u128, param(0) != 0, nz(bits(2)));
        va!(x.partial_cmp(&n).is_none() && n.partial_cmp(&x).is_none() && !(n < x) && !(x < n) && !(n >= x) && !(x >= n) && x != n && n != x && n != n);
        va!(format!("{}", n) == "NaN" && format!("{:?}", n) == "NaN" && format!("{:#x}", n) == "NaN");
    }
    // p0 form, numerator p1 bits * factor p3, denominator p2 bits * factor p4, sign p5
    fn c21_fmt() {
        let (n, d) = ((bits(param(1)) as u128).wrapping_mul(K[param(3) as usize] as u128), nz(bits(param(2))).wrapping_mul(K[param(4) as usize] as u128));
        let neg = param(5) != 0;
        let x = mk(n, neg, d);
        let (s, p, base, up) = match param(0) {
            0 => (format!("{}", x), "", 10, false), 1 => (format!("{:#}", x), "", 10, false), 2 => (format!("{:x}", x), "", 16, false), 3 => (format!("{:#x}", x), "0x", 16, false),
            4 => (format!("{:X}", x), "", 16, true), 5 => (format!("{:#X}", x), "0x", 16, true), 6 => (format!("{:b}", x), "", 2, false), 7 => (format!("{:#b}", x), "0b", 2, false),
            8 => (format!("{:o}", x), "", 8, false), _ => (format!("{:#o}", x), "0o", 8, false),
        };
        let (rn, rd) = red(n, d, param(6) as u32);
        let b = s.as_bytes();
        let minus = b.len() > 0 && b[0] == b'-';
        va!(minus == (neg && n != 0));
        let b = if minus { &b[1..] } else { b };
        let r = number(b, p, base, up, rn);
        va!(r.len() > 1 && r[0] == b'/');
        va!(number(&r[1..], p, base, up, rd).is_empty());
        if param(0) < 2 || param(0) & 1 == 1 { match Rat::from_str(&s) { Ok(y) => is_red(&y, neg, (rn, rd)), Err(_) => va!(false) } }
    }
    // every ASCII string of p0 characters
    fn c21_parse_ascii() { let mut b = vec![]; for _ in 0..param(0) { let c = sym(7) as u8; b.push(c); } parse_check(&b, 24); }
    // every string of p0 characters over the characters that matter, p1 choosing the alphabet
    fn c21_parse_alpha() {
        let mut b = vec![];
        for _ in 0..param(0) { b.push(match param(1) { 0 => pick(b"012./e-+"), 1 => pick(b"16/- x0b"), _ => pick(b"9.5eE+-0") }); }
        parse_check(&b, 60);
    }
    // p0: template, digits symbolic
    fn c21_parse_form() {
        let t: &[u8] = match param(0) {
            0 => b"#.#", 1 => b"-#.#", 2 => b"+.##", 3 => b"##.", 4 => b"#.#e#", 5 => b"#.#E-#", 6 => b" -#.#e+2 ", 7 => b"#/#", 8 => b"-#2/1#", 9 => b"0x#/0b1", 10 => b" #/-# ", 11 => b"# / #",
            12 => b"-#/-#", 13 => b"0.0#e#", 14 => b"123#56.78#", 15 => b"00#.#00", 16 => b"1#e#", 17 => b"#/0", 18 => b"#//#", 19 => b"#/#/#", 20 => b"1.#e1.#", 21 => b"#.#/#", 22 => b"#. #", 23 => b"#.#e", 24 => b"--#.#", 25 => b"#.#e- #", 26 => b"98765432109876543#/1000000000#", _ => b"#",
        };
        let b: Vec<u8> = t.iter().map(|&c| if c == b'#' { let d = bits(4); assume(d < 10); b'0' + d as u8 } else { c }).collect();
        parse_check(&b, 90);
    }
    // exponents and digit counts far out: exact, refused, or zero, never a panic
    fn c21_parse_big() {
        let d = bits(3);
        assume(d != 0);
        let c = (b'0' + d as u8) as char;
        match param(0) {
            0 => { let s = format!("{}.5e30", c); match Rat::from_str(&s) { Ok(x) => { va!(x.is_integer() == Some(true)); let mut z = Z::u(d.wrapping_mul(10).wrapping_add(5)); for _ in 0..29 { z = z.mul(Z::u(10)); } zeq!(zint(x.numerator()), z); } Err(_) => va!(false) } }
            1 => { let s = format!("0.000{}e99999999999999999999999", 0); match Rat::from_str(&s) { Ok(x) => is_red(&x, false, (0, 1)), Err(_) => va!(false) } }
            2 => { let s = format!("-{}.5e-25", c); match Rat::from_str(&s) { Ok(x) => { let mut z = Z::u(1); for _ in 0..26 { z = z.mul(Z::u(10)); } va!(x.numerator().is_negative());
                zeq!(Z::u(0).sub(zint(x.numerator())).mul(z), Z::u(d.wrapping_mul(10).wrapping_add(5)).mul(zint(x.denominator()))); } Err(_) => va!(false) } }
            3 => { let s = format!("12345678901234567890123456789012345{}.", c); match Rat::from_str(&s) { Ok(x) => { let y: BigInt = BigInt::from_str(&s[..s.len() - 1]).unwrap(); va!(same_int(x.numerator(), &y) && x.is_integer() == Some(true)); } Err(_) => va!(false) } }
            _ => { let s = format!("{}.e99999999999999999999999", c); match Rat::from_str(&s) { Ok(x) => va!(!x.is_nan()), Err(_) => {} } }
        }
    }
    // non-ASCII text is an error
    fn c21_parse_wide() { let c = sym(8) as u32 + 128; let mut s = String::new(); if param(0) & 1 != 0 { s.push('1'); } s.push(char::from_u32(c).unwrap_or('é')); if param(0) & 2 != 0 { s.push_str(if param(0) & 4 != 0 { ".5" } else { "/2" }); } assume(c != 0x85 && c != 0xa0); va!(Rat::from_str(&s).is_err()); }
    // terms of p0, p1 bits (numerators, p4 symbolic bits) and p2 bits (denominators, 1 symbolic bit), pattern p5, signs p3: order by cross multiplication
    fn c21_cmp_wide() {
        let (n, pat) = (param(4), param(5));
        let (a, c) = (bmant(param(0), n, 1, pat), bmant(param(1), n, 0, if param(6) != 0 { pat } else { pat ^ 1 }));
        let (b, d) = (bmant(param(2), 1, 0, pat ^ 3), bmant(param(2), 1, 0, pat ^ 3));
        let (na, nc) = (param(3) & 1 != 0, param(3) & 2 != 0);
        let m = |n: &B, neg: bool, d: &B| match Rat::from_frac_bigint(&int(&btrim(n), neg), &int(&btrim(d), false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } };
        let (x, y) = (m(&a, na, &b), m(&c, nc, &d));
        let (l, r) = (bmul(&a, 16, &d, 16), bmul(&c, 16, &b, 16));
        let c = ite(blt(&l, &r), 0, ite(blt(&r, &l), 2, 1));
        cmps(&x, &y, if na && nc { 2 - c } else if na { 0 } else if nc { 2 } else { c });
    }
    // text of wide terms: p0 form (0 decimal, 1 hexadecimal, 2 binary, 3 octal), numerator p1 bits, denominator p2 bits, p3 symbolic bits each, sign p4, pattern p5; read back
    fn c21_fmt_wide() {
        let (w, v) = (bitsel(param(1), param(3), 0, param(5)), bitsel(param(2), param(3), 0, param(5) ^ 1));
        let neg = param(4) != 0;
        let x = match Rat::from_frac_bigint(&int(&w, neg), &int(&v, false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } };
        let (p, q): (&Nat, &Nat) = (x.numerator().as_ref(), x.denominator().as_ref());
        zeq!(Z::nat(p).mul(Z::words(&v)), Z::nat(q).mul(Z::words(&w)));
        let (s, pre, base) = match param(0) { 0 => (format!("{}", x), "", 10), 1 => (format!("{:#x}", x), "0x", 16), 2 => (format!("{:#b}", x), "0b", 2), _ => (format!("{:#o}", x), "0o", 8) };
        let mut b = s.as_bytes();
        va!((b[0] == b'-') == neg);
        if neg { b = &b[1..]; }
        let mut k = 0;
        while k < b.len() && b[k] != b'/' { k += 1; }
        va!(k < b.len());
        for (t, want) in [(&b[..k], p), (&b[(k + 1).min(b.len())..], q)] {
            let n = pre.len();
            va!(t.len() > n && &t[..n] == pre.as_bytes());
            let t = &t[n..];
            let mut z = [0; L];
            let mut ok = t.len() == 1 || t[0] != b'0';
            for &c in t { let e = val(c); ok &= e < base; z = badd(&bmul1(&z, base), &b1(e as u64)); }
            let w: &[u32] = want.as_ref();
            va!(ok && bcmp0(&z, &bwords(w)));
        }
        match Rat::from_str(&s) { Ok(y) => va!(same_int(x.numerator(), y.numerator()) && same_int(x.denominator(), y.denominator())), Err(_) => va!(false) }
        out_int(x.numerator()); out_int(x.denominator());
    }
    // long decimals: p0 digits before and p1 after the point (p2 symbolic ones, spread), exponent p3 - 100, sign p4
    fn c21_parse_long() {
        let (i, f, k) = (param(0), param(1), param(2));
        let e = param(3) as i64 - 100;
        let mut s = String::new();
        if param(4) != 0 { s.push('-'); }
        let (mut n, mut seed) = ([0; L], 12345u64);
        for j in 0..i + f {
            if j == i { s.push('.'); }
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let g = (seed >> 40) % 9;
            let d = if k > 0 && j % ((i + f + k - 1) / k) == 0 { g + sym(1) } else { g };
            s.push((b'0' + d as u8) as char);
            n = badd(&bmul1(&n, 10), &b1(d));
        }
        if f == 0 { s.push('.'); }
        if param(3) != 100 { s.push_str(&format!("e{}", e)); }
        match Rat::from_str(&s) {
            Ok(x) => {
                let (p, q): (&Nat, &Nat) = (x.numerator().as_ref(), x.denominator().as_ref());
                va!(canon(x.numerator()) && canon(x.denominator()) && x.denominator().is_positive());
                va!(x.numerator().is_negative() == (param(4) != 0 && !bzero(&n)));
                let t = e - f as i64;
                let pow = bpow10(t.abs() as u64);
                let (pw, qw) = (bwords(p.as_ref()), bwords(q.as_ref()));
                let (l, r) = if t < 0 { (bmul(&pw, 18, &pow, 18), bmul(&qw, 18, &n, 18)) } else { (pw, bmul(&qw, 18, &bmul(&n, 18, &pow, 18), 18)) };
                va!(bcmp0(&l, &r));
                let g = bgcd_free(p, q);
                va!(g);
                out_int(x.numerator()); out_int(x.denominator());
            }
            Err(_) => va!(false),
        }
    }
}
/// a fraction over a power of ten is in lowest terms: no common factor 2 or 5
fn bgcd_free(p: &Nat, q: &Nat) -> bool {
    let (p, q): (&[u32], &[u32]) = (p.as_ref(), q.as_ref());
    let five = |w: &[u32]| { let mut r = 0u64; for i in (0..w.len()).rev() { r = ((r << 32) | w[i] as u64) % 5; } r == 0 };
    (p[0] | q[0]) & 1 == 1 && !(five(p) & five(q))
}
