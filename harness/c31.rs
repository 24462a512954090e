//! C31: errors name their cause
use crate::vs::*;
use rmath::bigint::{BigInt, Float, Nat, NatError, Rat, RatErrKind, RatError};
use rmath::parse_err::ParseErrKind;
use rmath::rand::*;
use std::error::Error;
use std::str::FromStr;
struct Src(u32);
impl Source<u32> for Src {
    fn gen(&mut self) -> Result<u32> { self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223); Ok(self.0) }
    fn reset<S: Seed<u32>>(&mut self, _: &S) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for Src { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
/// 1 the text begins illegally, 2 an illegal character follows, 3 a parameter is invalid
fn kind(e: &NatError) -> u64 {
    let k = e.kind();
    let r = match k { ParseErrKind::BeginWithIllegalChar => 1, ParseErrKind::IllegalCharEncounter => 2, ParseErrKind::InvalidParameters => 3 };
    let s = format!("{:?}", k);
    va!(s == ["The string to be parsed begin with an illegal character", "Illegal character encountered during parsing", "Invalid parameters"][r as usize - 1]);
    va!(format!("{:?}", e).contains(&s));
    va!(e.source().is_none());
    r
}
fn blank(c: char) -> bool { c.is_whitespace() }
fn val(c: char) -> u32 { match c { '0'..='9' => c as u32 - '0' as u32, 'a'..='f' => c as u32 - 'a' as u32 + 10, 'A'..='F' => c as u32 - 'A' as u32 + 10, _ => 99 } }
fn trim(t: &[char]) -> &[char] { let (mut i, mut j) = (0, t.len()); while i < j && blank(t[i]) { i += 1; } while j > i && blank(t[j - 1]) { j -= 1; } &t[i..j] }
/// 0 a number, 1 or 2 the error, 9 unspecified (a prefix without digits); with the value of a short number
fn natural(t: &[char]) -> (u64, u64) {
    let mut t = trim(t);
    while !t.is_empty() && (t[0] == '+' || t[0] == ' ') { t = &t[1..]; }
    if t.is_empty() || !t[0].is_ascii_digit() { return (1, 0); }
    let (d, base) = if t.len() > 1 && t[0] == '0' { match t[1] { 'o' => (&t[2..], 8), 'b' | 'B' => (&t[2..], 2), 'x' | 'X' => (&t[2..], 16), _ => return (1, 0) } } else { (t, 10) };
    if d.is_empty() { return (9, 0); }
    let mut v = 0u64;
    for &c in d { if val(c) >= base { return (2, 0); } v = v.wrapping_mul(base as u64).wrapping_add(val(c) as u64); }
    (0, v)
}
fn integer(t: &[char]) -> (u64, u64) { let t = trim(t); if !t.is_empty() && t[0] == '-' { natural(&t[1..]) } else { natural(t) } }
/// prefix p, then n arbitrary ASCII characters, then a suffix (which may be non-ASCII)
fn text(p: u64, n: u64, suf: u64, few: bool) -> Vec<char> {
    let mut v: Vec<char> = ["", "0x", "-0b1", "12", "0o7", "1/", "1.", "-", "0", "2e", "3/0", "+ "][p as usize].chars().collect();
    for _ in 0..n {
        let c = sym(8) & 127;
        // the value of a digit does not decide the kind: a few stand for all where arithmetic follows
        v.push((if few && (c as u8).is_ascii_alphanumeric() { let d = conc(bits(4)) as usize; assume(d < 13); b"017aFboxXBeEz"[d] } else { c as u8 }) as char);
    }
    v.extend(["", "0", "\u{e9}", "\u{3000}", "/1", ".5", "e1"][suf as usize].chars());
    v
}
harnesses! {
    // a natural or integer text: prefix p0, p1 symbolic characters of alphabet p2
    fn c31_nat() {
        let t = text(param(0), param(1), param(2), false);
        let s: String = t.iter().collect();
        match (natural(&t).0, Nat::from_str(&s)) { (0, Ok(n)) => va!(!n.is_nan()), (9, _) => {} (k, Err(e)) => { va!(kind(&e) == k); va!(k == 1 || s.contains(e.to_string().chars().last().unwrap())); } _ => va!(false) }
        match (integer(&t).0, BigInt::from_str(&s)) { (0, Ok(n)) => va!(!n.is_nan()), (9, _) => {} (k, Err(e)) => { va!(kind(&e) == k); } _ => va!(false) }
        out(s.len() as u64);
    }
    fn c31_rat() {
        let t = text(param(0), param(1), param(2), true);
        let s: String = t.iter().collect();
        let r = Rat::from_str(&s);
        let u = trim(&t);
        let mut want = RatErrKind::ParseStringWrong;
        let mut free = false;
        if !u.contains(&'.') { if let Some(i) = u.iter().position(|&c| c == '/') {
            let (a, b) = (integer(&u[..i]), integer(&u[i + 1..]));
            free = a.0 == 9 || b.0 == 9;
            if a.0 == 0 && b == (0, 0) { want = RatErrKind::DenominatorIsZero; va!(r.is_err()); }
        } }
        if let Err(e) = &r {
            va!(free || e.kind() == want);
            va!(format!("{:?}", e).contains(&format!("{:?}", e.kind())));
            va!((e.kind() == RatErrKind::DenominatorIsZero) == (format!("{:?}", e.kind()) == "DenominatorIsZero"));
            va!((e.kind() == RatErrKind::ParseStringWrong) == (format!("{:?}", e.kind()) == "ParseStringWrong"));
        }
        out(r.is_ok() as u64);
    }
    fn c31_float() {
        let t = text(param(0), param(1), param(2), true);
        let s: String = t.iter().collect();
        let r = Float::from_str(&s);
        if let Err(e) = &r {
            va!(format!("{:?}", e.kind()) == "ParseStringWrong");
            va!(e.kind() == Float::from_str("").err().unwrap().kind() && e.source().is_none());
        }
        out(r.is_ok() as u64);
    }
    // an exponent outside the range of a Float: p0 digits beyond 10^p1, sign p2
    fn c31_range() {
        let (neg, n) = (param(2) == 1, param(1) as usize);
        let c = |b: u64| (b'1' + conc(bits(b)) as u8) as char;
        let mut s = String::new();
        if param(0) & 1 == 1 { s.push('-'); }
        s.push(c(1)); if param(0) & 2 == 2 { s.push('.'); s.push(c(1)); }
        s.push(if param(0) & 4 == 4 { 'E' } else { 'e' });
        if neg { s.push('-'); } else if param(0) & 8 == 8 { s.push('+'); }
        s.push(c(3)); for _ in 0..n { s.push('0'); }
        match Float::from_str(&s) { Ok(_) => va!(false), Err(e) => {
            va!(e.kind() != Float::from_str("").err().unwrap().kind());
            va!(format!("{:?}", e.kind()) == if neg { "ExponentUnderflow" } else { "ExponentOverflow" });
            out(s.len() as u64);
        } }
    }
    // arithmetic causes: p0 zero denominator, inverse of zero, too small prime, zero modulus of a generator
    fn c31_arith() {
        match param(0) {
            0 => { const T: [isize; 8] = [0, 1, -1, 6, -9, isize::MAX, isize::MIN, 1 << 40]; let (a, b) = (T[conc(bits(3)) as usize], T[conc(bits(3)) as usize]); match Rat::from_frac(a, b) { Ok(_) => va!(b != 0), Err(e) => { va!(b == 0 && e.kind() == RatErrKind::DenominatorIsZero); va!(e.source().is_none()); } } }
            1 => { const T: [i64; 8] = [0, 1, -1, 6, -9, i64::MAX, i64::MIN, 1 << 40]; let (a, b) = (T[conc(bits(3)) as usize], T[conc(bits(3)) as usize]); match Rat::from_frac_bigint(&BigInt::from(a), &BigInt::from(b)) { Ok(r) => { va!(b != 0); match r.inv() { Ok(_) => va!(a != 0), Err(e) => { va!(a == 0 && e.kind() == RatErrKind::NumeratorIsZero); va!(format!("{:?}", e.kind()) == "NumeratorIsZero"); } } } Err(e) => va!(b == 0 && e.kind() == RatErrKind::DenominatorIsZero) } }
            2 => { let k = conc(bits(2)); match Nat::generate_prime(k as usize, 2, &mut Src(k as u32)) { Ok(n) => va!(k >= 2 && n.bits_len() as u64 == k), Err(e) => { va!(k < 2 && kind(&e) == 3); } } }
            3 => { let m = sym(64); struct Z; impl Seed<u64> for Z { fn seed(&self) -> Result<u64> { Ok(0) } } match LinearCongruentialRand::<u64>::new(&Z, 5, 7, m) { Ok(_) => va!(m != 0), Err(e) => va!(m == 0 && e.kind() == RandErrKind::DivisorIsZero) } }
            // an error built by a user: kind, text and cause read back
            _ => {
                let t: String = (0..2).map(|_| (b'a' + (sym(4) as u8)) as char).collect();
                let ks = [RatErrKind::DenominatorIsZero, RatErrKind::NumeratorIsZero, RatErrKind::ParseStringWrong];
                let i = conc(bits(1)) as usize + param(1) as usize;
                let e = RatError::new(ks[i], t.clone());
                va!(e.to_string() == t && e.source().is_none());
                for j in 0..3 { va!((e.kind() == ks[j]) == (i == j)); }
                let f = RatError::new(RatErrKind::ParseStringWrong, e);
                va!(f.to_string() == t && f.kind() == RatErrKind::ParseStringWrong);
                let i = std::io::Error::new(std::io::ErrorKind::Other, f);
                let h = RatError::new(RatErrKind::ParseStringWrong, i);
                va!(h.to_string() == t);
            }
        }
        out(1);
    }
}
