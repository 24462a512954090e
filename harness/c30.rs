//! C30: operations stay within their storage, use only initialised data and release what they allocate
use crate::vs::*;
#[path = "fl.rs"]
pub mod fl;
use fl::*;
#[path = "ops.rs"]
pub mod ops;
use ops::*;
use rmath::rand::*;
use std::str::FromStr;
// every load and store of these runs is checked against the extent and lifetime of its allocation by the executor;
// what a harness adds: results are used after their operands are gone, every value passed to out() must be defined, and all storage is released in the end
fn fold(w: &[u32], h: u64) -> u64 { let mut h = h; for x in w { h = h.rotate_left(7) ^ *x as u64; } h ^ w.len() as u64 }
fn hn(n: &Nat) -> u64 { fold(n.as_ref(), 1) }
fn hi(n: &BigInt) -> u64 { let m: &Nat = n.as_ref(); fold(m.as_ref(), n.is_negative() as u64) }
fn hr(x: &Rat) -> u64 { hi(x.numerator()) ^ hi(x.denominator()).rotate_left(17) }
fn hf(x: &Float) -> u64 { let r = rd(x); r.kind ^ (r.neg as u64) << 2 ^ r.m.rotate_left(5) ^ r.prec << 40 ^ (r.e as u64) << 9 ^ r.acc << 3 }
fn hs(s: &str) -> u64 { let mut h = s.len() as u64; for b in s.bytes() { h = h.rotate_left(5) ^ b as u64; } h }
struct Src(u32);
impl Source<u32> for Src {
    fn gen(&mut self) -> Result<u32> { self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223); Ok(self.0 >> 3 ^ self.0 << 7) }
    fn reset<S: Seed<u32>>(&mut self, _: &S) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for Src { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
struct Sd(bool, u64);
impl Seed<u32> for Sd { fn seed(&self) -> Result<u32> { if self.0 { Ok(self.1 as u32) } else { Err(RandError::new(RandErrKind::NoNewRandSeedGen, "none")) } } }
impl Seed<u64> for Sd { fn seed(&self) -> Result<u64> { if self.0 { Ok(self.1) } else { Err(RandError::new(RandErrKind::NoNewRandSeedGen, "none")) } } }
fn close(l0: u64, h: u64) { va!(live() == l0); defined(h); out(h); }
/// the characters of text k, the ones marked `?` one symbolic digit, `@` any ASCII character
fn text(t: &str) -> String { let mut s = String::with_capacity(t.len()); for c in t.chars() { s.push(match c { '?' => (b'0' + conc(bits(1)) as u8 * 7) as char, '@' => { let c = conc(bits(2)); [' ', '-', 'g', '\u{e9}'][c as usize] } c => c }); } s }
const TEXTS: [&str; 20] = ["", "?", "0x?f?0123456789abcdef", "0b1?1?0", "0o7?7?7654321076543", "-?2?3", "12345678901234567890123456789?", "@", "1@2", "0x@", "-", "1/?", "-3?/4?", "?/0", "?.5e?", "1.?e-2?", "+0.?", "Inf", "1e", "0x1?2/3@"];
harnesses! {
    // operation p0 on operands of p1 / p2 bits, p3 symbolic low bits; expression and assigning form
    fn c30_nat() {
        let l0 = live();
        let h = {
            let (x, y) = (Nat::from(bitsel(param(1), param(3), 0, 2)), Nat::from(bitsel(param(2), param(3), 0, 3)));
            let (cx, dy) = (x.clone(), y.deep_clone());
            let r = nat_op(param(0), &x, &y);
            drop(x); drop(y);
            let mut z = cx.deep_clone(); let mut h = hn(&cx);
            drop(cx);
            if nat_as(param(0), &mut z, dy.clone()) { h ^= hn(&z).rotate_left(3); }
            h ^= hn(&dy); drop(dy); drop(z);
            h ^ hn(&r).rotate_left(9)
        };
        close(l0, h);
    }
    fn c30_int() {
        let l0 = live();
        let h = {
            let (x, y) = (int(&bitsel(param(1), param(3), 0, 2), param(4) & 1 != 0), int(&bitsel(param(2), param(3), 0, 3), param(4) & 2 != 0));
            let (cx, dy) = (x.clone(), y.deep_clone());
            let r = int_op(param(0), &x, &y);
            drop(x); drop(y);
            let mut z = cx.deep_clone(); let mut h = hi(&cx);
            drop(cx);
            if int_as(param(0), &mut z, dy.clone()) { h ^= hi(&z).rotate_left(3); }
            h ^= hi(&dy); drop(dy); drop(z);
            h ^ hi(&r).rotate_left(9)
        };
        close(l0, h);
    }
    fn c30_rat() {
        let l0 = live();
        let h = {
            let q = |n: u64, d: u64, neg: bool, pat: u64| match Rat::from_frac_bigint(&int(&bitsel(n, param(3), 0, pat), neg), &int(&bitsel(d, 0, 0, pat + 1), false)) { Ok(r) => r, Err(_) => Rat::from(0u32) };
            let (x, y) = (q(param(1), param(2), param(4) & 1 != 0, 2), q(param(2), param(1), param(4) & 2 != 0, 4));
            let (cx, dy) = (x.clone(), y.deep_clone());
            let r = rat_op(param(0), &x, &y);
            drop(x); drop(y);
            let mut z = cx.deep_clone(); let mut h = hr(&cx);
            drop(cx);
            if rat_as(param(0), &mut z, dy.clone()) { h ^= hr(&z).rotate_left(3); }
            h ^= hr(&dy); let s = format!("{}", dy); h ^= hs(&s);
            drop(dy); drop(z);
            h ^ hr(&r).rotate_left(9) ^ (match r.partial_cmp(&r) { Some(_) => 1, None => 0 })
        };
        close(l0, h);
    }
    // kinds p1, p2, precisions p3, p4, mode p5, signs p6
    fn c30_float() {
        let l0 = live();
        let h = {
            let mk = |kind: u64, neg: bool, p: u64, k: i64| match kind { 0 => special(ZERO, neg), 1 => special(INF, neg), 2 => special(NAN, false), _ => bfl(neg, &bmant(p, 1, 0, kind), k, p, param(5)) };
            let (x, y) = (mk(param(1), param(6) & 1 != 0, param(3), 2), mk(param(2), param(6) & 2 != 0, param(4), -1));
            let (cx, dy) = (x.clone(), y.deep_clone());
            let r = fl_op(param(0), &x, &y);
            drop(x); drop(y);
            let mut z = cx.deep_clone(); let mut h = hf(&cx);
            drop(cx);
            if fl_as(param(0), &mut z, dy.clone()) { h ^= hf(&z).rotate_left(3); }
            h ^= hf(&dy); drop(dy);
            if !z.is_nan() { z.set_precision(7); h ^= hf(&z); z.set_mode(rmode(3)); }
            drop(z);
            h ^ hf(&r).rotate_left(9)
        };
        close(l0, h);
    }
    // a mantissa of p0 ones (its two lowest bits symbolic), rounded to p1 bits in mode p2 by set_precision or by an operation (p3)
    fn c30_carry() {
        let l0 = live();
        let h = {
            let n = ((Nat::from(1u32) << param(0) as usize) - Nat::from(1u32)) ^ Nat::from(conc(bits(2)) as u32);
            let n = n.deep_clone(); // storage of exactly the length of the value
            let mut x = Float::from(n.clone()).deep_clone();
            x.set_mode(rmode(param(2)));
            match param(3) {
                0 => x.set_precision(param(1) as usize),
                k => { let mut y = Float::from(1u32); y.set_precision(param(1) as usize); y.set_mode(rmode(param(2)));
                    match k { 1 => { y *= x.clone(); x = y } 2 => { y += x.clone(); x = y } 3 => { let z = -x.deep_clone(); y -= z; x = y } _ => { let z = y.deep_clone(); let q = x.clone() / z; y *= q; x = y } } } }
            let c = x.clone(); drop(x);
            hf(&c) ^ hn(&n)
        };
        close(l0, h);
    }
    // a value of p0 bits printed in every radix (p1: plain, alternate, padded, signed, as a fraction, as a Float)
    fn c30_print() {
        let l0 = live();
        let h = {
            let w = bitsel(param(0), 1, 1, 5);
            let n = Nat::from(w.clone()).deep_clone();
            let s = match param(1) {
                0 => format!("{} {:o} {:b} {:x} {:X} {:?}", n, n, n, n, n, n),
                1 => format!("{:#o} {:#b} {:#x} {:#X} {:#?}", n, n, n, n, n),
                2 => format!("{:9} {:>200o} {:<70b} {:^3x} {:050X}", n, n, n, n, n),
                3 => { let i = int(&w, true); format!("{} {:o} {:#b} {:x} {:#X} {:?}", i, i, i, i, i, i) }
                4 => { let r = match Rat::from_frac_bigint(&int(&w, true), &int(&[7], false)) { Ok(r) => r, Err(_) => Rat::from(1u32) }; format!("{} {:o} {:#b} {:x} {:#X} {:?}", r, r, r, r, r, r) }
                _ => { let f = Float::from(n.clone()); let g = f.deep_clone(); drop(f); format!("{} {:.0} {:.3e} {:e}", g, g, g, g) } };
            let c = n.clone(); drop(n);
            hs(&s) ^ hn(&c)
        };
        close(l0, h);
    }
    // text p0 read as p1 (natural, integer, rational, float), accepted or not, and printed again
    fn c30_text() {
        let l0 = live();
        let h = {
            let s = text(TEXTS[param(0) as usize]);
            match param(1) {
                0 => match Nat::from_str(&s) { Ok(n) => { let c = n.clone(); drop(n); hs(&format!("{} {:x} {:b} {:o} {:X} {:?}", c, c, c, c, c, c)) } Err(e) => hs(&format!("{}", e)) },
                1 => match BigInt::from_str(&s) { Ok(n) => { let c = n.clone(); drop(n); hs(&format!("{} {:x} {:b} {:o}", c, c, c, c)) } Err(e) => hs(&format!("{}", e)) },
                2 => match Rat::from_str(&s) { Ok(n) => { let c = n.clone(); drop(n); hs(&format!("{}", c)) } Err(e) => hs(&format!("{}", e)) },
                _ => match Float::from_str(&s) { Ok(n) => { let c = n.clone(); drop(n); hs(&format!("{:.3} {:.3e}", c, c)) } Err(e) => hs(&format!("{}", e)) },
            }
        };
        close(l0, h);
    }
    // bytes, machine numbers, other types: p0 words
    fn c30_convert() {
        let l0 = live();
        let h = {
            let w = bitsel(param(0), 2, 1, 5);
            let n = Nat::from(w.clone());
            let (le, be) = (n.to_le_bytes(), n.to_be_bytes());
            let (a, b) = (Nat::from_le_bytes(&le[..le.len() - 1]), Nat::from_be_bytes(&be[(be.len() - 1).min(param(0) as usize % 3)..]));
            let mut v = vec![1u8; 3]; n.copy_to_le(&mut v); let mut u = vec![]; n.copy_to_be(&mut u);
            let i = int(&w, true); let j = i.clone(); drop(i);
            let f = Float::from(j.clone()); let r = Rat::from(j);
            let d = r.to_f64(); let e = f.to_f64().0.to_bits(); let t = f.to_f32().0.to_bits(); let g = Rat::from(f64::from_bits(e >> 2));
            let z = Float::from(r.clone());
            let mut h = hn(&a) ^ hn(&b) ^ v.len() as u64 ^ u.len() as u64 ^ hr(&g) ^ hf(&z) ^ d.0.to_bits() ^ e ^ (t as u64) << 7;
            let bad = Nat::from_be_bytes(&[]); let k: Nat = Nat::from(&w[..0]); h ^= bad.is_nan() as u64 ^ (k.is_nan() as u64) << 1;
            h
        };
        close(l0, h);
    }
    // word kernels at p1 and p2 words: p0 0 Karatsuba product, 1 product, 2 square, 3 sum, 4 difference, 5 shifts by p2, 6 powers modulo, 7 quotient, 8 remainder, 9 root
    fn c30_long() {
        let l0 = live();
        let (a, b) = (param(1), param(2));
        let h = {
            let x = Nat::from(sel(a, 1, param(3)));
            let y = || Nat::from(sel(b, if param(0) >= 6 { 0 } else { 1 }, if param(3) == 0 { 1 } else { param(3) + 1 }));
            let r = match param(0) {
                0 => x.mul_karatsuba(&y()), 1 => x.clone() * y(), 2 => x.sqr(), 3 => x.clone() + y(), 4 => x.clone() - y(),
                5 => (x.clone() << b as usize) ^ (x.clone() >> b as usize),
                6 => x.pow_mod(Nat::from(5u32), y() | Nat::from(1u32)) ^ x.pow_mod(Nat::from(3u32), y() << 1),
                7 => x.clone() / y(), 8 => x.clone() % y(), _ => x.sqrt() };
            drop(x);
            hn(&r)
        };
        close(l0, h);
    }
    // random naturals, primality, prime generation, generators
    fn c30_rand() {
        let l0 = live();
        let k = param(1);
        let h = match param(0) {
            0 => { let n = Nat::from(bitsel(k, 2, 0, 3)); let r = n.random(&mut Src(5)); let i = int(&[9, 1], true).random(&mut Src(7)); hn(&r) ^ hi(&i) }
            1 => { let n = Nat::from(bitsel(k, 2, 0, 3)); n.probably_prime_test(3, &mut Src(5)) as u64 }
            2 => match Nat::generate_prime(k as usize, 2, &mut Src(k as u32)) { Ok(n) => hn(&n), Err(e) => hs(&format!("{}", e)) },
            3 => { let s = Sd(bits(1) == 1, k); match MersenneTwisterRand::<u32>::new(&s, 32, 5, 2, 31, 0x9908b0df, (11, 0xffffffff), (7, 0x9d2c5680), (15, 0xefc60000), 18, 1812433253) { Ok(mut g) => { let mut t = 0; for _ in 0..12 { t ^= g.gen().unwrap_or(0) as u64; } let mut c = g.clone(); drop(g); let _ = c.reset(&Sd(false, 1)); let _ = c.reset(&Sd(true, 3)); t ^ c.gen().unwrap_or(0) as u64 } Err(e) => hs(&format!("{}", e)) } }
            4 => { let s = Sd(bits(1) == 1, k); match LaggedFibonacciRand::<u64>::new(&s, 48, 5, 12) { Ok(mut g) => { let mut t = 0; for _ in 0..30 { t ^= g.gen().unwrap_or(0); } let mut c = g.clone(); drop(g); let _ = c.reset(&Sd(false, 1)); let _ = c.reset(&Sd(true, 3)); t ^ c.gen().unwrap_or(0) } Err(e) => hs(&format!("{}", e)) } }
            _ => { let s = Sd(bits(1) == 1, k); match LinearCongruentialRand::<u32>::new(&s, 16807, 0, k as u32) { Ok(mut g) => { let t: u64 = g.iter_mut().take(5).map(|x| x as u64).sum(); t } Err(e) => hs(&format!("{}", e)) } }
        };
        close(l0, h);
    }
    // histories: p0 steps chosen by the solver over three names: share, copy, drop, assign, operate, convert
    fn c30_history() {
        let l0 = live();
        let h = {
            let mut v: Vec<Option<BigInt>> = vec![Some(int(&bitsel(40, 1, 0, 2), true)), None, Some(int(&[3], false))];
            let mut h = 0;
            for _ in 0..param(0) {
                let (k, i, j) = (conc(bits(3)), conc(bits(2)) as usize, conc(bits(2)) as usize);
                assume(i < 3 && j < 3);
                let y = match &v[j] { Some(y) => y.clone(), None => { v[i] = None; continue } };
                match k {
                    0 => { v[i] = Some(y); }
                    1 => { v[i] = Some(y.deep_clone()); }
                    2 => { drop(y); v[j] = None; }
                    3 => { if let Some(x) = &mut v[i] { *x += y; } }
                    4 => { if let Some(x) = v[i].take() { v[j] = Some(x - y); } }
                    5 => { if let Some(x) = &mut v[i] { *x *= y; *x <<= 33; } }
                    6 => { let mut f = Float::from(y.clone()); let g = f.clone(); f.set_mant_exp(g, 1); v[i] = Some(y.gcd(BigInt::from(6u32)).0); h ^= hf(&f); }
                    _ => { let mut x = y.clone(); x |= y.clone(); x -= y; v[i] = Some(x); }
                }
            }
            for x in &v { if let Some(x) = x { h ^= hi(x); } }
            h
        };
        close(l0, h);
    }
}
