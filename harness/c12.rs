//! C12: primality testing, random naturals and prime generation
use crate::vs::*;
use rmath::bigint::{BigInt, Nat};
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Result, Seed, Source};
/// a source that delivers the given words (None: a failure), then a fixed tail that cycles
struct Src { w: Vec<Option<u32>>, i: usize, tail: u32 }
impl Source<u32> for Src {
    fn gen(&mut self) -> Result<u32> {
        let i = self.i; self.i += 1;
        if i < self.w.len() { match self.w[i] { Some(x) => Ok(x), None => Err(RandError::new(RandErrKind::NoNewRandNumberGen, "none")) } }
        else { self.tail = self.tail.wrapping_mul(1664525).wrapping_add(1013904223); Ok(self.tail >> 3 ^ self.tail << 7) }
    }
    fn reset<S: Seed<u32>>(&mut self, _: &S) -> Result<()> { self.i = 0; Ok(()) }
}
impl IterSource<u32> for Src { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
fn src(w: Vec<u32>) -> Src { Src { w: w.into_iter().map(Some).collect(), i: 0, tail: 77 } }
/// primality of a table value below 2^14 by trial division
fn is_prime(n: u64, max: u64) -> bool { let mut c = n < 2; let mut d = 2; while d * d <= max { c |= n % d == 0 && n != d; d += 1; } !c }
fn big(i: u64) -> Vec<u32> { // known primes by index
    let mut z = |k: usize, sub: u32| { let n = (Nat::from(1u32) << k) - sub; let w: &[u32] = n.as_ref(); w.to_vec() };
    match i { 0 => z(31, 1), 1 => z(61, 1), 2 => z(64, 59), 3 => z(89, 1), 4 => z(33, 9), 5 => z(40, 87), 6 => z(32, 99), 7 => z(96, 17), 8 => vec![65537], 9 => vec![131], 10 => vec![257], _ => z(128, 159) }
}
harnesses! {
    // every n in p0 .. p0 + 2^p1, p2 rounds, stream of words w (class p3) then a fixed tail
    fn c12_prime_small() {
        let n = param(0) + bits(param(1));
        let w = match param(3) { 0 => vec![0], 1 => vec![1, 1, 1], 2 => vec![2, 0, 3], 3 => vec![u32::MAX, 0], 4 => { let x = bits(2) as u32; vec![x, x, x] } _ => vec![n as u32 - 1, n as u32 - 1, n as u32] };
        let x = Nat::from(n as u32);
        let r = x.probably_prime_test(param(2) as usize, &mut src(w));
        va!(r == is_prime(n, param(0) + (1 << param(1))));
        va!(same_words(&x, &[n as u32]));
        out(r as u64);
    }
    // numbers without a prime factor up to 53 (the trial division of the library settles nothing), the 2^p1 from the p0-th above 3480: composites only if p4 = 0, both otherwise
    fn c12_rough() {
        let mut l = vec![]; let mut n = 3481u64;
        while l.len() < (param(0) + (1 << param(1))) as usize {
            let mut rough = n & 1 == 1; let mut d = 3; while d < 54 { rough &= n % d != 0; d += 2; }
            if rough { let mut prime = true; let mut d = 59; while d * d <= n { prime &= n % d != 0; d += 2; } if !prime || param(4) != 0 { l.push((n, prime)); } }
            n += 1;
        }
        let (n, prime) = l[(param(0) + conc(bits(param(1)))) as usize];
        let w = match param(3) { 0 => vec![0, 0], 1 => vec![1, 1, 1], 3 => vec![u32::MAX, 0, 0], _ => vec![n as u32 - 2, n as u32 - 2, n as u32 - 3] };
        let r = Nat::from(n as u32).probably_prime_test(param(2) as usize, &mut src(w));
        va!(r == prime);
        out(r as u64);
    }
    // fixed n = p0, the stream's first words symbolic (p1 bits)
    fn c12_prime_stream() {
        let n = param(0);
        let mut w = vec![];
        for _ in 0..param(2) { w.push(bits(param(1)) as u32); }
        let r = Nat::from(n as u32).probably_prime_test(0, &mut src(w));
        let mut prime = n > 1; let mut d = 2; while d * d <= n { prime &= n % d != 0; d += 1; }
        va!(r == prime);
        out(r as u64);
    }
    // wide primes pass for every stream whose words have p1 symbolic bits (low, or all words 0 / 1 when 0)
    fn c12_prime_wide() {
        let p = big(param(0));
        let mut w = vec![];
        for _ in 0..p.len() { let b = bits(param(1)) as u32; w.push(match param(2) { 0 => b, 1 => b << 28, _ => 0u32.wrapping_sub(b) }); }
        let x = Nat::from(p.clone());
        va!(x.probably_prime_test(1, &mut src(w)));
        va!(same_words(&x, &p));
        out(1);
    }
    // products of two primes and even numbers are rejected on a generic stream with symbolic bits
    fn c12_composite_wide() {
        let (p, q) = (Nat::from(big(param(0))), Nat::from(big(param(1))));
        let x = p * q;
        let mut w = vec![];
        let k: &[u32] = x.as_ref();
        for i in 0..k.len() { w.push(0x1234567u32.wrapping_mul(i as u32 + 1) ^ bits(1) as u32); }
        va!(!x.probably_prime_test(2, &mut src(w.clone())));
        va!(!(x.clone() + 1u32).probably_prime_test(2, &mut src(w)));
        out(0);
    }
    // a random natural below n is canonical and below n: n = p0 fully symbolic words, two rounds of fully symbolic words, the second accepted
    fn c12_random() {
        let wn = norm_words(param(0));
        if wn.len() == 1 { assume(wn[0] != 0); }
        let n = Nat::from(wn.clone());
        let mut w = vec![];
        for _ in 0..wn.len() { w.push(u32s()); }
        for _ in 0..wn.len() { w.push(0); }
        let r = n.random(&mut src(w));
        va!(normalised(&r));
        zlt!(Z::nat(&r), Z::words(&wn));
        va!(same_words(&n, &wn));
        out_nat(&r);
        // the masked first draw is used when it is already below n
        let l = wn.len();
        let mut d = vec![];
        for _ in 0..l { d.push(u32s()); }
        assume(d[l - 1] < wn[l - 1]);
        let r = n.random(&mut src(d.clone()));
        zeq!(Z::nat(&r), Z::words(&d));
        va!(normalised(&r));
    }
    // every value below n is reachable: n of p0 bits; and a failing source is skipped
    fn c12_random_small() {
        let n = bits(param(0)) as u32;
        let d = bits(param(0)) as u32;
        assume(n != 0 && d < n);
        let x = Nat::from(n);
        let r = x.random(&mut src(vec![d]));
        va!(r == d && normalised(&r));
        let mut s = Src { w: vec![None, Some(d), None], i: 0, tail: 1 };
        va!(x.random(&mut s) == d);
        let b = int(&[n], true).random(&mut src(vec![d]));
        va!(canon(&b) && is_int(&b, &[d], d != 0));
        let b = BigInt::from(n).random(&mut src(vec![d]));
        va!(canon(&b) && is_int(&b, &[d], false));
        va!(Nat::from(0u32).random(&mut src(vec![d])).is_nan() && Nat::default().random(&mut src(vec![d])).is_nan() && BigInt::from(0u32).random(&mut src(vec![d])).is_nan());
    }
    // generated primes: p0 bits, the first draw symbolic in its p1 low and p2 high bits
    fn c12_generate() {
        let len = param(0);
        let (lo, hi) = (param(1), param(2));
        let n = ((len + 31) / 32) as usize;
        let mut w = vec![0x5a5a_5a5au32; n];
        w[0] = w[0] & !((1u32 << lo) - 1) | bits(lo) as u32;
        if hi > 0 { let s = ((len - 1) % 32 + 1).max(hi) - hi; let k = n - 1; w[k] = w[k] & !(((1u32 << hi) - 1) << s) | (bits(hi) as u32) << s; }
        match Nat::generate_prime(len as usize, 1, &mut src(w)) {
            Ok(p) => {
                let v: &[u32] = p.as_ref();
                va!(normalised(&p) && p.bits_len() as u64 == len && v[0] & 1 == 1);
                if len <= 14 { va!(v.len() == 1 && is_prime(v[0] as u64, 1 << len)); }
                // no small factor, and passes the test again
                va!(p.probably_prime_test(3, &mut src(vec![])));
                out_nat(&p);
            }
            Err(_) => va!(false),
        }
    }
    fn c12_generate_short() { va!(Nat::generate_prime(0, 1, &mut src(vec![])).is_err() && Nat::generate_prime(1, 1, &mut src(vec![])).is_err()); va!(!Nat::default().probably_prime_test(1, &mut src(vec![]))); }
}
