//! C28: iteration over random sources, error histories, parameter validation
use crate::vs::*;
use rmath::rand::{Iter, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, RandErrKind, RandError, Result, Seed, Source};
fn kind(k: u64) -> RandErrKind { match k { 0 => RandErrKind::NoNewRandSeedGen, 1 => RandErrKind::NoNewRandNumberGen, 2 => RandErrKind::DivisorIsZero, 3 => RandErrKind::InvalidRngPara, _ => RandErrKind::InnerErr } }
/// a source with a given history of values and failures
struct Src<T> { h: Vec<(bool, T)>, i: usize }
macro_rules! src { ($t:ty) => {
    impl Source<$t> for Src<$t> {
        fn gen(&mut self) -> Result<$t> { let (ok, v) = self.h[self.i]; self.i += 1; if ok { Ok(v) } else { Err(RandError::new(kind((self.i as u64 + param(1)) % 5), "x")) } }
        fn reset<S: Seed<$t>>(&mut self, s: &S) -> Result<()> { s.seed().map(|_| ()) }
    }
    impl IterSource<$t> for Src<$t> { fn iter_mut(&mut self) -> Iter<'_, Self, $t> { Iter::new(self) } }
    impl Seed<$t> for Sd<$t> { fn seed(&self) -> Result<$t> { match self.0 { Some(x) => Ok(x), None => Err(RandError::new(kind(self.1), "no seed")) } } }
} }
struct Sd<T>(Option<T>, u64);
src!(u32); src!(u64); src!(usize);
macro_rules! iterh { ($n:ident, $t:ty) => {
    // p0 calls of next, p1 which kinds of failure at which steps; failures, values and clearing of the error symbolic
    pub fn $n() {
        let n = param(0) as usize;
        let mut h = vec![];
        for _ in 0..n { h.push((bools(), u64s() as $t)); }
        let clear: Vec<bool> = (0..n).map(|_| bools()).collect();
        let mut s = Src { h: h.clone(), i: 0 };
        let (mut j, mut err) = (0usize, None);
        {
            let mut it = s.iter_mut();
            va!(it.last_error().is_none());
            for i in 0..n {
                let r = it.next();
                if err.is_some() { va!(r.is_none()); }
                else {
                    let (ok, v) = h[j]; j += 1;
                    if ok { va!(r == Some(v)); } else { va!(r.is_none()); err = Some((j as u64 + param(1)) % 5); }
                }
                match err { None => va!(it.last_error().is_none()), Some(k) => va!(it.last_error().map(|e| e.kind() == kind(k)) == Some(true)) }
                if clear[i] { it.clear_error(); err = None; va!(it.last_error().is_none()); }
            }
        }
        va!(s.i == j);
        out(j as u64);
    }
} }
macro_rules! mtnew { ($n:ident, $t:ty, $w:expr) => {
    // every parameter symbolic
    pub fn $n() {
        let k: Vec<u64> = (0..13).map(|_| sym($w)).collect();
        let (w, n, m, r, a) = (k[0], k[1], k[2], k[3], k[4]);
        let (u, d, s, b, t, c, l, f) = (k[5], k[6], k[7], k[8], k[9], k[10], k[11], k[12]);
        // p0: 0 all symbolic; i > 0: parameter i-1 symbolic, the others those of a valid generator
        let v = |i: usize, x: u64| if param(0) == 0 || param(0) == i as u64 + 1 || param(1) == i as u64 + 1 { k[i] } else { x };
        let q = if $w == 64 { [64u64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005] } else { [32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253] };
        let _ = (w, n, m, r, a, u, d, s, b, t, c, l, f);
        let p: Vec<u64> = (0..13).map(|i| v(i, q[i])).collect();
        assume(p[11] != 0);
        let seed = if param(2) == 0 { Sd(Some(5 as $t), 0) } else { Sd(None, param(2) - 1) };
        let x = |i: usize| p[i] as $t;
        let g = MersenneTwisterRand::<$t>::new(&seed, x(0), x(1), x(2), x(3), x(4), (x(5), x(6)), (x(7), x(8)), (x(9), x(10)), x(11), x(12));
        let w = p[0];
        let lim = |z: u64| ite(w >= 64, 1, ite(z >> (w & 63) == 0, 1, 0)) != 0;
        let mut good = (w >= 1) & (w <= $w) & (p[2] >= 1) & (p[2] <= p[1]);
        for i in [3, 5, 7, 9, 11] { good &= (p[i] >= 1) & (p[i] < w); }
        for i in [4, 6, 8, 10, 12] { good &= (p[i] >= 1) & lim(p[i]); }
        match g {
            Ok(_) => { va!(good); va!(param(2) == 0); out(1); }
            Err(e) => {
                if param(2) == 0 { va!(!good); va!(e.kind() == RandErrKind::InvalidRngPara); } else { va!(e.kind() == RandErrKind::InvalidRngPara || (good && e.kind() == kind(param(2) - 1))); }
                out(0);
            }
        }
    }
} }
macro_rules! lfnew { ($n:ident, $t:ty, $w:expr) => {
    pub fn $n() {
        let (w, s, r) = (sym($w), sym($w), sym($w));
        let seed = if param(0) == 0 { Sd(Some(5 as $t), 0) } else { Sd(None, param(0) - 1) };
        let g = LaggedFibonacciRand::<$t>::new(&seed, w as $t, s as $t, r as $t);
        let good = (w >= 1) & (w <= $w) & (s >= 1) & (s < r);
        match g {
            Ok(_) => { va!(good); va!(param(0) == 0); out(1); }
            Err(e) => {
                if param(0) == 0 { va!(!good); va!(e.kind() == RandErrKind::InvalidRngPara); } else { va!(e.kind() == RandErrKind::InvalidRngPara || (good && e.kind() == kind(param(0) - 1))); }
                out(0);
            }
        }
    }
} }
macro_rules! lcnew { ($n:ident, $t:ty, $w:expr) => {
    pub fn $n() {
        let (a, c, m) = (sym($w), sym($w), sym($w));
        let seed = if param(0) == 0 { Sd(Some(sym($w) as $t), 0) } else { Sd(None, param(0) - 1) };
        match LinearCongruentialRand::<$t>::new(&seed, a as $t, c as $t, m as $t) {
            Ok(_) => { va!(m != 0); va!(param(0) == 0); out(1); }
            Err(e) => {
                if param(0) == 0 { va!(m == 0); va!(e.kind() == RandErrKind::DivisorIsZero); } else { va!((m == 0 && e.kind() == RandErrKind::DivisorIsZero) || (m != 0 && e.kind() == kind(param(0) - 1))); }
                out(0);
            }
        }
    }
} }
/// after k outputs a failing reset leaves the sequence as it was; iterating equals generating
fn hist<T: Copy + rmath::rand::PrimitiveType + PartialEq + Into<u64>, G: Source<T> + IterSource<T> + Clone>(g: G, k: u64, e: u64, n: u64) where Sd<T>: Seed<T> {
    let (mut a, mut b) = (g.clone(), g);
    for _ in 0..k { let (x, y) = (a.gen().ok().unwrap(), b.gen().ok().unwrap()); va!(x.into() == y.into()); }
    let r = a.reset(&Sd(None, e));
    va!(r.err().map(|x| x.kind() == kind(e)) == Some(true));
    let mut i = 0;
    let mut it = a.iter_mut();
    while i < n { let y: u64 = b.gen().ok().unwrap().into(); va!(it.next().map(|x| x.into()) == Some(y)); i += 1; out(y); }
    va!(it.last_error().is_none());
}
harnesses! {
    // an error reads back as built: kind p0, text of two arbitrary letters
    fn c28_error() {
        let k = kind(param(0));
        let t: String = (0..2).map(|_| (b'a' + (sym(4) as u8)) as char).collect();
        let e = RandError::new(k, t.clone());
        va!(e.kind() == k && e.kind() == kind(param(0)));
        va!(e.to_string() == t);
        for o in 0..5 { va!((e.kind() == kind(o)) == (o == param(0))); }
        let names = ["NoNewRandSeedGen", "NoNewRandNumberGen", "DivisorIsZero", "InvalidRngPara", "InnerErr"];
        va!(format!("{:?}", k) == names[param(0) as usize]);
        va!(std::error::Error::source(&e).is_none());
        out(t.as_bytes()[1] as u64);
    }
    fn c28_iter_32() { it32() }
    fn c28_iter_64() { it64() }
    fn c28_iter_us() { itus() }
    fn c28_mt_new_32() { mt32() }
    fn c28_mt_new_64() { mt64() }
    fn c28_mt_new_us() { mtus() }
    fn c28_lf_new_32() { lf32() }
    fn c28_lf_new_64() { lf64() }
    fn c28_lf_new_us() { lfus() }
    fn c28_lcg_new_32() { lc32() }
    fn c28_lcg_new_64() { lc64() }
    fn c28_lcg_new_us() { lcus() }
    // p0 generator, p1 outputs before the failing reset, p2 error, p3 outputs after
    fn c28_history() {
        let (k, e, n) = (param(1), param(2), param(3));
        let s = bits(4) << (param(4) & 31);
        match param(0) {
            0 => hist::<u32, _>(LinearCongruentialRand::new(&Sd(Some(s as u32), 0), 48271u32, 7, 2147483647).ok().unwrap(), k, e, n),
            1 => hist::<u64, _>(LinearCongruentialRand::new(&Sd(Some(s), 0), 6364136223846793005u64, 1, u64::MAX).ok().unwrap(), k, e, n),
            2 => hist::<u32, _>(MersenneTwisterRand::new(&Sd(Some(s as u32), 0), 32u32, 5, 3, 19, 0xE4BD75F5, (12, 0xffffffff), (7, 0x655E5280), (15, 0xFFD58000), 17, 1812433253).ok().unwrap(), k, e, n),
            3 => hist::<u64, _>(MersenneTwisterRand::new(&Sd(Some(s), 0), 48u64, 3, 2, 12, 0x8765_4321_abcd, (24, 0xffff_0000_ffff), (9, 0xaaaa_5555_aaaa), (40, 0xffff_ffff_0000), 47, 0x5DEECE66D).ok().unwrap(), k, e, n),
            4 => hist::<u32, _>(LaggedFibonacciRand::new(&Sd(Some(s as u32), 0), 24u32, 2, 5).ok().unwrap(), k, e, n),
            _ => hist::<u64, _>(LaggedFibonacciRand::new(&Sd(Some(s), 0), 48u64, 1, 3).ok().unwrap(), k, e, n),
        }
    }
}
iterh!(it32, u32); iterh!(it64, u64); iterh!(itus, usize);
mtnew!(mt32, u32, 32); mtnew!(mt64, u64, 64); mtnew!(mtus, usize, 64);
lfnew!(lf32, u32, 32); lfnew!(lf64, u64, 64); lfnew!(lfus, usize, 64);
lcnew!(lc32, u32, 32); lcnew!(lc64, u64, 64); lcnew!(lcus, usize, 64);
