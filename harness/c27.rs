//! C27: generators follow their defining recurrences
use crate::vs::*;
use rmath::rand::{LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, Result, Seed, Source, IterSource};
struct Sd<T>(T);
impl Seed<u32> for Sd<u32> { fn seed(&self) -> Result<u32> { Ok(self.0) } }
impl Seed<u64> for Sd<u64> { fn seed(&self) -> Result<u64> { Ok(self.0) } }
impl Seed<usize> for Sd<usize> { fn seed(&self) -> Result<usize> { Ok(self.0) } }
mod rmath_ { pub use rmath::*; }
/// a T made of symbolic / fixed bits according to a class
fn seed_of(class: u64, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    m & match class {
        0 => sym(w),
        1 => bits(4),
        2 => 5489 + bits(3),
        3 => (bits(3) << 29) | bits(2),
        4 => 0u64.wrapping_sub(1 + bits(4)),
        5 => 2147483563 - 2 + bits(3),
        6 => 0x9E37_79B9_7F4A_7C15 ^ (bits(4) << 20),
        7 => bits(8).wrapping_mul(0x0101_0101_0101_0101),
        8 => 2147483563 / 2 - 100 + bits(8),
        _ => class,
    }
}
/// x -> (a x + c) mod m over the integers, all table or constant values
fn lcg(x: u64, a: u64, c: u64, m: u64) -> u64 { ((x as u128).wrapping_mul(a as u128).wrapping_add(c as u128) % m as u128) as u64 }
/// the modulus class of LCG harnesses
fn modu(class: u64, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    match class { 0 => 2147483647, 1 => 2147483563, 2 => m, 3 => 1, 4 => 2, 5 => 1 << (w - 1), 6 => m - 4, 7 => 1000, 8 => (1 << (w / 2)) + 1, 9 => (1 << 31) - 2, _ => class }
}
fn coef(class: u64, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    m & match class { 0 => 0, 1 => 1, 2 => 16807, 3 => 48271, 4 => m, 5 => 40014, 6 => bits(3), 7 => 1103515245 + bits(2), 8 => 6364136223846793005, 9 => 1 << (w - 1), 10 => sym(w), _ => class }
}
macro_rules! lcgh { ($n:ident, $t:ty, $w:expr) => {
    // p0 seed class, p1 a, p2 c, p3 m, p4 outputs, p5 second seed class (reset)
    pub fn $n() {
        let (s, a, c, m) = (seed_of(param(0), $w), coef(param(1), $w), coef(param(2), $w), modu(param(3), $w));
        let mut g = LinearCongruentialRand::<$t>::new(&Sd(s as $t), a as $t, c as $t, m as $t).ok().unwrap();
        let mut x = s;
        for _ in 0..param(4) { x = lcg(x, a, c, m); let y = g.gen().ok().unwrap(); va!(y as u64 == x); out(y as u64); }
        let s2 = seed_of(param(5), $w);
        va!(g.reset(&Sd(s2 as $t)).is_ok());
        let mut h = g.clone();
        let mut x = s2;
        for _ in 0..2 { x = lcg(x, a, c, m); va!(g.gen().ok().unwrap() as u64 == x); va!(h.gen().ok().unwrap() as u64 == x); out(x); }
    }
} }
struct Mt { w: u32, n: usize, m: usize, r: u32, a: u64, u: u32, d: u64, s: u32, b: u64, t: u32, c: u64, l: u32, f: u64 }
impl Mt {
    fn mask(&self) -> u64 { if self.w == 64 { u64::MAX } else { (1 << self.w) - 1 } }
    /// the first k outputs for a seed
    fn seq(&self, seed: u64, k: usize) -> Vec<u64> {
        let mask = self.mask();
        let mut x = vec![seed & mask];
        for i in 1..self.n { let p = x[i - 1]; x.push((p ^ (p >> (self.w - 2))).wrapping_mul(self.f).wrapping_add(i as u64) & mask); }
        let low = (1u64 << self.r) - 1;
        let mut o = vec![];
        for j in 0..k {
            let y = (x[j] & (mask & !low)) | (x[j + 1] & low);
            let v = x[j + self.m] ^ (y >> 1) ^ ite(y & 1 != 0, self.a, 0);
            x.push(v);
            let mut z = v;
            z ^= (z >> self.u) & self.d;
            z ^= (z << self.s) & self.b & mask;
            z ^= (z << self.t) & self.c & mask;
            z ^= z >> self.l;
            o.push(z);
        }
        o
    }
}
fn mt_conf(k: u64) -> Mt {
    match k {
        0 => Mt { w: 32, n: 624, m: 397, r: 31, a: 0x9908b0df, u: 11, d: 0xffffffff, s: 7, b: 0x9d2c5680, t: 15, c: 0xefc60000, l: 18, f: 1812433253 },
        1 => Mt { w: 64, n: 312, m: 156, r: 31, a: 0xb5026f5aa96619e9, u: 29, d: 0x5555555555555555, s: 17, b: 0x71d67fffeda60000, t: 37, c: 0xfff7eee000000000, l: 43, f: 6364136223846793005 },
        2 => Mt { w: 32, n: 5, m: 3, r: 19, a: 0xE4BD75F5, u: 12, d: 0xffffffff, s: 7, b: 0x655E5280, t: 15, c: 0xFFD58000, l: 17, f: 1812433253 },
        3 => Mt { w: 8, n: 3, m: 1, r: 3, a: 0xb9, u: 3, d: 0x7f, s: 2, b: 0x9d, t: 4, c: 0xef, l: 5, f: 69 },
        4 => Mt { w: 32, n: 2, m: 1, r: 1, a: 0x80000001, u: 31, d: 1, s: 31, b: 0x80000000, t: 1, c: 0xffffffff, l: 31, f: 1 },
        5 => Mt { w: 2, n: 4, m: 2, r: 1, a: 3, u: 1, d: 3, s: 1, b: 3, t: 1, c: 2, l: 1, f: 3 },
        6 => Mt { w: 31, n: 6, m: 5, r: 30, a: 0x12345679, u: 7, d: 0x7ffffff1, s: 3, b: 0x7d2c5680, t: 16, c: 0x6fc60000, l: 9, f: 0x7fffffff },
        7 => Mt { w: 64, n: 4, m: 2, r: 63, a: 0x8000000000000003, u: 63, d: u64::MAX, s: 1, b: u64::MAX, t: 63, c: u64::MAX, l: 1, f: u64::MAX },
        8 => Mt { w: 33, n: 5, m: 4, r: 32, a: 0x1_2345_6789, u: 17, d: 0x1ffffffff, s: 20, b: 0x1_f0f0_f0f0, t: 5, c: 0x1_8000_0001, l: 30, f: 0x1_0000_0001 },
        9 => Mt { w: 48, n: 3, m: 2, r: 12, a: 0x8765_4321_abcd, u: 24, d: 0xffff_0000_ffff, s: 9, b: 0xaaaa_5555_aaaa, t: 40, c: 0xffff_ffff_0000, l: 47, f: 0x5DEECE66D },
        _ => Mt { w: 16, n: 7, m: 6, r: 9, a: 0xa001, u: 5, d: 0xffff, s: 6, b: 0x5a80, t: 9, c: 0xfe00, l: 8, f: 0x6255 },
    }
}
macro_rules! mth { ($n:ident, $t:ty) => {
    // p0 configuration, p1 seed class, p2 outputs, p3 seed class for reset (drawn after p4 outputs), p5: 1 = symbolic masks and multiplier
    pub fn $n() {
        let mut k = mt_conf(param(0));
        if param(5) == 1 { let m = k.mask(); k.a = sym(k.w); k.d = sym(k.w); k.b = sym(k.w); k.c = sym(k.w); assume(k.a != 0); assume(k.b != 0); assume(k.c != 0); assume(k.d != 0); let _ = m; }
        let s = seed_of(param(1), k.w);
        let mut g = MersenneTwisterRand::<$t>::new(&Sd(s as $t), k.w as $t, k.n as $t, k.m as $t, k.r as $t, k.a as $t, (k.u as $t, k.d as $t), (k.s as $t, k.b as $t), (k.t as $t, k.c as $t), k.l as $t, k.f as $t).ok().unwrap();
        let e = k.seq(s, param(2) as usize);
        let mut d = 0;
        for x in &e { let y = g.gen().ok().unwrap() as u64; d |= y ^ *x; if e.len() < 50 { va!(y == *x); } out(y); }
        va!(d == 0);
        let s2 = seed_of(param(3), k.w);
        va!(g.reset(&Sd(s2 as $t)).is_ok());
        let e = k.seq(s2, param(4) as usize);
        let mut h = g.clone();
        let mut d = 0;
        for x in &e { d |= (g.gen().ok().unwrap() as u64 ^ *x) | (h.gen().ok().unwrap() as u64 ^ *x); out(*x); }
        va!(d == 0);
    }
} }
/// subtract with carry: state x[0..r] from the LCG, then x_i = x_{i-s} - x_{i-r} - carry (mod 2^w)
fn swc(w: u32, s: usize, r: usize, seed: u64, k: usize) -> Vec<u64> {
    let mask = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let (mut l, mut x) = (seed, vec![]);
    for _ in 0..r {
        l = lcg(l, 40014, 0, 2147483563);
        let mut v = l;
        if w > 32 { l = lcg(l, 40014, 0, 2147483563); v |= l << 32; }
        x.push(v & mask);
    }
    let mut c = ite(x[r - 1] == 0, 1, 0);
    let mut o = vec![];
    for i in r..r + k {
        let (p, q) = (x[i - s] as u128, x[i - r] as u128 + c as u128);
        let v = p.wrapping_sub(q) as u64 & mask;
        c = ite(p < q, 1, 0);
        x.push(v);
        o.push(v);
    }
    o
}
macro_rules! lfh { ($n:ident, $t:ty, $tw:expr) => {
    // p0 w, p1 s, p2 r, p3 seed class, p4 outputs, p5 reset seed class, p6 outputs after
    pub fn $n() {
        let (w, s, r) = (param(0) as u32, param(1), param(2));
        let sd = seed_of(param(3), $tw);
        let mut g = LaggedFibonacciRand::<$t>::new(&Sd(sd as $t), w as $t, s as $t, r as $t).ok().unwrap();
        let mut d = 0;
        for x in swc(w, s as usize, r as usize, sd, param(4) as usize) { let y = g.gen().ok().unwrap() as u64; d |= y ^ x; out(y); }
        va!(d == 0);
        let s2 = seed_of(param(5), $tw);
        va!(g.reset(&Sd(s2 as $t)).is_ok());
        let mut h = g.clone();
        let mut d = 0;
        for x in swc(w, s as usize, r as usize, s2, param(6) as usize) { d |= (g.gen().ok().unwrap() as u64 ^ x) | (h.gen().ok().unwrap() as u64 ^ x); out(x); }
        va!(d == 0);
    }
} }
harnesses! {
    fn c27_lcg_32() { lcg32() }
    fn c27_lcg_64() { lcg64() }
    fn c27_lcg_us() { lcgus() }
    fn c27_mt_32() { mt32() }
    fn c27_mt_64() { mt64() }
    fn c27_mt_us() { mtus() }
    fn c27_lf_32() { lf32() }
    fn c27_lf_64() { lf64() }
    fn c27_lf_us() { lfus() }
    // the predefined generators
    fn c27_named() {
        use crate::h::rmath_ as rmath;
        let s32 = Sd(seed_of(param(1), 32) as u32);
        let s64 = Sd(seed_of(param(1), 64));
        let k = param(2) as usize;
        let mut d = 0;
        match param(0) {
            0 | 1 => {
                let a = if param(0) == 0 { 16807 } else { 48271 };
                let mut g = if param(0) == 0 { rmath::minstd_rand0!(s32) } else { rmath::minstd_rand!(s32) }.ok().unwrap();
                let mut x = s32.0 as u64;
                let mut n = 0;
                for y in g.iter_mut().take(k) { x = lcg(x, a, 0, 2147483647); d |= x ^ y as u64; n += 1; }
                va!(n == k);
            }
            2 => { let mut g = rmath::mt19937!(s32).ok().unwrap(); let e = mt_conf(0).seq(s32.0 as u64, k); for x in &e { d |= *x ^ g.gen().ok().unwrap() as u64; } }
            3 => { let mut g = rmath::mt19937_64!(s64).ok().unwrap(); let e = mt_conf(1).seq(s64.0, k); for x in &e { d |= *x ^ g.gen().ok().unwrap(); } }
            4 => { let mut g = rmath::ranlux24_base!(s32).ok().unwrap(); let e = swc(24, 10, 24, s32.0 as u64, k); for x in &e { d |= *x ^ g.gen().ok().unwrap() as u64; } }
            _ => { let mut g = rmath::ranlux48_base!(s64).ok().unwrap(); let e = swc(48, 5, 12, s64.0, k); for x in &e { d |= *x ^ g.gen().ok().unwrap(); } }
        }
        va!(d == 0);
        out(k as u64);
    }
}
lcgh!(lcg32, u32, 32); lcgh!(lcg64, u64, 64); lcgh!(lcgus, usize, 64);
mth!(mt32, u32); mth!(mt64, u64); mth!(mtus, usize);
lfh!(lf32, u32, 32); lfh!(lf64, u64, 64); lfh!(lfus, usize, 64);
