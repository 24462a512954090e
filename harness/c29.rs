//! C29: sources backed by the hardware random instructions
use crate::vs::*;
use rmath::rand::{CryptoRand, DefaultRand, DefaultSeed, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, RandErrKind, RandError, Result, Seed, Source};
/// the outcomes the instruction will deliver; at most p0 of them
fn outcomes(n: u64) -> Vec<(u64, bool)> { (0..n).map(|_| { let x = (u64s(), bools()); hw_push(x.0, x.1); x }).collect() }
/// what one request returned agrees with the outcomes consumed since `from`: the last one succeeded and is delivered in full width, or it failed and is an error of the kind
fn agrees(h: &[(u64, bool)], from: u64, r: std::result::Result<u64, RandErrKind>, w: u64, kind: RandErrKind) -> u64 {
    let to = hw_used();
    va!(to > from);
    let (v, ok) = h[to as usize - 1];
    let v = if w < 64 { v & ((1 << w) - 1) } else { v };
    match r { Ok(x) => { va!(ok); va!(x == v); } Err(e) => { va!(!ok); va!(e == kind); } }
    to
}
struct Fail(u64);
macro_rules! per { ($t:ty, $w:expr, $seed:ident, $gen:ident, $iter:ident, $use:ident) => {
    impl Seed<$t> for Fail { fn seed(&self) -> Result<$t> { if self.0 == 0 { Ok(1) } else { Err(RandError::new(RandErrKind::InnerErr, "no seed")) } } }
    // p0 requests to the seed
    fn $seed() {
        let h = outcomes(param(0) + 2);
        let s = match DefaultSeed::<$t>::new() { Ok(s) => s, Err(_) => { va!(false); return } };
        let mut at = hw_used();
        va!(at == 0);
        for i in 0..param(0) { let t = s.clone(); let r = if i & 1 == 0 { s.seed() } else { t.seed() }; at = agrees(&h, at, r.map(|x| x as u64).map_err(|e| e.kind()), $w, RandErrKind::NoNewRandSeedGen); }
        out(at);
    }
    // p0 requests to the generator p1 (0 default, 1 cryptographic), with a reset (p2) between
    fn $gen() {
        let h = outcomes(param(0) + 2);
        let mut at = 0;
        if param(1) == 0 {
            let mut g = match DefaultRand::<$t>::new(&Fail(0)) { Ok(g) => g, Err(_) => { va!(false); return } };
            for i in 0..param(0) { if i == param(2) { va!(g.reset(&Fail(0)).is_ok()); } at = agrees(&h, at, g.gen().map(|x| x as u64).map_err(|e| e.kind()), $w, RandErrKind::NoNewRandNumberGen); }
        } else {
            let mut g = match CryptoRand::<$t>::new(&Fail(0)) { Ok(g) => g, Err(_) => { va!(false); return } };
            for i in 0..param(0) { if i == param(2) { va!(g.reset(&Fail(0)).is_ok()); } at = agrees(&h, at, g.gen().map(|x| x as u64).map_err(|e| e.kind()), $w, RandErrKind::NoNewRandNumberGen); }
        }
        out(at);
    }
    // iterating: exactly the delivered values up to the first failure, whose error stays readable; after clearing it goes on
    fn $iter() {
        let n = param(0);
        let h = outcomes(n + 2);
        let clear = bools();
        let (mut d, mut c) = (DefaultRand::<$t>::new(&Fail(0)).ok().unwrap(), CryptoRand::<$t>::new(&Fail(0)).ok().unwrap());
        let (mut at, mut err) = (0, false);
        macro_rules! go { ($it:expr) => { {
            let mut it = $it;
            va!(it.last_error().is_none());
            for _ in 0..n {
                let r = it.next().map(|x| x as u64);
                if err { va!(r.is_none() && hw_used() == at); }
                else {
                    at = agrees(&h, at, r.ok_or(RandErrKind::NoNewRandNumberGen), $w, RandErrKind::NoNewRandNumberGen);
                    err = r.is_none();
                }
                va!(it.last_error().map(|e| e.kind() == RandErrKind::NoNewRandNumberGen) == if err { Some(true) } else { None });
                if clear && err { it.clear_error(); err = false; va!(it.last_error().is_none()); }
            }
        } } }
        if param(1) == 0 { go!(d.iter_mut()) } else { go!(c.iter_mut()) }
        out(at);
    }
    // a generator seeded by the hardware seed: built exactly when the instruction delivers, and then equal to one seeded with the delivered value; the same for reset
    fn $use() {
        let h = outcomes(3);
        let s = DefaultSeed::<$t>::new().ok().unwrap();
        struct Fix($t);
        impl Seed<$t> for Fix { fn seed(&self) -> Result<$t> { Ok(self.0) } }
        macro_rules! go { ($mk:expr) => { {
            let mk = $mk;
            let r = mk(None);
            let at = hw_used();
            va!(at >= 1);
            let (v, ok) = h[at as usize - 1];
            match r {
                Err(e) => { let e: RandError = e; va!(!ok && e.kind() == RandErrKind::NoNewRandSeedGen); }
                Ok(mut g) => {
                    va!(ok);
                    let mut f = match mk(Some(v as $t)) { Ok(f) => f, Err(_) => { va!(false); return } };
                    va!(hw_used() == at);
                    va!(g.gen().ok() == f.gen().ok());
                    let r = g.reset(&s);
                    let to = hw_used();
                    va!(to > at);
                    let (v, ok) = h[to as usize - 1];
                    va!(r.is_ok() == ok);
                    if ok { va!(f.reset(&Fix(v as $t)).is_ok()); }
                    va!(g.gen().ok() == f.gen().ok());
                    va!(hw_used() == to);
                }
            }
            out(at);
        } } }
        match param(0) {
            0 => go!(|x: Option<$t>| match x { None => LinearCongruentialRand::new(&s, 3 as $t, 1, 0x8000_0000), Some(x) => LinearCongruentialRand::new(&Fix(x), 3 as $t, 1, 0x8000_0000) }),
            _ => go!(|x: Option<$t>| match x { None => MersenneTwisterRand::new(&s, 16 as $t, 3, 2, 5, 0x9908, (3, 0xffff), (4, 0x9d2c), (7, 0xefc6), 9, 0x6c07), Some(x) => MersenneTwisterRand::new(&Fix(x), 16 as $t, 3, 2, 5, 0x9908, (3, 0xffff), (4, 0x9d2c), (7, 0xefc6), 9, 0x6c07) }),
        }
    }
} }
per!(u32, 32, seed32, gen32, iter32, use32);
per!(u64, 64, seed64, gen64, iter64, use64);
per!(usize, 64, seedus, genus, iterus, useus);
harnesses! {
    fn c29_seed_32() { seed32() }
    fn c29_seed_64() { seed64() }
    fn c29_seed_us() { seedus() }
    fn c29_gen_32() { gen32() }
    fn c29_gen_64() { gen64() }
    fn c29_gen_us() { genus() }
    fn c29_iter_32() { iter32() }
    fn c29_iter_64() { iter64() }
    fn c29_iter_us() { iterus() }
    fn c29_use_32() { use32() }
    fn c29_use_64() { use64() }
    fn c29_use_us() { useus() }
}
#[allow(dead_code)] fn unused() { let _ = LaggedFibonacciRand::<u32>::new(&Fail(1), 1, 1, 2); }
