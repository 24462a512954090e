//! Primitives the symbolic engine gives meaning to (native meaning: rt.rs).
#![allow(dead_code)]
use rmath::bigint::{BigInt, Nat};
pub mod raw { extern "C" {
    pub fn vs_sym(bits: u32) -> u64;
    pub fn vs_assume(c: bool);
    pub fn vs_assert(c: bool, id: u32);
    pub fn vs_reach(id: u32);
    pub fn vs_param(i: u32) -> u64;
    pub fn vs_concretize(x: u64) -> u64;
    pub fn vs_may_panic(c: bool);
    pub fn vs_lazy(c: bool);
    pub fn vs_live() -> u64;
    pub fn vs_out(x: u64);
    pub fn vs_defined(x: u64);
    pub fn vs_ite(c: bool, a: u64, b: u64) -> u64;
    pub fn vs_hw_push(v: u64, ok: bool);
    pub fn vs_hw_used() -> u64;
    pub fn vs_z_words(p: *const u32, len: u64) -> u32;
    pub fn vs_z_u64(x: u64) -> u32;
    pub fn vs_z_add(a: u32, b: u32) -> u32;
    pub fn vs_z_sub(a: u32, b: u32) -> u32;
    pub fn vs_z_mul(a: u32, b: u32) -> u32;
    pub fn vs_z_shl(a: u32, k: u64) -> u32;
    pub fn vs_z_assert(cmp: u32, a: u32, b: u32, id: u32);
} }
/// symbolic inputs
pub fn sym(bits: u32) -> u64 { unsafe { raw::vs_sym(bits) } }
pub fn u64s() -> u64 { sym(64) }
pub fn i64s() -> i64 { sym(64) as i64 }
pub fn u32s() -> u32 { sym(32) as u32 }
pub fn u8s() -> u8 { sym(8) as u8 }
pub fn bools() -> bool { sym(1) != 0 }
/// an n-bit value made of n one-bit symbols
pub fn bits(n: u64) -> u64 { let mut x = 0; for i in 0..n { x |= sym(1) << i; } x }
pub fn assume(c: bool) { unsafe { raw::vs_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { raw::vs_assert(c, id) } }
pub fn reach(id: u32) { unsafe { raw::vs_reach(id) } }
pub fn param(i: u32) -> u64 { unsafe { raw::vs_param(i) } }
/// fork until the value is concrete
pub fn conc(x: u64) -> u64 { unsafe { raw::vs_concretize(x) } }
/// the value does not come from uninitialised memory
pub fn defined(x: u64) { unsafe { raw::vs_defined(x) } }
pub fn out(x: u64) { unsafe { raw::vs_out(x) } }
pub fn lazy(c: bool) { unsafe { raw::vs_lazy(c) } }
pub fn may_panic(c: bool) { unsafe { raw::vs_may_panic(c) } }
pub fn live() -> u64 { unsafe { raw::vs_live() } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::vs_ite(c, a, b) } }
/// the next outcome of a hardware random instruction; how many were consumed
pub fn hw_push(v: u64, ok: bool) { unsafe { raw::vs_hw_push(v, ok) } }
pub fn hw_used() -> u64 { unsafe { raw::vs_hw_used() } }
/// exact mathematical integers used by oracles
#[derive(Clone, Copy)]
pub struct Z(pub u32);
impl Z {
    pub fn words(w: &[u32]) -> Z { Z(unsafe { raw::vs_z_words(w.as_ptr(), w.len() as u64) }) }
    pub fn u(x: u64) -> Z { Z(unsafe { raw::vs_z_u64(x) }) }
    pub fn u128(x: u128) -> Z { Z::u(x as u64).add(Z::u((x >> 64) as u64).shl(64)) }
    pub fn i(x: i64) -> Z { let z = Z::u(x as u64); z.sub(Z::u((x < 0) as u64).shl(64)) }
    pub fn nat(n: &Nat) -> Z { Z::words(n.as_ref()) }
    pub fn add(self, o: Z) -> Z { Z(unsafe { raw::vs_z_add(self.0, o.0) }) }
    pub fn sub(self, o: Z) -> Z { Z(unsafe { raw::vs_z_sub(self.0, o.0) }) }
    pub fn mul(self, o: Z) -> Z { Z(unsafe { raw::vs_z_mul(self.0, o.0) }) }
    pub fn shl(self, k: u64) -> Z { Z(unsafe { raw::vs_z_shl(self.0, k) }) }
    pub fn eq(self, o: Z, id: u32) { unsafe { raw::vs_z_assert(0, self.0, o.0, id) } }
    pub fn lt(self, o: Z, id: u32) { unsafe { raw::vs_z_assert(1, self.0, o.0, id) } }
    pub fn le(self, o: Z, id: u32) { unsafe { raw::vs_z_assert(2, self.0, o.0, id) } }
}
/// n fully symbolic words
pub fn words(n: u64) -> Vec<u32> { let mut v = Vec::with_capacity(n as usize + 1); for _ in 0..n { v.push(u32s()); } v }
/// n symbolic words, most significant one non-zero (a normalised n-word value); n = 0 gives the value zero
pub fn norm_words(n: u64) -> Vec<u32> { if n == 0 { return vec![0]; } let v = words(n); assume(v[n as usize - 1] != 0); v }
pub fn nat(n: u64) -> Nat { Nat::from(norm_words(n)) }
/// the representation is canonical: at least one word, no leading zero word
pub fn normalised(n: &Nat) -> bool { let w: &[u32] = n.as_ref(); let l = w.len(); l == 1 || (l > 1 && w[l - 1] != 0) }
pub fn out_nat(n: &Nat) { let w: &[u32] = n.as_ref(); out(w.len() as u64); for x in w { out(*x as u64); } }
pub fn same_words(n: &Nat, w: &[u32]) -> bool { let m: &[u32] = n.as_ref(); if m.len() != w.len() { return false; } let mut d = 0u32; for i in 0..w.len() { d |= m[i] ^ w[i]; } d == 0 }
/// n fixed words of pattern `pat` (0 zeros, 1 ones, else pseudo-random), top word non-zero
pub fn fixed(n: u64, pat: u64) -> Vec<u32> {
    let mut v = Vec::with_capacity(n as usize + 1);
    let mut x = pat.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for _ in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.push(match pat { 0 => 0, 1 => u32::MAX, _ => (x >> 33) as u32 });
    }
    if n > 0 && v[n as usize - 1] == 0 { v[n as usize - 1] = 1; }
    v
}
/// fixed(n, pat) in which k words, spread over the length and never the top one, are each symbolically complemented or not
pub fn sel(n: u64, k: u64, pat: u64) -> Vec<u32> {
    let mut v = fixed(n, pat);
    for j in 0..k { let i = (j * (n - 1) / k) as usize; let b = sym(1) as u32; v[i] ^= 0u32.wrapping_sub(b); }
    v
}
/// n words in k runs (lengths derived from `seed`), each run all zeros or all ones: chosen by one symbolic bit per run when `pat` is 0, by the bits of `pat` otherwise; top word non-zero
pub fn runs(n: u64, k: u64, seed: u64, pat: u64) -> Vec<u32> {
    let mut cut = vec![0u64; k as usize + 1];
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 1..k { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let base = i * n / k; let j = (x >> 40) % 5; cut[i as usize] = if seed == 0 { base } else { (base + j).min(n).saturating_sub(2).max(cut[i as usize - 1]) }; }
    cut[k as usize] = n;
    let mut v = Vec::with_capacity(n as usize + 1);
    for i in 0..k { let b = if pat == 0 { sym(1) } else { pat >> i & 1 }; let w = 0u32.wrapping_sub(b as u32); for _ in cut[i as usize]..cut[i as usize + 1] { v.push(w); } }
    let l = n as usize - 1;
    v[l] |= 1;
    v
}
/// a value of exactly `bits` bits of which the lowest `lo` and the next-to-top `hi` are symbolic, the rest pattern `pat`
pub fn bitsel(bits: u64, lo: u64, hi: u64, pat: u64) -> Vec<u32> {
    let n = (bits + 31) / 32;
    let mut v = fixed(n, pat);
    let top = (bits - 1) % 32;
    let l = n as usize - 1;
    if top < 31 { v[l] &= (1u32 << (top + 1)) - 1; }
    v[l] |= 1 << top;
    let mut put = |v: &mut Vec<u32>, p: u64| { let b = sym(1) as u32; let (i, s) = ((p / 32) as usize, p % 32); v[i] = (v[i] & !(1u32 << s)) | (b << s); };
    for p in 0..lo.min(bits - 1) { put(&mut v, p); }
    for p in 0..hi { if bits >= 2 + p && bits - 2 - p >= lo { put(&mut v, bits - 2 - p); } }
    v
}
/// integer with the magnitude of `w`, negative if asked (and not zero)
pub fn int(w: &[u32], neg: bool) -> BigInt { let mut b = BigInt::from(w.to_vec()); if neg { b.set_negative(); } b }
/// exact value of an integer / of a sign and magnitude
pub fn zint(b: &BigInt) -> Z { let m = Z::nat(b.as_ref()); if b.is_negative() { Z::u(0).sub(m) } else { m } }
pub fn zsw(w: &[u32], neg: bool) -> Z { let m = Z::words(w); if neg { Z::u(0).sub(m) } else { m } }
/// canonical integer: canonical magnitude, zero is not negative, sign queries agree
pub fn canon(b: &BigInt) -> bool {
    let n: &Nat = b.as_ref();
    let w: &[u32] = n.as_ref();
    let zero = w.len() == 1 && w[0] == 0;
    normalised(n) && !(zero && b.is_negative()) && b.is_negative() != b.is_natural() && b.is_positive() == (!zero && !b.is_negative())
        && b.signnum() == Some(if b.is_negative() { -1 } else if zero { 0 } else { 1 })
}
pub fn out_int(b: &BigInt) { out(b.is_negative() as u64); out_nat(b.as_ref()); }
pub fn same_int(a: &BigInt, b: &BigInt) -> bool { let m: &Nat = b.as_ref(); a.is_negative() == b.is_negative() && same_words(a.as_ref(), m.as_ref()) }
pub fn is_int(a: &BigInt, w: &[u32], neg: bool) -> bool { let z = w.len() == 1 && w[0] == 0; a.is_negative() == (neg && !z) && same_words(a.as_ref(), w) }
/// small integer from a sign-magnitude machine value
pub fn smallint(v: i64) -> BigInt { let m = v.unsigned_abs(); let w = if m >> 32 == 0 { vec![m as u32] } else { vec![m as u32, (m >> 32) as u32] }; int(&w, v < 0) }
/// the machine value of an integer of at most two words
pub fn ival(b: &BigInt) -> i128 { let n: &Nat = b.as_ref(); let w: &[u32] = n.as_ref(); let m = w[0] as i128 | if w.len() > 1 { (w[1] as i128) << 32 } else { 0 }; if b.is_negative() { -m } else { m } }
#[macro_export]
macro_rules! harnesses { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
    $(#[no_mangle] pub extern "C" fn $n() { $b; #[allow(unreachable_code)] { $crate::vs::reach(0); } })*
    pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
} }
#[macro_export]
macro_rules! va { ($c:expr) => { $crate::vs::check($c, line!()) } }
#[macro_export]
macro_rules! zeq { ($a:expr, $b:expr) => { $crate::vs::Z::eq($a, $b, line!()) } }
#[macro_export]
macro_rules! zlt { ($a:expr, $b:expr) => { $crate::vs::Z::lt($a, $b, line!()) } }
#[macro_export]
macro_rules! zle { ($a:expr, $b:expr) => { $crate::vs::Z::le($a, $b, line!()) } }
