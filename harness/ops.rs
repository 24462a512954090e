//! every operation as a numbered expression (shared by C11 and C30)
#![allow(dead_code)]
use crate::vs::*;
use super::fl::*;
/// operator k as an expression over clones of the operands
pub fn nat_op(k: u64, x: &Nat, y: &Nat) -> Nat {
    let (a, b) = (x.clone(), y.clone());
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => a % b, 5 => a & b, 6 => a | b, 7 => a ^ b, 8 => a.and_not(b), 9 => a << 0, 10 => a << 33, 11 => a >> 0, 12 => a >> 5, 13 => !a, 14 => a + 1u32, 15 => a - 0u32, 16 => a * 1u32, 17 => a / 1u32, 18 => a % 7u32,
        19 => a.sub_with_sign(b).0, 20 => a.sqr(), 21 => a.sqrt(), 22 => a.mul_karatsuba(&b), 23 => a.pow(Nat::from(1u32)),
        24 => a.pow_mod(Nat::from(1u32), b), 25 => a.pow_mod(Nat::from(2u32), b), 26 => a.pow_mod(Nat::from(5u32), b), 27 => a.exp(&Nat::from(3u32), &b), 28 => a.exp(&Nat::from(vec![2u32, 1]), &b), 29 => a.pow_mod(Nat::from(vec![1u32, 2]), b), 30 => a.pow(Nat::from(0u32)), _ => a.pow_mod(b, Nat::from(vec![0x8000_000du32])) }
}
/// assigning operator k
pub fn nat_as(k: u64, a: &mut Nat, b: Nat) -> bool {
    match k { 0 => *a += b, 1 => *a -= b, 2 => *a *= b, 3 => *a /= b, 4 => *a %= b, 5 => *a &= b, 6 => *a |= b, 7 => *a ^= b, 8 => a.and_not_assign(b), 9 => *a <<= 0, 10 => *a <<= 33, 11 => *a >>= 0, 12 => *a >>= 5, 14 => *a += 1u32, 15 => *a -= 0u32, 16 => *a *= 1u32, 17 => *a /= 1u32, 18 => *a %= 7u32, 19 => { a.sub_assign_with_sign(b); } _ => return false }
    true
}
pub fn int_op(k: u64, x: &BigInt, y: &BigInt) -> BigInt {
    let (a, b) = (x.clone(), y.clone());
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => a % b, 5 => a & b, 6 => a | b, 7 => a ^ b, 8 => a.and_not(b), 9 => a << 0, 10 => a << 33, 11 => a >> 0, 12 => a >> 5, 13 => !a, 14 => -a, 15 => a.abs(), 16 => a.sqr(), 17 => a.div_euclid(b), 18 => a.rem_euclid(b), 19 => a.gcd(b).0, 20 => a.gcd(b).1, 21 => a.gcd(b).2, 22 => a.mod_inverse(b), 23 => a.exp(&BigInt::from(1u32), &BigInt::from(0u32)), 24 => a.exp(&BigInt::from(3u32), &b), 25 => a.abs().sqrt(), 26 => a + BigInt::from(0u32), 27 => a - BigInt::from(0u32), 28 => a * BigInt::from(1u32), 29 => a / BigInt::from(1u32),
        30 => { let n: &Nat = a.as_ref(); BigInt::from(n.clone()) }
        31 => { let r = a.solve_mod_linear_equation(b, BigInt::from(12u32)); listed(r) } 32 => { let r = BigInt::from(6u32).solve_mod_linear_equation(a, b.abs()); listed(r) }
        33 => a.exp(&BigInt::from(vec![3u32, 1]), &b), 34 => { let p = BigInt::from(13u32); let r = (a.rem_euclid(p.clone())).mod_sqrt(&p); va!(is_int(&p, &[13], false)); opt(r) }
        35 => BigInt::from(a.jacobi(&(b.abs() | BigInt::from(1u32))).unwrap_or(7) as i32), 36 => a.mod_inverse(BigInt::from(0x10001u32)), 37 => a.rem_euclid(BigInt::from(7u32)),
        _ => unreachable!() }
}
pub fn opt(r: Option<BigInt>) -> BigInt { match r { Some(v) => v, None => BigInt::from(-77i32) } }
pub fn listed(r: Option<Vec<BigInt>>) -> BigInt { match r { Some(v) => { let mut s = BigInt::from(v.len() as u32); for x in v { s = s * BigInt::from(1000003u32) + x; } s } None => BigInt::from(-77i32) } }
pub fn int_as(k: u64, a: &mut BigInt, b: BigInt) -> bool {
    match k { 0 => *a += b, 1 => *a -= b, 2 => *a *= b, 3 => *a /= b, 4 => *a %= b, 5 => *a &= b, 6 => *a |= b, 7 => *a ^= b, 8 => a.and_not_assign(b), 9 => *a <<= 0, 10 => *a <<= 33, 11 => *a >>= 0, 12 => *a >>= 5, 17 => a.div_euclid_assign(b), 18 => a.rem_euclid_assign(b), _ => return false }
    true
}
pub fn rat_op(k: u64, x: &Rat, y: &Rat) -> Rat {
    let (a, b) = (x.clone(), y.clone());
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => -a, 5 => a.abs(), 6 => match a.inv() { Ok(r) => r, Err(_) => Rat::from(0u32) }, 7 => Rat::from(a.numerator().clone()), 8 => Rat::from(a.denominator().clone()), 9 => match Rat::from_frac_bigint(a.numerator(), b.denominator()) { Ok(r) => r, Err(_) => b }, _ => Rat::from(a.denominator().clone()) + b }
}
pub fn rat_as(k: u64, a: &mut Rat, b: Rat) -> bool { match k { 0 => *a += b, 1 => *a -= b, 2 => *a *= b, 3 => *a /= b, _ => return false } true }
pub type SR = ((Vec<u32>, bool), (Vec<u32>, bool));
pub fn snapr(x: &Rat) -> SR { (snapi(x.numerator()), snapi(x.denominator())) }
pub fn isr(x: &Rat, s: &SR) -> bool { isi(x.numerator(), &s.0) && isi(x.denominator(), &s.1) }
pub fn fl_op(k: u64, x: &Float, y: &Float) -> Float {
    let (a, b) = (x.clone(), y.clone());
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => -a, 5 => a.abs(), 6 => a.mant_exp().0, 7 => { let mut z = Float::default(); z.set_mant_exp(a, 3); z } _ => a.abs() + b }
}
pub fn fl_as(k: u64, a: &mut Float, b: Float) -> bool { match k { 0 => *a += b, 1 => *a -= b, 2 => *a *= b, 3 => *a /= b, 7 => a.set_mant_exp(b, 3), _ => return false } true }
pub type SF = (u64, bool, u64, i64, u64, u64, u64);
pub fn snapf(x: &Float) -> SF { let r = rd(x); if r.kind == NAN { (NAN, false, 0, 0, 0, 0, 0) } else { (r.kind, r.neg, r.m, r.e, r.prec, r.acc, mode_no(x.get_mode())) } }
pub fn isf(x: &Float, s: &SF) -> bool { let t = snapf(x); t.0 == s.0 && t.1 == s.1 && t.2 == s.2 && t.3 == s.3 && t.4 == s.4 && t.5 == s.5 && t.6 == s.6 }
/// kinds 0 zero, 1 infinity, 2 NaN, 3.. finite of p bits
pub fn fl_mk(kind: u64, neg: bool, p: u64, k: i64, mode: u64) -> Float { match kind { 0 => special(ZERO, neg), 1 => special(INF, neg), 2 => special(NAN, false), _ => flp(neg, mant(p, 1, 0, kind), k, p, mode) } }
pub fn is_nat(n: &Nat, w: &[u32]) -> bool { same_words(n, w) }
pub fn snap(n: &Nat) -> Vec<u32> { let w: &[u32] = n.as_ref(); w.to_vec() }
pub fn snapi(n: &BigInt) -> (Vec<u32>, bool) { (snap(n.as_ref()), n.is_negative()) }
pub fn isi(n: &BigInt, s: &(Vec<u32>, bool)) -> bool { is_int(n, &s.0, s.1) }
