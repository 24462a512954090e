//! C10: NaN propagates through natural and integer operations
use crate::vs::*;
use rmath::bigint::{BigInt, Nat};
fn nan() -> Nat { Nat::default() }
fn bnan() -> BigInt { BigInt::from(Nat::default()) }
fn ok(n: &Nat) -> bool { let w: &[u32] = n.as_ref(); n.is_nan() && w.is_empty() }
fn bok(b: &BigInt) -> bool { ok(b.as_ref()) && b.is_nan() && !b.is_negative() && !b.is_natural() && b.signnum().is_none() }
macro_rules! two { ($x:ident, $y:ident, $ok:ident, $op:tt, $as:tt) => { {
    let r = $x.clone() $op $y.clone(); va!($ok(&r));
    let mut s = $x.deep_clone(); s $as $y.clone(); va!($ok(&s));
} } }
macro_rules! small { ($x:ident, $v:expr, $ok:ident, $($op:tt $as:tt),*) => { $( { let r = $x.clone() $op $v; va!($ok(&r)); let mut s = $x.deep_clone(); s $as $v; va!($ok(&s)); } )* } }
harnesses! {
    // the other operand has p0 fully symbolic words; p1 side: 0 NaN left, 1 NaN right, 2 both; p2 operation
    fn c10_nat() {
        let a = nat(param(0));
        let (x, y) = match param(1) { 0 => (nan(), a), 1 => (a, nan()), _ => (nan(), nan()) };
        match param(2) {
            0 => two!(x, y, ok, +, +=), 1 => two!(x, y, ok, -, -=), 2 => two!(x, y, ok, *, *=), 3 => two!(x, y, ok, /, /=), 4 => two!(x, y, ok, %, %=),
            5 => two!(x, y, ok, &, &=), 6 => two!(x, y, ok, |, |=), 7 => two!(x, y, ok, ^, ^=),
            8 => { va!(ok(&x.clone().and_not(y.clone()))); let mut s = x.deep_clone(); s.and_not_assign(y.clone()); va!(ok(&s)); }
            9 => { let (r, g) = x.sub_with_sign(y.clone()); va!(ok(&r) && !g); let mut s = x.deep_clone(); let g = s.sub_assign_with_sign(y.clone()); va!(ok(&s) && !g); }
            10 => { va!(ok(&x.pow(y.clone()))); va!(ok(&x.mul_karatsuba(&y))); }
            11 => { let k = nat(1); va!(ok(&x.pow_mod(y.clone(), k.clone())) && ok(&x.pow_mod(k.clone(), y.clone())) && ok(&k.pow_mod(x.clone(), y.clone()))); }
            12 => { let k = nat(1); va!(ok(&x.exp(&y, &k)) && ok(&x.exp(&k, &y)) && ok(&k.exp(&x, &y))); }
            _ => { va!(x != y && !(x == y) && x.partial_cmp(&y).is_none() && !(x < y) && !(x > y) && !(x <= y) && !(x >= y)); }
        }
        va!(x.is_nan() == (param(1) != 1) && y.is_nan() == (param(1) != 0));
        out(1);
    }
    fn c10_nat_small() {
        let v = u32s();
        let n = param(0) as usize;
        let x = nan();
        small!(x, v, ok, + +=, - -=, * *=);
        if param(1) == 0 { assume(v != 0); small!(x, v, ok, / /=, % %=); }
        small!(x, n, ok, << <<=, >> >>=);
        va!(ok(&!x.clone()) && ok(&x.sqr()) && ok(&x.sqrt()) && ok(&x.deep_clone()));
        va!(x != v && !(x == v) && x.partial_cmp(&v).is_none());
        va!(x.is_set_bit(n).is_none() && x.to_le_bytes().is_empty() && x.to_be_bytes().is_empty() && x.bits_len() == 0);
        va!(ok(&x));
    }
    fn c10_int() {
        let a = int(&norm_words(param(0)), param(3) != 0);
        // a zero divisor is a documented panic, whatever the dividend
        let (x, y) = match param(1) { 0 => (bnan(), a), 1 => (a, bnan()), _ => (bnan(), bnan()) };
        match param(2) {
            0 => two!(x, y, bok, +, +=), 1 => two!(x, y, bok, -, -=), 2 => two!(x, y, bok, *, *=), 3 => two!(x, y, bok, /, /=), 4 => two!(x, y, bok, %, %=),
            5 => two!(x, y, bok, &, &=), 6 => two!(x, y, bok, |, |=), 7 => two!(x, y, bok, ^, ^=),
            8 => { va!(bok(&x.clone().and_not(y.clone()))); let mut s = x.deep_clone(); s.and_not_assign(y.clone()); va!(bok(&s)); }
            9 => { va!(bok(&x.div_euclid(y.clone()))); let mut s = x.deep_clone(); s.div_euclid_assign(y.clone()); va!(bok(&s)); }
            10 => { va!(bok(&x.rem_euclid(y.clone()))); let mut s = x.deep_clone(); s.rem_euclid_assign(y.clone()); va!(bok(&s)); }
            11 => { let k = int(&norm_words(1), param(3) != 0); va!(bok(&x.exp(&y, &k)) && bok(&x.exp(&k, &y)) && bok(&k.exp(&x, &y))); }
            _ => { va!(x != y && !(x == y) && x.partial_cmp(&y).is_none() && !(x < y) && !(x > y) && !(x <= y) && !(x >= y)); }
        }
        va!(x.is_nan() == (param(1) != 1) && y.is_nan() == (param(1) != 0));
        out(1);
    }
    fn c10_int_unary() {
        let n = param(0) as usize;
        let x = bnan();
        small!(x, n, bok, << <<=, >> >>=);
        va!(bok(&-x.clone())); va!(bok(&!x.clone())); va!(bok(&x.abs())); va!(bok(&x.sqr())); va!(bok(&x.sqrt())); va!(bok(&x.deep_clone()));
        let mut s = bnan(); s.set_negative(); va!(bok(&s)); s.set_natural(); va!(bok(&s));
        let v = u32s(); va!(x != v && !(x == v));
        va!(x.is_set_bit(n).is_none() && x.to_le_bytes().is_empty() && x.bits_len() == 0);
        // a NaN produced by an operation is as good as a fresh one
        let mut s = int(&norm_words(1), true); s += bnan(); va!(bok(&s)); va!(bok(&(s.clone() * BigInt::from(2u32)))); va!(format!("{}", s) == "NaN");
    }
}
