//! C24: Float zeros, infinities, NaN, signs and comparison
use crate::vs::*;
#[macro_use]
#[path = "fl.rs"]
pub mod fl;
use fl::*;
use std::cmp::Ordering;
/// a Float of the kind, with precision p (0 for special values: the default one) and mode md; finite: a 2^k
fn make(kind: u64, neg: bool, p: u64, md: u64, a: u128, pa: u64, k: i64) -> Float {
    if kind == FIN { return flp(neg, a, k, pa, md); }
    let mut x = special(kind, neg);
    if p > 0 { x.set_precision(p as usize); }
    x.set_mode(rmode(md));
    x
}
fn op(o: u64, x: Float, y: Float) -> Float { match o { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => { let mut z = x; z += y; z } 5 => { let mut z = x; z -= y; z } 6 => { let mut z = x; z *= y; z } _ => { let mut z = x; z /= y; z } } }
fn cmp_is(x: &Float, y: &Float, w: Option<Ordering>) {
    va!(x.partial_cmp(y) == w); va!(y.partial_cmp(x) == w.map(|o| o.reverse()));
    va!((x == y) == (w == Some(Ordering::Equal))); va!((x != y) == (w != Some(Ordering::Equal)));
    va!((x < y) == (w == Some(Ordering::Less))); va!((x > y) == (w == Some(Ordering::Greater)));
    va!((x <= y) == (w == Some(Ordering::Less) || w == Some(Ordering::Equal))); va!((x >= y) == (w == Some(Ordering::Greater) || w == Some(Ordering::Equal)));
}
harnesses! {
    // p0 op, p1 kind of left, p2 kind of right, p3 signs, p4 mode, p5 precision of a special left operand
    fn c24_special() {
        let (o, kx, ky, md) = (param(0), param(1), param(2), param(4));
        let (n1, n2) = (param(3) & 1 != 0, param(3) & 2 != 0);
        if kx == FIN && ky == FIN { out(7); return reach(0); }
        let (a, b) = (mant(20, 2, 2, 2), mant(20, 3, 2, 3));
        let x = make(kx, n1, param(5), md, a, 20, -7);
        let y = make(ky, n2, 0, 2, b, 20, 9);
        let z = op(o, x, y);
        let r = rd(&z);
        let xneg = n1 && kx != NAN; let yneg = n2 && ky != NAN;
        let o = o & 3;
        let prec = if kx == FIN { 20 } else if param(5) > 0 { param(5) } else if ky == FIN { 20 } else { 0 };
        let y2 = if o == 1 { !yneg } else { yneg };
        if kx == NAN || ky == NAN { va!(r.kind == NAN); va!(z.is_nan()); out(9); return reach(0); }
        let w = if o < 2 {
            if kx == INF && ky == INF { if xneg == y2 { other(INF, xneg, prec) } else { other(NAN, false, 0) } }
            else if kx == INF { other(INF, xneg, prec) }
            else if ky == INF { other(INF, y2, prec) }
            else if kx == ZERO && ky == ZERO {
                // the sum of opposite zeros is +0; toward -Inf IEEE says -0: either is accepted there
                if xneg != y2 && md == 4 { va!(r.kind == ZERO); out(8); return reach(0); }
                other(ZERO, xneg && y2, prec)
            }
            else if ky == ZERO { rounded(n1, a, false, -7, 20, md) }
            else { rounded(y2, b, false, 9, prec, md) }
        } else {
            let neg = xneg != yneg;
            let (dz, di) = if o == 2 { (INF, ZERO) } else { (ZERO, INF) };
            if (kx == ZERO && ky == dz) || (kx == INF && ky == di) { other(NAN, false, 0) }
            else if o == 2 { other(if kx == INF || ky == INF { INF } else { ZERO }, neg, prec) }
            else { other(if kx == INF || ky == ZERO { INF } else { ZERO }, neg, prec) }
        };
        same!(&z, &w);
        out_fl(&z);
    }
    // sign operations and queries; p0 kind, p1 sign
    fn c24_unary() {
        let (k, n) = (param(0), param(1) != 0);
        let a = mant(40, 3, 3, 2);
        let e = sym(6) as i64 - 50;
        let e = conc(e as u64) as i64;
        let x = make(k, n, 0, 3, a, 40, e);
        let r = rd(&x);
        va!(r.kind == k);
        let y = x.abs();
        let z = -x.deep_clone();
        if k == NAN {
            va!(y.is_nan() && z.is_nan()); va!(x.signnum().is_none() && x.is_negative().is_none() && x.is_infinite().is_none() && x.is_integer().is_none());
            va!(x.truncate_to_i64().is_none() && x.truncate_to_u64().is_none());
        } else {
            let (s, t) = (rd(&y), rd(&z));
            for (q, neg) in [(s, false), (t, !n)] { va!(q.kind == k && q.neg == neg && q.m == r.m && q.e == r.e && q.prec == r.prec); }
            va!(x.is_negative() == Some(n)); va!(x.is_infinite() == Some(k == INF));
            va!(x.signnum() == Some(if k == ZERO { 0 } else if n { -1 } else { 1 }));
            if k == FIN {
                let tz = (a as u64).trailing_zeros() as i64;
                va!(x.is_integer() == Some(e + tz >= 0));
                va!(x.required_min_precision() as i64 == 40 - tz);
                let (m, me) = x.mant_exp();
                va!(me as i64 == e + 40);
                let q = rd(&m); va!(q.e == 0 && q.m == r.m && q.neg == n && q.prec == 40);
                let mut b = Float::default(); b.set_mant_exp(m, me); va!(b == x); va!(mode_no(b.get_mode()) == 3);
            } else { va!(x.is_integer() == Some(k == ZERO)); va!(x.required_min_precision() == 0); let (m, me) = x.mant_exp(); va!(me == 0); va!(rd(&m).kind == k && rd(&m).neg == n); }
        }
        out_fl(&x); out_fl(&y); out_fl(&z);
    }
    // comparison of kinds; p0 p1 kinds, p2 signs
    fn c24_cmp_kinds() {
        let (kx, ky) = (param(0), param(1));
        let (n1, n2) = (param(2) & 1 != 0, param(2) & 2 != 0);
        let x = make(kx, n1, 0, 0, mant(20, 2, 2, 2), 20, -400);
        let y = make(ky, n2, 0, 5, mant(20, 2, 2, 3), 20, 300);
        let v = |k: u64, n: bool, f: i32| { let m = match k { ZERO => 0, FIN => f, _ => 9 }; if n { -m } else { m } };
        let w = if kx == NAN || ky == NAN { None } else { v(kx, n1, 1).partial_cmp(&v(ky, n2, 2)) };
        cmp_is(&x, &y, w);
        out(w.map_or(5, |o| (o as i8 + 1) as u64));
    }
    // comparison of finite values a 2^k1, b 2^k2 of p0, p1 bits (all bits symbolic), k2 - k1 = p2 - 70, signs p3
    fn c24_cmp() {
        let (p1, p2) = (param(0), param(1));
        let (a, b) = (sym(p1 as u32) as u128, sym(p2 as u32) as u128);
        assume(a >> (p1 - 1) == 1); assume(b >> (p2 - 1) == 1);
        let d = param(2) as i64 - 70;
        let (n1, n2) = (param(3) & 1 != 0, param(3) & 2 != 0);
        let (x, y) = (flp(n1, a, 0, p1, 0), flp(n2, b, d, p2, 1));
        let (sa, sb) = if d >= 0 { (a, b << d) } else { (a << -d, b) };
        let m = if sa < sb { Ordering::Less } else if sa == sb { Ordering::Equal } else { Ordering::Greater };
        let w = if n1 != n2 { if n1 { Ordering::Less } else { Ordering::Greater } } else if n1 { m.reverse() } else { m };
        cmp_is(&x, &y, Some(w));
        out(w as u64);
    }
    // values of different word counts: the same leading bits, then trailing ones or zeros
    fn c24_cmp_wide() {
        let (p1, p2) = (param(0), param(1));
        let a = mant(p1, 2, 2, param(2)); let b = mant(p2, 2, 2, param(2));
        let (x, y) = (flp(false, a, -(p1 as i64), p1, 0), flp(false, b, -(p2 as i64), p2, 1));
        let (ta, tb) = (a << (128 - p1), b << (128 - p2));
        let w = if ta < tb { Ordering::Less } else if ta == tb { Ordering::Equal } else { Ordering::Greater };
        cmp_is(&x, &y, Some(w));
        cmp_is(&-y, &-x, Some(w));
        out(w as u64);
    }
    // setting the precision to 0 gives a zero of the same sign; special values keep their kind at any precision
    fn c24_precision() {
        let (k, n) = (param(0), param(1) != 0);
        let mut x = make(k, n, 33, 1, mant(40, 2, 2, 2), 40, 0);
        x.set_precision(0);
        let r = rd(&x);
        if k == NAN { va!(x.is_nan()); } else { va!(r.kind == if k == FIN { ZERO } else { k }); va!(r.neg == n); va!(r.prec == 0); va!(r.acc == if k != FIN { 1 } else if n { 2 } else { 0 }); }
        let mut y = make(k, n, 0, 1, mant(40, 2, 2, 2), 40, 0);
        y.set_precision(1000);
        y.set_precision(77);
        if k != NAN { let q = rd(&y); va!(q.kind == k && q.neg == n && q.prec == 77 && q.acc == 1); } else { va!(y.is_nan()); }
        va!(mode_no(y.get_mode()) == 1);
        out_fl(&x); out_fl(&y);
    }
    // operands of any length: p0/p1 bits, exponent offset p2 - 300, signs p3, pattern p4
    fn c24_cmp_long() {
        let (p1, p2, d, pat) = (param(0), param(1), param(2) as i64 - 300, param(4));
        let (a, b) = (bmant(p1, 2, 2, pat), bmant(p2, 2, 2, pat));
        let (n1, n2) = (param(3) & 1 != 0, param(3) & 2 != 0);
        let (x, y) = (bfl(n1, &a, 0, p1, 0), bfl(n2, &b, d, p2, 1));
        let (sa, sb) = if d >= 0 { (a, bshl(&b, d as u64)) } else { (bshl(&a, (-d) as u64), b) };
        let m = if blt(&sa, &sb) { Ordering::Less } else if blt(&sb, &sa) { Ordering::Greater } else { Ordering::Equal };
        let w = if n1 != n2 { if n1 { Ordering::Less } else { Ordering::Greater } } else if n1 { m.reverse() } else { m };
        cmp_is(&x, &y, Some(w));
        cmp_is(&x, &x.deep_clone(), Some(Ordering::Equal));
        out(w as u64);
    }
}
