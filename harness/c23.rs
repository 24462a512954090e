//! C23: Float arithmetic and precision changes round correctly
use crate::vs::*;
#[macro_use]
#[path = "fl.rs"]
pub mod fl;
use fl::*;
/// exact a 2^k1 (+/-) b 2^k2 as sign, magnitude, sticky, exponent; the first operand has sign n1, the second n2
fn sum(n1: bool, a: u128, p1: u64, k1: i64, n2: bool, b: u128, p2: u64, k2: i64) -> (bool, u128, bool, i64) {
    let (t1, t2) = (k1 + p1 as i64, k2 + p2 as i64);
    let lo = k1.min(k2);
    if t1.max(t2) - lo <= 125 {
        let (x, y) = (a << (k1 - lo), b << (k2 - lo));
        if n1 == n2 { return (n1, x + y, false, lo); }
        return (if x >= y { n1 } else { n2 }, if x >= y { x.wrapping_sub(y) } else { y.wrapping_sub(x) }, false, lo);
    }
    let (nb, big, kb, tb, small, ks) = if t1 > t2 { (n1, a, k1, t1, b, k2) } else { (n2, b, k2, t2, a, k1) };
    let k = tb - 125;
    let big = big << (kb - k);
    let t = k - ks;
    let (si, st) = if t >= 127 { (0, true) } else { (small >> t, small & ((1 << t) - 1) != 0) };
    if n1 == n2 { (nb, big + si, st, k) } else { (nb, big.wrapping_sub(si).wrapping_sub(st as u128), st, k) }
}
/// exponent offset p - 1000; from 100000 on: -(p - 100000)
fn off(p: u64) -> i64 { if p >= 100000 { 100000 - p as i64 } else { p as i64 - 1000 } }
fn op(o: u64, assign: bool, x: Float, y: Float) -> Float {
    let mut z = x;
    if assign { match o { 0 => z += y, 1 => z -= y, 2 => z *= y, _ => z /= y } z }
    else { match o { 0 => z + y, 1 => z - y, 2 => z * y, _ => z / y } }
}
harnesses! {
    // operands of any length: p0 op, p1 mode, p2/p3 precisions, p4 exponent offset (see off), p5 signs, p6 pattern, p7/p8 symbolic bits
    fn c23_wide() {
        let (o, md, p1, p2) = (param(0), param(1), param(2), param(3));
        let d = off(param(4));
        let (n1, n2, asg) = (param(5) & 1 != 0, param(5) & 2 != 0, param(5) & 4 != 0);
        let (a, b) = (bmant(p1, param(7), param(8), param(6) & 15), bmant(p2, param(7), param(8), param(6) >> 4));
        let (k1, k2) = (3 - p1 as i64, 3 - p2 as i64 + d);
        let z = op(o, asg, bfl(n1, &a, k1, p1, md), bfl(n2, &b, k2, p2, if md == 2 { 3 } else { 2 }));
        let (neg, v, st, k) = match o {
            0 | 1 => {
                let n2 = n2 != (o == 1);
                let lo = k1.min(k2);
                let (x, y) = (bshl(&a, (k1 - lo) as u64), bshl(&b, (k2 - lo) as u64));
                if n1 == n2 { (n1, badd(&x, &y), false, lo) } else { let ((u, c), (w, _)) = (bsub(&x, &y), bsub(&y, &x)); ((c == 0) == n1, bite(c == 0, &u, &w), false, lo) }
            }
            2 => (n1 != n2, bmul(&a, ((p1 + 31) / 32) as usize, &b, ((p2 + 31) / 32) as usize), false, k1 + k2),
            _ => {
                // both aligned to the same length, so that the quotient is in (1/2, 2)
                let (x, y) = (bshl(&a, p2.saturating_sub(p1)), bshl(&b, p1.saturating_sub(p2)));
                let (q, st) = bdiv(&x, &y, p1 + 3);
                (n1 != n2, q, st, 3 - 3 - d - (p1 as i64 + 2))
            }
        };
        va!(mode_no(z.get_mode()) == md);
        if bzero(&v) { let r = rd(&z); va!(r.kind == ZERO && r.neg == (md == 4) && r.acc == 1 && r.prec == p1); }
        else {
            bsame(&z, bround(neg, &v, st, k, p1, md), neg, p1);
        }
        out_fl(&z);
    }
    // p0 op (+ - * /), p1 mode, p2/p3 precisions, p4 exponent offset (see off), p5 signs (2 bits, 4: assigning form), p6 pattern, p7/p8 symbolic bits per operand (low / high)
    fn c23_arith() {
        let (o, md, p1, p2) = (param(0), param(1), param(2), param(3));
        let d = off(param(4));
        let (n1, n2, asg) = (param(5) & 1 != 0, param(5) & 2 != 0, param(5) & 4 != 0);
        let (a, b) = (mant(p1, param(7), param(8), param(6) & 15), mant(p2, param(7), param(8), param(6) >> 4));
        let (k1, k2) = (3 - p1 as i64, 3 - p2 as i64 + d);
        let x = flp(n1, a, k1, p1, md);
        let y = flp(n2, b, k2, p2, if md == 2 { 3 } else { 2 });
        let z = op(o, asg, x, y);
        va!(mode_no(z.get_mode()) == md);
        match o {
            0 | 1 => {
                let (n, u, st, k) = sum(n1, a, p1, k1, n2 != (o == 1), b, p2, k2);
                if u == 0 && !st { same!(&z, &other(ZERO, md == 4, p1)); } else { same!(&z, &rounded(n, u, st, k, p1, md)); }
            }
            2 => same!(&z, &rounded(n1 != n2, a.wrapping_mul(b), false, k1 + k2, p1, md)),
            _ => {
                let s = 127 - p1;
                let n = a << s;
                let (q, r) = (n / b, n % b);
                same!(&z, &rounded(n1 != n2, q, r != 0, k1 - s as i64 - k2, p1, md));
            }
        }
        out_fl(&z);
    }
    // a chain of three operations: each step rounds to the precision of its left operand
    fn c23_chain() {
        let (md, p) = (param(1), param(2));
        let (a, b, c) = (mant(p, param(4), 1, param(5)), mant(p, param(4), 1, 2), mant(8, 2, 1, 3));
        let z = op(param(0), false, flp(false, a, 0, p, md), flp(false, b, param(3) as i64 - 50, p, md));
        let (n, u, st, k) = match param(0) { 0 => sum(false, a, p, 0, false, b, p, param(3) as i64 - 50), 1 => sum(false, a, p, 0, true, b, p, param(3) as i64 - 50), _ => (false, a.wrapping_mul(b), false, param(3) as i64 - 50) };
        if u != 0 {
            let w = rounded(n, u, st, k, p, md);
            let y = z * flp(true, c, -3, 8, 0);
            let v = rounded(!n, (w.mw >> (128 - p)).wrapping_mul(c), false, w.r.e - p as i64 - 3, p, md);
            same!(&y, &v);
            let t = y - flp(!n, 1, 0, 1, 0);
            let (n, u, st, k) = sum(!n, v.mw >> (128 - p), p, v.r.e - p as i64, n, 1, 1, 0);
            same!(&t, &rounded(n, u, st, k, p, md));
            out_fl(&t);
        }
    }
    // precision change of a fully symbolic 64-bit mantissa: p0 new precision, p1 mode, p2 sign, p3 leading zeros of the integer
    fn c23_round() {
        let (p, md, neg, lz) = (param(0), param(1), param(2) != 0, param(3));
        let v = (u64s() | 1 << 63) >> lz;
        let mut x = Float::from(v);
        va!(x.get_precision() == 64 && acc(x.get_accuracy()) == 1);
        if neg { x = -x; }
        x.set_mode(rmode(md));
        x.set_precision(p as usize);
        same!(&x, &rounded(neg, v as u128, false, 0, p, md));
        // a second, finer setting changes nothing
        let r = rd(&x);
        x.set_precision(p as usize + 70);
        let s = rd(&x);
        va!((r.m == s.m) & (r.e == s.e)); va!(s.acc == 1); va!(s.prec == p + 70); va!(s.neg == neg);
        out_fl(&x);
    }
    // the same for wide integers of p4 bits (p5 low and p6 high symbolic) down to p0 bits
    fn c23_round_wide() {
        let (p, md, neg) = (param(0), param(1), param(2) != 0);
        let v = mant(param(4), param(5), param(6), param(3));
        let mut x = flp(neg, v, 0, param(4), md);
        same!(&x, &rounded(neg, v, false, 0, param(4), md));
        x.set_precision(p as usize);
        if p < param(4) { same!(&x, &rounded(neg, v, false, 0, p, md)); } else { let mut w = rounded(neg, v, false, 0, param(4), md); w.r.prec = p; same!(&x, &w); }
        out_fl(&x);
    }
    // fully symbolic sums: mantissas of p2/p3 bits, all bits symbolic
    fn c23_sum_full() {
        let (o, md, p1, p2) = (param(0), param(1), param(2), param(3));
        let (a, b) = (sym(p1 as u32) as u128, sym(p2 as u32) as u128);
        assume(a >> (p1 - 1) == 1); assume(b >> (p2 - 1) == 1);
        let (k1, k2) = (0, param(4) as i64 - 50);
        let z = op(o, false, flp(false, a, k1, p1, md), flp(false, b, k2, p2, 0));
        let (n, u, st, k) = sum(false, a, p1, k1, o == 1, b, p2, k2);
        if u == 0 { same!(&z, &other(ZERO, md == 4, p1)); } else { same!(&z, &rounded(n, u, st, k, p1, md)); }
        out_fl(&z);
    }
    // exponents at the ends of the range: p0 op (2 *, 3 /, 4 scaling), p1 which end, p2 signs, p3 mode
    fn c23_range() {
        let (o, md) = (param(0), param(3));
        let (n1, n2) = (param(2) & 1 != 0, param(2) & 2 != 0);
        let k = if o == 3 { 1 } else { 2 };
        let (a, b) = (mant(8, k, k, 1), mant(8, k, k, 0));
        let big = i32::MAX as i64; let small = i32::MIN as i64;
        // exponents of the operands (value = 0.1xxx * 2^e); the product has e1 + e2 or one less, the quotient e1 - e2 or one more
        let (e1, e2) = match param(1) { 0 => (big - 3, 3), 1 => (big - 3, 4), 2 => (big - 3, 5), 3 => (small + 3, -3), 4 => (small + 3, -4), 5 => (small + 3, -2), 6 => (big, big), 7 => (small, small), 8 => (big / 2, big / 2 + 1), 9 => (big, 1), _ => (small, 1) };
        let e2 = if o == 3 { -e2 } else { e2 };
        if o == 3 && (e2 < small || e2 > big) { return reach(0); }
        let x = flp(n1, a, e1 - 8, 8, md);
        if o == 4 {
            let mut z = Float::default();
            z.set_mant_exp(x, e2 as isize);
            let w = rounded(n1, a, false, 0, 8, md);
            let e = e1 + e2;
            if e > big { let mut v = other(INF, n1, 8); v.r.acc = if n1 { 0 } else { 2 }; same!(&z, &v); }
            else if e < small { let mut v = other(ZERO, n1, 8); v.r.acc = if n1 { 2 } else { 0 }; same!(&z, &v); }
            else { let mut w = w; w.r.e = e; same!(&z, &w); }
            out_fl(&z);
            return reach(0);
        }
        let y = flp(n2, b, e2 - 8, 8, 0);
        let z = op(o, false, x, y);
        let neg = n1 != n2;
        let (u, st, k) = if o == 2 { (a.wrapping_mul(b), false, e1 + e2 - 16) } else { let n = a << 40; (n / b, n % b != 0, e1 - e2 - 40) };
        let mut w = rounded(neg, u, st, k, 8, md);
        let pre = 128 - u.leading_zeros() as i64 + k;
        if w.r.e > big { w.r.kind = INF; w.r.acc = if neg { 0 } else { 2 }; }
        if pre < small { w.r.kind = ZERO; w.r.acc = if neg { 2 } else { 0 }; }
        // rounded up to the least exponent from below, or down to the greatest from above: either is accepted
        if (pre < small && w.r.e >= small) || (pre > big) != (w.r.e > big) { out(7); return reach(0); }
        same!(&z, &w);
        out_fl(&z);
    }
    // the mode can be changed at any time: the value, its sign and precision stay, the accuracy becomes exact
    fn c23_set_mode() {
        let (md, to) = (param(0), param(1));
        let n = param(2) != 0;
        let mut x = flp(n, mant(40, 3, 3, param(3)), -7, 40, md);
        x.set_precision(20);
        let r = rd(&x);
        x.set_mode(rmode(to));
        let q = rd(&x);
        va!(q.kind == FIN && q.m == r.m && q.e == r.e && q.neg == n && q.prec == 20 && q.acc == 1 && mode_no(x.get_mode()) == to);
        let d = Float::default();
        let z = rd(&d);
        va!(z.kind == ZERO && !z.neg && z.prec == 0 && z.acc == 1 && mode_no(d.get_mode()) == 0);
        out_fl(&x);
    }
}
