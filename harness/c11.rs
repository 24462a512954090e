//! C11: operators have value semantics; deep clones are independent
use crate::vs::*;
#[path = "fl.rs"]
pub mod fl;
use fl::*;
#[path = "ops.rs"]
pub mod ops;
use ops::*;
harnesses! {
    // operands of p1 / p2 bits (p3 symbolic low bits), operation p0
    fn c11_nat() {
        let k = param(0);
        let (wa, wb) = (bitsel(param(1), param(3), 0, 2), bitsel(param(2), param(3), 0, 3));
        let (mut x, y) = (Nat::from(wa.clone()), Nat::from(wb.clone()));
        let (cx, dx, cy, dy) = (x.clone(), x.deep_clone(), y.clone(), y.deep_clone());
        let mut r = nat_op(k, &x, &y);
        va!(is_nat(&x, &wa) && is_nat(&y, &wb) && is_nat(&cx, &wa) && is_nat(&dx, &wa) && is_nat(&cy, &wb) && is_nat(&dy, &wb));
        let s = snap(&r);
        let keep = r.deep_clone();
        // the result shares nothing with the operands
        r += 12345u32; r <<= 1;
        va!(is_nat(&x, &wa) && is_nat(&y, &wb) && is_nat(&dx, &wa) && is_nat(&dy, &wb) && is_nat(&keep, &s));
        // both operands the same object
        let same = nat_op(k, &dx, &dx);
        let indep = nat_op(k, &Nat::from(wa.clone()), &Nat::from(wa.clone()));
        let si = snap(&indep);
        va!(is_nat(&same, &si) && is_nat(&dx, &wa));
        // assigning form: same result, right operand and deep clones unaffected; also with a clone of itself on the right
        let r2 = nat_op(k, &x, &y);
        if nat_as(k, &mut x, y.clone()) {
            va!(is_nat(&x, &s));
            va!(is_nat(&y, &wb) && is_nat(&dx, &wa) && is_nat(&dy, &wb) && is_nat(&r2, &s));
            let mut z = dx.deep_clone(); let t = z.clone(); nat_as(k, &mut z, t);
            va!(is_nat(&z, &si) && is_nat(&dx, &wa));
        }
        drop(cx);
        out_nat(&keep);
    }
    fn c11_int() {
        let k = param(0);
        let sg = param(4);
        let (wa, wb) = (bitsel(param(1), param(3), 0, 2), bitsel(param(2), param(3), 0, 3));
        let (sa, sb) = ((wa.clone(), sg & 1 != 0), (wb.clone(), sg & 2 != 0));
        let (mut x, y) = (int(&wa, sa.1), int(&wb, sb.1));
        let (cx, dx, cy, dy) = (x.clone(), x.deep_clone(), y.clone(), y.deep_clone());
        let mut r = int_op(k, &x, &y);
        va!(isi(&x, &sa) && isi(&y, &sb) && isi(&cx, &sa) && isi(&dx, &sa) && isi(&cy, &sb) && isi(&dy, &sb));
        let s = snapi(&r);
        let keep = r.deep_clone();
        r += BigInt::from(12345u32); r <<= 1; r *= BigInt::from(-3i32);
        va!(isi(&x, &sa) && isi(&y, &sb) && isi(&dx, &sa) && isi(&dy, &sb) && isi(&keep, &s));
        let same = int_op(k, &dx, &dx);
        let indep = int_op(k, &int(&wa, sa.1), &int(&wa, sa.1));
        let si = snapi(&indep);
        va!(isi(&same, &si) && isi(&dx, &sa));
        let r2 = int_op(k, &x, &y);
        if int_as(k, &mut x, y.clone()) {
            va!(isi(&x, &s));
            va!(isi(&y, &sb) && isi(&dx, &sa) && isi(&dy, &sb) && isi(&r2, &s));
            let mut z = dx.deep_clone(); let t = z.clone(); int_as(k, &mut z, t);
            va!(isi(&z, &si) && isi(&dx, &sa));
        }
        drop(cx);
        out_int(&keep);
    }
    // rationals: numerator and denominator of p1, p2 bits, p3 symbolic low bits, p4 signs
    fn c11_rat() {
        let (k, sg) = (param(0), param(4));
        let q = |n: u64, d: u64, neg: bool, pat: u64| match Rat::from_frac_bigint(&int(&bitsel(n, param(3), 0, pat), neg), &int(&bitsel(d, if n > 33 { 0 } else { param(3) }, 0, pat + 1), false)) { Ok(r) => r, Err(_) => { va!(false); Rat::from(0u32) } };
        let (mut x, y) = (q(param(1), param(2), sg & 1 != 0, 2), q(param(2), param(1), sg & 2 != 0, 4));
        let (sa, sb) = (snapr(&x), snapr(&y));
        let (cx, dx, cy, dy) = (x.clone(), x.deep_clone(), y.clone(), y.deep_clone());
        let mut r = rat_op(k, &x, &y);
        va!(isr(&x, &sa) && isr(&y, &sb) && isr(&cx, &sa) && isr(&dx, &sa) && isr(&cy, &sb) && isr(&dy, &sb));
        let s = snapr(&r);
        let keep = r.deep_clone();
        r += Rat::from(5u32); r *= keep.deep_clone(); r -= keep.clone();
        va!(isr(&x, &sa) && isr(&y, &sb) && isr(&dx, &sa) && isr(&dy, &sb) && isr(&keep, &s));
        let same = rat_op(k, &dx, &dx);
        let si = snapr(&rat_op(k, &dx.deep_clone(), &dx.deep_clone()));
        va!(isr(&same, &si) && isr(&dx, &sa));
        let r2 = rat_op(k, &x, &y);
        if rat_as(k, &mut x, y.clone()) {
            va!(isr(&x, &s) && isr(&y, &sb) && isr(&dx, &sa) && isr(&dy, &sb) && isr(&r2, &s));
            let mut z = dx.deep_clone(); let t = z.clone(); rat_as(k, &mut z, t);
            va!(isr(&z, &si) && isr(&dx, &sa));
        }
        drop(cx);
        out_int(keep.numerator()); out_int(keep.denominator());
    }
    // floats: kinds p1, p2 (zero, infinity, NaN, finite), precisions p3, p4, mode p5, signs p6
    fn c11_float() {
        let (k, sg) = (param(0), param(6));
        let (mut x, y) = (fl_mk(param(1), sg & 1 != 0, param(3), 2, param(5)), fl_mk(param(2), sg & 2 != 0, param(4), -1, 5 - param(5)));
        let (sa, sb) = (snapf(&x), snapf(&y));
        let (cx, dx, cy, dy) = (x.clone(), x.deep_clone(), y.clone(), y.deep_clone());
        let mut r = fl_op(k, &x, &y);
        va!(isf(&x, &sa) && isf(&y, &sb) && isf(&cx, &sa) && isf(&dx, &sa) && isf(&cy, &sb) && isf(&dy, &sb));
        let s = snapf(&r);
        let keep = r.deep_clone();
        if !r.is_nan() { r += Float::from(5u32); r.set_precision(2); }
        let mut r3 = fl_op(k, &x, &y);
        if !r3.is_nan() { r3.set_mant_exp(Float::from(3u32), 1); }
        va!(isf(&x, &sa) && isf(&y, &sb) && isf(&dx, &sa) && isf(&dy, &sb) && isf(&keep, &s));
        let same = fl_op(k, &dx, &dx);
        let si = snapf(&fl_op(k, &dx.deep_clone(), &dx.deep_clone()));
        va!(isf(&same, &si) && isf(&dx, &sa));
        let r2 = fl_op(k, &x, &y);
        let (mut u, mut v) = (dx.deep_clone(), dx.deep_clone());
        if k == 7 { u.set_mant_exp(y.clone(), 3); v.set_mant_exp(y.deep_clone(), 3); let (u, v) = (snapf(&u), snapf(&v)); va!(u.2 == v.2 && u.3 == v.3); }
        if k != 7 && fl_as(k, &mut x, y.clone()) {
            va!(isf(&x, &s) && isf(&r2, &s));
        }
        va!(isf(&y, &sb) && isf(&dx, &sa) && isf(&dy, &sb));
        let mut z = dx.deep_clone(); let t = z.clone();
        if fl_as(k, &mut z, t) { va!(isf(&z, &si) && isf(&dx, &sa)); }
        // changing precision or mode of one leaves the deep clone alone
        if param(1) > 2 {
            let mut z = dx.deep_clone(); z.set_precision(2); z.set_mode(rmode(3));
            va!(isf(&dx, &sa));
            let mut z = dx.deep_clone(); let w = z.deep_clone(); z.set_mant_exp(y, 1);
            va!(isf(&w, &sa) && isf(&dx, &sa) && isf(&dy, &sb));
        }
        drop(cx);
        out_fl(&keep);
    }
    // conversions do not share storage with their source
    fn c11_convert() {
        let w = norm_words(param(0));
        let mut v = w.clone();
        let mut n = Nat::from(&v);
        let mut b = BigInt::from(n.clone());
        v[0] ^= 1;
        va!(is_nat(&n, &w));
        n += 1u32;
        va!(is_int(&b, &w, false));
        let d = n.deep_clone();
        let s = snap(&n);
        b += BigInt::from(5u32);
        va!(is_nat(&n, &s) && is_nat(&d, &s));
        let mut e = b.deep_clone(); let sb = snapi(&b);
        e.set_negative(); e -= BigInt::from(7u32);
        va!(isi(&b, &sb));
        let mut c = b.abs(); c <<= 3; va!(isi(&b, &sb));
        let mut c = -b.clone(); c <<= 3; va!(isi(&b, &sb));
    }
    // histories: p0 steps over four integers, each step an operation chosen by the solver (p1: 0 naturals, 1 integers); a model tracks values,
    // names sharing storage with the target of an assigning step are not looked at again
    fn c11_history() {
        let steps = param(0);
        let vals = [bits(2) as i64 + param(2) as i64, bits(2) as i64 + 1];
        let a = smallint(vals[0]);
        let mut v = vec![a.clone(), a.clone(), a.deep_clone(), smallint(vals[1])];
        let mut m = vec![vals[0], vals[0], vals[0], vals[1]];
        let mut id = vec![0u64, 0, 1, 2];
        let mut live = vec![true; 4];
        let mut next = 3;
        for _ in 0..steps {
            let k = conc(sym(3)); let i = conc(sym(2)) as usize; let j = conc(sym(2)) as usize;
            assume(live[i] && live[j]);
            let bump = |id: &mut Vec<u64>, next: &mut u64, d: usize| { id[d] = *next; *next += 1; };
            let hide = |id: &[u64], live: &mut Vec<bool>, d: usize| for q in 0..4 { if q != d && id[q] == id[d] { live[q] = false; } };
            match k {
                0 => { let r = v[i].clone() + v[j].clone(); v[3] = r; m[3] = m[i].wrapping_add(m[j]); bump(&mut id, &mut next, 3); live[3] = true; }
                1 => { let r = v[i].clone() * v[j].clone(); v[1] = r; m[1] = m[i].wrapping_mul(m[j]); bump(&mut id, &mut next, 1); live[1] = true; }
                2 => { let t = v[j].clone(); v[i] -= t; m[i] = m[i].wrapping_sub(m[j]); hide(&id, &mut live, i); }
                3 => { let t = v[j].clone(); v[i] += t; m[i] = m[i].wrapping_add(m[j]); hide(&id, &mut live, i); }
                4 => { let t = v[j].clone(); v[i] = t; m[i] = m[j]; id[i] = id[j]; live[i] = true; }
                5 => { let t = v[j].deep_clone(); v[i] = t; m[i] = m[j]; bump(&mut id, &mut next, i); live[i] = true; }
                6 => { v[i] <<= 1; m[i] = m[i].wrapping_mul(2); hide(&id, &mut live, i); }
                _ => { let t = v[j].clone(); v[i] |= t; m[i] |= m[j]; hide(&id, &mut live, i); }
            }
            for q in 0..4 { if live[q] { va!(canon(&v[q]) && same_int(&v[q], &smallint(m[q]))); } }
        }
        for q in 0..4 { if live[q] { out_int(&v[q]); } }
    }
}
