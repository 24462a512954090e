//! C13: integer addition, subtraction, multiplication, negation
use crate::vs::*;
use rmath::bigint::BigInt;
fn ops(a: &[u32], na: bool, b: &[u32], nb: bool, mul: bool) {
    let (x, y) = (int(a, na), int(b, nb));
    let (za, zb) = (zsw(a, na), zsw(b, nb));
    let r = x.clone() + y.clone();
    zeq!(zint(&r), za.add(zb)); va!(canon(&r)); out_int(&r);
    let mut s = x.deep_clone(); s += y.clone(); va!(same_int(&s, &r));
    let r = x.clone() - y.clone();
    zeq!(zint(&r), za.sub(zb)); va!(canon(&r)); out_int(&r);
    let mut s = x.deep_clone(); s -= y.clone(); va!(same_int(&s, &r));
    if mul {
        let r = x.clone() * y.clone();
        zeq!(zint(&r), za.mul(zb)); va!(canon(&r)); out_int(&r);
        let mut s = x.deep_clone(); s *= y.clone(); va!(same_int(&s, &r));
    }
    va!(is_int(&x, a, na) && is_int(&y, b, nb));
}
fn unary(a: &[u32], na: bool) {
    let x = int(a, na);
    let z = zsw(a, na);
    va!(canon(&x));
    let n = -x.clone(); zeq!(zint(&n), Z::u(0).sub(z)); va!(canon(&n)); out_int(&n);
    let m = x.abs(); zeq!(zint(&m), Z::words(a)); va!(canon(&m));
    let q = x.sqr(); zeq!(zint(&q), z.mul(z)); va!(canon(&q));
    let d = x.deep_clone(); va!(same_int(&d, &x));
    let mut p = x.deep_clone(); p.set_natural(); zeq!(zint(&p), Z::words(a)); va!(canon(&p));
    let mut p = x.deep_clone(); p.set_negative(); zeq!(zint(&p), Z::u(0).sub(Z::words(a))); va!(canon(&p));
    let s = x.clone() + n.clone(); va!(s == 0u32 && canon(&s));
    let s = x.clone() - x.clone(); va!(s == 0u32 && canon(&s));
    va!(is_int(&x, a, na));
}
harnesses! {
    // p0, p1 words (0: the value zero), signs p2
    fn c13_ops() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        ops(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0, param(3) == 1);
    }
    fn c13_unary() { let a = norm_words(param(0)); unary(&a, param(1) != 0); }
    // operands that cancel in all words but the lowest p1 ones
    fn c13_cancel() {
        let a = norm_words(param(0));
        let mut b = a.clone();
        for i in 0..param(1) as usize { b[i] = u32s(); }
        if param(1) == param(0) { let n = b.len() - 1; assume(b[n] != 0); }
        ops(&a, param(2) & 1 != 0, &b, param(2) & 2 != 0, false);
    }
    // small values of p0 and p1 bits (symbolic), all signs symbolic
    fn c13_small() {
        let (a, b) = ([bits(param(0)) as u32], [bits(param(1)) as u32]);
        let (na, nb) = (bools(), bools());
        ops(&a, na, &b, nb, true);
        let (x, y) = (int(&a, na), int(&b, nb));
        let e = if na { -(a[0] as i64) } else { a[0] as i64 };
        let f = if nb { -(b[0] as i64) } else { b[0] as i64 };
        va!(same_int(&(x.clone() * y.clone()), &smallint(e * f)) && same_int(&(x.clone() + y.clone()), &smallint(e + f)) && same_int(&(x - y), &smallint(e - f)));
    }
    // operands are the same object, in operator and assigning position
    fn c13_alias() {
        let a = norm_words(param(0));
        let na = param(1) != 0;
        let z = zsw(&a, na);
        let x = int(&a, na);
        let r = x.clone() + x.clone(); zeq!(zint(&r), z.add(z));
        let r = x.clone() - x.clone(); zeq!(zint(&r), Z::u(0)); va!(canon(&r));
        let r = x.clone() * x.clone(); zeq!(zint(&r), z.mul(z));
        va!(is_int(&x, &a, na));
        let mut s = x.deep_clone(); let t = s.clone(); s += t; zeq!(zint(&s), z.add(z)); va!(canon(&s));
        let mut s = x.deep_clone(); let t = s.clone(); s -= t; zeq!(zint(&s), Z::u(0)); va!(canon(&s));
        let mut s = x.deep_clone(); let t = s.clone(); s *= t; zeq!(zint(&s), z.mul(z)); va!(canon(&s));
        let _ = BigInt::from(1u32);
    }
}
