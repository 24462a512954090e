//! C02: multiplication and squaring
use crate::vs::*;
use rmath::bigint::Nat;
harnesses! {
    fn c02_mul() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let p = Z::words(&a).mul(Z::words(&b));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = x.clone() * y.clone();
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        va!(same_words(&x, &a) && same_words(&y, &b));
        let mut s = x.deep_clone();
        s *= y;
        va!(same_words(&s, r.as_ref()));
        out_nat(&r);
    }
    fn c02_mul_u32() {
        let a = norm_words(param(0));
        let b = u32s();
        let p = Z::words(&a).mul(Z::u(b as u64));
        let r = Nat::from(a.clone()) * b;
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        let mut s = Nat::from(a);
        s *= b;
        va!(same_words(&s, r.as_ref()));
        out_nat(&r);
    }
    fn c02_kar() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let p = Z::words(&a).mul(Z::words(&b));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = x.mul_karatsuba(&y);
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        va!(same_words(&x, &a) && same_words(&y, &b));
        out_nat(&r);
    }
    fn c02_sqr() {
        let a = norm_words(param(0));
        let p = Z::words(&a).mul(Z::words(&a));
        let x = Nat::from(a.clone());
        let r = x.sqr();
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        va!(same_words(&x, &a));
        out_nat(&r);
    }
    // p0,p1 words; p2 symbolic complement bits per operand; p3 pattern, p4 pattern offset of the second
    fn c02_kar_sel() {
        let (a, b) = (sel(param(0), param(2), param(3)), sel(param(1), param(2), param(3) + param(4)));
        let p = Z::words(&a).mul(Z::words(&b));
        let r = Nat::from(a.clone()).mul_karatsuba(&Nat::from(b.clone()));
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        out_nat(&r);
    }
    fn c02_sqr_sel() {
        let a = sel(param(0), param(1), param(2));
        let p = Z::words(&a).mul(Z::words(&a));
        let r = Nat::from(a.clone()).sqr();
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        out_nat(&r);
    }
    // operands made of runs of zero and all-ones words: p0,p1 words; p2 symbolic runs of a; p3 run layout; p4 runs of b, chosen by the bits of p5
    fn c02_kar_runs() {
        let (a, b) = (runs(param(0), param(2), param(3), 0), runs(param(1), param(4), param(3) + 1, param(5)));
        let p = Z::words(&a).mul(Z::words(&b));
        let r = Nat::from(a.clone()).mul_karatsuba(&Nat::from(b.clone()));
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        out_nat(&r);
    }
    fn c02_sqr_runs() {
        let a = runs(param(0), param(1), param(2), 0);
        let p = Z::words(&a).mul(Z::words(&a));
        let r = Nat::from(a.clone()).sqr();
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        out_nat(&r);
    }
    fn c02_mul_sel() {
        let (a, b) = (sel(param(0), param(2), param(3)), sel(param(1), param(2), param(3) + param(4)));
        let p = Z::words(&a).mul(Z::words(&b));
        let r = Nat::from(a.clone()) * Nat::from(b.clone());
        zeq!(Z::nat(&r), p);
        va!(normalised(&r));
        out_nat(&r);
    }
}
