//! C01: natural-number addition and subtraction
use crate::vs::*;
use rmath::bigint::Nat;
harnesses! {
    // p0, p1: word counts of the operands
    fn c01_add() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let (za, zb) = (Z::words(&a), Z::words(&b));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let r = x.clone() + y.clone();
        zeq!(Z::nat(&r), za.add(zb));
        va!(normalised(&r));
        va!(same_words(&x, &a) && same_words(&y, &b));
        let mut s = x.deep_clone();
        s += y;
        zeq!(Z::nat(&s), za.add(zb));
        va!(normalised(&s));
        out_nat(&r);
    }
    fn c01_add_u32() {
        let a = norm_words(param(0));
        let b = u32s();
        let za = Z::words(&a);
        let r = Nat::from(a.clone()) + b;
        zeq!(Z::nat(&r), za.add(Z::u(b as u64)));
        va!(normalised(&r));
        let mut s = Nat::from(a);
        s += b;
        zeq!(Z::nat(&s), za.add(Z::u(b as u64)));
        out_nat(&r);
    }
    // |a - b| and the order flag
    fn c01_sub() {
        let (a, b) = (norm_words(param(0)), norm_words(param(1)));
        let (za, zb) = (Z::words(&a), Z::words(&b));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let (r, ge) = x.sub_with_sign(y.clone());
        if ge { zeq!(Z::nat(&r).add(zb), za); } else { zeq!(Z::nat(&r).add(za), zb); zlt!(za, zb); }
        va!(normalised(&r));
        va!(same_words(&x, &a) && same_words(&y, &b));
        let r2 = x.clone() - y.clone();
        va!(same_words(&r2, r.as_ref()));
        let mut s = x.deep_clone();
        s -= y.clone();
        va!(same_words(&s, r.as_ref()));
        let mut t = x.deep_clone();
        let ge2 = t.sub_assign_with_sign(y.clone());
        va!(ge2 == ge);
        va!(same_words(&t, r.as_ref()));
        va!(same_words(&y, &b));
        out(ge as u64); out_nat(&r);
    }
    // p0 words, the operands agree except in words p1 and 0
    fn c01_sub_near() {
        let a = norm_words(param(0));
        let mut b = a.clone();
        b[param(1) as usize] = u32s();
        b[0] = u32s();
        let l = b.len() - 1;
        if l > 0 { assume(b[l] != 0); }
        let (za, zb) = (Z::words(&a), Z::words(&b));
        let (x, y) = (Nat::from(a.clone()), Nat::from(b.clone()));
        let (r, ge) = x.sub_with_sign(y.clone());
        if ge { zeq!(Z::nat(&r).add(zb), za); } else { zeq!(Z::nat(&r).add(za), zb); zlt!(za, zb); }
        va!(normalised(&r));
        let mut s = x.deep_clone();
        s -= y.clone();
        va!(same_words(&s, r.as_ref()));
        va!(same_words(&x, &a) && same_words(&y, &b));
        out(ge as u64); out_nat(&r);
    }
    fn c01_sub_u32() {
        let a = norm_words(param(0));
        let b = u32s();
        let (za, zb) = (Z::words(&a), Z::u(b as u64));
        let r = Nat::from(a.clone()) - b;
        let lt = a.len() == 1 && a[0] < b;
        if lt { zeq!(Z::nat(&r).add(za), zb); } else { zeq!(Z::nat(&r).add(zb), za); }
        va!(normalised(&r));
        let mut s = Nat::from(a);
        s -= b;
        va!(same_words(&s, r.as_ref()));
        out_nat(&r);
    }
    // x op x through a shared handle
    fn c01_alias() {
        let a = norm_words(param(0));
        let za = Z::words(&a);
        let mut s = Nat::from(a.clone());
        let t = s.clone();
        s += t;
        zeq!(Z::nat(&s), za.add(za));
        let mut d = Nat::from(a.clone());
        let t = d.clone();
        d -= t;
        zeq!(Z::nat(&d), Z::u(0));
        va!(normalised(&d));
        let u = Nat::from(a);
        let w = u.clone() - u.clone();
        zeq!(Z::nat(&w), Z::u(0));
        out_nat(&s);
    }
}
