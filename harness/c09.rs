//! C09: floor of the square root
use crate::vs::*;
use rmath::bigint::Nat;
fn root(n: &[u32]) {
    let x = Nat::from(n.to_vec());
    let s = x.sqrt();
    va!(normalised(&s));
    let z = Z::nat(&s);
    zle!(z.mul(z), Z::words(n));
    let z1 = z.add(Z::u(1));
    zlt!(Z::words(n), z1.mul(z1));
    va!(same_words(&x, n));
    out_nat(&s);
}
harnesses! {
    // every value below 2^p0
    fn c09_small() { root(&[bits(param(0)) as u32]); }
    // p0-bit values with p1 low and p2 high symbolic bits, pattern p3
    fn c09_sel() { root(&bitsel(param(0), param(1), param(2), param(3))); }
    // r^2 + d for r of p0 bits (p1 low, p2 high symbolic), d in -1, 0, 1, 2r, 2r+1
    fn c09_square() {
        let r = Nat::from(bitsel(param(0), param(1), param(2), param(3)));
        let mut q = r.deep_clone() * r.deep_clone();
        match param(4) { 0 => {} 1 => q = q - 1u32, 2 => q = q + 1u32, 3 => q = q + r.deep_clone() * 2u32, _ => q = q + r.deep_clone() * 2u32 + 1u32 }
        let w: &[u32] = q.as_ref();
        let x = Nat::from(w.to_vec());
        let s = x.sqrt();
        va!(normalised(&s));
        let want = match param(4) { 1 => r.deep_clone() - 1u32, 4 => r.deep_clone() + 1u32, _ => r.deep_clone() };
        va!(same_words(&s, want.as_ref()));
        zle!(Z::nat(&s).mul(Z::nat(&s)), Z::words(w));
        out_nat(&s);
    }
}
