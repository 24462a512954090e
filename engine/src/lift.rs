//! Exact lifting of bit-vector terms to integer polynomials, and integer goals.
use crate::solver::*;
use crate::term::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------- big integers ----------
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Z { S(i128), B(bool, Vec<u32>) }
fn mag_of(x: u128) -> Vec<u32> { let mut v = vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32]; trim(&mut v); v }
fn trim(v: &mut Vec<u32>) { while v.last() == Some(&0) { v.pop(); } }
fn mcmp(a: &[u32], b: &[u32]) -> Ordering { if a.len() != b.len() { return a.len().cmp(&b.len()); } for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } } Ordering::Equal }
fn madd(a: &[u32], b: &[u32]) -> Vec<u32> { let n = a.len().max(b.len()); let mut r = Vec::with_capacity(n + 1); let mut c = 0u64; for i in 0..n { c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64; r.push(c as u32); c >>= 32; } if c > 0 { r.push(c as u32); } r }
fn msub(a: &[u32], b: &[u32]) -> Vec<u32> { let mut r = Vec::with_capacity(a.len()); let mut br = 0i64; for i in 0..a.len() { let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br; br = 0; if d < 0 { d += 1 << 32; br = 1; } r.push(d as u32); } trim(&mut r); r }
fn mmul(a: &[u32], b: &[u32]) -> Vec<u32> { let mut r = vec![0u32; a.len() + b.len()]; for i in 0..a.len() { let mut c = 0u64; for j in 0..b.len() { c += a[i] as u64 * b[j] as u64 + r[i + j] as u64; r[i + j] = c as u32; c >>= 32; } r[i + b.len()] = c as u32; } trim(&mut r); r }
impl Z {
    pub fn new(x: i128) -> Z { Z::S(x) }
    pub fn from_u128(x: u128) -> Z { if x <= i128::MAX as u128 { Z::S(x as i128) } else { Z::B(false, mag_of(x)) } }
    pub fn pow2(k: u32) -> Z { if k < 126 { Z::S(1i128 << k) } else { let mut v = vec![0u32; (k / 32) as usize]; v.push(1 << (k % 32)); Z::B(false, v) } }
    fn parts(&self) -> (bool, Vec<u32>) { match self { Z::S(x) => (*x < 0, mag_of(x.unsigned_abs())), Z::B(n, v) => (*n, v.clone()) } }
    fn norm(neg: bool, mut v: Vec<u32>) -> Z { trim(&mut v); if v.len() < 4 || (v.len() == 4 && v[3] < 0x4000_0000) { let mut x = 0i128; for &d in v.iter().rev() { x = (x << 32) | d as i128; } return Z::S(if neg { -x } else { x }); } Z::B(neg, v) }
    pub fn is_zero(&self) -> bool { matches!(self, Z::S(0)) }
    pub fn neg(&self) -> Z { match self { Z::S(x) if *x != i128::MIN => Z::S(-x), _ => { let (n, v) = self.parts(); Z::norm(!n, v) } } }
    pub fn add(&self, o: &Z) -> Z {
        if let (Z::S(a), Z::S(b)) = (self, o) { if let Some(c) = a.checked_add(*b) { return Z::S(c); } }
        let ((n1, a), (n2, b)) = (self.parts(), o.parts());
        if n1 == n2 { return Z::norm(n1, madd(&a, &b)); }
        match mcmp(&a, &b) { Ordering::Less => Z::norm(n2, msub(&b, &a)), _ => Z::norm(n1, msub(&a, &b)) }
    }
    pub fn sub(&self, o: &Z) -> Z { self.add(&o.neg()) }
    pub fn mul(&self, o: &Z) -> Z {
        if let (Z::S(a), Z::S(b)) = (self, o) { if let Some(c) = a.checked_mul(*b) { return Z::S(c); } }
        let ((n1, a), (n2, b)) = (self.parts(), o.parts());
        Z::norm(n1 != n2, mmul(&a, &b))
    }
    pub fn is_neg(&self) -> bool { match self { Z::S(x) => *x < 0, Z::B(n, _) => *n } }
    pub fn cmp(&self, o: &Z) -> Ordering { let d = self.sub(o); if d.is_zero() { Ordering::Equal } else if d.is_neg() { Ordering::Less } else { Ordering::Greater } }
    pub fn bits(&self) -> u32 { let (_, v) = self.parts(); if v.is_empty() { 0 } else { (v.len() as u32 - 1) * 32 + 32 - v[v.len() - 1].leading_zeros() } }
    pub fn to_dec(&self) -> String {
        let (n, mut v) = self.parts();
        if v.is_empty() { return "0".into(); }
        let mut parts = vec![];
        while !v.is_empty() { let mut r = 0u64; for d in v.iter_mut().rev() { let c = (r << 32) | *d as u64; *d = (c / 1_000_000_000) as u32; r = c % 1_000_000_000; } trim(&mut v); parts.push(r as u32); }
        let mut s = format!("{}", parts.last().unwrap());
        for p in parts.iter().rev().skip(1) { s.push_str(&format!("{:09}", p)); }
        if n { format!("(- {})", s) } else { s }
    }
    /// two's complement binary literal of given width
    pub fn to_bv(&self, w: u32) -> String {
        let (n, mut v) = self.parts();
        v.resize(((w + 31) / 32) as usize, 0);
        if n { let mut c = 1u64; for d in v.iter_mut() { let x = (!*d) as u64 + c; *d = x as u32; c = x >> 32; } }
        let mut s = String::from("#b");
        for i in (0..w).rev() { s.push(if v[(i / 32) as usize] >> (i % 32) & 1 == 1 { '1' } else { '0' }); }
        s
    }
}

// ---------- polynomials ----------
pub type Mono = Box<[T]>;
#[derive(Clone, Default, Debug)]
pub struct Poly(pub BTreeMap<Mono, Z>);
impl Poly {
    pub fn cst(z: Z) -> Poly { let mut p = Poly::default(); if !z.is_zero() { p.0.insert(Box::new([]), z); } p }
    pub fn atom(t: T) -> Poly { let mut p = Poly::default(); p.0.insert(Box::new([t]), Z::S(1)); p }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn add_scaled(&mut self, o: &Poly, k: &Z) {
        for (m, c) in &o.0 {
            let d = c.mul(k);
            match self.0.get_mut(m) { Some(e) => { let s = e.add(&d); if s.is_zero() { self.0.remove(m); } else { *e = s; } } None => { if !d.is_zero() { self.0.insert(m.clone(), d); } } }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly { let mut r = self.clone(); r.add_scaled(o, &Z::S(1)); r }
    pub fn sub(&self, o: &Poly) -> Poly { let mut r = self.clone(); r.add_scaled(o, &Z::S(-1)); r }
    pub fn scale(&self, k: &Z) -> Poly { let mut r = Poly::default(); r.add_scaled(self, k); r }
    pub fn mul(&self, o: &Poly, tm: &TM) -> Poly {
        let mut r: BTreeMap<Mono, Z> = BTreeMap::new();
        for (m1, c1) in &self.0 { for (m2, c2) in &o.0 {
            let mut v: Vec<T> = m1.iter().chain(m2.iter()).copied().collect();
            v.sort();
            let mut i = 1; while i < v.len() { if v[i] == v[i - 1] && tm.w(v[i]) == 1 { v.remove(i); } else { i += 1; } }
            let c = c1.mul(c2);
            let e = r.entry(v.into_boxed_slice()).or_insert(Z::S(0));
            *e = e.add(&c);
        } }
        r.retain(|_, c| !c.is_zero());
        Poly(r)
    }
}

impl Poly {
    /// replace atoms by constants
    pub fn subst_atoms(&self, f: &mut dyn FnMut(T) -> Option<Z>) -> Poly {
        let mut memo: FxMap<T, Option<Z>> = FxMap::default();
        let mut r: BTreeMap<Mono, Z> = BTreeMap::new();
        for (m, c) in &self.0 {
            let mut c = c.clone(); let mut v = Vec::with_capacity(m.len());
            for &a in m.iter() { let z = match memo.get(&a) { Some(z) => z.clone(), None => { let z = f(a); memo.insert(a, z.clone()); z } }; match z { Some(z) => c = c.mul(&z), None => v.push(a) } }
            if c.is_zero() { continue; }
            let e = r.entry(v.into_boxed_slice()).or_insert(Z::S(0)); *e = e.add(&c);
        }
        r.retain(|_, c| !c.is_zero());
        Poly(r)
    }
    fn key(m: &Mono) -> (usize, T) { (m.len(), m.iter().copied().max().unwrap_or(0)) }
    fn pivot(&self) -> Option<Mono> { self.0.iter().filter(|(m, c)| !m.is_empty() && matches!(c, Z::S(1) | Z::S(-1))).max_by_key(|(m, _)| Self::key(m)).map(|x| x.0.clone()) }
    /// eliminate the pivot monomial of fact f (f = 0, pivot coefficient +-1)
    pub fn eliminate(&mut self, f: &Poly, piv: &Mono) { if let Some(c) = self.0.get(piv).cloned() { let k = match &f.0[piv] { Z::S(1) => c.neg(), _ => c }; self.add_scaled(f, &k); } }
    /// is self in the integer span of the facts (fraction-free elimination; sound, incomplete)
    pub fn reduce(&self, facts: &[Poly]) -> Poly {
        let mut d = self.clone(); let mut basis: Vec<(Poly, Mono)> = vec![];
        for f in facts { let mut f = f.clone(); for (b, p) in &basis { f.eliminate(b, p); } if let Some(p) = f.pivot() { for (b, _) in basis.iter_mut() { b.eliminate(&f, &p); } d.eliminate(&f, &p); basis.push((f, p)); if d.is_zero() { break; } } }
        for (b, p) in &basis { d.eliminate(b, p); }
        d
    }
}

// ---------- integer expressions built by the harness ----------
#[derive(Clone)]
pub enum ZE { Bv(T), Cst(Z), Add(Rc<ZE>, Rc<ZE>), Sub(Rc<ZE>, Rc<ZE>), Mul(Rc<ZE>, Rc<ZE>), Sum(Rc<Vec<(T, u32)>>) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ZCmp { Eq, Lt, Le }
#[derive(Clone)]
pub enum Goal { B(T), Z(ZCmp, Rc<ZE>, Rc<ZE>) }

#[derive(Default)]
pub struct Lifter { memo: FxMap<T, Rc<Poly>> }

pub const POLY_LIMIT: usize = 30_000;

impl Lifter {
    pub fn lift(&mut self, tm: &mut TM, t: T) -> Rc<Poly> {
        if let Some(p) = self.memo.get(&t) { return p.clone(); }
        let p = Rc::new(self.lift0(tm, t));
        self.memo.insert(t, p.clone());
        p
    }
    /// floor(x / 2^k)
    fn shifted(&mut self, tm: &mut TM, x: T, k: u32) -> Poly {
        let w = tm.w(x);
        if k == 0 { return (*self.lift(tm, x)).clone(); }
        if k >= w { return Poly::default(); }
        let e = tm.extract(w - 1, k, x);
        let n = tm.node(e);
        if n.op == Op::Extract && n.a == x { return Poly::atom(e); }
        if e == x { return Poly::atom(e); }
        (*self.lift(tm, e)).clone()
    }
    fn lift0(&mut self, tm: &mut TM, t: T) -> Poly {
        let n = tm.node(t);
        let w = n.w;
        match n.op {
            Op::Const => Poly::cst(Z::from_u128(n.k)),
            Op::Tab => { // multilinear normal form over the bits
                let tb = tm.tabs[n.k as usize].clone(); let (sup, v) = (&tb.sup, tb.vals());
                let mut z: Vec<Z> = v.iter().map(|&x| Z::from_u128(x)).collect();
                for q in 0..sup.len() { for i in 0..z.len() { if i >> q & 1 == 1 { z[i] = z[i].sub(&z[i ^ (1 << q)]); } } }
                let mut r = Poly::default();
                for (i, c) in z.into_iter().enumerate() { if !c.is_zero() { let mut m: Vec<T> = (0..sup.len()).filter(|q| i >> q & 1 == 1).map(|q| sup[q]).collect(); m.sort(); r.0.insert(m.into_boxed_slice(), c); } }
                r
            }
            Op::Add => {
                let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b));
                if w < 127 { // three-operand forms share one carry / borrow atom
                    for &(s, c) in &[(n.a, n.b), (n.b, n.a)] {
                        let ns = tm.node(s);
                        if ns.op == Op::Add && tm.umax(c) <= 1 && (tm.as_const(ns.b).is_none() || tm.as_const(c).is_none()) && tm.umax(s) == mask(w) {
                            let (x, y, z) = (self.lift(tm, ns.a), self.lift(tm, ns.b), self.lift(tm, c));
                            let k = tm.carry3(ns.a, ns.b, c);
                            let kp = self.lift(tm, k);
                            let mut r = x.add(&y).add(&z); r.add_scaled(&kp, &Z::pow2(w).neg());
                            return r;
                        }
                    }
                    if tm.as_const(n.b) == Some(mask(w)) { let ns = tm.node(n.a); if ns.op == Op::Sub {
                        let (x, y) = (self.lift(tm, ns.a), self.lift(tm, ns.b));
                        let k = tm.ule(ns.a, ns.b); let kp = self.lift(tm, k);
                        let mut r = x.sub(&y).sub(&Poly::cst(Z::S(1))); r.add_scaled(&kp, &Z::pow2(w));
                        return r;
                    } }
                }
                if let Some(k) = tm.as_const(n.b) { if w < 128 && k >> (w - 1) == 1 { // subtraction of 2^w-k
                    let c = (1u128 << w) - k;
                    let mut r = (*a).clone(); r.add_scaled(&Poly::cst(Z::from_u128(c)), &Z::S(-1));
                    if tm.umin(n.a) >= c { return r; }
                    let kc = tm.cst(w, c); let br = tm.ult(n.a, kc); let bp = self.lift(tm, br);
                    r.add_scaled(&bp, &Z::pow2(w));
                    return r;
                } }
                let mut r = a.add(&b);
                let c = tm.carry(n.a, n.b);
                if c != tm.fls { let cp = self.lift(tm, c); r.add_scaled(&cp, &Z::pow2(w).neg()); }
                r
            }
            Op::Sub => {
                if w < 127 && tm.umax(n.b) <= 1 { let ns = tm.node(n.a);
                    let pair = if ns.op == Op::Sub { Some((ns.a, ns.b)) } else if ns.op == Op::Add { tm.as_const(ns.b).map(|k| { let c = tm.cst(w, k.wrapping_neg()); (ns.a, c) }) } else { None };
                    if let Some((x, y)) = pair { if tm.umin(n.a) == 0 {
                        let (px, py, pz) = (self.lift(tm, x), self.lift(tm, y), self.lift(tm, n.b));
                        let k = tm.borrow3(x, y, n.b); let kp = self.lift(tm, k);
                        let mut r = px.sub(&py).sub(&pz); r.add_scaled(&kp, &Z::pow2(w));
                        return r;
                    } }
                }
                let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b));
                let mut r = a.sub(&b);
                if tm.umin(n.a) < tm.umax(n.b) { let c = tm.ult(n.a, n.b); let cp = self.lift(tm, c); r.add_scaled(&cp, &Z::pow2(w)); }
                r
            }
            Op::Mul => {
                let fits = tm.umax(n.a).checked_mul(tm.umax(n.b)).map_or(false, |x| x <= mask(w));
                let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b));
                if a.0.len().saturating_mul(b.0.len()) > POLY_LIMIT { return Poly::atom(t); }
                if fits { return a.mul(&b, tm); }
                if w <= 64 {
                    let (x, y) = (tm.zext(n.a, 2 * w), tm.zext(n.b, 2 * w));
                    let m = tm.mul(x, y); let hi = tm.extract(2 * w - 1, w, m);
                    let hp = self.lift(tm, hi);
                    let mut r = a.mul(&b, tm); r.add_scaled(&hp, &Z::pow2(w).neg());
                    return r;
                }
                Poly::atom(t)
            }
            Op::URem if tm.as_const(n.b).is_none() => { // a - b * (a / b), exact for b = 0 too
                let q = tm.udiv(n.a, n.b);
                let (a, b, q) = (self.lift(tm, n.a), self.lift(tm, n.b), self.lift(tm, q));
                if q.0.len().saturating_mul(b.0.len()) > POLY_LIMIT { return Poly::atom(t); }
                a.sub(&b.mul(&q, tm))
            }
            Op::ZExt => (*self.lift(tm, n.a)).clone(),
            Op::Concat => { let lw = tm.w(n.b); let (h, l) = (self.lift(tm, n.a), self.lift(tm, n.b)); let mut r = (*l).clone(); r.add_scaled(&h, &Z::pow2(lw)); r }
            Op::Extract => {
                let lo = n.k as u32; let hi = lo + w; let xw = tm.w(n.a);
                if hi == xw { return Poly::atom(t); }
                let mut r = self.shifted(tm, n.a, lo);
                let h = self.shifted(tm, n.a, hi);
                r.add_scaled(&h, &Z::pow2(w).neg());
                r
            }
            Op::SExt => { let wa = tm.w(n.a); let s = tm.extract(wa - 1, wa - 1, n.a); let (a, sp) = (self.lift(tm, n.a), self.lift(tm, s)); let mut r = (*a).clone(); r.add_scaled(&sp, &Z::pow2(w).sub(&Z::pow2(wa))); r }
            Op::Ite => {
                let (c, a, b) = (self.lift(tm, n.a), self.lift(tm, n.b), self.lift(tm, n.c));
                let d = a.sub(&b);
                if d.0.len() * c.0.len() > POLY_LIMIT { return Poly::atom(t); }
                b.add(&c.mul(&d, tm))
            }
            Op::Not if w == 1 => { let a = self.lift(tm, n.a); Poly::cst(Z::S(1)).sub(&a) }
            Op::And if w == 1 => { let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b)); if a.0.len() * b.0.len() > 64 { return Poly::atom(t); } a.mul(&b, tm) }
            Op::Or if w == 1 => { let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b)); if a.0.len() * b.0.len() > 64 { return Poly::atom(t); } a.add(&b).sub(&a.mul(&b, tm)) }
            Op::Xor if w == 1 => { let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b)); if a.0.len() * b.0.len() > 64 { return Poly::atom(t); } let m = a.mul(&b, tm); let mut r = a.add(&b); r.add_scaled(&m, &Z::S(-2)); r }
            Op::Xor if tm.as_const(n.b) == Some(mask(w)) => { let a = self.lift(tm, n.a); Poly::cst(Z::from_u128(mask(w))).sub(&a) }
            Op::Or if (tm.kz(n.a) | tm.kz(n.b)) & mask(w) == mask(w) => { let (a, b) = (self.lift(tm, n.a), self.lift(tm, n.b)); a.add(&b) }
            _ => Poly::atom(t),
        }
    }
    pub fn lift_ze(&mut self, tm: &mut TM, z: &ZE) -> Option<Poly> {
        Some(match z {
            ZE::Bv(t) => (*self.lift(tm, *t)).clone(),
            ZE::Cst(c) => Poly::cst(c.clone()),
            ZE::Add(a, b) => { let x = self.lift_ze(tm, a)?; x.add(&self.lift_ze(tm, b)?) }
            ZE::Sub(a, b) => { let x = self.lift_ze(tm, a)?; x.sub(&self.lift_ze(tm, b)?) }
            ZE::Mul(a, b) => { let x = self.lift_ze(tm, a)?; let y = self.lift_ze(tm, b)?; if x.0.len().saturating_mul(y.0.len()) > 4_000_000 { return None; } x.mul(&y, tm) }
            ZE::Sum(v) => { let mut r = Poly::default(); for &(t, s) in v.iter() { let p = self.lift(tm, t); r.add_scaled(&p, &Z::pow2(s)); } r }
        })
    }
}

pub fn eval_ze(tm: &mut TM, z: &ZE, m: &Model) -> Z {
    match z {
        ZE::Bv(t) => Z::from_u128(tm.eval(&[*t], m)[0]),
        ZE::Cst(c) => c.clone(),
        ZE::Add(a, b) => eval_ze(tm, a, m).add(&eval_ze(tm, b, m)),
        ZE::Sub(a, b) => eval_ze(tm, a, m).sub(&eval_ze(tm, b, m)),
        ZE::Mul(a, b) => eval_ze(tm, a, m).mul(&eval_ze(tm, b, m)),
        ZE::Sum(v) => { let ts: Vec<T> = v.iter().map(|x| x.0).collect(); let vals = tm.eval(&ts, m); let mut r = Z::S(0); for (x, &(_, s)) in vals.iter().zip(v.iter()) { r = r.add(&Z::from_u128(*x).mul(&Z::pow2(s))); } r }
    }
}
/// the values of z at the given rows of the value table over `sup`
pub fn ze_col(tm: &TM, z: &ZE, sup: &[T], idx: &[usize]) -> Vec<Z> {
    let col = |t: T| -> Vec<u128> { let c = tm.tab_col(t, sup); idx.iter().map(|&i| c[i]).collect() };
    match z {
        ZE::Bv(t) => col(*t).into_iter().map(Z::from_u128).collect(),
        ZE::Cst(c) => vec![c.clone(); idx.len()],
        ZE::Add(a, b) => { let (x, y) = (ze_col(tm, a, sup, idx), ze_col(tm, b, sup, idx)); x.iter().zip(y.iter()).map(|(p, q)| p.add(q)).collect() }
        ZE::Sub(a, b) => { let (x, y) = (ze_col(tm, a, sup, idx), ze_col(tm, b, sup, idx)); x.iter().zip(y.iter()).map(|(p, q)| p.sub(q)).collect() }
        ZE::Mul(a, b) => { let (x, y) = (ze_col(tm, a, sup, idx), ze_col(tm, b, sup, idx)); x.iter().zip(y.iter()).map(|(p, q)| p.mul(q)).collect() }
        ZE::Sum(v) => { let mut r = vec![Z::S(0); idx.len()]; for &(t, s) in v.iter() { let p = Z::pow2(s); for (x, c) in r.iter_mut().zip(col(t)) { if c != 0 { *x = x.add(&Z::from_u128(c).mul(&p)); } } } r }
    }
}
pub fn ze_terms(z: &ZE, out: &mut Vec<T>) { match z { ZE::Bv(t) => out.push(*t), ZE::Cst(_) => {} ZE::Add(a, b) | ZE::Sub(a, b) | ZE::Mul(a, b) => { ze_terms(a, out); ze_terms(b, out); } ZE::Sum(v) => out.extend(v.iter().map(|x| x.0)) } }
pub fn subst_ze(tm: &mut TM, z: &ZE, m: &FxMap<u32, u128>) -> ZE {
    match z {
        ZE::Bv(t) => ZE::Bv(tm.subst(&[*t], m)[0]),
        ZE::Cst(c) => ZE::Cst(c.clone()),
        ZE::Add(a, b) => ZE::Add(Rc::new(subst_ze(tm, a, m)), Rc::new(subst_ze(tm, b, m))),
        ZE::Sub(a, b) => ZE::Sub(Rc::new(subst_ze(tm, a, m)), Rc::new(subst_ze(tm, b, m))),
        ZE::Mul(a, b) => ZE::Mul(Rc::new(subst_ze(tm, a, m)), Rc::new(subst_ze(tm, b, m))),
        ZE::Sum(v) => { let ts: Vec<T> = v.iter().map(|x| x.0).collect(); let n = tm.subst(&ts, m); ZE::Sum(Rc::new(n.into_iter().zip(v.iter().map(|x| x.1)).collect())) }
    }
}
fn bounds(tm: &TM, z: &ZE) -> (Z, Z) {
    match z {
        ZE::Bv(t) => (Z::from_u128(tm.umin(*t)), Z::from_u128(tm.umax(*t))),
        ZE::Cst(c) => (c.clone(), c.clone()),
        ZE::Add(a, b) => { let (x, y) = (bounds(tm, a), bounds(tm, b)); (x.0.add(&y.0), x.1.add(&y.1)) }
        ZE::Sub(a, b) => { let (x, y) = (bounds(tm, a), bounds(tm, b)); (x.0.sub(&y.1), x.1.sub(&y.0)) }
        ZE::Mul(a, b) => { let (x, y) = (bounds(tm, a), bounds(tm, b)); let c = [x.0.mul(&y.0), x.0.mul(&y.1), x.1.mul(&y.0), x.1.mul(&y.1)]; let mut lo = c[0].clone(); let mut hi = c[0].clone(); for k in &c[1..] { if k.cmp(&lo) == Ordering::Less { lo = k.clone(); } if k.cmp(&hi) == Ordering::Greater { hi = k.clone(); } } (lo, hi) }
        ZE::Sum(v) => { let mut r = (Z::S(0), Z::S(0)); for &(t, s) in v.iter() { r.0 = r.0.add(&Z::from_u128(tm.umin(t)).mul(&Z::pow2(s))); r.1 = r.1.add(&Z::from_u128(tm.umax(t)).mul(&Z::pow2(s))); } r }
    }
}
fn width_needed(tm: &TM, z: &ZE) -> u32 {
    let (l, h) = bounds(tm, z);
    let w = l.bits().max(h.bits()) + 2;
    match z { ZE::Add(a, b) | ZE::Sub(a, b) | ZE::Mul(a, b) => w.max(width_needed(tm, a)).max(width_needed(tm, b)), _ => w }
}
fn bv_ze(tm: &TM, z: &ZE, w: u32) -> String {
    let ext = |t: T| -> String { let tw = tm.w(t); let r = if tw == 1 { format!("(ite {} #b1 #b0)", tref(tm, t)) } else { tref(tm, t) }; if w > tw { format!("((_ zero_extend {}) {})", w - tw, r) } else { r } };
    match z {
        ZE::Bv(t) => ext(*t),
        ZE::Cst(c) => c.to_bv(w),
        ZE::Add(a, b) => format!("(bvadd {} {})", bv_ze(tm, a, w), bv_ze(tm, b, w)),
        ZE::Sub(a, b) => format!("(bvsub {} {})", bv_ze(tm, a, w), bv_ze(tm, b, w)),
        ZE::Mul(a, b) => format!("(bvmul {} {})", bv_ze(tm, a, w), bv_ze(tm, b, w)),
        ZE::Sum(v) => {
            let mut s = Z::S(0).to_bv(w);
            for &(t, sh) in v.iter() { if tm.as_const(t) == Some(0) { continue; } s = format!("(bvadd {} (bvshl {} {}))", s, ext(t), Z::from_u128(sh as u128).to_bv(w)); }
            s
        }
    }
}
/// SMT body (BV) asserting the negation of goal and all of pc; returns (body, symbols)
pub fn bv_goal(tm: &mut TM, pc: &[T], g: &Goal) -> (String, Vec<(u32, u32)>) {
    let mut roots: Vec<T> = pc.to_vec();
    match g { Goal::B(t) => roots.push(*t), Goal::Z(_, a, b) => { ze_terms(a, &mut roots); ze_terms(b, &mut roots); } }
    let mut s = String::new(); let mut syms = vec![];
    emit(tm, &roots, &mut s, &mut syms);
    for &c in pc { s.push_str(&format!("(assert {})\n", tref(tm, c))); }
    match g {
        Goal::B(t) => s.push_str(&format!("(assert (not {}))\n", tref(tm, *t))),
        Goal::Z(c, a, b) => {
            let w = width_needed(tm, a).max(width_needed(tm, b)).max(129);
            let (x, y) = (bv_ze(tm, a, w), bv_ze(tm, b, w));
            let o = match c { ZCmp::Eq => "=", ZCmp::Lt => "bvslt", ZCmp::Le => "bvsle" };
            s.push_str(&format!("(assert (not ({} {} {})))\n", o, x, y));
        }
    }
    (s, syms)
}

/// Linear-integer encoding (sound abstraction: unsat => goal holds).
pub struct Lia<'a> { pub l: &'a mut Lifter, vars: FxMap<Mono, String>, decl: String, cons: String, todo: Vec<T>, seen: FxSet<T>, natoms: usize }
impl<'a> Lia<'a> {
    pub fn new(l: &'a mut Lifter) -> Lia<'a> { Lia { l, vars: FxMap::default(), decl: String::new(), cons: String::new(), todo: vec![], seen: FxSet::default(), natoms: 0 } }
    fn var(&mut self, tm: &mut TM, m: &Mono) -> String {
        if let Some(v) = self.vars.get(m) { return v.clone(); }
        let name = format!("m{}", self.vars.len());
        self.vars.insert(m.clone(), name.clone());
        self.decl.push_str(&format!("(declare-const {} Int)\n", name));
        let mut lo = Z::S(1); let mut hi = Z::S(1);
        for &a in m.iter() { lo = lo.mul(&Z::from_u128(tm.umin(a))); hi = hi.mul(&Z::from_u128(tm.umax(a))); }
        self.cons.push_str(&format!("(assert (<= {} {} {}))\n", lo.to_dec(), name, hi.to_dec()));
        if m.len() == 1 { if self.seen.insert(m[0]) { self.natoms += 1; self.todo.push(m[0]); } }
        else if let Some(k) = m.iter().position(|&a| tm.w(a) == 1) {
            let b = m[k]; let rest: Mono = m.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect::<Vec<_>>().into_boxed_slice();
            let bn = self.var(tm, &vec![b].into_boxed_slice()); let rn = self.var(tm, &rest);
            let mut rh = Z::S(1); for &a in rest.iter() { rh = rh.mul(&Z::from_u128(tm.umax(a))); }
            self.cons.push_str(&format!("(assert (ite (= {} 1) (= {} {}) (= {} 0)))\n", bn, name, rn, name));
            let _ = rh;
        }
        name
    }
    pub fn poly(&mut self, tm: &mut TM, p: &Poly) -> String {
        let mut s = String::from("(+ 0 0");
        for (m, c) in &p.0 { if m.is_empty() { s.push_str(&format!(" {}", c.to_dec())); } else { let v = self.var(tm, m); s.push_str(&format!(" (* {} {})", c.to_dec(), v)); } }
        s.push(')');
        s
    }
    fn term(&mut self, tm: &mut TM, t: T) -> String { let p = self.l.lift(tm, t); self.poly(tm, &p) }
    pub fn boolean(&mut self, tm: &mut TM, t: T) -> String {
        let n = tm.node(t);
        match n.op {
            Op::Const => if n.k == 1 { "true".into() } else { "false".into() },
            Op::Not => format!("(not {})", self.boolean(tm, n.a)),
            Op::And => format!("(and {} {})", self.boolean(tm, n.a), self.boolean(tm, n.b)),
            Op::Or => format!("(or {} {})", self.boolean(tm, n.a), self.boolean(tm, n.b)),
            Op::Xor => format!("(xor {} {})", self.boolean(tm, n.a), self.boolean(tm, n.b)),
            Op::Ite => format!("(ite {} {} {})", self.boolean(tm, n.a), self.boolean(tm, n.b), self.boolean(tm, n.c)),
            Op::Eq => format!("(= {} {})", self.term(tm, n.a), self.term(tm, n.b)),
            Op::Ult => format!("(< {} {})", self.term(tm, n.a), self.term(tm, n.b)),
            Op::Slt => { let w = tm.w(n.a); let a = self.sterm(tm, n.a, w); let b = self.sterm(tm, n.b, w); format!("(< {} {})", a, b) }
            _ => { let p = self.l.lift(tm, t); format!("(= {} 1)", self.poly(tm, &p)) }
        }
    }
    fn sterm(&mut self, tm: &mut TM, t: T, w: u32) -> String { let s = tm.extract(w - 1, w - 1, t); let sp = self.l.lift(tm, s); let tp = self.l.lift(tm, t); let mut r = (*tp).clone(); r.add_scaled(&sp, &Z::pow2(w).neg()); self.poly(tm, &r) }
    pub fn close(&mut self, tm: &mut TM, limit: usize) {
        while let Some(a) = self.todo.pop() {
            if self.natoms > limit { break; }
            let n = tm.node(a);
            match n.op {
                Op::Extract => { // floor(x/2^k) (top extract)
                    let lo = n.k as u32; if lo + n.w != tm.w(n.a) { continue; }
                    let p = self.l.lift(tm, n.a); let ap = Poly::atom(a);
                    let mut d = (*p).clone(); d.add_scaled(&ap, &Z::pow2(lo).neg());
                    if d.0.len() > 400 { continue; }
                    let s = self.poly(tm, &d);
                    self.cons.push_str(&format!("(assert (<= 0 {} {}))\n", s, Z::pow2(lo).sub(&Z::S(1)).to_dec()));
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let v = self.var(tm, &vec![a].into_boxed_slice());
                    let b = self.boolean(tm, a);
                    self.cons.push_str(&format!("(assert (= (= {} 1) {}))\n", v, b));
                }
                Op::UDiv | Op::URem => {
                    if n.op == Op::UDiv && tm.as_const(n.b).is_none() { // 0 <= a - b*q < b
                        let (ap, bp) = (self.l.lift(tm, n.a), self.l.lift(tm, n.b));
                        if ap.0.len() < 200 && bp.0.len() < 50 {
                            let mut d = (*ap).clone(); let m = bp.mul(&Poly::atom(a), tm); d.add_scaled(&m, &Z::S(-1));
                            let e = bp.sub(&d);
                            let (s, e) = (self.poly(tm, &d), self.poly(tm, &e));
                            self.cons.push_str(&format!("(assert (<= 0 {}))\n(assert (< 0 {}))\n", s, e));
                        }
                        continue;
                    }
                    if let Some(k) = tm.as_const(n.b) { if k > 0 {
                        let q = tm.udiv(n.a, n.b); let r = tm.urem(n.a, n.b);
                        let (xp, qp, rp) = (self.l.lift(tm, n.a), self.l.lift(tm, q), self.l.lift(tm, r));
                        let mut d = (*xp).clone(); d.add_scaled(&qp, &Z::from_u128(k).neg()); d.add_scaled(&rp, &Z::S(-1));
                        if d.is_zero() { continue; }
                        let s = self.poly(tm, &d);
                        self.cons.push_str(&format!("(assert (= 0 {}))\n", s));
                    } }
                }
                _ => {}
            }
        }
    }
    pub fn text(&self) -> String { format!("{}{}", self.decl, self.cons) }
    pub fn push_cons(&mut self, s: String) { self.cons.push_str(&s); }
}
