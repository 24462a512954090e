//! Hash-consed bit-vector terms (width 1..=128; width 1 doubles as Bool).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;
pub const NIL: T = 0;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil, Const, Sym, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Slt, Not,
    /// function of a few one-bit symbols, kept as a value table (k: index into tabs)
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u32, pub a: T, pub b: T, pub c: T, pub k: u128 }

pub struct TM {
    pub n: Vec<Node>,
    rng: Vec<(u128, u128)>,
    kz: Vec<u128>,
    map: FxMap<Node, T>,
    pub nsym: u32,
    pub sym_names: Vec<String>,
    pub tru: T,
    pub fls: T,
    stamp: Vec<u32>,
    cur_stamp: u32,
    pub tabs: Vec<std::rc::Rc<Tab>>,
    pub tab_bytes: usize,
    tabmap: FxMap<std::rc::Rc<Tab>, T>,
}
pub const TAB_BITS: usize = 12;

/// value table over sorted one-bit symbols, elements packed into the smallest byte size
#[derive(PartialEq, Eq, Hash)]
pub struct Tab { pub w: u32, pub sup: Box<[T]>, sz: u8, data: Box<[u8]> }
impl Tab {
    pub fn new(w: u32, sup: Vec<T>, v: &[u128]) -> Tab {
        let sz = if w <= 8 { 1 } else if w <= 16 { 2 } else if w <= 32 { 4 } else if w <= 64 { 8 } else { 16 };
        let mut d = Vec::with_capacity(v.len() * sz);
        for x in v { d.extend_from_slice(&x.to_le_bytes()[..sz]); }
        Tab { w, sup: sup.into_boxed_slice(), sz: sz as u8, data: d.into_boxed_slice() }
    }
    pub fn len(&self) -> usize { 1 << self.sup.len() }
    #[inline] pub fn get(&self, i: usize) -> u128 {
        let d = &self.data;
        match self.sz { 1 => d[i] as u128, 2 => u16::from_le_bytes(d[2 * i..2 * i + 2].try_into().unwrap()) as u128, 4 => u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()) as u128, 8 => u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()) as u128, _ => u128::from_le_bytes(d[16 * i..16 * i + 16].try_into().unwrap()) }
    }
    pub fn vals(&self) -> Vec<u128> { (0..self.len()).map(|i| self.get(i)).collect() }
}
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl TM {
    pub fn new() -> TM {
        let mut t = TM { n: vec![], rng: vec![], kz: vec![], map: FxMap::default(), nsym: 0, sym_names: vec![], tru: 0, fls: 0, stamp: vec![], cur_stamp: 0, tabs: vec![], tab_bytes: 0, tabmap: FxMap::default() };
        t.n.push(Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 });
        t.rng.push((0, 0));
        t.kz.push(0);
        t.fls = t.cst(1, 0);
        t.tru = t.cst(1, 1);
        t
    }
    #[inline] pub fn w(&self, t: T) -> u32 { self.n[t as usize].w }
    #[inline] pub fn op(&self, t: T) -> Op { self.n[t as usize].op }
    #[inline] pub fn node(&self, t: T) -> Node { self.n[t as usize] }
    #[inline] pub fn as_const(&self, t: T) -> Option<u128> { let n = &self.n[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    #[inline] pub fn range(&self, t: T) -> (u128, u128) { self.rng[t as usize] }
    #[inline] pub fn umax(&self, t: T) -> u128 { self.rng[t as usize].1 }
    #[inline] pub fn umin(&self, t: T) -> u128 { self.rng[t as usize].0 }
    #[inline] pub fn kz(&self, t: T) -> u128 { self.kz[t as usize] }
    pub fn intern(&mut self, nd: Node) -> T {
        if let Some(&t) = self.map.get(&nd) { return t; }
        if nd.a != 0 && nd.op != Op::Tab { if let Some(t) = self.tabulate(&nd) { self.map.insert(nd, t); return t; } }
        let id = self.n.len() as T;
        let (r, z) = self.analyse(&nd);
        self.n.push(nd);
        self.rng.push(r);
        self.kz.push(z);
        self.map.insert(nd, id);
        id
    }
    fn tab_sup(&self, t: T, out: &mut Vec<T>) -> bool {
        if t == 0 { return true; }
        let n = &self.n[t as usize];
        match n.op { Op::Const => true, Op::Sym if n.w == 1 => { out.push(t); true } Op::Tab => { out.extend_from_slice(&self.tabs[n.k as usize].sup); true } _ => false }
    }
    /// the operand's values over the support `sup`
    pub fn tab_support(&self, ts: &[T]) -> Option<Vec<T>> { let mut v = vec![]; for &t in ts { if !self.tab_sup(t, &mut v) { return None; } if v.len() > 4096 { v.sort(); v.dedup(); } } v.sort(); v.dedup(); if v.len() > TAB_BITS { None } else { Some(v) } }
    pub fn tab_col(&self, t: T, sup: &[T]) -> Vec<u128> {
        let n = &self.n[t as usize];
        let l = 1usize << sup.len();
        match n.op {
            Op::Const => vec![n.k; l], Op::Nil => vec![],
            Op::Sym => { let q = sup.iter().position(|&x| x == t).unwrap(); (0..l).map(|i| (i >> q & 1) as u128).collect() }
            _ => {
                let tb = &self.tabs[n.k as usize];
                if tb.sup.len() == sup.len() { return tb.vals(); }
                let pos: Vec<usize> = tb.sup.iter().map(|x| sup.iter().position(|y| y == x).unwrap()).collect();
                (0..l).map(|i| { let mut j = 0; for (q, &p) in pos.iter().enumerate() { j |= (i >> p & 1) << q; } tb.get(j) }).collect()
            }
        }
    }
    fn tabulate(&mut self, nd: &Node) -> Option<T> {
        let mut sup = vec![];
        if !(self.tab_sup(nd.a, &mut sup) && self.tab_sup(nd.b, &mut sup) && self.tab_sup(nd.c, &mut sup)) { return None; }
        sup.sort(); sup.dedup();
        if sup.is_empty() || sup.len() > TAB_BITS { return None; }
        let m = Model::default();
        let (ca, cb, cc) = (self.tab_col(nd.a, &sup), self.tab_col(nd.b, &sup), self.tab_col(nd.c, &sup));
        let vals: Vec<u128> = (0..1usize << sup.len()).map(|i| { self.eval_node(nd, &m, |x| if x == nd.a { ca[i] } else if x == nd.b { cb[i] } else { cc[i] }) }).collect();
        Some(self.from_table(nd.w, sup, vals))
    }
    pub fn tab_map2(&mut self, w: u32, a: T, b: T, f: impl Fn(u128, u128) -> u128) -> Option<T> {
        let sup = self.tab_support(&[a, b])?;
        let (ca, cb) = (self.tab_col(a, &sup), self.tab_col(b, &sup));
        let v = ca.iter().zip(&cb).map(|(&x, &y)| f(x, y) & mask(w)).collect();
        Some(self.from_table(w, sup, v))
    }
    pub fn from_table(&mut self, w: u32, mut sup: Vec<T>, mut vals: Vec<u128>) -> T {
        // drop irrelevant bits
        let mut q = 0;
        while q < sup.len() {
            if (0..vals.len()).all(|i| i >> q & 1 == 1 || vals[i] == vals[i ^ (1 << q)]) {
                let mut nv = Vec::with_capacity(vals.len() / 2);
                for i in 0..vals.len() { if i >> q & 1 == 0 { nv.push(vals[i]); } }
                vals = nv; sup.remove(q);
            } else { q += 1; }
        }
        if sup.is_empty() { return self.cst(w, vals[0]); }
        if w == 1 && sup.len() == 1 && vals == [0, 1] { return sup[0]; }
        let first = sup[0];
        let tb = std::rc::Rc::new(Tab::new(w, sup, &vals));
        if let Some(&t) = self.tabmap.get(&tb) { return t; }
        let k = self.tabs.len() as u128;
        self.tab_bytes += tb.data.len() + 150;
        self.tabs.push(tb.clone());
        let id = self.intern(Node { op: Op::Tab, w, a: first, b: 0, c: 0, k });
        self.tabmap.insert(tb, id);
        id
    }
    /// the value-preserving core of zero extensions and range-covering truncations
    fn strip(&self, mut t: T) -> T {
        loop {
            let n = &self.n[t as usize];
            match n.op { Op::ZExt => t = n.a, Op::Extract if n.k == 0 && self.rng[n.a as usize].1 <= mask(n.w) => t = n.a, _ => return t }
        }
    }
    fn analyse(&self, nd: &Node) -> ((u128, u128), u128) {
        let w = nd.w; let m = mask(w);
        let r = |t: T| self.rng[t as usize];
        let z = |t: T| self.kz[t as usize];
        let mut rg = (0u128, m);
        let mut kz = 0u128;
        match nd.op {
            Op::Const => { rg = (nd.k, nd.k); kz = !nd.k & m; }
            Op::Tab => { let v = self.tabs[nd.k as usize].vals(); rg = (*v.iter().min().unwrap(), *v.iter().max().unwrap()); kz = m & !v.iter().fold(0, |a, b| a | b); }
            Op::Add => {
                let (x, y) = (r(nd.a), r(nd.b));
                if let Some(hi) = x.1.checked_add(y.1) { if hi <= m { rg = (x.0 + y.0, hi); } }
                let tz = z(nd.a).trailing_ones().min(z(nd.b).trailing_ones()).min(w);
                kz = mask(tz);
            }
            Op::Sub => {
                let (x, y) = (r(nd.a), r(nd.b));
                if x.0 >= y.1 { rg = (x.0 - y.1, x.1 - y.0); }
            }
            Op::Mul => {
                let (x, y) = (r(nd.a), r(nd.b));
                if let Some(hi) = x.1.checked_mul(y.1) { if hi <= m { rg = (x.0 * y.0, hi); } }
                let tz = (z(nd.a).trailing_ones() + z(nd.b).trailing_ones()).min(w);
                kz = mask(tz);
            }
            // every division is built under the path condition `divisor != 0`
            Op::UDiv => {
                let (x, y) = (r(nd.a), r(nd.b));
                if y.1 > 0 { rg = (x.0 / y.1, x.1 / y.0.max(1)); }
                // (rem(_, d) . lo) / d fits in lo's width
                let na = self.n[nd.a as usize];
                if na.op == Op::Concat { let h = self.strip(na.a); let nh = self.n[h as usize]; if nh.op == Op::URem && self.strip(nh.b) == self.strip(nd.b) { rg.1 = rg.1.min(mask(self.w(na.b))); } }
            }
            Op::URem => { let (x, y) = (r(nd.a), r(nd.b)); rg.1 = x.1; if y.1 > 0 { rg.1 = rg.1.min(y.1 - 1); } }
            Op::And => { rg.1 = r(nd.a).1.min(r(nd.b).1); kz = z(nd.a) | z(nd.b); }
            Op::Or => { kz = z(nd.a) & z(nd.b); rg.0 = r(nd.a).0.max(r(nd.b).0); }
            Op::Xor => { kz = z(nd.a) & z(nd.b); }
            Op::Shl => { kz = mask(z(nd.a).trailing_ones().min(w)); }
            Op::LShr => { rg.1 = r(nd.a).1; }
            Op::Concat => {
                let lw = self.w(nd.b); let (x, y) = (r(nd.a), r(nd.b));
                rg = ((x.0 << lw) | y.0, (x.1 << lw) | y.1);
                kz = (z(nd.a) << lw) | z(nd.b);
            }
            Op::Extract => {
                let lo = (nd.k & 0xff) as u32;
                kz = (z(nd.a) >> lo) & m;
                let x = r(nd.a);
                let xw = self.w(nd.a);
                if lo + w == xw || (x.1 >> lo) <= m { rg = (x.0 >> lo, x.1 >> lo); }
            }
            Op::ZExt => { rg = r(nd.a); kz = z(nd.a) | (m & !mask(self.w(nd.a))); }
            Op::Ite => { let (x, y) = (r(nd.b), r(nd.c)); rg = (x.0.min(y.0), x.1.max(y.1)); kz = z(nd.b) & z(nd.c); }
            _ => {}
        }
        // sync
        let mx = m & !kz;
        if rg.1 > mx { rg.1 = mx; }
        if rg.0 > rg.1 { rg.0 = rg.1; }
        let hb = 128 - rg.1.leading_zeros();
        kz |= m & !mask(hb);
        (rg, kz)
    }
    fn mk(&mut self, op: Op, w: u32, a: T, b: T) -> T {
        let t = self.intern(Node { op, w, a, b, c: 0, k: 0 });
        let (lo, hi) = self.rng[t as usize];
        if lo == hi { return self.cst(w, lo); }
        t
    }
    pub fn cst(&mut self, w: u32, v: u128) -> T { assert!(w >= 1 && w <= 128, "const width {}", w); self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn b(&self, x: bool) -> T { if x { self.tru } else { self.fls } }
    pub fn sym(&mut self, w: u32, name: String) -> T {
        let id = self.nsym; self.nsym += 1; self.sym_names.push(name);
        self.intern(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a); debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            _ => {}
        }
        if w == 1 { return self.xor(a, b); }
        let na = self.node(a);
        if let Some(y) = cb {
            if na.op == Op::Add { if let Some(x) = self.as_const(na.b) { let k = self.cst(w, x.wrapping_add(y)); return self.add(na.a, k); } }
            if na.op == Op::Sub { if let Some(x) = self.as_const(na.a) { let k = self.cst(w, x.wrapping_add(y)); return self.sub(k, na.b); } }
            if na.op == Op::Ite { if let (Some(p), Some(q)) = (self.as_const(na.b), self.as_const(na.c)) { let p = self.cst(w, p.wrapping_add(y)); let q = self.cst(w, q.wrapping_add(y)); return self.ite(na.a, p, q); } }
            if (self.kz(a) | self.kz(b)) & mask(w) == mask(w) { return self.or(a, b); }
            return self.mk(Op::Add, w, a, b);
        }
        if na.op == Op::Sub && na.b == b { return na.a; }
        let nb = self.node(b);
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if (self.kz(a) | self.kz(b)) & mask(w) == mask(w) { return self.or(a, b); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b)
    }
    pub fn neg(&mut self, a: T) -> T { let z = self.cst(self.w(a), 0); self.sub(z, a) }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        if w == 1 { return self.xor(a, b); }
        if let Some(y) = self.as_const(b) { let k = self.cst(w, y.wrapping_neg()); return self.add(a, k); }
        let na = self.node(a);
        if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        let nb = self.node(b);
        if nb.op == Op::Sub && nb.a == a { return nb.b; }
        self.mk(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => { let k = self.cst(w, y.trailing_zeros() as u128); return self.shl(a, k); }
            _ => {}
        }
        if w == 1 { return self.and(a, b); }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.cst(w, x / y); } }
        if let Some(y) = self.as_const(b) { if y.is_power_of_two() { let k = self.cst(w, y.trailing_zeros() as u128); return self.lshr(a, k); } }
        if self.umax(a) < self.umin(b) { return self.cst(w, 0); }
        // narrow
        let hb = self.umax(a).max(self.umax(b)); let nw = (128 - hb.leading_zeros()).max(1);
        if nw < w { let x = self.extract(nw - 1, 0, a); let y = self.extract(nw - 1, 0, b); let d = self.udiv(x, y); return self.zext(d, w); }
        self.mk(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.cst(w, x % y); } }
        if let Some(y) = self.as_const(b) { if y.is_power_of_two() { let k = self.cst(w, y - 1); return self.and(a, k); } }
        if self.umax(a) < self.umin(b) { return a; }
        let hb = self.umax(a).max(self.umax(b)); let nw = (128 - hb.leading_zeros()).max(1);
        if nw < w { let x = self.extract(nw - 1, 0, a); let y = self.extract(nw - 1, 0, b); let d = self.urem(x, y); return self.zext(d, w); }
        self.mk(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.cst(w, sx(x, w).wrapping_div(sx(y, w)) as u128); } }
        if self.kz(a) >> (w - 1) & 1 == 1 && self.kz(b) >> (w - 1) & 1 == 1 { return self.udiv(a, b); }
        self.mk(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.cst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128); } }
        if self.kz(a) >> (w - 1) & 1 == 1 && self.kz(b) >> (w - 1) & 1 == 1 { return self.urem(a, b); }
        self.mk(Op::SRem, w, a, b)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x & y),
            (Some(_), None) => return self.and(b, a),
            _ => {}
        }
        if let Some(y) = cb {
            if y == 0 { return b; }
            if y == m { return a; }
            let y = y & !self.kz(a) & m;
            if y == 0 { return self.cst(w, 0); }
            if y | self.kz(a) == m { return a; }
            let lo = y.trailing_zeros(); let run = (y >> lo).trailing_ones();
            if y >> lo == mask(run) {
                let e = self.extract(lo + run - 1, lo, a);
                let e = if lo > 0 { let z = self.cst(lo, 0); self.concat(e, z) } else { e };
                return self.zext(e, w);
            }
            let na = self.node(a);
            if na.op == Op::And { if let Some(x) = self.as_const(na.b) { let k = self.cst(w, x & y); return self.and(na.a, k); } }
            let k = self.cst(w, y);
            return self.mk(Op::And, w, a, k);
        }
        if w == 1 {
            if self.not_of(a) == b || self.not_of(b) == a { return self.fls; }
        }
        // disjoint
        if (self.kz(a) | self.kz(b)) & m == m { return self.cst(w, 0); }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.and(na.a, nb.a); return self.zext(r, w); }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let h = self.and(na.a, nb.a); let l = self.and(na.b, nb.b); return self.concat(h, l); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b)
    }
    fn not_of(&self, a: T) -> T { let n = self.node(a); if n.op == Op::Not { n.a } else { NIL } }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return a; }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == m => return b,
            _ => {}
        }
        if w == 1 {
            if self.not_of(a) == b || self.not_of(b) == a { return self.tru; }
            if let Some(t) = self.or_carry(a, b) { return t; }
            if let Some(t) = self.or_carry(b, a) { return t; }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            return self.mk(Op::Or, w, a, b);
        }
        // split into concat if disjoint by halves
        for &(p, q) in &[(a, b), (b, a)] {
            let s = self.kz(p).trailing_ones().min(w);
            if s > 0 && s < w {
                let qhi = 128 - (m & !self.kz(q)).leading_zeros();
                if qhi <= s {
                    let h = self.extract(w - 1, s, p);
                    let l = self.extract(s - 1, 0, q);
                    return self.concat(h, l);
                }
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.or(na.a, nb.a); return self.zext(r, w); }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let h = self.or(na.a, nb.a); let l = self.or(na.b, nb.b); return self.concat(h, l); }
        if (na.op == Op::Concat || na.op == Op::ZExt) && (nb.op == Op::Concat || nb.op == Op::ZExt) && (self.kz(a) | self.kz(b)) & m == m {
            // disjoint interleaving: split at the lower part of one of them
            let s = if na.op == Op::Concat { self.w(na.b) } else { self.w(na.a) };
            let s2 = if nb.op == Op::Concat { self.w(nb.b) } else { self.w(nb.a) };
            let s = s.min(s2);
            let (ah, al, bh, bl) = (self.extract(w - 1, s, a), self.extract(s - 1, 0, a), self.extract(w - 1, s, b), self.extract(s - 1, 0, b));
            let h = self.or(ah, bh); let l = self.or(al, bl);
            return self.concat(h, l);
        }
        let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a); let m = mask(w);
        if a == b { return self.cst(w, 0); }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.cst(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(_)) if w == 1 => return self.not(a),
            _ => {}
        }
        if let Some(y) = cb {
            let na = self.node(a);
            if na.op == Op::Xor { if let Some(x) = self.as_const(na.b) { let k = self.cst(w, x ^ y); return self.xor(na.a, k); } }
            return self.mk(Op::Xor, w, a, b);
        }
        if (self.kz(a) | self.kz(b)) & m == m { return self.or(a, b); }
        let (na, nb) = (self.node(a), self.node(b));
        if w == 1 && na.op == Op::Not { let r = self.xor(na.a, b); return self.not(r); }
        if w == 1 && nb.op == Op::Not { let r = self.xor(a, nb.a); return self.not(r); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.xor(na.a, nb.a); return self.zext(r, w); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b)
    }
    pub fn show(&self, t: T, d: u32) -> String {
        let n = self.node(t);
        match n.op {
            Op::Tab => format!("tab{:?}{:?}", self.tabs[n.k as usize].sup, self.tabs[n.k as usize].vals().iter().take(32).collect::<Vec<_>>()), Op::Const => format!("{:#x}", n.k), Op::Sym => format!("s{}", n.k),
            _ if d == 0 => format!("t{}", t),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}{}({},{})", n.op, n.w, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    pub fn find_not(&self, t: T) -> Option<T> {
        let n = self.node(t);
        if n.op == Op::Not { return Some(n.a); }
        if n.op == Op::Tab { let tb = &self.tabs[n.k as usize]; let nv: Vec<u128> = tb.vals().iter().map(|x| x ^ 1).collect(); if tb.sup.len() == 1 && nv == [0, 1] { return Some(tb.sup[0]); } return self.tabmap.get(&Tab::new(1, tb.sup.to_vec(), &nv)).copied(); }
        self.map.get(&Node { op: Op::Not, w: 1, a: t, b: 0, c: 0, k: 0 }).copied()
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.as_const(a) { return self.cst(w, !x); }
        if w > 1 { let k = self.cst(w, mask(w)); return self.xor(a, k); }
        let na = self.node(a);
        if na.op == Op::Not { return na.a; }
        self.mk(Op::Not, 1, a, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            let k = k as u32;
            let e = self.extract(w - 1 - k, 0, a); let z = self.cst(k, 0);
            return self.concat(e, z);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.mk(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(w, 0); }
            let e = self.extract(w - 1, k as u32, a);
            return self.zext(e, w);
        }
        if self.as_const(a) == Some(0) { return a; }
        self.mk(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.kz(a) >> (w - 1) & 1 == 1 { return self.lshr(a, b); }
        if let Some(k) = self.as_const(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1) as u32;
            let e = self.extract(w - 1, k, a);
            return self.sext(e, w);
        }
        self.mk(Op::AShr, w, a, b)
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b)); let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(w, (x << wb) | y); }
        if ca == Some(0) { return self.zext(b, w); }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt { let r = self.concat(na.a, b); return self.zext(r, w); }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a {
            let (la, lb) = ((na.k & 0xff) as u32, (nb.k & 0xff) as u32);
            if la == lb + wb { return self.extract(la + wa - 1, lb, na.a); }
        }
        if nb.op == Op::Concat && na.op == Op::Extract {
            let nh = self.node(nb.a);
            if nh.op == Op::Extract && nh.a == na.a && (na.k & 0xff) as u32 == (nh.k & 0xff) as u32 + nh.w {
                let h = self.concat(a, nb.a);
                return self.concat(h, nb.b);
            }
        }
        // left-assoc constants at the bottom
        if na.op == Op::Concat { if let (Some(x), Some(y)) = (self.as_const(na.b), cb) { let wx = self.w(na.b); let k = self.cst(wx + wb, (x << wb) | y); return self.concat(na.a, k); } }
        // right-nest: concat(concat(p,q),r) -> concat(p, concat(q,r))
        if na.op == Op::Concat { let r = self.concat(na.b, b); return self.concat(na.a, r); }
        self.mk(Op::Concat, w, a, b)
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: T) -> T {
        let w = self.w(a); let nw = hi - lo + 1;
        debug_assert!(hi < w && hi >= lo);
        if nw == w { return a; }
        if let Some(x) = self.as_const(a) { return self.cst(nw, x >> lo); }
        if (self.kz(a) >> lo) & mask(nw) == mask(nw) { return self.cst(nw, 0); }
        let na = self.node(a);
        match na.op {
            Op::Extract => { let l = (na.k & 0xff) as u32; return self.extract(hi + l, lo + l, na.a); }
            Op::Concat => {
                let wb = self.w(na.b);
                if hi < wb { return self.extract(hi, lo, na.b); }
                if lo >= wb { return self.extract(hi - wb, lo - wb, na.a); }
                let h = self.extract(hi - wb, 0, na.a); let l = self.extract(wb - 1, lo, na.b);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(na.a);
                if hi < wi { return self.extract(hi, lo, na.a); }
                if lo >= wi { return self.cst(nw, 0); }
                let e = self.extract(wi - 1, lo, na.a);
                return self.zext(e, nw);
            }
            Op::SExt => {
                let wi = self.w(na.a);
                if hi < wi { return self.extract(hi, lo, na.a); }
                if lo >= wi { let s = self.extract(wi - 1, wi - 1, na.a); return self.sext(s, nw); }
                let e = self.extract(wi - 1, lo, na.a);
                return self.sext(e, nw);
            }
            Op::Ite => {
                let (bc, cc) = (self.as_const(na.b).is_some(), self.as_const(na.c).is_some());
                if bc || cc { let x = self.extract(hi, lo, na.b); let y = self.extract(hi, lo, na.c); return self.ite(na.a, x, y); }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(hi, lo, na.a); let y = self.extract(hi, lo, na.b);
                return match na.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            _ => {}
        }
        // value fits
        self.intern_x(Node { op: Op::Extract, w: nw, a, b: 0, c: 0, k: lo as u128 })
    }
    fn intern_x(&mut self, nd: Node) -> T {
        let t = self.intern(nd);
        let (lo, hi) = self.rng[t as usize];
        if lo == hi { return self.cst(nd.w, lo); }
        t
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        debug_assert!(w > wa);
        if let Some(x) = self.as_const(a) { return self.cst(w, x); }
        let na = self.node(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        self.mk(Op::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(x) = self.as_const(a) { return self.cst(w, sx(x, wa) as u128); }
        if self.kz(a) >> (wa - 1) & 1 == 1 { return self.zext(a, w); }
        let na = self.node(a);
        if na.op == Op::SExt { return self.sext(na.a, w); }
        if wa == 1 { let t = self.cst(w, !0); let f = self.cst(w, 0); return self.ite(a, t, f); }
        self.mk(Op::SExt, w, a, 0)
    }
    /// zext or truncate
    pub fn zresize(&mut self, a: T, w: u32) -> T { let wa = self.w(a); if wa >= w { self.extract(w - 1, 0, a) } else { self.zext(a, w) } }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tru { return a; }
        if c == self.fls { return b; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.node(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            if a == self.tru { return self.or(c, b); }
            if b == self.fls { return self.and(c, a); }
            if a == self.fls { let n = self.not(c); return self.and(n, b); }
            if b == self.tru { let n = self.not(c); return self.or(n, a); }
        } else {
            let (ca, cb) = (self.as_const(a), self.as_const(b));
            if cb == Some(0) && ca == Some(1) { return self.zext(c, w); }
            if cb == Some(1) && ca == Some(0) { let n = self.not(c); return self.zext(n, w); }
        }
        let na = self.node(a); let nb = self.node(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let r = self.ite(c, na.a, nb.a); return self.zext(r, w); }
        let t = self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 });
        t
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.tru; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq widths");
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(_), Some(_)) => return self.fls,
            (Some(_), None) => return self.eq(b, a),
            _ => {}
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 { return self.fls; }
        if w == 1 {
            if let Some(k) = cb { return if k == 1 { a } else { self.not(a) }; }
            let x = self.xor(a, b); return self.not(x);
        }
        let na = self.node(a);
        if let Some(k) = cb {
            if k & self.kz(a) != 0 { return self.fls; }
            match na.op {
                Op::ZExt => { let wi = self.w(na.a); if k > mask(wi) { return self.fls; } let c = self.cst(wi, k); return self.eq(na.a, c); }
                Op::SExt => { let wi = self.w(na.a); if sx(k, w) != sx(k & mask(wi), wi) { return self.fls; } let c = self.cst(wi, k); return self.eq(na.a, c); }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let h = self.cst(w - wb, k >> wb); let l = self.cst(wb, k);
                    let x = self.eq(na.a, h); let y = self.eq(na.b, l);
                    return self.and(x, y);
                }
                Op::Add => if let Some(j) = self.as_const(na.b) { let c = self.cst(w, k.wrapping_sub(j)); return self.eq(na.a, c); },
                Op::Xor => if let Some(j) = self.as_const(na.b) { let c = self.cst(w, k ^ j); return self.eq(na.a, c); } else if k == 0 { return self.eq(na.a, na.b); },
                Op::Sub => { if k == 0 { return self.eq(na.a, na.b); } if let Some(j) = self.as_const(na.a) { let c = self.cst(w, j.wrapping_sub(k)); return self.eq(na.b, c); } }
                Op::Or => if k == 0 { let z = self.cst(w, 0); let x = self.eq(na.a, z); let y = self.eq(na.b, z); return self.and(x, y); },
                Op::Ite => {
                    let (p, q) = (self.as_const(na.b), self.as_const(na.c));
                    if p.is_some() || q.is_some() {
                        let x = self.eq(na.b, b); let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b);
        }
        let nb = self.node(b);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (x, y) = (self.w(na.a), self.w(nb.a)); let m = x.max(y);
            let p = self.zext(na.a, m); let q = self.zext(nb.a, m);
            return self.eq(p, q);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.eq(na.a, nb.a); let y = self.eq(na.b, nb.b);
            return self.and(x, y);
        }
        if na.op == Op::Add && nb.op == Op::Add {
            if na.b == nb.b { return self.eq(na.a, nb.a); }
            if na.a == nb.a { return self.eq(na.b, nb.b); }
            if na.a == nb.b { return self.eq(na.b, nb.a); }
            if na.b == nb.a { return self.eq(na.a, nb.b); }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: T, b: T) -> T { let e = self.eq(a, b); self.not(e) }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls; }
        let w = self.w(a);
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 { return self.tru; }
        if ra.0 >= rb.1 { return self.fls; }
        if w == 1 { let n = self.not(a); return self.and(n, b); }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if cb == Some(1) { let z = self.cst(w, 0); return self.eq(a, z); }
        if ca == Some(0) { let e = self.eq(b, a); return self.not(e); }
        if let Some(y) = cb { if y == mask(w) { let e = self.eq(a, b); return self.not(e); } }
        if let Some(x) = ca { if x == mask(w) - 1 { let k = self.cst(w, mask(w)); return self.eq(b, k); } }
        let (na, nb) = (self.node(a), self.node(b));
        if let Some(y) = cb {
            if na.op == Op::ZExt { let wi = self.w(na.a); let k = self.cst(wi, y); return self.ult(na.a, k); } // range check guarantees y <= mask(wi)
            if y.is_power_of_two() { let s = y.trailing_zeros(); let e = self.extract(w - 1, s, a); let z = self.cst(w - s, 0); return self.eq(e, z); }
            if na.op == Op::Concat { let wb = self.w(na.b); if y & mask(wb) == 0 { let k = self.cst(w - wb, y >> wb); return self.ult(na.a, k); } }
            if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() { let x = self.ult(na.b, b); let z = self.ult(na.c, b); return self.ite(na.a, x, z); }
        }
        if let Some(x) = ca {
            if nb.op == Op::ZExt { let wi = self.w(nb.a); if x <= mask(wi) { let k = self.cst(wi, x); return self.ult(k, nb.a); } }
            if (x + 1).is_power_of_two() { let s = (x + 1).trailing_zeros(); let e = self.extract(w - 1, s, b); let z = self.cst(w - s, 0); let q = self.eq(e, z); return self.not(q); }
            if nb.op == Op::Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() { let p = self.ult(a, nb.b); let z = self.ult(a, nb.c); return self.ite(nb.a, p, z); }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let p = self.zext(na.a, m); let q = self.zext(nb.a, m);
            return self.ult(p, q);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && na.b == nb.b { return self.ult(na.a, nb.a); }
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a { return self.ult(na.b, nb.b); }
        // carry idiom: (x+y) < x
        if na.op == Op::Add && w < 128 && (na.a == b || na.b == b) && self.as_const(na.b).is_none() {
            return self.carry(na.a, na.b);
        }
        self.mk(Op::Ult, 1, a, b)
    }
    /// operands of a carry-out term
    pub fn carry_args(&mut self, t: T) -> Option<(T, T)> {
        let n = self.node(t);
        if n.op == Op::Extract && n.w == 1 {
            let wa = self.w(n.a); if n.k as u32 + 1 != wa { return None; }
            let s = self.node(n.a); if s.op != Op::Add { return None; }
            let (x, y) = (self.node(s.a), self.node(s.b));
            if x.op != Op::ZExt || y.op != Op::ZExt { return None; }
            let (p, q) = (self.zext(x.a, wa - 1), self.zext(y.a, wa - 1));
            return Some((p, q));
        }
        if n.op == Op::Not { let u = self.node(n.a); if u.op == Op::Ult { if let Some(k) = self.as_const(u.b) { let w = self.w(u.a); let c = self.cst(w, k.wrapping_neg()); return Some((u.a, c)); } } }
        None
    }
    /// carry (borrow) out of x + y + c (x - y - c), c <= 1
    pub fn carry3(&mut self, x: T, y: T, c: T) -> T { let w = self.w(x); let (a, b, d) = (self.zext(x, w + 1), self.zext(y, w + 1), self.zext(c, w + 1)); let s = self.add(a, b); let s = self.add(s, d); self.extract(w, w, s) }
    pub fn borrow3(&mut self, x: T, y: T, c: T) -> T { let w = self.w(x); let (a, b, d) = (self.zext(x, w + 1), self.zext(y, w + 1), self.zext(c, w + 1)); let s = self.add(b, d); self.ult(a, s) }
    /// p | q where the two can only be the carries of a two-step addition / subtraction
    fn or_carry(&mut self, p: T, q: T) -> Option<T> {
        let nq = self.node(q);
        if let Some((x, y)) = self.carry_args(p) {
            let w = self.w(x); if w >= 127 { return None; }
            if let Some((s, c)) = self.carry_args(q) {
                if self.w(s) != w { return None; }
                let e = self.add(x, y);
                if s == e && self.umax(c) <= 1 { return Some(self.carry3(x, y, c)); }
                if c == e && self.umax(s) <= 1 { return Some(self.carry3(x, y, s)); }
            }
            if nq.op == Op::Eq { if let Some(k) = self.as_const(nq.b) { if self.w(nq.a) == w {
                if let Some(j) = self.as_const(y) { // p: x >= -j ; q: x == -j-1
                    let b = j.wrapping_neg() & mask(w);
                    if nq.a == x && b > 0 && k == b - 1 { let kc = self.cst(w, k); return Some(self.ule(kc, x)); }
                } else if k == mask(w) { let e = self.add(x, y); if e == nq.a { let one = self.cst(w, 1); return Some(self.carry3(x, y, one)); } }
            } } }
            return None;
        }
        let np = self.node(p);
        if np.op == Op::Ult {
            let (x, y) = (np.a, np.b); let w = self.w(x); if w >= 127 { return None; }
            if nq.op == Op::Ult && self.w(nq.a) == w && self.umax(nq.b) <= 1 { let e = self.sub(x, y); if e == nq.a { return Some(self.borrow3(x, y, nq.b)); } }
            if nq.op == Op::Eq && ((nq.a == x && nq.b == y) || (nq.a == y && nq.b == x)) { return Some(self.ule(x, y)); }
        }
        None
    }
    /// carry out of a+b at width w
    pub fn carry(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(hi), true) = (self.umax(a).checked_add(self.umax(b)), true) { if hi <= mask(w) { return self.fls; } }
        if w >= 128 { let s = self.add(a, b); return self.mk(Op::Ult, 1, s, a); }
        if let Some(k) = self.as_const(b) { // a + k >= 2^w  <=> a >= 2^w - k
            if k == 0 { return self.fls; }
            let c = self.cst(w, k.wrapping_neg()); return self.ule(c, a);
        }
        if self.as_const(a).is_some() { return self.carry(b, a); }
        let x = self.zext(a, w + 1); let y = self.zext(b, w + 1);
        let s = self.add(x, y);
        self.extract(w, w, s)
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls; }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { let r = sx(x, w) < sx(y, w); return self.b(r); }
        if w == 1 { let n = self.not(b); return self.and(a, n); }
        if self.as_const(b) == Some(0) { return self.extract(w - 1, w - 1, a); }
        if self.as_const(a) == Some(mask(w)) { let s = self.extract(w - 1, w - 1, b); return self.not(s); }
        let s = 1u128 << (w - 1);
        let (za, zb) = (self.kz(a) & s != 0, self.kz(b) & s != 0);
        if za && zb { return self.ult(a, b); }
        let (oa, ob) = (self.umin(a) >= s, self.umin(b) >= s);
        if oa && ob { return self.ult(a, b); }
        if oa && zb { return self.tru; }
        if za && ob { return self.fls; }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if na.op == Op::Ite && self.as_const(b).is_some() && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() { let x = self.slt(na.b, b); let z = self.slt(na.c, b); return self.ite(na.a, x, z); }
        if nb.op == Op::Ite && self.as_const(a).is_some() && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() { let x = self.slt(a, nb.b); let z = self.slt(a, nb.c); return self.ite(nb.a, x, z); }
        self.mk(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }

    pub fn next_stamp(&mut self) -> u32 { self.cur_stamp += 1; if self.stamp.len() < self.n.len() { self.stamp.resize(self.n.len() * 2, 0); } self.cur_stamp }
    /// Cone of `roots` in topological order (children first).
    pub fn cone(&mut self, roots: &[T]) -> Vec<T> {
        let st = self.next_stamp();
        let mut out = vec![];
        let mut stack: Vec<(T, u8)> = vec![];
        for &r in roots {
            if self.stamp[r as usize] == st { continue; }
            stack.push((r, 0));
            while let Some(&mut (t, ref mut i)) = stack.last_mut() {
                let nd = self.n[t as usize];
                if nd.op == Op::Tab {
                    if self.stamp[t as usize] != st { self.stamp[t as usize] = st; for q in 0..self.tabs[nd.k as usize].sup.len() { let x = self.tabs[nd.k as usize].sup[q]; if self.stamp[x as usize] != st { self.stamp[x as usize] = st; out.push(x); } } out.push(t); }
                    stack.pop(); continue;
                }
                let ch = [nd.a, nd.b, nd.c];
                if *i == 0 && self.stamp[t as usize] == st { stack.pop(); continue; }
                if (*i as usize) < 3 {
                    let c = ch[*i as usize]; *i += 1;
                    if c != 0 && self.stamp[c as usize] != st { stack.push((c, 0)); }
                } else {
                    if self.stamp[t as usize] != st { self.stamp[t as usize] = st; out.push(t); }
                    stack.pop();
                }
            }
        }
        out
    }
    pub fn syms_of(&mut self, roots: &[T]) -> Vec<u32> {
        let c = self.cone(roots);
        let mut v: Vec<u32> = c.iter().filter(|&&t| self.op(t) == Op::Sym).map(|&t| self.node(t).k as u32).collect();
        v.sort();
        v
    }
    pub fn eval(&mut self, roots: &[T], model: &Model) -> Vec<u128> {
        let c = self.cone(roots);
        let mut val: FxMap<T, u128> = FxMap::default();
        for t in c {
            let nd = self.n[t as usize];
            let v = self.eval_node(&nd, model, |x| val[&x]);
            val.insert(t, v);
        }
        roots.iter().map(|r| val[r]).collect()
    }
    pub fn eval_node<F: Fn(T) -> u128>(&self, nd: &Node, model: &Model, g: F) -> u128 {
        let w = nd.w; let m = mask(w);
        match nd.op {
            Op::Nil => 0,
            Op::Const => nd.k,
            Op::Sym => model.get(nd.k as u32) & m,
            Op::Tab => { let tb = &self.tabs[nd.k as usize]; let mut i = 0; for (q, &x) in tb.sup.iter().enumerate() { i |= (model.get(self.n[x as usize].k as u32) as usize & 1) << q; } tb.get(i) }
            Op::Add => g(nd.a).wrapping_add(g(nd.b)) & m,
            Op::Sub => g(nd.a).wrapping_sub(g(nd.b)) & m,
            Op::Mul => g(nd.a).wrapping_mul(g(nd.b)) & m,
            Op::UDiv => { let y = g(nd.b); if y == 0 { m } else { g(nd.a) / y } }
            Op::URem => { let y = g(nd.b); if y == 0 { g(nd.a) } else { g(nd.a) % y } }
            Op::SDiv => { let (x, y) = (sx(g(nd.a), w), sx(g(nd.b), w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
            Op::SRem => { let (x, y) = (sx(g(nd.a), w), sx(g(nd.b), w)); if y == 0 { x as u128 & m } else { x.wrapping_rem(y) as u128 & m } }
            Op::And => g(nd.a) & g(nd.b),
            Op::Or => g(nd.a) | g(nd.b),
            Op::Xor => g(nd.a) ^ g(nd.b),
            Op::Shl => { let k = g(nd.b); if k >= w as u128 { 0 } else { (g(nd.a) << k) & m } }
            Op::LShr => { let k = g(nd.b); if k >= w as u128 { 0 } else { g(nd.a) >> k } }
            Op::AShr => { let k = g(nd.b).min(w as u128 - 1); (sx(g(nd.a), w) >> k) as u128 & m }
            Op::Concat => (g(nd.a) << self.w(nd.b)) | g(nd.b),
            Op::Extract => (g(nd.a) >> (nd.k as u32)) & m,
            Op::ZExt => g(nd.a),
            Op::SExt => sx(g(nd.a), self.w(nd.a)) as u128 & m,
            Op::Ite => if g(nd.a) != 0 { g(nd.b) } else { g(nd.c) },
            Op::Eq => (g(nd.a) == g(nd.b)) as u128,
            Op::Ult => (g(nd.a) < g(nd.b)) as u128,
            Op::Slt => { let wa = self.w(nd.a); (sx(g(nd.a), wa) < sx(g(nd.b), wa)) as u128 }
            Op::Not => (!g(nd.a)) & m,
        }
    }
    /// Substitute symbols by constants
    pub fn subst(&mut self, roots: &[T], m: &FxMap<u32, u128>) -> Vec<T> {
        let c = self.cone(roots);
        let mut mp: FxMap<T, T> = FxMap::default();
        mp.insert(0, 0);
        for t in c {
            let nd = self.n[t as usize];
            if nd.op == Op::Tab {
                let tb = self.tabs[nd.k as usize].clone(); let (mut sup, mut v) = (tb.sup.to_vec(), tb.vals());
                let mut q = 0;
                while q < sup.len() { match m.get(&(self.n[sup[q] as usize].k as u32)) { Some(&x) => { let mut nv = vec![]; for i in 0..v.len() { if (i >> q & 1) as u128 == x & 1 { nv.push(v[i]); } } v = nv; sup.remove(q); } None => q += 1 } }
                let r = self.from_table(nd.w, sup, v);
                mp.insert(t, r); continue;
            }
            let (a, b, cc) = (mp[&nd.a], mp[&nd.b], mp[&nd.c]);
            let r = match nd.op {
                Op::Sym => match m.get(&(nd.k as u32)) { Some(&v) => self.cst(nd.w, v), None => t },
                Op::Nil | Op::Const | Op::Tab => t,
                _ if a == nd.a && b == nd.b && cc == nd.c => t,
                Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b),
                Op::UDiv => self.udiv(a, b), Op::URem => self.urem(a, b), Op::SDiv => self.sdiv(a, b), Op::SRem => self.srem(a, b),
                Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b),
                Op::Shl => self.shl(a, b), Op::LShr => self.lshr(a, b), Op::AShr => self.ashr(a, b),
                Op::Concat => self.concat(a, b), Op::Extract => self.extract(nd.k as u32 + nd.w - 1, nd.k as u32, a),
                Op::ZExt => self.zext(a, nd.w), Op::SExt => self.sext(a, nd.w), Op::Ite => self.ite(a, b, cc),
                Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Slt => self.slt(a, b), Op::Not => self.not(a),
            };
            mp.insert(t, r);
        }
        roots.iter().map(|r| mp[r]).collect()
    }
}

/// Assignment to symbols; absent symbols are 0.
#[derive(Clone, Default, Debug)]
pub struct Model(pub std::rc::Rc<Vec<u128>>);
impl Model {
    pub fn get(&self, s: u32) -> u128 { self.0.get(s as usize).copied().unwrap_or(0) }
    pub fn set(&mut self, s: u32, v: u128) {
        let m = std::rc::Rc::make_mut(&mut self.0);
        if m.len() <= s as usize { m.resize(s as usize + 1, 0); }
        m[s as usize] = v;
    }
}
