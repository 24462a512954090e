//! Symbolic executor over the parsed IR.
use crate::ir::*;
use crate::lift::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u64), S(T), A(Rc<Vec<V>>), U }

#[derive(Clone)]
pub struct Frame { pub f: u32, pub bb: u32, pub ip: u32, pub regs: Vec<V>, pub allocas: Vec<u64>, pub dst: u32, pub normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub pcset: Rc<FxSet<T>>,
    pub pctab: T,
    pub alltab: bool,
    pub model: Option<Model>,
    pub trace: Vec<(u8, u64)>,
    pub prefix: Rc<Vec<(u8, u64)>>,
    pub rp: usize,
    pub syms: Vec<T>,
    pub steps: u64,
    pub may_panic: bool,
    pub outs: Vec<T>,
    pub zs: Rc<Vec<Rc<ZE>>>,
    pub reached: Vec<u32>,
    pub asserts: u32,
    pub lazy: bool,
    pub stack_depth: u32,
    pub hw: Rc<Vec<(T, T)>>,
    pub hw_pos: usize,
}

pub enum Stop { Done, Infeasible, Panic(String), MemErr(String), Unsupported(String), Limit(String), Deadline }
type X<A> = Result<A, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum I {
    Nop, Assume, Memcpy, Memset, UMax, UMin, SMax, SMin, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, SSubSat, SAddSat,
    Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr, Ucmp, Scmp, Abs, IsConst, TlAddr, Trap, Expect, AddCarry, SubBorrow, RdRand, MaskStore, Fabs, Fmath(u8), RedAdd, RedOr, RedAnd, RedUmax, RedUmin, VLaunder, AllocTag, MulU, FpToUiSat, FpToSiSat, CopySign, FpClass, MaskedStoreX86, PclMul,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi { Def, Panic, Malloc, Calloc, Realloc, Free, PosixMemalign, Bcmp, Memcmp, Strlen, Abort, Getenv, Errno, In(I), Unknown,
    VsSym, VsAssume, VsAssert, VsReach, VsParam, VsConc, VsMayPanic, VsOut, VsZWords, VsZU64, VsZAdd, VsZSub, VsZMul, VsZShl, VsZAssert, VsLazy, VsLive, VsDefined, VsIte, VsIteW, VsHwPush, VsHwUsed }

pub fn resolve_builtin(f: &Func) -> Bi {
    let n = f.name.as_str();
    match n {
        "malloc" => return Bi::Malloc, "calloc" => return Bi::Calloc, "realloc" => return Bi::Realloc, "free" => return Bi::Free, "posix_memalign" => return Bi::PosixMemalign,
        "bcmp" => return Bi::Bcmp, "memcmp" => return Bi::Memcmp, "strlen" => return Bi::Strlen, "abort" => return Bi::Abort, "getenv" => return Bi::Getenv, "__errno_location" => return Bi::Errno,
        "memcpy" | "memmove" => return Bi::In(I::Memcpy), "memset" => return Bi::In(I::Memset),
        "vs_sym" => return Bi::VsSym, "vs_assume" => return Bi::VsAssume, "vs_assert" => return Bi::VsAssert, "vs_reach" => return Bi::VsReach, "vs_param" => return Bi::VsParam,
        "vs_concretize" => return Bi::VsConc, "vs_may_panic" => return Bi::VsMayPanic, "vs_out" => return Bi::VsOut, "vs_z_words" => return Bi::VsZWords, "vs_z_u64" => return Bi::VsZU64,
        "vs_z_add" => return Bi::VsZAdd, "vs_z_sub" => return Bi::VsZSub, "vs_z_mul" => return Bi::VsZMul, "vs_z_shl" => return Bi::VsZShl, "vs_z_assert" => return Bi::VsZAssert, "vs_lazy" => return Bi::VsLazy, "vs_live" => return Bi::VsLive, "vs_defined" => return Bi::VsDefined, "vs_ite" => return Bi::VsIte, "vs_hw_push" => return Bi::VsHwPush, "vs_hw_used" => return Bi::VsHwUsed,
        _ => {}
    }
    if let Some(s) = n.strip_prefix("llvm.") {
        let p = |x: &str| s.starts_with(x);
        let i = if p("lifetime") || p("experimental.noalias") || p("dbg") || p("donothing") || p("prefetch") || p("x86.sse2.pause") || p("invariant") || p("stackrestore") || p("fake.use") { I::Nop }
        else if p("assume") { I::Assume } else if p("memcpy") || p("memmove") { I::Memcpy } else if p("memset") { I::Memset }
        else if p("umax") { I::UMax } else if p("umin") { I::UMin } else if p("smax") { I::SMax } else if p("smin") { I::SMin }
        else if p("uadd.with") { I::UAddO } else if p("usub.with") { I::USubO } else if p("umul.with") { I::UMulO } else if p("sadd.with") { I::SAddO } else if p("ssub.with") { I::SSubO } else if p("smul.with") { I::SMulO }
        else if p("usub.sat") { I::USubSat } else if p("uadd.sat") { I::UAddSat } else if p("ssub.sat") { I::SSubSat } else if p("sadd.sat") { I::SAddSat }
        else if p("ctlz") { I::Ctlz } else if p("cttz") { I::Cttz } else if p("ctpop") { I::Ctpop } else if p("bswap") { I::Bswap } else if p("bitreverse") { I::BitRev }
        else if p("fshl") { I::Fshl } else if p("fshr") { I::Fshr } else if p("ucmp") { I::Ucmp } else if p("scmp") { I::Scmp } else if p("abs.") { I::Abs }
        else if p("is.constant") { I::IsConst } else if p("threadlocal.address") { I::TlAddr } else if p("trap") || p("ubsantrap") { I::Trap } else if p("expect") { I::Expect }
        else if p("x86.addcarry") { I::AddCarry } else if p("x86.subborrow") { I::SubBorrow } else if p("x86.rdrand") || p("x86.rdseed") { I::RdRand }
        else if p("masked.store") { I::MaskStore } else if p("x86.avx2.maskstore") { I::MaskedStoreX86 } else if p("fabs") { I::Fabs } else if p("copysign") { I::CopySign } else if p("is.fpclass") { I::FpClass }
        else if p("floor") { I::Fmath(0) } else if p("ceil") { I::Fmath(1) } else if p("trunc") { I::Fmath(2) } else if p("sqrt") { I::Fmath(3) } else if p("log2.") { I::Fmath(4) } else if p("log10.") { I::Fmath(5) } else if p("log.") { I::Fmath(6) } else if p("round.") { I::Fmath(7) }
        else if p("vector.reduce.add") { I::RedAdd } else if p("vector.reduce.or") { I::RedOr } else if p("vector.reduce.and") { I::RedAnd } else if p("vector.reduce.umax") { I::RedUmax } else if p("vector.reduce.umin") { I::RedUmin }
        else if p("launder") || p("strip") { I::VLaunder } else if p("fptoui.sat") { I::FpToUiSat } else if p("fptosi.sat") { I::FpToSiSat }
        else { return Bi::Unknown };
        return Bi::In(i);
    }
    let panicky = n.contains("panicking") && (n.ends_with("panic_fmt") || n.contains("panic_nounwind_fmt") || n.contains("11begin_panic") || n.contains("rust_panic"));
    if panicky || n.contains("rust_begin_unwind") || n.contains("___rust_start_panic") || n.contains("18handle_alloc_error") || n.contains("rust_oom") { return Bi::Panic; }
    if f.declared_only { return Bi::Unknown; }
    Bi::Def
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: u32, pub msg: String, pub values: Vec<(u32, u64)>, pub trail: Vec<String> }

#[derive(Clone, Default)]
pub struct JobStats {
    pub paths: u64, pub completed: u64, pub infeasible: u64, pub panics_ok: u64, pub forks: u64, pub insts: u64, pub branches: u64,
    pub asserts_proved: u64, pub asserts_trivial: u64, pub asserts_poly: u64, pub asserts_tab: u64, pub asserts_bv: u64, pub asserts_lia: u64, pub asserts_unknown: u64, pub unknown_branches: u64,
    pub reach: std::collections::BTreeMap<u32, u64>, pub incomplete: Vec<String>, pub samples: Vec<(Vec<(u32, u64)>, Vec<u64>, bool)>,
    pub terms: u64, pub max_pc: u64,
}

pub struct Cfg { pub branch_ms: u64, pub assert_ms: u64, pub max_steps: u64, pub max_paths: u64, pub deadline: Instant, pub params: Vec<u64>, pub samples: usize, pub verbose: bool, pub stop: Arc<std::sync::atomic::AtomicBool> }

pub struct Exec {
    pub m: Arc<Module>, pub bi: Arc<Vec<Bi>>, pub tm: TM, pub sol: Solver, pub lf: Lifter, pub cfg: Cfg, pub st: JobStats,
    pub symtab: FxMap<(u32, u32), T>, pub symcache: FxMap<T, Rc<Vec<u32>>>, pub work: std::collections::VecDeque<State>, pub violations: Vec<Violation>, pub suspects: Vec<Vec<(u32, u64)>>, pub fns: FxSet<u32>, pub nuninit: u32,
    pub nlcache: FxMap<T, bool>, pub failed_asserts: FxSet<u32>, pub rng: u64, pub seed_vals: Vec<u64>,
}

enum Dec { Proved, Cex(Model), Unknown }

impl JobStats {
    pub fn merge(&mut self, o: &JobStats) {
        self.paths += o.paths; self.completed += o.completed; self.infeasible += o.infeasible; self.panics_ok += o.panics_ok; self.forks += o.forks; self.insts += o.insts; self.branches += o.branches;
        self.asserts_proved += o.asserts_proved; self.asserts_trivial += o.asserts_trivial; self.asserts_poly += o.asserts_poly; self.asserts_tab += o.asserts_tab; self.asserts_bv += o.asserts_bv; self.asserts_lia += o.asserts_lia; self.asserts_unknown += o.asserts_unknown; self.unknown_branches += o.unknown_branches;
        for (k, v) in &o.reach { *self.reach.entry(*k).or_insert(0) += v; }
        self.incomplete.extend(o.incomplete.iter().cloned()); self.samples.extend(o.samples.iter().cloned()); self.samples.truncate(8);
        self.terms += o.terms; self.max_pc = self.max_pc.max(o.max_pc);
    }
}
fn fbin(op: Bin, f64_: bool, x: u64, y: u64) -> u64 {
    if f64_ { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() }
    else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() as u64 }
}
fn fcast(op: CastOp, fw: u32, tw: u32, x: u64) -> u64 {
    let ff = || if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    match op {
        CastOp::FpToUi => ff() as u64 & mask(tw) as u64, CastOp::FpToSi => (ff() as i64) as u64 & mask(tw) as u64,
        CastOp::UiToFp => if tw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
        CastOp::SiToFp => { let s = sx(x as u128, fw) as i64; if tw == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
        CastOp::FpExt => (f32::from_bits(x as u32) as f64).to_bits(), _ => (f64::from_bits(x) as f32).to_bits() as u64,
    }
}
impl Exec {
    pub fn new(m: Arc<Module>, bi: Arc<Vec<Bi>>, cfg: Cfg) -> Exec {
        Exec { m, bi, tm: TM::new(), sol: Solver::new(), lf: Lifter::default(), cfg, st: JobStats::default(), symtab: FxMap::default(), symcache: FxMap::default(), work: Default::default(), violations: vec![], suspects: vec![], fns: FxSet::default(), nuninit: 0, nlcache: FxMap::default(), failed_asserts: FxSet::default(), rng: 0x1234_5678_9abc_def1, seed_vals: vec![] }
    }
    pub fn init_state(&mut self, entry: u32) -> State {
        let f = &self.m.funcs[entry as usize];
        State { frames: vec![Frame { f: entry, bb: 0, ip: 0, regs: vec![V::U; f.nregs as usize], allocas: vec![], dst: NODST, normal: None }], mem: Mem::new(), pc: vec![], pcset: Rc::new(FxSet::default()), pctab: self.tm.tru, alltab: true, model: Some(Model::default()), trace: vec![], prefix: Rc::new(vec![]), rp: 0, syms: vec![], steps: 0, may_panic: false, outs: vec![], zs: Rc::new(vec![]), reached: vec![], asserts: 0, lazy: false, stack_depth: 1, hw: Rc::new(vec![]), hw_pos: 0 }
    }
    // ---------- values ----------
    #[inline] fn vt(&mut self, v: &V, w: u32) -> X<T> {
        match v {
            V::C(x) => Ok(self.tm.cst(w, *x as u128)),
            V::S(t) => { if self.tm.w(*t) != w { return Err(Stop::Unsupported(format!("width mismatch {} vs {}", self.tm.w(*t), w))); } Ok(*t) }
            V::U => { if std::env::var_os("VP_DBGUNINIT").is_some() { return Err(Stop::Unsupported("uninit".into())); } self.nuninit += 1; let n = format!("u{}", self.nuninit); Ok(self.tm.sym(w, n)) }
            V::A(_) => Err(Stop::Unsupported("aggregate as scalar".into())),
        }
    }
    #[inline] fn tv(&self, t: T) -> V { let n = &self.tm.n[t as usize]; if n.op == Op::Const && n.w <= 64 { V::C(n.k as u64) } else { V::S(t) } }
    fn kv(&mut self, k: &K) -> V { match k { K::I(x) => V::C(*x), K::W(w, x) => V::S(self.tm.cst(*w, *x)), K::Undef => V::U, K::Agg(v) => V::A(Rc::new(v.iter().map(|e| self.kv(e)).collect())), K::Zero => V::C(0) } }
    #[inline] fn op(&mut self, st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(K::I(x)) => V::C(*x), Opd::K(k) => self.kv(k) } }
    pub fn get_sym(&mut self, st: &mut State, w: u32) -> T {
        let i = st.syms.len() as u32;
        let t = match self.symtab.get(&(i, w)) { Some(&t) => t, None => { let t = self.tm.sym(w, format!("x{}", i)); self.symtab.insert((i, w), t); t } };
        st.syms.push(t);
        if st.rp < st.prefix.len() { if let (Some(&v), Some(m)) = (self.seed_vals.get(i as usize), st.model.as_mut()) { let id = self.tm.node(t).k as u32; m.set(id, v as u128); } }
        t
    }
    pub fn vals_of(&mut self, st: &State) -> Option<Vec<u64>> { if self.nuninit > 0 { return None; } let m = st.model.clone()?; Some(self.values(st, &m).iter().map(|x| x.1).collect()) }
    // ---------- path condition ----------
    fn syms(&mut self, t: T) -> Rc<Vec<u32>> { if let Some(s) = self.symcache.get(&t) { return s.clone(); } let s = Rc::new(self.tm.syms_of(&[t])); self.symcache.insert(t, s.clone()); s }
    fn slice(&mut self, pc: &[T], goal: &[T]) -> Vec<T> {
        let mut have: FxSet<u32> = FxSet::default();
        for &g in goal { for &s in self.syms(g).iter() { have.insert(s); } }
        let ps: Vec<Rc<Vec<u32>>> = pc.iter().map(|&c| self.syms(c)).collect();
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() { if !inc[i] && ps[i].iter().any(|s| have.contains(s)) { inc[i] = true; ch = true; for &s in ps[i].iter() { have.insert(s); } } }
            if !ch { break; }
        }
        let mut v: Vec<T> = (0..pc.len()).filter(|&i| inc[i]).map(|i| pc[i]).collect();
        v.extend_from_slice(goal);
        v
    }
    fn push_pc(&mut self, st: &mut State, c: T) {
        if c == self.tm.tru || st.pcset.contains(&c) { return; }
        let n = self.tm.node(c);
        match n.op {
            Op::And => { self.push_pc(st, n.a); self.push_pc(st, n.b); return; }
            Op::Not => { let k = self.tm.node(n.a); if k.op == Op::Or { let (x, y) = (self.tm.not(k.a), self.tm.not(k.b)); self.push_pc(st, x); self.push_pc(st, y); return; } }
            _ => {}
        }
        st.pc.push(c);
        match self.tab_and(st, c) { Some(t) => st.pctab = t, None => st.alltab = false }
        Rc::make_mut(&mut st.pcset).insert(c);
        if st.pc.len() as u64 > self.st.max_pc { self.st.max_pc = st.pc.len() as u64; }
    }
    fn is_tab(&self, t: T) -> bool { let n = self.tm.node(t); matches!(n.op, Op::Tab | Op::Const) || (n.op == Op::Sym && n.w == 1) }
    /// the table of (path facts over few one-bit symbols) and c, when it fits
    fn tab_and(&mut self, st: &State, c: T) -> Option<T> {
        if !self.is_tab(c) { return None; }
        let r = self.tm.and(st.pctab, c);
        if self.is_tab(r) { Some(r) } else { None }
    }
    /// an assignment satisfying a one-bit table
    fn tab_model(&self, st: &State, t: T) -> Model {
        let mut m = st.model.clone().unwrap_or_default();
        let n = self.tm.node(t);
        if n.op == Op::Sym { m.set(n.k as u32, 1); }
        else if n.op == Op::Tab { let tb = &self.tm.tabs[n.k as usize]; let i = (0..tb.len()).position(|i| tb.get(i) == 1).unwrap(); for (q, &x) in tb.sup.iter().enumerate() { m.set(self.tm.node(x).k as u32, (i >> q & 1) as u128); } }
        m
    }
    fn known(&mut self, st: &State, c: T, d: u32) -> Option<bool> {
        if c == self.tm.tru { return Some(true); }
        if c == self.tm.fls { return Some(false); }
        if st.pcset.contains(&c) { return Some(true); }
        let n = self.tm.node(c);
        if n.op == Op::Not { return self.known(st, n.a, d).map(|x| !x); }
        let nc = self.tm.not(c);
        if st.pcset.contains(&nc) { return Some(false); }
        if d == 0 && self.is_tab(c) {
            if self.tab_and(st, c) == Some(self.tm.fls) { return Some(false); }
            if self.tab_and(st, nc) == Some(self.tm.fls) { return Some(true); }
        }
        if d > 3 { return None; }
        match n.op {
            Op::And => { let a = self.known(st, n.a, d + 1); if a == Some(false) { return a; } let b = self.known(st, n.b, d + 1); if b == Some(false) { return b; } if a.is_some() && b.is_some() { Some(true) } else { None } }
            Op::Or => { let a = self.known(st, n.a, d + 1); if a == Some(true) { return a; } let b = self.known(st, n.b, d + 1); if b == Some(true) { return b; } if a.is_some() && b.is_some() { Some(false) } else { None } }
            _ => None,
        }
    }
    /// Some(model) feasible, None infeasible, Err unknown
    fn feasible(&mut self, st: &State, c: T) -> Result<Option<Model>, ()> {
        if Instant::now() > self.cfg.deadline { return Err(()); }
        if let Some(t) = self.tab_and(st, c) {
            if t == self.tm.fls { return Ok(None); }
            if st.alltab { return Ok(Some(self.tab_model(st, t))); }
        }
        if std::env::var_os("VP_DBGTAB").is_some() { let mut w = vec![c]; let mut seen = std::collections::HashSet::new(); while let Some(t) = w.pop() { if t == 0 || self.is_tab(t) || !seen.insert(t) { continue; } let n = self.tm.node(t); if [n.a, n.b, n.c].iter().all(|&x| x == 0 || self.is_tab(x)) { eprintln!("NONTAB {:?} w{} <- w{} w{} sym {}", n.op, n.w, self.tm.w(n.a), self.tm.w(n.b), self.tm.show(t, 3)); } w.push(n.a); w.push(n.b); w.push(n.c); } }
        let q = if st.model.is_some() { self.slice(&st.pc, &[c]) } else { let mut v = st.pc.clone(); v.push(c); v };
        if q.iter().any(|&t| self.nonlin(t)) {
            if let Some(m) = self.probe_sat(st, &q) { return Ok(Some(m)); }
            if self.lia_unsat(&q, None, self.cfg.branch_ms.min(1500)) { return Ok(None); }
        }
        match self.sol.check(&mut self.tm, &q, self.cfg.branch_ms) {
            Res::Sat(m) => { let mut n = st.model.clone().unwrap_or_default(); for (s, v) in m { n.set(s, v); } Ok(Some(n)) }
            Res::Unsat => Ok(None),
            Res::Unknown => { self.st.unknown_branches += 1; Err(()) }
        }
    }
    fn branch(&mut self, st: &mut State, cond: T) -> X<bool> { self.branch_v(st, cond, 0) }
    fn branch_v(&mut self, st: &mut State, cond: T, tag: u64) -> X<bool> {
        if let Some(b) = self.known(st, cond, 0) { return Ok(b); }
        self.st.branches += 1;
        let nc = self.tm.not(cond);
        if st.rp < st.prefix.len() {
            let (o, _) = st.prefix[st.rp]; st.rp += 1;
            st.trace.push((o, tag));
            let c = if o == 1 { cond } else { nc };
            self.push_pc(st, c);
            return Ok(o == 1);
        }
        let take = |e: &mut Exec, st: &mut State, b: bool, m: Option<Model>| { st.trace.push((b as u8, tag)); let c = if b { cond } else { nc }; e.push_pc(st, c); st.model = m; };
        if st.lazy {
            let mut o = st.clone();
            take(self, &mut o, false, None);
            self.fork(o);
            take(self, st, true, None);
            return Ok(true);
        }
        let (mt, mf);
        if let Some(m) = st.model.clone() {
            let v = self.tm.eval(&[cond], &m)[0] == 1;
            let other = self.feasible(st, if v { nc } else { cond });
            if v { mt = Ok(Some(m)); mf = other; } else { mf = Ok(Some(m)); mt = other; }
        } else { mt = self.feasible(st, cond); mf = self.feasible(st, nc); }
        let tf = !matches!(mt, Ok(None)); let ff = !matches!(mf, Ok(None));
        if Instant::now() > self.cfg.deadline { return Err(Stop::Deadline); }
        match (tf, ff) {
            (true, true) => {
                let mut o = st.clone();
                take(self, &mut o, false, mf.unwrap_or(None));
                self.fork(o);
                take(self, st, true, mt.unwrap_or(None));
                Ok(true)
            }
            (true, false) => { take(self, st, true, mt.unwrap_or(None)); Ok(true) }
            (false, true) => { take(self, st, false, mf.unwrap_or(None)); Ok(false) }
            (false, false) => Err(Stop::Infeasible),
        }
    }
    fn fork(&mut self, o: State) { self.st.forks += 1; self.work.push_back(o); }
    fn assume(&mut self, st: &mut State, c: T) -> X<()> {
        match self.known(st, c, 0) { Some(true) => return Ok(()), Some(false) => return Err(Stop::Infeasible), None => {} }
        if st.rp < st.prefix.len() { self.push_pc(st, c); return Ok(()); } // model already satisfies
        let ok = match &st.model { Some(m) => { let m = m.clone(); self.tm.eval(&[c], &m)[0] == 1 } None => false };
        if !ok {
            if st.lazy { st.model = None; }
            else { match self.feasible(st, c) { Ok(Some(m)) => st.model = Some(m), Ok(None) => return Err(Stop::Infeasible), Err(()) => st.model = None } }
        }
        self.push_pc(st, c);
        Ok(())
    }
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> X<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::U => Ok(0),
            V::S(t) => {
                let t = *t;
                if let Some(k) = self.tm.as_const(t) { return Ok(k as u64); }
                loop {
                    let val;
                    if st.rp < st.prefix.len() { let e = st.prefix[st.rp]; val = e.1; if e.0 == 3 { st.rp += 1; st.trace.push(e); return Ok(val); } }
                    else {
                        if st.model.is_none() { let mut q = st.pc.clone(); q.push(self.tm.tru); match self.sol.check(&mut self.tm, &q, self.cfg.assert_ms) { Res::Sat(m) => { let mut n = Model::default(); for (s, v) in m { n.set(s, v); } st.model = Some(n); } Res::Unsat => return Err(Stop::Infeasible), Res::Unknown => return Err(Stop::Unsupported("concretise: no model".into())) } }
                        let m = st.model.clone().unwrap();
                        val = self.tm.eval(&[t], &m)[0] as u64;
                    }
                    let k = self.tm.cst(w, val as u128);
                    let e = self.tm.eq(t, k);
                    // an implied value needs no branch, but is recorded for replays
                    match self.known(st, e, 0) {
                        Some(true) => { if st.rp < st.prefix.len() { return Err(Stop::Unsupported("replay diverged".into())); } st.trace.push((3, val)); return Ok(val); }
                        Some(false) => return Err(Stop::Unsupported("concretise: inconsistent model".into())),
                        None => {}
                    }
                    let lz = st.lazy; st.lazy = false;
                    let r = self.branch_v(st, e, val);
                    st.lazy = lz;
                    if r? { return Ok(val); }
                }
            }
            V::A(_) => Err(Stop::Unsupported("concretise aggregate".into())),
        }
    }
    // ---------- goals ----------
    fn model_from(&self, st: &State, m: Vec<(u32, u128)>) -> Model { let mut n = st.model.clone().unwrap_or_default(); for (s, v) in m { n.set(s, v); } n }
    fn goal_holds(&mut self, g: &Goal, m: &Model) -> bool {
        match g {
            Goal::B(t) => self.tm.eval(&[*t], m)[0] == 1,
            Goal::Z(c, a, b) => { let d = eval_ze(&mut self.tm, a, m).cmp(&eval_ze(&mut self.tm, b, m)); match c { ZCmp::Eq => d.is_eq(), ZCmp::Lt => d.is_lt(), ZCmp::Le => d.is_le() } }
        }
    }
    fn pc_holds(&mut self, pc: &[T], m: &Model) -> bool { self.tm.eval(pc, m).iter().all(|&x| x == 1) }
    fn goal_terms(&self, g: &Goal) -> Vec<T> { let mut v = vec![]; match g { Goal::B(t) => v.push(*t), Goal::Z(_, a, b) => { ze_terms(a, &mut v); ze_terms(b, &mut v); } } v }
    /// normal form of a polynomial under the path condition's facts
    fn reduce_pc(&mut self, st: &State, d: &Poly) -> Poly {
        // atoms with a known value
        let mut known: FxMap<T, Z> = FxMap::default();
        let mut facts: Vec<Poly> = vec![];
        for &c in &st.pc {
            let n = self.tm.node(c);
            if n.op == Op::Not { known.insert(n.a, Z::S(0)); } else { known.insert(c, Z::S(1)); }
            let (a, b) = match n.op { Op::Eq => (n.a, n.b), Op::Ult if self.tm.as_const(n.b) == Some(1) => { let z = self.tm.cst(self.tm.w(n.a), 0); (n.a, z) } _ => continue };
            if self.tm.w(a) == 1 { continue; }
            let (x, y) = (self.lf.lift(&mut self.tm, a), self.lf.lift(&mut self.tm, b));
            let p = x.sub(&y);
            if p.0.len() > 2000 { continue; }
            facts.push(p);
        }
        // symbols fixed by the path table
        let pn = self.tm.node(st.pctab);
        if pn.op == Op::Sym { known.insert(st.pctab, Z::S(1)); }
        else if pn.op == Op::Tab {
            let tb = &self.tm.tabs[pn.k as usize]; let (s, v) = (&tb.sup, tb.vals());
            for (q, &x) in s.iter().enumerate() { let mut seen = [false; 2]; for (i, &b) in v.iter().enumerate() { if b == 1 { seen[i >> q & 1] = true; } } if !seen[0] { known.insert(x, Z::S(1)); } else if !seen[1] { known.insert(x, Z::S(0)); } }
        }
        for _ in 0..4 {
            let mut more = false;
            for f in facts.iter_mut() {
                *f = f.subst_atoms(&mut |t| known.get(&t).cloned());
                if f.0.is_empty() || f.0.len() > 8 { continue; }
                // sum of same-signed non-negative monomials plus nothing = 0: each atom-only monomial is 0
                let cst = f.0.get(&Vec::new().into_boxed_slice() as &Mono).cloned();
                if cst.is_none() && (f.0.values().all(|c| c.is_neg()) || f.0.values().all(|c| !c.is_neg())) { for m in f.0.keys() { if m.len() == 1 { known.insert(m[0], Z::S(0)); more = true; } } }
                else if f.0.len() == 2 && cst.is_some() { let (m, k) = f.0.iter().find(|x| !x.0.is_empty()).map(|x| (x.0.clone(), x.1.clone())).unwrap(); if m.len() == 1 { let v = match k { Z::S(1) => cst.unwrap().neg(), Z::S(-1) => cst.unwrap(), _ => continue }; known.insert(m[0], v); more = true; } }
            }
            if !more { break; }
        }
        let d = d.subst_atoms(&mut |t| known.get(&t).cloned());
        if d.is_zero() || d.0.len() > 4000 { return d; }
        facts.retain(|f| !f.is_zero());
        if facts.is_empty() { return d; }
        d.reduce(&facts)
    }
    fn nonlin(&mut self, t: T) -> bool {
        if let Some(&b) = self.nlcache.get(&t) { return b; }
        let c = self.tm.cone(&[t]);
        let b = c.iter().any(|&x| { let n = self.tm.node(x); matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.tm.as_const(n.a).is_none() && (self.tm.as_const(n.b).is_none() || n.op != Op::Mul) && self.tm.w(x) > 16 });
        self.nlcache.insert(t, b);
        b
    }
    /// linear-integer abstraction of a conjunction (plus an optional negated goal) is unsatisfiable
    fn lia_unsat(&mut self, conj: &[T], neg_goal: Option<(&Goal, Option<&Poly>)>, ms: u64) -> bool {
        let mut lia = Lia::new(&mut self.lf);
        let mut goal_txt = String::new();
        match neg_goal {
            Some((Goal::B(t), _)) => { let s = lia.boolean(&mut self.tm, *t); goal_txt = format!("(assert (not {}))\n", s); }
            Some((Goal::Z(c, _, _), Some(d))) if d.0.len() < 3000 => { let s = lia.poly(&mut self.tm, d); goal_txt = format!("(assert (not ({} 0 {})))\n", match c { ZCmp::Eq => "=", ZCmp::Lt => "<", ZCmp::Le => "<=" }, s); }
            Some(_) => return false,
            None => {}
        }
        for &c in conj.iter() { let s = lia.boolean(&mut self.tm, c); lia.push_cons(format!("(assert {})\n", s)); }
        lia.close(&mut self.tm, 400);
        let txt = format!("{}{}", lia.text(), goal_txt);
        self.sol.st.lia += 1;
        let (r, _) = self.sol.query_text("", &txt, "", ms);
        r == "unsat"
    }
    fn eqs_poly(&mut self, t: T) -> bool {
        // conjunctions of equalities decided by normal form
        let n = self.tm.node(t);
        match n.op {
            Op::And => self.eqs_poly(n.a) && self.eqs_poly(n.b),
            Op::Eq => { if self.tm.w(n.a) == 1 { return false; } let a = self.lf.lift(&mut self.tm, n.a); let b = self.lf.lift(&mut self.tm, n.b); a.sub(&b).is_zero() }
            Op::Const => n.k == 1,
            _ => false,
        }
    }
    /// integer goal over few one-bit symbols: exact value tables restricted to the path's table
    fn decide_tab(&mut self, st: &State, c: ZCmp, a: &ZE, b: &ZE) -> Option<Dec> {
        let mut ts = vec![]; ze_terms(a, &mut ts); ze_terms(b, &mut ts); ts.push(st.pctab);
        let sup = self.tm.tab_support(&ts)?;
        let ok = self.tm.tab_col(st.pctab, &sup);
        let idx: Vec<usize> = (0..ok.len()).filter(|&i| ok[i] == 1).collect();
        let (x, y) = (ze_col(&self.tm, a, &sup, &idx), ze_col(&self.tm, b, &sup, &idx));
        for (k, &i) in idx.iter().enumerate() {
            let o = x[k].cmp(&y[k]);
            if !match c { ZCmp::Eq => o.is_eq(), ZCmp::Lt => o.is_lt(), ZCmp::Le => o.is_le() } {
                if !st.alltab { return None; }
                let mut m = st.model.clone().unwrap_or_default();
                for (q, &t) in sup.iter().enumerate() { m.set(self.tm.node(t).k as u32, (i >> q & 1) as u128); }
                return Some(Dec::Cex(m));
            }
        }
        self.st.asserts_tab += 1;
        Some(Dec::Proved)
    }
    fn decide(&mut self, st: &State, g: &Goal) -> Dec {
        // 1 trivial
        match g { Goal::B(t) => { if *t == self.tm.tru { self.st.asserts_trivial += 1; return Dec::Proved; } if st.pcset.contains(t) { self.st.asserts_trivial += 1; return Dec::Proved; } } _ => {} }
        if let Goal::B(t) = g {
            let nt = self.tm.not(*t);
            if let Some(x) = self.tab_and(st, nt) {
                if x == self.tm.fls { self.st.asserts_tab += 1; return Dec::Proved; }
                if st.alltab { return Dec::Cex(self.tab_model(st, x)); }
            }
        }
        if let Goal::Z(c, a, b) = g {
            if let Some(r) = self.decide_tab(st, *c, a, b) { return r; }
        }
        // 2 the path's own witness
        if let Some(m) = st.model.clone() { if !self.goal_holds(g, &m) { return Dec::Cex(m); } }
        // 3 polynomial normal form
        let mut resid: Option<Poly> = None;
        match g {
            Goal::B(t) => { if self.eqs_poly(*t) { self.st.asserts_poly += 1; self.sol.st.poly += 1; return Dec::Proved; } }
            Goal::Z(c, a, b) => {
                let (x, y) = (self.lf.lift_ze(&mut self.tm, a), self.lf.lift_ze(&mut self.tm, b));
                if let (Some(x), Some(y)) = (x, y) {
                    let d = y.sub(&x);
                    let d = if d.is_zero() { d } else { self.reduce_pc(st, &d) };
                    if d.is_zero() && *c != ZCmp::Lt { self.st.asserts_poly += 1; self.sol.st.poly += 1; return Dec::Proved; }
                    if self.cfg.verbose { eprintln!("residual {} monomials:", d.0.len()); for (m, c) in d.0.iter().take(12) { eprintln!("   {} * {}", c.to_dec(), m.iter().map(|&t| self.tm.show(t, 5)).collect::<Vec<_>>().join(" * ")); } eprintln!("  pc:"); for &c in &st.pc { eprintln!("   {}", self.tm.show(c, 5)); } }
                    resid = Some(d);
                }
            }
        }
        let terms = self.goal_terms(g);
        // slicing is only valid if pc is known satisfiable
        let spc: Vec<T> = if st.model.is_some() { let full = self.slice(&st.pc, &terms); full[..full.len() - terms.len()].to_vec() } else { st.pc.clone() };
        // small concrete probes for a counterexample (checked against the path condition)
        if let Some(m) = self.probe(st, &spc, g, &terms) { return Dec::Cex(m); }
        let to = self.cfg.assert_ms;
        let mut lia_done = false;
        let nl = resid.as_ref().map_or(false, |d| d.0.len() < 300 && d.0.keys().all(|m| m.iter().all(|&t| self.tm.w(t) == 1))) || terms.iter().any(|&t| self.nonlin(t)) || spc.iter().any(|&t| self.nonlin(t));
        if nl { if self.lia_unsat(&spc, Some((g, resid.as_ref())), (to / 8).max(1000)) { self.st.asserts_lia += 1; return Dec::Proved; } lia_done = true; }
        // 4 bit-vector, short
        let (body, syms) = bv_goal(&mut self.tm, &spc, g);
        let get = if syms.is_empty() { String::new() } else { format!("(get-value ({}))", syms.iter().map(|x| format!("s{}", x.0)).collect::<Vec<_>>().join(" ")) };
        let mut order = vec![(to / 8).max(500), to];
        if let Goal::Z(..) = g { order = vec![(to / 16).max(300), to]; }
        for (round, ms) in order.iter().enumerate() {
            if Instant::now() > self.cfg.deadline { return Dec::Unknown; }
            let (r, o) = self.sol.query_text("QF_BV", &body, &get, *ms);
            if r == "unsat" { self.st.asserts_bv += 1; return Dec::Proved; }
            if r == "sat" { let m = parse_model_pub(&o); let m = self.model_from(st, m); if self.pc_holds(&spc, &m) && !self.goal_holds(g, &m) { return Dec::Cex(m); } }
            if round == 0 {
                // 5 linear integers
                if !lia_done && self.lia_unsat(&spc, Some((g, resid.as_ref())), (to / 4).max(1000)) { self.st.asserts_lia += 1; return Dec::Proved; }
                // 6 partially concretised counterexample search
                if let Some(m) = self.cex_search(st, &spc, g, &terms, 12, (to / 10).max(300)) { return Dec::Cex(m); }
            }
        }
        if let Goal::B(_) = g {
            let txt = format!("(set-logic QF_BV)\n{}(check-sat)\n", body);
            let (r, _) = self.sol.cvc5(&txt, &["--solve-bv-as-int=sum"], to);
            if r == "unsat" { self.st.asserts_bv += 1; return Dec::Proved; }
        }
        if let Some(m) = self.cex_search(st, &spc, g, &terms, 40, to / 4) { return Dec::Cex(m); }
        Dec::Unknown
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    fn ext_val(&mut self, w: u32) -> u128 { let r = self.rnd(); let v = match r % 9 { 0 => 0, 1 => 1, 2 | 3 => mask(w), 4 => mask(w) - 1, 5 => 1u128 << (w - 1), 6 => mask(w) >> 1, 7 => 2, _ => self.rnd() as u128 }; v & mask(w) }
    fn probe(&mut self, st: &State, pc: &[T], g: &Goal, terms: &[T]) -> Option<Model> {
        let mut roots = pc.to_vec(); roots.extend_from_slice(terms);
        let syms: Vec<T> = { let c = self.tm.cone(&roots); if c.len() > 20000 { return None; } c.into_iter().filter(|&t| self.tm.op(t) == Op::Sym).collect() };
        let base = st.model.clone().unwrap_or_default();
        for k in 0..12 {
            let mut m = base.clone();
            for &s in &syms { if k == 0 || self.rnd() % 3 != 0 { let w = self.tm.w(s); let v = if k == 0 { mask(w) } else { self.ext_val(w) }; m.set(self.tm.node(s).k as u32, v); } }
            if self.pc_holds(pc, &m) && !self.goal_holds(g, &m) { return Some(m); }
        }
        None
    }
    /// random / extreme values satisfying a conjunction
    fn probe_sat(&mut self, st: &State, q: &[T]) -> Option<Model> {
        let syms: Vec<T> = { let c = self.tm.cone(q); if c.len() > 20000 { return None; } c.into_iter().filter(|&t| self.tm.op(t) == Op::Sym).collect() };
        let base = st.model.clone().unwrap_or_default();
        for k in 0..24 {
            let mut m = base.clone();
            for &s in &syms { if k == 0 || self.rnd() % 3 != 0 { let w = self.tm.w(s); let v = if k == 0 { mask(w) } else if k % 2 == 0 { self.rnd() as u128 & mask(w) } else { self.ext_val(w) }; m.set(self.tm.node(s).k as u32, v); } }
            if self.pc_holds(q, &m) { return Some(m); }
        }
        None
    }
    fn cex_search(&mut self, st: &State, pc: &[T], g: &Goal, terms: &[T], tries: u32, ms: u64) -> Option<Model> {
        let mut roots = pc.to_vec(); roots.extend_from_slice(terms);
        let syms: Vec<T> = { let c = self.tm.cone(&roots); c.into_iter().filter(|&t| self.tm.op(t) == Op::Sym).collect() };
        let t0 = Instant::now();
        for k in 0..tries {
            if t0.elapsed() > Duration::from_millis(ms * 10) || Instant::now() > self.cfg.deadline { break; }
            let keep = 1 + (k as usize % 4);
            let mut fix: FxMap<u32, u128> = FxMap::default();
            for &s in &syms {
                if self.rnd() as usize % syms.len() < keep { continue; }
                let id = self.tm.node(s).k as u32; let w = self.tm.w(s);
                let v = if k % 3 == 0 && st.model.is_some() { st.model.as_ref().unwrap().get(id) } else { self.ext_val(w) };
                fix.insert(id, v);
            }
            let pc2 = self.tm.subst(pc, &fix);
            if pc2.contains(&self.tm.fls) { continue; }
            let g2 = match g { Goal::B(t) => Goal::B(self.tm.subst(&[*t], &fix)[0]), Goal::Z(c, a, b) => Goal::Z(*c, Rc::new(subst_ze(&mut self.tm, a, &fix)), Rc::new(subst_ze(&mut self.tm, b, &fix))) };
            let (body, syms) = bv_goal(&mut self.tm, &pc2, &g2);
            let get = if syms.is_empty() { String::new() } else { format!("(get-value ({}))", syms.iter().map(|x| format!("s{}", x.0)).collect::<Vec<_>>().join(" ")) };
            let (r, o) = self.sol.query_text("QF_BV", &body, &get, ms);
            if r == "sat" {
                let mut m = st.model.clone().unwrap_or_default();
                for (&s, &v) in &fix { m.set(s, v); }
                for (s, v) in parse_model_pub(&o) { m.set(s, v); }
                if self.pc_holds(pc, &m) && !self.goal_holds(g, &m) { return Some(m); }
            }
        }
        None
    }
    fn values(&mut self, st: &State, m: &Model) -> Vec<(u32, u64)> { st.syms.iter().map(|&t| { let n = self.tm.node(t); (n.w, m.get(n.k as u32) as u64) }).collect() }
    fn trail(&self, st: &State) -> Vec<String> { st.frames.iter().map(|f| self.m.funcs[f.f as usize].name.clone()).collect() }
    fn violate(&mut self, st: &State, kind: &str, id: u32, msg: String, m: &Model) {
        let values = self.values(st, m);
        let v = Violation { kind: kind.into(), id, msg, values, trail: self.trail(st) };
        self.violations.push(v);
    }
    fn check_goal(&mut self, st: &mut State, g: Goal, id: u32) -> X<()> {
        st.asserts += 1;
        if st.rp < st.prefix.len() { // already decided on the way to this prefix
            if let Goal::B(t) = g { self.push_pc(st, t); }
            return Ok(());
        }
        if self.failed_asserts.contains(&id) { if let Goal::B(t) = g { return self.assume(st, t); } return Ok(()); }
        match self.decide(st, &g) {
            Dec::Proved => { self.st.asserts_proved += 1; }
            Dec::Cex(m) => { self.failed_asserts.insert(id); self.violate(st, "assert", id, String::new(), &m); return Err(Stop::Done); }
            Dec::Unknown => { self.st.asserts_unknown += 1; self.st.incomplete.push(format!("assert {} undecided within the solver time", id)); }
        }
        if let Goal::B(t) = g { self.push_pc(st, t); }
        Ok(())
    }
    // ---------- memory ----------
    fn merr<A>(r: Result<A, MErr>) -> X<A> { r.map_err(|MErr::Bad(s)| Stop::MemErr(s)) }
    fn bytes_term(&mut self, bs: &[B], bits: u32) -> V {
        // all uninit
        if bs.iter().all(|b| *b == B::U) { return V::U; }
        // whole term
        if let B::S(t, 0) = bs[0] { if self.tm.w(t) as usize == bs.len() * 8 && bs.iter().enumerate().all(|(i, b)| *b == B::S(t, i as u8)) { let r = if bits < self.tm.w(t) { self.tm.extract(bits - 1, 0, t) } else { t }; return self.tv(r); } }
        let mut acc: Option<T> = None;
        for b in bs {
            let t = match *b { B::C(c) => self.tm.cst(8, c as u128), B::S(t, k) => { let k = k as u32; self.tm.extract(8 * k + 7, 8 * k, t) } B::U => { self.nuninit += 1; let n = format!("u{}", self.nuninit); self.tm.sym(8, n) } };
            acc = Some(match acc { None => t, Some(lo) => self.tm.concat(t, lo) });
        }
        let t = acc.unwrap();
        let r = if bits < self.tm.w(t) { self.tm.extract(bits - 1, 0, t) } else { t };
        self.tv(r)
    }
    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> X<V> {
        match ty {
            t if t.is_scalar() => {
                let n = t.store_size();
                if n <= 8 { if let Some(v) = Self::merr(st.mem.read_concrete(&self.m, addr, n))? { return Ok(V::C(v & mask(t.bits()) as u64)); } }
                let bs = Self::merr(st.mem.read_bytes(&self.m, addr, n))?;
                Ok(self.bytes_term(&bs, t.bits()))
            }
            Ty::Vec(e, n) if **e == Ty::Int(1) => {
                let nb = (*n as u64 + 7) / 8;
                let bs = Self::merr(st.mem.read_bytes(&self.m, addr, nb))?;
                let v = self.bytes_term(&bs, *n);
                let t = self.vt(&v, *n)?;
                Ok(V::A(Rc::new((0..*n).map(|i| { let x = self.tm.extract(i, i, t); self.tv(x) }).collect())))
            }
            _ => { let mut v = vec![]; let n = ty.elems().len(); for i in 0..n { let e = ty.elem(i).clone(); v.push(self.load(st, &e, addr + ty.field_off(i))?); } Ok(V::A(Rc::new(v))) }
        }
    }
    fn to_bytes(&mut self, ty: &Ty, v: &V) -> X<Vec<B>> {
        let n = ty.store_size() as usize;
        match v {
            V::U => Ok(vec![B::U; n]),
            V::C(x) => Ok((0..n).map(|i| B::C(if i < 8 { (x >> (8 * i)) as u8 } else { 0 })).collect()),
            V::S(t) => {
                let mut t = *t; let w = self.tm.w(t);
                if w as usize != n * 8 { t = self.tm.zext(t, n as u32 * 8); }
                if let Some(k) = self.tm.as_const(t) { return Ok((0..n).map(|i| B::C((k >> (8 * i)) as u8)).collect()); }
                Ok((0..n).map(|i| B::S(t, i as u8)).collect())
            }
            V::A(_) => Err(Stop::Unsupported("bytes of aggregate".into())),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, addr: u64) -> X<()> {
        if ty.is_scalar() {
            if let V::C(x) = v { let n = ty.store_size(); if n <= 8 { let m = self.m.clone(); return Self::merr(st.mem.write_concrete(&m, addr, n, *x)); } }
            let bs = self.to_bytes(ty, v)?;
            let m = self.m.clone();
            return Self::merr(st.mem.write_bytes(&m, addr, &bs));
        }
        if let Ty::Vec(e, n) = ty { if **e == Ty::Int(1) {
            let mut acc: Option<T> = None;
            if let V::A(a) = v { for x in a.iter() { let t = self.vt(x, 1)?; acc = Some(match acc { None => t, Some(l) => self.tm.concat(t, l) }); } }
            if let Some(t) = acc { let nb = (*n + 7) / 8 * 8; let t = self.tm.zext(t, nb); let vv = self.tv(t); return self.store(st, &Ty::Int(nb), &vv, addr); }
            return Ok(());
        } }
        match v {
            V::A(a) => { for (i, x) in a.clone().iter().enumerate() { let e = ty.elem(i).clone(); self.store(st, &e, x, addr + ty.field_off(i))?; } Ok(()) }
            V::U => { let n = ty.size() as usize; let m = self.m.clone(); Self::merr(st.mem.write_bytes(&m, addr, &vec![B::U; n])) }
            _ => Err(Stop::Unsupported("store scalar as aggregate".into())),
        }
    }
    /// Load through a symbolic address: ite-chain over the offsets of a small object.
    fn sym_load(&mut self, st: &mut State, ty: &Ty, a: T) -> X<V> {
        let mut forced = None;
        if st.rp < st.prefix.len() { let e = st.prefix[st.rp]; if e.0 == 2 { forced = Some(e.1); st.rp += 1; st.trace.push(e); } }
        if ty.is_scalar() && (forced.is_some() || (st.model.is_some() && st.rp >= st.prefix.len())) {
            let av = match forced { Some(x) => x, None => { let m = st.model.clone().unwrap(); self.tm.eval(&[a], &m)[0] as u64 } };
            let n = ty.store_size();
            if let Some((base, size)) = st.mem.bounds(&self.m, av) {
                // stride from known-zero low bits of (a - base)
                let bc = self.tm.cst(64, base as u128); let off = self.tm.sub(a, bc);
                let tz = self.tm.kz(off).trailing_ones().min(12) as u64;
                let stride = 1u64 << tz;
                let omax = (self.tm.umax(off)).min((size.saturating_sub(n)) as u128) as u64;
                let omin = self.tm.umin(off) as u64;
                if size >= n && size <= 1 << 16 && omin <= omax && (omax - omin) / stride <= 300 {
                    let lim = self.tm.cst(64, (size - n) as u128);
                    let inb = self.tm.ule(off, lim);
                    // the engine only takes this route when the access cannot leave the object
                    let nin = self.tm.not(inb);
                    let escapes = forced.is_none() && match self.known(st, inb, 0) { Some(true) => false, _ => !matches!(self.feasible(st, nin), Ok(None)) };
                    if !escapes {
                        if forced.is_none() { st.trace.push((2, av)); }
                        let start = (omin + stride - 1) / stride * stride;
                        let mut cands = vec![]; let mut o = start;
                        while o <= omax { cands.push(o); o += stride; }
                        if self.tm.op(off) == Op::Tab {
                            let tb = self.tm.tabs[self.tm.node(off).k as usize].clone();
                            let vs: FxSet<u64> = tb.vals().iter().map(|x| *x as u64).collect();
                            cands.retain(|o| vs.contains(o));
                            let keep: Vec<u64> = cands.iter().copied().filter(|&o| { let k = self.tm.cst(64, o as u128); let c = self.tm.eq(off, k); self.known(st, c, 0) != Some(false) }).collect();
                            cands = keep;
                        }
                        let mut acc: Option<T> = None;
                        let bits = ty.bits();
                        for &o in cands.iter().rev() {
                            let v = self.load(st, ty, base + o)?;
                            let t = self.vt(&v, bits)?;
                            acc = Some(match acc { None => t, Some(e) => { let k = self.tm.cst(64, o as u128); let c = self.tm.eq(off, k); if c == self.tm.fls { e } else { self.tm.ite(c, t, e) } } });
                        }
                        if let Some(t) = acc { return Ok(self.tv(t)); }
                    }
                }
            }
        }
        let ad = self.conc(st, &V::S(a), 64)?;
        self.load(st, ty, ad)
    }
    // ---------- arithmetic ----------
    fn bin(&mut self, op: Bin, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(e, n) = ty {
            let mut r = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize { let (x, y) = (Self::lane(a, i), Self::lane(b, i)); r.push(self.bin(op, e, &x, &y)?); }
            return Ok(V::A(Rc::new(r)));
        }
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = mask(w) as u64;
            let s = |v: u64| sx(v as u128, w) as i64;
            return Ok(V::C(m & match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y), Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y }, Bin::AShr => (s(x) >> y.min(63)) as u64,
                Bin::UDiv => if y == 0 { return Err(Stop::Panic("udiv by zero".into())) } else { x / y }, Bin::URem => if y == 0 { return Err(Stop::Panic("urem by zero".into())) } else { x % y },
                Bin::SDiv => if y == 0 { return Err(Stop::Panic("sdiv by zero".into())) } else { s(x).wrapping_div(s(y)) as u64 }, Bin::SRem => if y == 0 { return Err(Stop::Panic("srem by zero".into())) } else { s(x).wrapping_rem(s(y)) as u64 },
                _ => fbin(op, *ty == Ty::F64, x, y),
            }));
        }
        let (x, y) = (self.vt(a, w)?, self.vt(b, w)?);
        let tm = &mut self.tm;
        let r = match op {
            Bin::Add => tm.add(x, y), Bin::Sub => tm.sub(x, y), Bin::Mul => tm.mul(x, y), Bin::UDiv => tm.udiv(x, y), Bin::SDiv => tm.sdiv(x, y), Bin::URem => tm.urem(x, y), Bin::SRem => tm.srem(x, y),
            Bin::And => tm.and(x, y), Bin::Or => tm.or(x, y), Bin::Xor => tm.xor(x, y), Bin::Shl => tm.shl(x, y), Bin::LShr => tm.lshr(x, y), Bin::AShr => tm.ashr(x, y),
            // floating point over value tables: evaluated entry by entry
            Bin::FMul if *ty == Ty::F64 && tm.tab_support(&[x, y]).is_none() && matches!((a, b), (V::C(_), V::S(_)) | (V::S(_), V::C(_))) => {
                let (t, c) = if let V::C(c) = b { (x, *c) } else if let V::C(c) = a { (y, *c) } else { unreachable!() };
                let k = (c >> 52) as i64 - 1023;
                if c << 12 != 0 || c >> 63 != 0 || k < 52 || k > 900 { return Err(Stop::Unsupported("symbolic float arithmetic".into())); }
                Self::fscale(tm, t, k as u32)
            }
            _ => { let f64_ = *ty == Ty::F64; match tm.tab_map2(w, x, y, |x, y| fbin(op, f64_, x as u64, y as u64) as u128) { Some(r) => r, None => return Err(Stop::Unsupported("symbolic float arithmetic".into())) } }
        };
        Ok(self.tv(r))
    }
    fn lane(v: &V, i: usize) -> V { match v { V::A(a) => a[i].clone(), V::U => V::U, x => x.clone() } }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(e, n) = ty { let mut r = vec![]; for i in 0..*n as usize { let (x, y) = (Self::lane(a, i), Self::lane(b, i)); r.push(self.icmp(p, e, &x, &y)?); } return Ok(V::A(Rc::new(r))); }
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx_, sy_) = (sx(x as u128, w), sx(y as u128, w));
            return Ok(V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx_ > sy_, Pred::Sge => sx_ >= sy_, Pred::Slt => sx_ < sy_, Pred::Sle => sx_ <= sy_ } as u64));
        }
        let (x, y) = (self.vt(a, w)?, self.vt(b, w)?);
        let tm = &mut self.tm;
        let r = match p { Pred::Eq => tm.eq(x, y), Pred::Ne => tm.ne(x, y), Pred::Ugt => tm.ult(y, x), Pred::Uge => tm.ule(y, x), Pred::Ult => tm.ult(x, y), Pred::Ule => tm.ule(x, y), Pred::Sgt => tm.slt(y, x), Pred::Sge => tm.sle(y, x), Pred::Slt => tm.slt(x, y), Pred::Sle => tm.sle(x, y) };
        Ok(self.tv(r))
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, a: &V, b: &V) -> X<V> {
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = if w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p { "false" => false, "true" => true, "ord" => !un, "uno" => un, _ => { let c = match &p[1..] { "eq" => x == y, "gt" => x > y, "ge" => x >= y, "lt" => x < y, "le" => x <= y, "ne" => !un && x != y, _ => return Err(Stop::Unsupported("fcmp".into())) }; if p.starts_with('u') { un || c } else { c } } };
            return Ok(V::C(r as u64));
        }
        let (x, y) = (self.vt(a, w)?, self.vt(b, w)?);
        let mb = if w == 64 { 52 } else { 23 };
        let tm = &mut self.tm;
        let expm = tm.cst(w, ((mask(w - 1)) >> mb) << mb);
        let nan = |tm: &mut TM, t: T| { let m = tm.extract(w - 2, 0, t); let m = tm.zext(m, w); tm.ult(expm, m) };
        let (nx, ny) = (nan(tm, x), nan(tm, y)); let un = tm.or(nx, ny); let ord = tm.not(un);
        let z = tm.cst(w - 1, 0);
        let (mx, my) = (tm.extract(w - 2, 0, x), tm.extract(w - 2, 0, y));
        let (zx, zy) = (tm.eq(mx, z), tm.eq(my, z)); let bz = tm.and(zx, zy);
        let e0 = tm.eq(x, y); let eq = tm.or(e0, bz);
        let (sx_, sy_) = (tm.extract(w - 1, w - 1, x), tm.extract(w - 1, w - 1, y));
        // key ordering: x<y
        let lt = { let both = tm.ult(mx, my); let neg = tm.ult(my, mx); let nsx = tm.not(sx_); let nsy = tm.not(sy_); let same_pos = tm.and(nsx, nsy); let p1 = tm.and(same_pos, both); let same_neg = tm.and(sx_, sy_); let p2 = tm.and(same_neg, neg); let mix = tm.and(sx_, nsy); let nbz = tm.not(bz); let p3 = tm.and(mix, nbz); let q = tm.or(p1, p2); tm.or(q, p3) };
        let le = tm.or(lt, eq); let nle = tm.not(le); let nlt = tm.not(lt); let neq = tm.not(eq);
        let base = match p { "ord" => return Ok(self.tv(ord)), "uno" => return Ok(self.tv(un)), _ => match &p[1..] { "eq" => eq, "gt" => nle, "ge" => nlt, "lt" => lt, "le" => le, "ne" => neq, _ => return Err(Stop::Unsupported("fcmp".into())) } };
        let r = if p.starts_with('u') { tm.or(un, base) } else { tm.and(ord, base) };
        Ok(self.tv(r))
    }
    /// f64 bits times 2^k, 52 <= k <= 900, every value
    fn fscale(tm: &mut TM, x: T, k: u32) -> T {
        let (s, e, m) = (tm.extract(63, 63, x), tm.extract(62, 52, x), tm.extract(51, 0, x));
        let kk = tm.cst(11, k as u128);
        let en = tm.add(e, kk);
        let mut r = tm.concat(en, m);
        let lim = tm.cst(11, (2047 - k) as u128); let all1 = tm.cst(11, 2047); let e0 = tm.cst(11, 0); let m0 = tm.cst(52, 0);
        let (over, top, sub, mz) = (tm.ule(lim, e), tm.eq(e, all1), tm.eq(e, e0), tm.eq(m, m0));
        if over != tm.fls {
            let inf = tm.concat(all1, m0);
            r = tm.ite(over, inf, r);
            let q = tm.cst(52, 1 << 51); let qf = tm.or(m, q); let f = tm.ite(mz, m0, qf); let w = tm.concat(all1, f);
            r = tm.ite(top, w, r);
        }
        if sub != tm.fls {
            let mut v = tm.cst(63, 0);
            for i in 0..52u32 {
                let b = tm.extract(i, i, m);
                let ef = tm.cst(11, (i + 1023 + k - 1074) as u128);
                let fr = if i == 0 { m0 } else { let lo = tm.extract(i - 1, 0, m); let pad = tm.cst(52 - i, 0); tm.concat(lo, pad) };
                let w = tm.concat(ef, fr);
                v = tm.ite(b, w, v);
            }
            r = tm.ite(sub, v, r);
        }
        tm.concat(s, r)
    }
    /// f32 bits to f64 bits, every value
    fn fpext(&mut self, x: T) -> T {
        let tm = &mut self.tm;
        let (s, e, m) = (tm.extract(31, 31, x), tm.extract(30, 23, x), tm.extract(22, 0, x));
        let e64 = tm.zresize(e, 11);
        let bias = tm.cst(11, 896);
        let z29 = tm.cst(29, 0);
        let frac = tm.concat(m, z29);
        let en = tm.add(e64, bias);
        let normal = tm.concat(en, frac);
        let all1 = tm.cst(8, 255); let e0 = tm.cst(8, 0); let m0 = tm.cst(23, 0);
        let (top, sub, mz) = (tm.eq(e, all1), tm.eq(e, e0), tm.eq(m, m0));
        let mut r = normal;
        if sub != tm.fls {
            let mut v = tm.cst(63, 0);
            for i in 0..23u32 { // leading one at bit i: value 2^(i-149) * 1.f
                let b = tm.extract(i, i, m);
                let ef = tm.cst(11, (i + 1023 - 149) as u128);
                let fr = if i == 0 { tm.cst(52, 0) } else { let lo = tm.extract(i - 1, 0, m); let pad = tm.cst(52 - i, 0); tm.concat(lo, pad) };
                let w = tm.concat(ef, fr);
                v = tm.ite(b, w, v);
            }
            r = tm.ite(sub, v, r);
        }
        if top != tm.fls {
            let e7 = tm.cst(11, 2047);
            let q = tm.cst(52, 1 << 51); let z = tm.cst(52, 0);
            let qf = tm.or(frac, q);
            let f = tm.ite(mz, z, qf);
            let w = tm.concat(e7, f);
            r = tm.ite(top, w, r);
        }
        tm.concat(s, r)
    }
    fn cast(&mut self, op: CastOp, f: &Ty, t: &Ty, a: &V) -> X<V> {
        if let (Ty::Vec(fe, n), Ty::Vec(te, n2)) = (f, t) { if n == n2 { let mut r = vec![]; for i in 0..*n as usize { let x = Self::lane(a, i); r.push(self.cast(op, fe, te, &x)?); } return Ok(V::A(Rc::new(r))); } }
        if op == CastOp::BitCast && (matches!(f, Ty::Vec(..)) || matches!(t, Ty::Vec(..))) {
            // through a bit string
            let mut acc: Option<T> = None;
            let mut put = |s: &mut Exec, v: &V, w: u32| -> X<()> { let x = s.vt(v, w)?; acc = Some(match acc { None => x, Some(l) => { if s.tm.w(l) + w > 128 { return Err(Stop::Unsupported("wide bitcast".into())); } s.tm.concat(x, l) } }); Ok(()) };
            let big = f.size() > 16;
            if big { // lane-wise regrouping of wide vectors
                let (fe, fn_) = if let Ty::Vec(e, n) = f { (e.bits(), *n) } else { return Err(Stop::Unsupported("bitcast".into())) };
                let (te, tn) = if let Ty::Vec(e, n) = t { (e.bits(), *n) } else { return Err(Stop::Unsupported("bitcast".into())) };
                let mut out = vec![];
                if te >= fe { let k = (te / fe) as usize; for i in 0..tn as usize { let mut c: Option<T> = None; for j in 0..k { let x = self.vt(&Self::lane(a, i * k + j), fe)?; c = Some(match c { None => x, Some(l) => self.tm.concat(x, l) }); } let v = self.tv(c.unwrap()); out.push(v); } }
                else { let k = fe / te; for i in 0..fn_ as usize { let x = self.vt(&Self::lane(a, i), fe)?; for j in 0..k { let e = self.tm.extract(te * (j + 1) - 1, te * j, x); let v = self.tv(e); out.push(v); } } }
                return Ok(V::A(Rc::new(out)));
            }
            match f { Ty::Vec(e, n) => for i in 0..*n as usize { let l = Self::lane(a, i); put(self, &l, e.bits())?; }, _ => put(self, a, f.bits())? }
            let x = acc.unwrap();
            return Ok(match t { Ty::Vec(e, n) => { let w = e.bits(); V::A(Rc::new((0..*n).map(|i| { let y = self.tm.extract(w * (i + 1) - 1, w * i, x); self.tv(y) }).collect())) } _ => self.tv(x) });
        }
        let (fw, tw) = (f.bits(), t.bits());
        if let V::U = a { return Ok(V::U); }
        match op {
            CastOp::BitCast => Ok(a.clone()),
            CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if let V::C(x) = a { if tw <= 64 { return Ok(V::C(x & mask(tw) as u64)); } }
                let x = self.vt(a, fw)?; let r = self.tm.zresize(x, tw); Ok(self.tv(r))
            }
            CastOp::SExt => { if let V::C(x) = a { if tw <= 64 { return Ok(V::C(sx(*x as u128, fw) as u64 & mask(tw) as u64)); } } let x = self.vt(a, fw)?; let r = self.tm.sext(x, tw); Ok(self.tv(r)) }
            _ => {
                let x = match a { V::C(x) => *x, _ => { let t = self.vt(a, fw)?; if op == CastOp::FpExt && fw == 32 && tw == 64 && self.tm.tab_support(&[t]).is_none() { let r = self.fpext(t); return Ok(self.tv(r)); } return match self.tm.tab_map2(tw, t, t, |x, _| fcast(op, fw, tw, x as u64) as u128) { Some(r) => Ok(self.tv(r)), None => Err(Stop::Unsupported("symbolic float conversion".into())) }; } };
                let r = fcast(op, fw, tw, x);
                Ok(V::C(r))
            }
        }
    }
    // ---------- main loop ----------
    pub fn run_state(&mut self, mut st: State) {
        let r = self.run_inner(&mut st);
        let stop = match r { Err(s) => s, Ok(()) => Stop::Done };
        self.finish(st, stop);
    }
    fn finish(&mut self, mut st: State, stop: Stop) {
        self.st.paths += 1;
        self.st.insts += st.steps;
        match stop {
            Stop::Done => {
                if st.frames.is_empty() {
                    self.st.completed += 1;
                    // a path whose feasibility was not established is only counted as a witness once solved
                    if st.model.is_none() && (self.st.samples.len() < self.cfg.samples || st.reached.iter().any(|r| !self.st.reach.contains_key(r))) {
                        let q = st.pc.clone();
                        if let Res::Sat(m) = self.sol.check(&mut self.tm, &q, self.cfg.assert_ms / 4) { let mut n = Model::default(); for (s, v) in m { n.set(s, v); } st.model = Some(n); }
                    }
                    if let Some(m) = st.model.clone() {
                        for r in &st.reached { *self.st.reach.entry(*r).or_insert(0) += 1; }
                        let keep = self.st.samples.len() < self.cfg.samples || { let n = self.st.completed.max(1); self.rnd() % n < self.cfg.samples as u64 };
                        if keep && self.cfg.samples > 0 && self.nuninit == 0 {
                            let vals = self.values(&st, &m);
                            let outs: Vec<u64> = self.tm.eval(&st.outs, &m).iter().map(|&x| x as u64).collect();
                            if self.st.samples.len() < self.cfg.samples { self.st.samples.push((vals, outs, false)); } else { let i = (self.rnd() % self.cfg.samples as u64) as usize; self.st.samples[i] = (vals, outs, false); }
                        }
                    }
                }
            }
            Stop::Infeasible => { self.st.infeasible += 1; }
            Stop::Panic(msg) | Stop::MemErr(msg) if st.may_panic => { let _ = msg; self.st.panics_ok += 1; for r in &st.reached { *self.st.reach.entry(*r).or_insert(0) += 1; } }
            Stop::Panic(ref msg) | Stop::MemErr(ref msg) | Stop::Limit(ref msg) => {
                let kind = match stop { Stop::Panic(_) => "panic", Stop::MemErr(_) => "memory", _ => "limit" };
                let m = match st.model.clone() { Some(m) => Some(m), None => { let q = st.pc.clone(); match self.sol.check(&mut self.tm, &q, self.cfg.assert_ms) { Res::Sat(m) => Some(self.model_from(&st, m)), Res::Unsat => { self.st.infeasible += 1; return; } Res::Unknown => { self.st.incomplete.push(format!("{} path of unknown feasibility: {}", kind, msg)); return; } } } };
                let key = 0x8000_0000 ^ fxh(msg);
                if self.failed_asserts.insert(key) { if let Some(m) = m { self.violate(&st, kind, 0, msg.clone(), &m); } }
            }
            Stop::Unsupported(msg) => { let tr = self.trail(&st); self.st.incomplete.push({ let fr = st.frames.last(); format!("unsupported: {} in {} bb{:?}", msg, if std::env::var_os("VP_DBGUNINIT").is_some() { tr.join(" > ") } else { tr.last().cloned().unwrap_or_default() }, fr.map(|f| (f.bb, f.ip))) }); }
            Stop::Deadline => {
                self.st.incomplete.push("deadline".into());
                // a path in progress: its inputs are tried natively for non-termination
                if let Some(m) = st.model.clone() { if self.suspects.is_empty() && st.steps > 100_000 { let v = self.values(&st, &m); self.suspects.push(v); } }
            }
        }
    }
    fn run_inner(&mut self, st: &mut State) -> X<()> {
        let m = self.m.clone();
        loop {
            if st.frames.is_empty() { return Ok(()); }
            st.steps += 1;
            if st.steps & 0xfff == 0 { if st.steps > self.cfg.max_steps { return Err(Stop::Limit("step limit exceeded (possible non-termination)".into())); } if Instant::now() > self.cfg.deadline || self.cfg.stop.load(std::sync::atomic::Ordering::Relaxed) { return Err(Stop::Deadline); } }
            let (fi, bb, ip) = { let f = st.frames.last().unwrap(); (f.f, f.bb, f.ip) };
            let func = &m.funcs[fi as usize];
            if let Some(e) = &func.err { return Err(Stop::Unsupported(format!("{}: {}", func.name, e))); }
            let inst = &func.blocks[bb as usize].insts[ip as usize];
            self.step(st, &m, inst)?;
        }
    }
    #[inline] fn set(&self, st: &mut State, dst: u32, v: V) { let f = st.frames.last_mut().unwrap(); if dst != NODST { f.regs[dst as usize] = v; } f.ip += 1; }
    fn jump(&mut self, st: &mut State, m: &Module, to: u32) {
        let (fi, from) = { let f = st.frames.last().unwrap(); (f.f, f.bb) };
        let blk = &m.funcs[fi as usize].blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis { for (b, o) in &p.inc { if *b == from { let v = self.op(st, o); vals.push((p.dst, v)); break; } } }
            let f = st.frames.last_mut().unwrap();
            for (d, v) in vals { f.regs[d as usize] = v; }
        }
        let f = st.frames.last_mut().unwrap();
        f.bb = to; f.ip = 0;
    }
    fn step(&mut self, st: &mut State, m: &Arc<Module>, inst: &Inst) -> X<()> {
        let dst = inst.dst;
        match &inst.k {
            IK::Bin(op, ty, a, b) => { let (x, y) = (self.op(st, a), self.op(st, b));
                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { if let V::S(t) = y { let z = self.tm.cst(self.tm.w(t), 0); let e = self.tm.eq(t, z); if self.branch(st, e)? { return Err(Stop::Panic("division by zero".into())); } } }
                let r = self.bin(*op, ty, &x, &y)?; self.set(st, dst, r); }
            IK::ICmp(p, ty, a, b) => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.icmp(*p, ty, &x, &y)?; self.set(st, dst, r); }
            IK::FCmp(p, ty, a, b) => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.fcmp(p, ty, &x, &y)?; self.set(st, dst, r); }
            IK::FNeg(ty, a) => { let x = self.op(st, a); let w = ty.bits(); let k = V::C(1u64 << (w - 1)); let r = self.bin(Bin::Xor, &Ty::Int(w), &x, &k)?; self.set(st, dst, r); }
            IK::Cast(op, f, t, a) => { let x = self.op(st, a); let r = self.cast(*op, f, t, &x)?; self.set(st, dst, r); }
            IK::Select(ct, ty, c, a, b) => {
                let (cv, x, y) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = self.select(st, ct, ty, &cv, x, y)?;
                self.set(st, dst, r);
            }
            IK::Load(ty, p) => {
                let pv = self.op(st, p);
                let r = match pv { V::S(t) => self.sym_load(st, ty, t)?, pv => { let a = self.conc(st, &pv, 64)?; self.load(st, ty, a)? } };
                self.set(st, dst, r);
            }
            IK::Store(ty, v, p) => { let pv = self.op(st, p); let a = self.conc(st, &pv, 64)?; let x = self.op(st, v); self.store(st, ty, &x, a)?; self.set(st, NODST, V::U); }
            IK::Gep(base, off, terms) => {
                let bv = self.op(st, base);
                let mut acc = bv;
                if *off != 0 { acc = self.bin(Bin::Add, &Ty::Int(64), &acc, &V::C(*off as u64))?; }
                for (o, w, scale) in terms {
                    let iv = self.op(st, o);
                    let iv = if *w < 64 { self.cast(CastOp::SExt, &Ty::Int(*w), &Ty::Int(64), &iv)? } else { iv };
                    let s = if *scale == 1 { iv } else { self.bin(Bin::Mul, &Ty::Int(64), &iv, &V::C(*scale as u64))? };
                    acc = self.bin(Bin::Add, &Ty::Int(64), &acc, &s)?;
                }
                self.set(st, dst, acc);
            }
            IK::Alloca(sz, al) => { let a = st.mem.alloc(*sz, *al, Kind::Stack, false); st.frames.last_mut().unwrap().allocas.push(a); self.set(st, dst, V::C(a)); }
            IK::Br(to) => self.jump(st, m, *to),
            IK::CondBr(c, a, b) => {
                let cv = self.op(st, c);
                let t = match cv { V::C(x) => x & 1 == 1, V::S(t) => self.branch(st, t)?, V::U => { let t = self.vt(&V::U, 1)?; self.branch(st, t)? } V::A(_) => return Err(Stop::Unsupported("br agg".into())) };
                self.jump(st, m, if t { *a } else { *b });
            }
            IK::Switch(w, v, d, cs) => {
                let x = self.op(st, v);
                let to = match x {
                    V::C(x) => cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d),
                    V::S(t) => { let mut r = None; for (k, l) in cs { let kc = self.tm.cst(*w, *k as u128); let e = self.tm.eq(t, kc); if self.branch(st, e)? { r = Some(*l); break; } } r.unwrap_or(*d) }
                    _ => return Err(Stop::Unsupported("switch on undef".into())),
                };
                self.jump(st, m, to);
            }
            IK::Ret(o) => {
                let v = match o { Some(o) => self.op(st, o), None => V::U };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.objs.remove(&a); }
                if let Some(caller) = st.frames.last_mut() {
                    if fr.dst != NODST { caller.regs[fr.dst as usize] = v; }
                    match fr.normal { Some(b) => self.jump(st, m, b), None => caller.ip += 1 }
                }
            }
            IK::Unreachable => return Err(Stop::Panic("reached unreachable".into())),
            IK::Nop => self.set(st, NODST, V::U),
            IK::Freeze(a) => { let v = self.op(st, a); self.set(st, dst, v); }
            IK::ExtractValue(a, ix) => { let mut v = self.op(st, a); for &i in ix { v = match v { V::A(a) => a[i as usize].clone(), V::U => V::U, _ => return Err(Stop::Unsupported("extractvalue".into())) }; } self.set(st, dst, v); }
            IK::InsertValue(ty, a, b, ix) => { let v = self.op(st, a); let x = self.op(st, b); let r = insert(ty, &v, x, ix); self.set(st, dst, r); }
            IK::ExtractElem(a, i) => { let v = self.op(st, a); let iv = self.op(st, i); let k = self.conc(st, &iv, 64)?; let r = Self::lane(&v, k as usize); self.set(st, dst, r); }
            IK::InsertElem(ty, a, b, i) => { let v = self.op(st, a); let x = self.op(st, b); let iv = self.op(st, i); let k = self.conc(st, &iv, 64)?; let r = insert(ty, &v, x, &[k as u32]); self.set(st, dst, r); }
            IK::Shuffle(a, b, n, ix) => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = ix.iter().map(|&k| if k < 0 { V::U } else if (k as u32) < *n { Self::lane(&x, k as usize) } else { Self::lane(&y, k as usize - *n as usize) }).collect(); self.set(st, dst, V::A(Rc::new(r))); }
            IK::AtomicRmw(op, ty, p, v) => {
                let pv = self.op(st, p); let a = self.conc(st, &pv, 64)?; let old = self.load(st, ty, a)?; let x = self.op(st, v);
                let new = match op.as_str() { "xchg" => x, "add" => self.bin(Bin::Add, ty, &old, &x)?, "sub" => self.bin(Bin::Sub, ty, &old, &x)?, "and" => self.bin(Bin::And, ty, &old, &x)?, "or" => self.bin(Bin::Or, ty, &old, &x)?, "xor" => self.bin(Bin::Xor, ty, &old, &x)?, _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))) };
                self.store(st, ty, &new, a)?; self.set(st, dst, old);
            }
            IK::CmpXchg(ty, p, c, n) => {
                let pv = self.op(st, p); let a = self.conc(st, &pv, 64)?; let old = self.load(st, ty, a)?; let (cv, nv) = (self.op(st, c), self.op(st, n));
                let e = self.icmp(Pred::Eq, ty, &old, &cv)?;
                let t = match &e { V::C(x) => *x == 1, V::S(t) => self.branch(st, *t)?, _ => return Err(Stop::Unsupported("cmpxchg".into())) };
                if t { self.store(st, ty, &nv, a)?; }
                self.set(st, dst, V::A(Rc::new(vec![old, V::C(t as u64)])));
            }
            IK::Call(callee, args, ret, normal) => self.call(st, m, dst, callee, args, ret, *normal)?,
        }
        Ok(())
    }
    fn select(&mut self, st: &mut State, ct: &Ty, ty: &Ty, c: &V, a: V, b: V) -> X<V> {
        if let Ty::Vec(_, n) = ct { if let Ty::Vec(e, _) = ty { let mut r = vec![]; for i in 0..*n as usize { let (cc, x, y) = (Self::lane(c, i), Self::lane(&a, i), Self::lane(&b, i)); r.push(self.select(st, &Ty::Int(1), e, &cc, x, y)?); } return Ok(V::A(Rc::new(r))); } }
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::U => Ok(a),
            V::S(t) => {
                if let Some(k) = self.known(st, *t, 0) { return Ok(if k { a } else { b }); }
                if matches!(ty, Ty::Int(_) | Ty::F32 | Ty::F64) {
                    if let V::U = a { return Ok(b); }
                    if let V::U = b { return Ok(a); }
                    let w = ty.bits(); let (x, y) = (self.vt(&a, w)?, self.vt(&b, w)?); let r = self.tm.ite(*t, x, y); return Ok(self.tv(r));
                }
                if let (V::C(x), V::C(y)) = (&a, &b) { if x == y { return Ok(a); } }
                Ok(if self.branch(st, *t)? { a } else { b })
            }
            V::A(_) => Err(Stop::Unsupported("select".into())),
        }
    }
    fn call(&mut self, st: &mut State, m: &Arc<Module>, dst: u32, callee: &Callee, args: &[(Ty, Opd)], ret: &Ty, normal: Option<u32>) -> X<()> {
        let fi = match callee {
            Callee::Direct(f) => *f,
            Callee::Asm => { self.ret_b(st, m, dst, V::U, normal); return Ok(()); }
            Callee::Indirect(o) => { let v = self.op(st, o); let a = self.conc(st, &v, 64)?; *m.fn_by_addr.get(&a).ok_or_else(|| Stop::MemErr(format!("call of {:#x}", a)))? }
        };
        let b = self.bi[fi as usize];
        if b == Bi::Def {
            let f = &m.funcs[fi as usize];
            if let Some(e) = &f.err { return Err(Stop::Unsupported(format!("{}: {}", f.name, e))); }
            if st.frames.len() > 20000 { return Err(Stop::Limit("call depth exceeded (possible unbounded recursion)".into())); }
            self.fns.insert(fi);
            let mut regs = vec![V::U; f.nregs as usize];
            for (i, (_, o)) in args.iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = self.op(st, o); } }
            st.frames.push(Frame { f: fi, bb: 0, ip: 0, regs, allocas: vec![], dst, normal });
            return Ok(());
        }
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (t, o) in args { av.push(if *t == Ty::Other { V::U } else { self.op(st, o) }); }
        let r = self.builtin(st, m, b, fi, args, &av, ret)?;
        self.ret_b(st, m, dst, r, normal);
        Ok(())
    }
    fn ret_b(&mut self, st: &mut State, m: &Arc<Module>, dst: u32, v: V, normal: Option<u32>) {
        let f = st.frames.last_mut().unwrap();
        if dst != NODST { f.regs[dst as usize] = v; }
        match normal { Some(b) => self.jump(st, m, b), None => f.ip += 1 }
    }
    fn ze(&self, st: &State, v: &V) -> X<Rc<ZE>> { match v { V::C(i) => st.zs.get(*i as usize).cloned().ok_or(Stop::Unsupported("z handle".into())), _ => Err(Stop::Unsupported("z handle".into())) } }
    fn push_z(&self, st: &mut State, z: ZE) -> V { let v = Rc::make_mut(&mut st.zs); v.push(Rc::new(z)); V::C(v.len() as u64 - 1) }
    fn builtin(&mut self, st: &mut State, m: &Arc<Module>, b: Bi, fi: u32, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> X<V> {
        match b {
            Bi::Panic => {
                // location is the last pointer argument
                let mut msg = String::from("panic");
                if let Some(V::C(loc)) = av.last() {
                    if let (Ok(Some(p)), Ok(Some(l)), Ok(Some(line))) = (st.mem.read_concrete(m, *loc, 8), st.mem.read_concrete(m, *loc + 8, 8), st.mem.read_concrete(m, *loc + 16, 4)) {
                        if l < 300 { if let Ok(bs) = st.mem.read_bytes(m, p, l) { let s: String = bs.iter().map(|b| if let B::C(c) = b { *c as char } else { '?' }).collect(); msg = format!("panic at {}:{}", s, line); } }
                    }
                }
                let _ = fi;
                Err(Stop::Panic(msg))
            }
            Bi::Abort => Err(Stop::Panic("abort".into())),
            Bi::Malloc => { let n = self.conc(st, &av[0], 64)?; if n > 1 << 28 { return Ok(V::C(0)); } Ok(V::C(st.mem.alloc(n, 16, Kind::Heap, false))) }
            Bi::Calloc => { let n = self.conc(st, &av[0], 64)?; let k = self.conc(st, &av[1], 64)?; let n = n.wrapping_mul(k); if n > 1 << 28 { return Ok(V::C(0)); } Ok(V::C(st.mem.alloc(n, 16, Kind::Heap, true))) }
            Bi::PosixMemalign => { let al = self.conc(st, &av[1], 64)?; let n = self.conc(st, &av[2], 64)?; let a = st.mem.alloc(n, al, Kind::Heap, false); let p = self.conc(st, &av[0], 64)?; self.store(st, &Ty::Ptr, &V::C(a), p)?; Ok(V::C(0)) }
            Bi::Realloc => {
                let n = self.conc(st, &av[1], 64)?; let p = self.conc(st, &av[0], 64)?;
                if n > 1 << 28 { return Ok(V::C(0)); }
                let a = st.mem.alloc(n, 16, Kind::Heap, false);
                if p != 0 { let old = match st.mem.objs.get(&p) { Some(o) => o.size, None => return Err(Stop::MemErr(format!("realloc of {:#x}", p))) }; let k = old.min(n); let bs = Self::merr(st.mem.read_bytes(m, p, k))?; Self::merr(st.mem.write_bytes(m, a, &bs))?; Self::merr(st.mem.free(p))?; }
                Ok(V::C(a))
            }
            Bi::Free => { let p = self.conc(st, &av[0], 64)?; if p != 0 { Self::merr(st.mem.free(p))?; } Ok(V::U) }
            Bi::Getenv => Ok(V::C(0)),
            Bi::Errno => Err(Stop::Unsupported("errno".into())),
            Bi::Strlen => { let mut p = self.conc(st, &av[0], 64)?; let s = p; loop { match Self::merr(st.mem.read_concrete(m, p, 1))? { Some(0) => break, Some(_) => p += 1, None => return Err(Stop::Unsupported("strlen".into())) } } Ok(V::C(p - s)) }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.conc(st, &av[2], 64)?; let p = self.conc(st, &av[0], 64)?; let q = self.conc(st, &av[1], 64)?;
                if n == 0 { return Ok(V::C(0)); }
                let (x, y) = (Self::merr(st.mem.read_bytes(m, p, n))?, Self::merr(st.mem.read_bytes(m, q, n))?);
                let w = 32; let z = self.tm.cst(w, 0); let lt = self.tm.cst(w, mask(w)); let gt = self.tm.cst(w, 1);
                let mut acc = z;
                // group into words where both sides are whole terms (equality only)
                if b == Bi::Bcmp {
                    let mut all = self.tm.tru; let mut i = 0usize;
                    while i < n as usize {
                        let mut step = 1;
                        for k in [8usize, 4, 2] { if i + k <= n as usize { let whole = |s: &[B], tm: &TM| -> bool { s.iter().all(|b| matches!(b, B::C(_))) || matches!(s[0], B::S(t, 0) if tm.w(t) as usize == k * 8 && s.iter().enumerate().all(|(j, b)| *b == B::S(t, j as u8))) }; if whole(&x[i..i + k], &self.tm) && whole(&y[i..i + k], &self.tm) { step = k; break; } } }
                        let (a, c) = (self.bytes_term(&x[i..i + step], step as u32 * 8), self.bytes_term(&y[i..i + step], step as u32 * 8));
                        let (a, c) = (self.vt(&a, step as u32 * 8)?, self.vt(&c, step as u32 * 8)?);
                        let e = self.tm.eq(a, c); all = self.tm.and(all, e); i += step;
                    }
                    acc = self.tm.ite(all, z, gt);
                } else {
                    for i in (0..n as usize).rev() {
                        let (a, c) = (self.bytes_term(&x[i..i + 1], 8), self.bytes_term(&y[i..i + 1], 8));
                        let (a, c) = (self.vt(&a, 8)?, self.vt(&c, 8)?);
                        let e = self.tm.eq(a, c); let l = self.tm.ult(a, c); let r = self.tm.ite(l, lt, gt); acc = self.tm.ite(e, acc, r);
                    }
                }
                Ok(self.tv(acc))
            }
            Bi::Unknown => Err(Stop::Unsupported(format!("external {}", m.funcs[fi as usize].name))),
            Bi::In(i) => self.intrinsic(st, m, i, args, av, ret),
            // ---- harness primitives ----
            Bi::VsSym => { let w = self.conc(st, &av[0], 32)? as u32; let t = self.get_sym(st, w); let z = if w < 64 { self.tm.zext(t, 64) } else { t }; Ok(self.tv(z)) }
            Bi::VsAssume => { let t = self.vt(&av[0], 1)?; self.assume(st, t)?; Ok(V::U) }
            Bi::VsAssert => { let t = self.vt(&av[0], 1)?; let id = self.conc(st, &av[1], 32)? as u32; self.check_goal(st, Goal::B(t), id)?; Ok(V::U) }
            Bi::VsReach => { let id = self.conc(st, &av[0], 32)? as u32; st.reached.push(id); Ok(V::U) }
            Bi::VsParam => { let i = self.conc(st, &av[0], 32)?; Ok(V::C(self.cfg.params.get(i as usize).copied().unwrap_or(0))) }
            Bi::VsConc => { let v = self.conc(st, &av[0], 64)?; Ok(V::C(v)) }
            Bi::VsMayPanic => { let v = self.conc(st, &av[0], 1)?; st.may_panic = v & 1 == 1; Ok(V::U) }
            Bi::VsLazy => { let v = self.conc(st, &av[0], 1)?; st.lazy = v & 1 == 1; Ok(V::U) }
            Bi::VsDefined => {
                let bad = match &av[0] { V::U => true, V::S(t) if self.nuninit > 0 => { let t = *t; self.syms(t).iter().any(|&i| self.tm.sym_names[i as usize].starts_with('u')) } _ => false };
                if bad { return Err(Stop::MemErr("the result depends on uninitialised memory".into())); }
                Ok(V::U)
            }
            Bi::VsLive => Ok(V::C(st.mem.live)),
            Bi::VsHwPush => { let (v, k) = (self.vt(&av[0], 64)?, self.vt(&av[1], 1)?); Rc::make_mut(&mut st.hw).push((v, k)); Ok(V::U) }
            Bi::VsHwUsed => Ok(V::C(st.hw_pos as u64)),
            Bi::VsOut => { let t = self.vt(&av[0], 64)?; st.outs.push(t); Ok(V::U) }
            Bi::VsIte => { let c = self.vt(&av[0], 1)?; let (x, y) = (self.vt(&av[1], 64)?, self.vt(&av[2], 64)?); let r = self.tm.ite(c, x, y); Ok(self.tv(r)) }
            Bi::VsZWords => { let n = self.conc(st, &av[1], 64)?; let p = self.conc(st, &av[0], 64)?; let mut v = vec![]; for i in 0..n { let x = self.load(st, &Ty::Int(32), p + 4 * i)?; let t = self.vt(&x, 32)?; v.push((t, 32 * i as u32)); } Ok(self.push_z(st, ZE::Sum(Rc::new(v)))) }
            Bi::VsZU64 => { let t = self.vt(&av[0], 64)?; Ok(self.push_z(st, ZE::Bv(t))) }
            Bi::VsZAdd | Bi::VsZSub | Bi::VsZMul => { let (x, y) = (self.ze(st, &av[0])?, self.ze(st, &av[1])?); let z = match b { Bi::VsZAdd => ZE::Add(x, y), Bi::VsZSub => ZE::Sub(x, y), _ => ZE::Mul(x, y) }; Ok(self.push_z(st, z)) }
            Bi::VsZShl => { let x = self.ze(st, &av[0])?; let k = self.conc(st, &av[1], 32)? as u32; Ok(self.push_z(st, ZE::Mul(x, Rc::new(ZE::Cst(Z::pow2(k)))))) }
            Bi::VsZAssert => { let c = self.conc(st, &av[0], 32)?; let (x, y) = (self.ze(st, &av[1])?, self.ze(st, &av[2])?); let id = self.conc(st, &av[3], 32)? as u32; self.check_goal(st, Goal::Z(match c { 0 => ZCmp::Eq, 1 => ZCmp::Lt, _ => ZCmp::Le }, x, y), id)?; Ok(V::U) }
            _ => Err(Stop::Unsupported("builtin".into())),
        }
    }
    fn intrinsic(&mut self, st: &mut State, m: &Arc<Module>, i: I, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> X<V> {
        // element-wise on vectors
        if let (Some((Ty::Vec(e, n), _)), true) = (args.get(0), matches!(i, I::UMax | I::UMin | I::SMax | I::SMin | I::Ctlz | I::Cttz | I::Ctpop | I::Bswap | I::USubSat | I::UAddSat | I::Abs | I::Fshl | I::Fshr)) {
            let mut r = vec![];
            for k in 0..*n as usize {
                let a2: Vec<V> = av.iter().zip(args).map(|(v, (t, _))| if matches!(t, Ty::Vec(..)) { Self::lane(v, k) } else { v.clone() }).collect();
                let t2: Vec<(Ty, Opd)> = args.iter().map(|(t, o)| (if let Ty::Vec(e, _) = t { (**e).clone() } else { t.clone() }, o.clone())).collect();
                r.push(self.intrinsic(st, m, i, &t2, &a2, e)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = args.get(0).map(|a| a.0.bits()).unwrap_or(0);
        let two = |s: &mut Exec| -> X<(T, T)> { Ok((s.vt(&av[0], w)?, s.vt(&av[1], w)?)) };
        match i {
            I::Nop => Ok(V::U),
            I::Assume => { if let V::S(t) = av[0] { // facts the compiler derived; sound to rely on only where UB-free, so just ignore
                    let _ = t; } Ok(V::U) }
            I::Memcpy => {
                let n = self.conc(st, &av[2], args[2].0.bits())?; let d = self.conc(st, &av[0], 64)?; let s = self.conc(st, &av[1], 64)?;
                if n > 0 { let bs = Self::merr(st.mem.read_bytes(m, s, n))?; Self::merr(st.mem.write_bytes(m, d, &bs))?; }
                Ok(V::C(d))
            }
            I::Memset => {
                let n = self.conc(st, &av[2], args[2].0.bits())?; let d = self.conc(st, &av[0], 64)?;
                if n > 0 { let b = match &av[1] { V::C(x) => B::C(*x as u8), V::U => B::U, V::S(t) => { let t = *t; let t = self.tm.zresize(t, 8); B::S(t, 0) } _ => return Err(Stop::Unsupported("memset".into())) }; Self::merr(st.mem.write_bytes(m, d, &vec![b; n as usize]))?; }
                Ok(V::C(d))
            }
            I::UMax | I::UMin | I::SMax | I::SMin => { let (a, b) = two(self)?; let c = if matches!(i, I::UMax | I::UMin) { self.tm.ult(a, b) } else { self.tm.slt(a, b) }; let r = if matches!(i, I::UMax | I::SMax) { self.tm.ite(c, b, a) } else { self.tm.ite(c, a, b) }; Ok(self.tv(r)) }
            I::UAddO => { let (a, b) = two(self)?; let r = self.tm.add(a, b); let o = self.tm.carry(a, b); Ok(self.pair(r, o)) }
            I::USubO => { let (a, b) = two(self)?; let r = self.tm.sub(a, b); let o = self.tm.ult(a, b); Ok(self.pair(r, o)) }
            I::UMulO => {
                let (a, b) = two(self)?; let r = self.tm.mul(a, b);
                let fits = self.tm.umax(a).checked_mul(self.tm.umax(b)).map_or(false, |x| x <= mask(w));
                let o = if fits { self.tm.fls } else if w <= 64 { let (x, y) = (self.tm.zext(a, 2 * w), self.tm.zext(b, 2 * w)); let p = self.tm.mul(x, y); let h = self.tm.extract(2 * w - 1, w, p); let z = self.tm.cst(w, 0); self.tm.ne(h, z) }
                    else if let (Some(x), Some(y)) = (self.tm.as_const(a), self.tm.as_const(b)) { let o = x.checked_mul(y).is_none(); self.tm.b(o) } else { return Err(Stop::Unsupported("u128 mul overflow".into())) };
                Ok(self.pair(r, o))
            }
            I::SAddO | I::SSubO => { let (a, b) = two(self)?; if w > 127 { return Err(Stop::Unsupported("i128 overflow".into())); } let r = if i == I::SAddO { self.tm.add(a, b) } else { self.tm.sub(a, b) }; let (x, y) = (self.tm.sext(a, w + 1), self.tm.sext(b, w + 1)); let q = if i == I::SAddO { self.tm.add(x, y) } else { self.tm.sub(x, y) }; let e = self.tm.sext(r, w + 1); let o = self.tm.ne(q, e); Ok(self.pair(r, o)) }
            I::SMulO => { let (a, b) = two(self)?; if w > 64 { return Err(Stop::Unsupported("i128 overflow".into())); } let r = self.tm.mul(a, b); let (x, y) = (self.tm.sext(a, 2 * w), self.tm.sext(b, 2 * w)); let q = self.tm.mul(x, y); let e = self.tm.sext(r, 2 * w); let o = self.tm.ne(q, e); Ok(self.pair(r, o)) }
            I::USubSat => { let (a, b) = two(self)?; let c = self.tm.ult(a, b); let d = self.tm.sub(a, b); let z = self.tm.cst(w, 0); let r = self.tm.ite(c, z, d); Ok(self.tv(r)) }
            I::UAddSat => { let (a, b) = two(self)?; let c = self.tm.carry(a, b); let d = self.tm.add(a, b); let z = self.tm.cst(w, mask(w)); let r = self.tm.ite(c, z, d); Ok(self.tv(r)) }
            I::SAddSat | I::SSubSat => { let (a, b) = two(self)?; let r = if i == I::SAddSat { self.tm.add(a, b) } else { self.tm.sub(a, b) }; let (x, y) = (self.tm.sext(a, w + 1), self.tm.sext(b, w + 1)); let q = if i == I::SAddSat { self.tm.add(x, y) } else { self.tm.sub(x, y) }; let e = self.tm.sext(r, w + 1); let o = self.tm.ne(q, e); let s = self.tm.extract(w, w, q); let (mn, mx) = (self.tm.cst(w, 1u128 << (w - 1)), self.tm.cst(w, mask(w) >> 1)); let lim = self.tm.ite(s, mn, mx); let r = self.tm.ite(o, lim, r); Ok(self.tv(r)) }
            I::Ctlz | I::Cttz | I::Ctpop => {
                let a = self.vt(&av[0], w)?;
                if let Some(x) = self.tm.as_const(a) { let v = match i { I::Ctlz => (x << (128 - w)).leading_zeros().min(w), I::Cttz => x.trailing_zeros().min(w), _ => x.count_ones() }; let t = self.tm.cst(w, v as u128); return Ok(self.tv(t)); }
                let mut acc = if i == I::Ctpop { self.tm.cst(w, 0) } else { self.tm.cst(w, w as u128) };
                for k in 0..w {
                    let bi = match i { I::Ctlz => k, I::Cttz => w - 1 - k, _ => k };
                    let bit = self.tm.extract(bi, bi, a);
                    if i == I::Ctpop { let z = self.tm.zext(bit, w); acc = self.tm.add(acc, z); } else { let v = if i == I::Ctlz { w - 1 - bi } else { bi }; let kc = self.tm.cst(w, v as u128); acc = self.tm.ite(bit, kc, acc); }
                }
                Ok(self.tv(acc))
            }
            I::Bswap => { let a = self.vt(&av[0], w)?; let mut acc: Option<T> = None; for k in 0..w / 8 { let e = self.tm.extract(8 * k + 7, 8 * k, a); acc = Some(match acc { None => e, Some(h) => self.tm.concat(h, e) }); } Ok(self.tv(acc.unwrap())) }
            I::BitRev => { let a = self.vt(&av[0], w)?; let mut acc: Option<T> = None; for k in 0..w { let e = self.tm.extract(k, k, a); acc = Some(match acc { None => e, Some(h) => self.tm.concat(h, e) }); } Ok(self.tv(acc.unwrap())) }
            I::Fshl | I::Fshr => {
                let (a, b) = two(self)?; let s = self.vt(&av[2], w)?;
                let wc = self.tm.cst(w, w as u128); let s = self.tm.urem(s, wc);
                let inv = self.tm.sub(wc, s); let z = self.tm.cst(w, 0); let s0 = self.tm.eq(s, z);
                let r = if i == I::Fshl { let x = self.tm.shl(a, s); let y = self.tm.lshr(b, inv); let o = self.tm.or(x, y); self.tm.ite(s0, a, o) } else { let x = self.tm.shl(a, inv); let y = self.tm.lshr(b, s); let o = self.tm.or(x, y); self.tm.ite(s0, b, o) };
                Ok(self.tv(r))
            }
            I::Ucmp | I::Scmp => { let (a, b) = two(self)?; let rw = ret.bits(); let l = if i == I::Ucmp { self.tm.ult(a, b) } else { self.tm.slt(a, b) }; let e = self.tm.eq(a, b); let (m1, z, o) = (self.tm.cst(rw, mask(rw)), self.tm.cst(rw, 0), self.tm.cst(rw, 1)); let q = self.tm.ite(e, z, o); let r = self.tm.ite(l, m1, q); Ok(self.tv(r)) }
            I::Abs => { let a = self.vt(&av[0], w)?; let s = self.tm.extract(w - 1, w - 1, a); let n = self.tm.neg(a); let r = self.tm.ite(s, n, a); Ok(self.tv(r)) }
            I::IsConst => Ok(V::C(0)),
            I::TlAddr | I::VLaunder | I::Expect => Ok(av[0].clone()),
            I::Trap => Err(Stop::Panic("trap".into())),
            I::AddCarry | I::SubBorrow => {
                let w = args[1].0.bits();
                let c = self.vt(&av[0], 8)?; let (a, b) = (self.vt(&av[1], w)?, self.vt(&av[2], w)?);
                let z8 = self.tm.cst(8, 0); let cin = self.tm.ne(c, z8);
                let (x, y, ci) = (self.tm.zext(a, w + 1), self.tm.zext(b, w + 1), self.tm.zext(cin, w + 1));
                let (lo, cout);
                if i == I::AddCarry { let s = self.tm.add(x, y); let s = self.tm.add(s, ci); lo = self.tm.extract(w - 1, 0, s); cout = self.tm.extract(w, w, s); }
                else { let k = self.tm.cst(w + 1, 1u128 << w); let x = self.tm.add(x, k); let y = self.tm.add(y, ci); let s = self.tm.sub(x, y); lo = self.tm.extract(w - 1, 0, s); let t = self.tm.extract(w, w, s); cout = self.tm.not(t); }
                let c8 = self.tm.zext(cout, 8);
                Ok(V::A(Rc::new(vec![self.tv(c8), self.tv(lo)])))
            }
            I::RdRand => {
                // rdrand / rdseed: the next outcome given by the harness (value, success); a failing instruction leaves 0
                let rw = if let Ty::Struct(f, _) = ret { f[0].bits() } else { 64 };
                let (v, k) = match st.hw.get(st.hw_pos) { Some(&x) => x, None => return Err(Stop::Infeasible) };
                st.hw_pos += 1;
                let v = if rw < 64 { self.tm.extract(rw - 1, 0, v) } else { v };
                let z = self.tm.cst(rw, 0); let v = self.tm.ite(k, v, z); let k = self.tm.zext(k, 32);
                Ok(V::A(Rc::new(vec![self.tv(v), self.tv(k)])))
            }
            I::MaskStore => {
                // (value, ptr, [align,] mask)
                let mi = args.len() - 1; let p = self.conc(st, &av[1], 64)?; let (e, n) = if let Ty::Vec(e, n) = &args[0].0 { ((**e).clone(), *n) } else { return Err(Stop::Unsupported("masked.store".into())) };
                for k in 0..n as usize { let mk = Self::lane(&av[mi], k); let t = self.conc(st, &mk, 1)?; if t & 1 == 1 { let v = Self::lane(&av[0], k); self.store(st, &e, &v, p + e.store_size() * k as u64)?; } }
                Ok(V::U)
            }
            I::MaskedStoreX86 => {
                // (ptr, mask, value)
                let p = self.conc(st, &av[0], 64)?; let (e, n) = if let Ty::Vec(e, n) = &args[2].0 { ((**e).clone(), *n) } else { return Err(Stop::Unsupported("maskstore".into())) };
                for k in 0..n as usize { let mk = Self::lane(&av[1], k); let t = self.conc(st, &mk, e.bits())?; if t >> (e.bits() - 1) & 1 == 1 { let v = Self::lane(&av[2], k); self.store(st, &e, &v, p + e.store_size() * k as u64)?; } }
                Ok(V::U)
            }
            I::Fabs => { let k = V::C(mask(w - 1) as u64); self.bin(Bin::And, &Ty::Int(w), &av[0], &k) }
            I::CopySign => { let k = V::C(mask(w - 1) as u64); let a = self.bin(Bin::And, &Ty::Int(w), &av[0], &k)?; let s = self.bin(Bin::And, &Ty::Int(w), &av[1], &V::C(1u64 << (w - 1)))?; self.bin(Bin::Or, &Ty::Int(w), &a, &s) }
            I::FpClass => {
                let k = match av[1] { V::C(k) => k, _ => return Err(Stop::Unsupported("fpclass mask".into())) };
                let x = self.vt(&av[0], w)?; let mb = if w == 64 { 52 } else { 23 };
                let tm = &mut self.tm;
                let n = w - 1;
                let (m, s) = (tm.extract(n - 1, 0, x), tm.extract(n, n, x)); let ns = tm.not(s);
                let inf = (mask(n) >> mb) << mb;
                let (z, one, mn, inf, q) = (tm.cst(n, 0), tm.cst(n, 1), tm.cst(n, 1 << mb), tm.cst(n, inf), tm.cst(n, inf | 1 << (mb - 1)));
                let is0 = tm.eq(m, z); let isinf = tm.eq(m, inf);
                let (ge1, ltn, gen, lti, gti, geq) = (tm.ule(one, m), tm.ult(m, mn), tm.ule(mn, m), tm.ult(m, inf), tm.ult(inf, m), tm.ule(q, m));
                let sub = tm.and(ge1, ltn); let nor = tm.and(gen, lti); let ltq = tm.not(geq); let snan = tm.and(gti, ltq);
                let c = [snan, geq, isinf, nor, sub, is0, is0, sub, nor, isinf];
                let mut r = tm.fls;
                for b in 0..10 { if k >> b & 1 == 1 { let t = if b < 2 { c[b] } else if b < 6 { tm.and(c[b], s) } else { tm.and(c[b], ns) }; r = tm.or(r, t); } }
                Ok(self.tv(r))
            }
            I::Fmath(k) => {
                let g = |x: u64| { let f = |x: f64| match k { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.sqrt(), 4 => x.log2(), 5 => x.log10(), 6 => x.ln(), _ => x.round() }; if w == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 } };
                if let V::C(x) = av[0] { return Ok(V::C(g(x))); }
                let t = self.vt(&av[0], w)?;
                match self.tm.tab_map2(w, t, t, |x, _| g(x as u64) as u128) { Some(r) => Ok(self.tv(r)), None => Err(Stop::Unsupported("symbolic float function".into())) }
            }
            I::RedAdd | I::RedOr | I::RedAnd | I::RedUmax | I::RedUmin => {
                let (e, n) = if let Ty::Vec(e, n) = &args[0].0 { (e.bits(), *n) } else { return Err(Stop::Unsupported("reduce".into())) };
                let mut acc = self.vt(&Self::lane(&av[0], 0), e)?;
                for k in 1..n as usize { let x = self.vt(&Self::lane(&av[0], k), e)?; acc = match i { I::RedAdd => self.tm.add(acc, x), I::RedOr => self.tm.or(acc, x), I::RedAnd => self.tm.and(acc, x), I::RedUmax => { let c = self.tm.ult(acc, x); self.tm.ite(c, x, acc) } _ => { let c = self.tm.ult(acc, x); self.tm.ite(c, acc, x) } }; }
                Ok(self.tv(acc))
            }
            I::FpToUiSat | I::FpToSiSat => {
                let rw = ret.bits();
                let g = |x: u64| { let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; if i == I::FpToUiSat { if rw == 64 { f as u64 } else { (f as u64).min(mask(rw) as u64) } } else { if rw == 64 { f as i64 as u64 } else { (f as i64).max(-(1 << (rw - 1))).min((1 << (rw - 1)) - 1) as u64 & mask(rw) as u64 } } };
                if let V::C(x) = av[0] { return Ok(V::C(g(x))); }
                let t = self.vt(&av[0], w)?;
                match self.tm.tab_map2(rw, t, t, |x, _| g(x as u64) as u128) { Some(r) => Ok(self.tv(r)), None => Err(Stop::Unsupported("symbolic float conversion".into())) }
            }
            _ => Err(Stop::Unsupported(format!("intrinsic {:?}", i))),
        }
    }
    fn pair(&self, r: T, o: T) -> V { V::A(Rc::new(vec![self.tv(r), self.tv(o)])) }
}
fn fxh(s: &str) -> u32 { let mut h = 0u32; for b in s.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u32); } h & 0x7fff_ffff }
fn insert(ty: &Ty, v: &V, x: V, ix: &[u32]) -> V {
    if ix.is_empty() { return x; }
    let mut a: Vec<V> = match v { V::A(a) => (**a).clone(), _ => vec![V::U; match ty { Ty::Arr(_, n) => *n as usize, Ty::Vec(_, n) => *n as usize, Ty::Struct(f, _) => f.len(), _ => 0 }] };
    let i = ix[0] as usize;
    a[i] = insert(ty.elem(i), &a[i].clone(), x, &ix[1..]);
    V::A(Rc::new(a))
}
