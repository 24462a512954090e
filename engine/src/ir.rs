//! Parser for textual LLVM IR (the subset rustc emits).
use crate::term::FxMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(Box<Ty>, u64), Vec(Box<Ty>, u32), Struct(Vec<Ty>, bool), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; if *w > 64 { (b + 15) / 16 * 16 } else { b.next_power_of_two() } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => if let Ty::Int(1) = **t { ((*n as u64) + 7) / 8 } else { t.store_size() * *n as u64 },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
        }
    }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => self.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(32),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(t, _) => t.size() * i as u64,
            Ty::Vec(t, _) => t.store_size() * i as u64,
            _ => 0,
        }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
    pub fn elems(&self) -> Vec<&Ty> {
        match self { Ty::Arr(t, n) => (0..*n).map(|_| &**t).collect(), Ty::Vec(t, n) => (0..*n).map(|_| &**t).collect(), Ty::Struct(f, _) => f.iter().collect(), _ => vec![] }
    }
    pub fn elem(&self, i: usize) -> &Ty { match self { Ty::Arr(t, _) | Ty::Vec(t, _) => t, Ty::Struct(f, _) => &f[i], _ => panic!("elem of {:?}", self) } }
}

#[derive(Clone, Debug)]
pub enum K { I(u64), W(u32, u128), Agg(Vec<K>), Undef, Zero }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(K) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Asm }

#[derive(Clone, Debug)]
pub enum IK {
    Bin(Bin, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Alloca(u64, u64),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Opd, Opd, u32, Vec<i32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Nop,
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: IK }
pub const NODST: u32 = u32::MAX;

pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }
pub struct Func { pub name: String, pub params: Vec<u32>, pub ret: Ty, pub nregs: u32, pub blocks: Vec<Block>, pub err: Option<String>, pub addr: u64, pub declared_only: bool }
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub align: u64, pub init: Vec<u8>, pub undef: bool, pub ro: bool }

pub struct Module { pub funcs: Vec<Func>, pub fidx: FxMap<String, u32>, pub globals: Vec<Global>, pub fn_by_addr: FxMap<u64, u32> }

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;

struct P<'a> { s: &'a [u8], i: usize, m: &'a Names, }
struct Names { types: FxMap<String, Ty>, addr: FxMap<String, u64>, fidx: FxMap<String, u32> }
type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t' || self.comment()) { self.i += 1; } }
    /// at a comment: step to its last character
    fn comment(&mut self) -> bool { if self.s[self.i..].starts_with(b"/*") { if let Some(k) = self.s[self.i..].windows(2).position(|w| w == b"*/") { self.i += k + 1; return true; } } false }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at '{}'", c as char, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]).to_string() }
    fn is_w(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && Self::is_w(self.s[j]) { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap_or("")
    }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    fn name(&mut self) -> R<String> { // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1; let mut j = st;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            return Ok(String::from_utf8_lossy(&self.s[st..j]).to_string());
        }
        let w = self.peek_word();
        if w.is_empty() { return Err(format!("name at {}", self.rest())); }
        self.i += w.len();
        Ok(w.to_string())
    }
    fn skip_balanced(&mut self) { // at '('
        let mut d = 0;
        let mut inq = false;
        while self.i < self.s.len() {
            let c = self.s[self.i]; self.i += 1;
            if c == b'"' { inq = !inq; }
            if inq { continue; }
            if c == b'(' || c == b'[' || c == b'{' || c == b'<' { d += 1; }
            if c == b')' || c == b']' || c == b'}' || c == b'>' { d -= 1; if d == 0 { return; } }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let mut t = self.ty0()?;
        // function type:  ret (args)
        loop {
            if self.peek() == b'(' && false { self.skip_balanced(); t = Ty::Other; } else { break; }
        }
        Ok(t)
    }
    fn ty0(&mut self) -> R<Ty> {
        match self.peek() {
            b'[' => { self.i += 1; let n: u64 = self.word().parse().map_err(|_| "arr n".to_string())?; self.eat_word("x"); let t = self.ty()?; self.expect(b']')?; Ok(Ty::Arr(Box::new(t), n)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let f = self.ty_list(b'}')?; self.expect(b'>')?; return Ok(Ty::Struct(f, true)); }
                let n: u32 = self.word().parse().map_err(|_| "vec n".to_string())?; self.eat_word("x"); let t = self.ty()?; self.expect(b'>')?; Ok(Ty::Vec(Box::new(t), n))
            }
            b'{' => { self.i += 1; let f = self.ty_list(b'}')?; Ok(Ty::Struct(f, false)) }
            b'%' => { self.i += 1; let n = self.name()?; self.m.types.get(&n).cloned().ok_or(format!("type {}", n)) }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ok(Ty::Void), "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.skip_balanced(); } Ok(Ty::Ptr) }
                    "float" => Ok(Ty::F32), "double" => Ok(Ty::F64),
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ok(Ty::Other),
                    _ if w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| format!("type {}", w)),
                    _ => Err(format!("type '{}' at {}", w, self.rest())),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat(b',') { continue; } self.expect(end)?; return Ok(v); }
    }
    /// constant of type ty
    fn konst(&mut self, ty: &Ty) -> R<K> {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; let n = self.name()?; let a = *self.m.addr.get(&n).ok_or(format!("global {}", n))?; return Ok(K::I(a)); }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' { v.push(K::I(b'\\' as u64)); self.i += 2; continue; }
                        v.push(K::I(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)); self.i += 3;
                    } else { v.push(K::I(self.s[self.i] as u64)); self.i += 1; }
                }
                self.i += 1;
                return Ok(K::Agg(v));
            }
            b'[' | b'{' => { self.i += 1; return self.klist(if c == b'[' { b']' } else { b'}' }); }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') { let r = self.klist(b'}')?; self.expect(b'>')?; return Ok(r); }
                return self.klist(b'>');
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "zeroinitializer" => return Ok(match ty { Ty::Int(w) if *w > 64 => K::W(*w, 0), t if t.is_scalar() => K::I(0), _ => K::Zero }),
            "null" => return Ok(K::I(0)), "none" => return Ok(K::I(0)),
            "undef" | "poison" => return Ok(K::Undef),
            "true" => return Ok(K::I(1)), "false" => return Ok(K::I(0)),
            "splat" => { self.expect(b'(')?; let t = self.ty()?; let k = self.konst(&t)?; self.expect(b')')?; if let Ty::Vec(_, n) = ty { return Ok(K::Agg(vec![k; *n as usize])); } return Err("splat".into()); }
            "getelementptr" => {
                loop { let w = self.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw") { self.word(); continue; } if w == "inrange" { self.word(); self.skip_balanced(); continue; } break; }
                self.expect(b'(')?;
                let t = self.ty()?; self.expect(b',')?;
                self.ty()?; let base = self.konst(&Ty::Ptr)?;
                let mut off = 0i64; let mut cur = t; let mut first = true;
                while self.eat(b',') {
                    let it = self.ty()?; let k = self.konst(&it)?;
                    let n = match k { K::I(x) => crate::term::sx(x as u128, it.bits()) as i64, _ => return Err("gep const".into()) };
                    if first { off += n * cur.size() as i64; first = false; } else { off += cur.field_off(n as usize) as i64; let e = cur.elem(n as usize).clone(); cur = e; }
                }
                self.expect(b')')?;
                if let K::I(b) = base { return Ok(K::I(b.wrapping_add(off as u64))); }
                return Err("gep base".into());
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                self.expect(b'(')?; let t = self.ty()?; let k = self.konst(&t)?; self.eat_word("to"); let t2 = self.ty()?; self.expect(b')')?;
                if let K::I(x) = k { return Ok(K::I(x & crate::term::mask(t2.bits()) as u64)); }
                return Ok(k);
            }
            "sub" | "add" | "xor" | "mul" => {
                loop { let w = self.peek_word(); if matches!(w, "nuw" | "nsw") { self.word(); } else { break; } }
                self.expect(b'(')?; let t = self.ty()?; let a = self.konst(&t)?; self.expect(b',')?; let t2 = self.ty()?; let b = self.konst(&t2)?; self.expect(b')')?;
                if let (K::I(a), K::I(b)) = (a, b) { let m = crate::term::mask(t.bits()) as u64; return Ok(K::I(m & match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b })); }
                return Err("const arith".into());
            }
            _ => {}
        }
        match ty {
            Ty::Int(n) => {
                if let Ok(x) = w.parse::<i128>() { return Ok(if *n <= 64 { K::I((x as u128 & crate::term::mask(*n)) as u64) } else { K::W(*n, x as u128 & crate::term::mask(*n)) }); }
                if let Ok(x) = w.parse::<u128>() { return Ok(K::W(*n, x & crate::term::mask(*n))); }
                Err(format!("int const {}", w))
            }
            Ty::F64 | Ty::F32 => {
                if let Some(h) = w.strip_prefix("f0x") { return u64::from_str_radix(h, 16).map(K::I).map_err(|e| e.to_string()); }
                let f: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else {
                    let mut s = w.to_string();
                    if self.s.get(self.i) == Some(&b'+') { self.i += 1; s.push('+'); s.push_str(self.word()); }
                    match s.as_str() { "+qnan" | "qnan" => f64::NAN, "-qnan" => -f64::NAN, "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => s.parse().map_err(|_| format!("float {}", s))? }
                };
                Ok(K::I(if *ty == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 }))
            }
            _ => Err(format!("const '{}' of {:?} at {}", w, ty, self.rest())),
        }
    }
    fn klist(&mut self, end: u8) -> R<K> {
        let mut v = vec![];
        if self.eat(end) { return Ok(K::Agg(v)); }
        loop { let t = self.ty()?; v.push(self.konst(&t)?); if self.eat(b',') { continue; } self.expect(end)?; return Ok(K::Agg(v)); }
    }
}

fn expand(k: K, t: &Ty) -> K {
    match (k, t) {
        (K::Zero, Ty::Arr(e, n)) => K::Agg((0..*n).map(|_| expand(K::Zero, e)).collect()),
        (K::Zero, Ty::Vec(e, n)) => K::Agg((0..*n).map(|_| expand(K::Zero, e)).collect()),
        (K::Zero, Ty::Struct(f, _)) => K::Agg(f.iter().map(|e| expand(K::Zero, e)).collect()),
        (K::Zero, Ty::Int(w)) if *w > 64 => K::W(*w, 0),
        (K::Zero, _) => K::I(0),
        (K::Agg(v), t) => K::Agg(v.into_iter().enumerate().map(|(i, x)| expand(x, t.elem(i))).collect()),
        (k, _) => k,
    }
}
fn write_const(k: &K, t: &Ty, out: &mut [u8], undef: &mut bool) {
    match k {
        K::I(x) => { let n = t.store_size() as usize; out[..n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]); }
        K::W(_, x) => { let n = t.store_size() as usize; out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
        K::Zero => {}
        K::Undef => { *undef = true; }
        K::Agg(v) => for (i, e) in v.iter().enumerate() { let o = t.field_off(i) as usize; let et = t.elem(i); write_const(e, et, &mut out[o..], undef); },
    }
}

pub struct FP<'a> { p: P<'a>, regs: FxMap<String, u32>, blocks: FxMap<String, u32>, nreg: u32 }

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 { if let Some(&r) = self.regs.get(&n) { return r; } let r = self.nreg; self.nreg += 1; self.regs.insert(n, r); r }
    fn opd(&mut self, t: &Ty) -> R<Opd> {
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name()?; return Ok(Opd::R(self.reg(n))); }
        let k = self.p.konst(t)?;
        Ok(Opd::K(expand(k, t)))
    }
    fn topd(&mut self) -> R<(Ty, Opd)> { let t = self.p.ty()?; let o = self.opd(&t)?; Ok((t, o)) }
    fn label(&mut self) -> R<u32> { self.p.eat_word("label"); self.p.expect(b'%')?; let n = self.p.name()?; self.blocks.get(&n).copied().ok_or(format!("label {}", n)) }
    fn flags(&mut self) { loop { match self.p.peek_word() { "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "weak" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => { self.p.word(); } "inrange" => { self.p.word(); self.p.skip_balanced(); } _ => break } } }
    fn attrs(&mut self) { // param / return attributes
        loop {
            let w = self.p.peek_word();
            match w {
                "align" => { self.p.word(); if self.p.peek() == b'(' { self.p.skip_balanced(); } else { self.p.word(); } }
                "noundef" | "nonnull" | "zeroext" | "signext" | "noalias" | "readonly" | "readnone" | "writeonly" | "writable" | "nocapture" | "returned" | "immarg" | "inreg" | "nofree" | "nest" | "swiftself" | "dead_on_unwind" | "allocptr" | "allocalign" | "noext" | "dead_on_return"
                | "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "inalloca" | "swifterror" => { self.p.word(); if w == "dead_on_return" && self.p.peek() == b'(' { self.p.skip_balanced(); } }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval" | "initializes" | "elementtype" | "nofpclass" | "byref" | "preallocated" | "addrspace" | "memory" => { self.p.word(); if self.p.peek() == b'(' { self.p.skip_balanced(); } }
                _ => break,
            }
        }
    }
    fn call(&mut self, invoke: bool) -> R<IK> {
        self.flags();
        self.attrs();
        let ret = self.p.ty()?;
        if self.p.peek() == b'(' { self.p.skip_balanced(); } // explicit fn type
        let callee;
        if self.p.peek_word() == "asm" {
            loop { let c = self.p.peek(); if c == b'(' { break; } if c == b'"' { self.p.i += 1; while self.p.s[self.p.i] != b'"' { self.p.i += 1; } self.p.i += 1; } else { self.p.i += 1; } }
            callee = Callee::Asm;
        } else if self.p.peek() == b'@' {
            self.p.i += 1; let n = self.p.name()?;
            callee = match self.p.m.fidx.get(&n) { Some(&f) => Callee::Direct(f), None => { let a = *self.p.m.addr.get(&n).ok_or(format!("callee {}", n))?; Callee::Indirect(Opd::K(K::I(a))) } };
        } else { callee = Callee::Indirect(self.opd(&Ty::Ptr)?); }
        self.p.expect(b'(')?;
        let mut args = vec![];
        if !self.p.eat(b')') {
            loop {
                let t = self.p.ty()?;
                if t == Ty::Other { // metadata argument
                    let mut d = 0;
                    loop { let c = self.p.peek(); if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' { d += 1 } if c == b')' { d -= 1 } if c == 0 { break; } self.p.i += 1; }
                    args.push((Ty::Other, Opd::K(K::I(0))));
                } else {
                    self.attrs();
                    let o = self.opd(&t)?;
                    args.push((t, o));
                }
                if self.p.eat(b',') { continue; }
                self.p.expect(b')')?;
                break;
            }
        }
        let mut normal = None;
        if invoke {
            // ... to label %x unwind label %y
            let s = std::str::from_utf8(&self.p.s[self.p.i..]).unwrap_or("");
            if let Some(k) = s.find("to label %") { self.p.i += k + 3; normal = Some(self.label()?); } else { return Err("invoke".into()); }
        }
        Ok(IK::Call(callee, args, ret, normal))
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = NODST;
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name()?; dst = self.reg(n); self.p.expect(b'=')?; }
        let w = self.p.word().to_string();
        let k = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let (t, a) = self.topd()?; self.p.expect(b',')?; let b = self.opd(&t)?;
                use Bin::*;
                let op = match w.as_str() { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, "ashr" => AShr, "fadd" => FAdd, "fsub" => FSub, "fmul" => FMul, "fdiv" => FDiv, _ => FRem };
                IK::Bin(op, t, a, b)
            }
            "fneg" => { self.flags(); let (t, a) = self.topd()?; IK::FNeg(t, a) }
            "icmp" => {
                self.flags();
                use Pred::*;
                let p = match self.p.word() { "eq" => Eq, "ne" => Ne, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "sgt" => Sgt, "sge" => Sge, "slt" => Slt, "sle" => Sle, x => return Err(format!("icmp {}", x)) };
                let (t, a) = self.topd()?; self.p.expect(b',')?; let b = self.opd(&t)?;
                IK::ICmp(p, t, a, b)
            }
            "fcmp" => { self.flags(); let p = self.p.word().to_string(); let (t, a) = self.topd()?; self.p.expect(b',')?; let b = self.opd(&t)?; IK::FCmp(p, t, a, b) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.flags();
                let (t, a) = self.topd()?; self.p.eat_word("to"); let t2 = self.p.ty()?;
                use CastOp::*;
                let op = match w.as_str() { "trunc" => Trunc, "zext" => ZExt, "sext" => SExt, "ptrtoint" | "ptrtoaddr" => PtrToInt, "inttoptr" => IntToPtr, "bitcast" => BitCast, "fptoui" => FpToUi, "fptosi" => FpToSi, "uitofp" => UiToFp, "sitofp" => SiToFp, "fpext" => FpExt, _ => FpTrunc };
                IK::Cast(op, t, t2, a)
            }
            "select" => { self.flags(); let (ct, c) = self.topd()?; self.p.expect(b',')?; let (t, a) = self.topd()?; self.p.expect(b',')?; let (_, b) = self.topd()?; IK::Select(ct, t, c, a, b) }
            "load" => { self.p.eat_word("atomic"); self.flags(); let t = self.p.ty()?; self.p.expect(b',')?; let (_, p) = self.topd()?; IK::Load(t, p) }
            "store" => { self.p.eat_word("atomic"); self.flags(); let (t, v) = self.topd()?; self.p.expect(b',')?; let (_, p) = self.topd()?; IK::Store(t, v, p) }
            "getelementptr" => {
                self.flags();
                let t = self.p.ty()?; self.p.expect(b',')?;
                let (bt, base) = self.topd()?;
                if bt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off = 0i64; let mut terms = vec![]; let mut cur = t; let mut first = true;
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' { break; }
                    let (it, o) = self.topd()?;
                    if first {
                        match o { Opd::K(K::I(x)) => off = off.wrapping_add((crate::term::sx(x as u128, it.bits()) as i64).wrapping_mul(cur.size() as i64)), o => terms.push((o, it.bits(), cur.size() as i64)) }
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => { let n = if let Opd::K(K::I(x)) = o { x as usize } else { return Err("gep struct".into()) }; off += cur.field_off(n) as i64; cur = cur.elem(n).clone(); }
                            Ty::Arr(e, _) | Ty::Vec(e, _) => { let es = e.size() as i64; match o { Opd::K(K::I(x)) => off += crate::term::sx(x as u128, it.bits()) as i64 * es, o => terms.push((o, it.bits(), es)) } cur = (**e).clone(); }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                }
                IK::Gep(base, off, terms)
            }
            "alloca" => {
                self.flags();
                let t = self.p.ty()?; let mut n = 1u64; let mut al = t.align();
                while self.p.eat(b',') {
                    if self.p.eat_word("align") { al = self.p.word().parse().unwrap_or(8); } else if self.p.peek() == b'!' { break; } else { let (_, o) = self.topd()?; if let Opd::K(K::I(x)) = o { n = x } else { return Err("dyn alloca".into()) } }
                }
                IK::Alloca(t.size() * n, al)
            }
            "tail" | "musttail" | "notail" => { self.p.eat_word("call"); self.call(false)? }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "extractvalue" => { let (_, a) = self.topd()?; let mut ix = vec![]; while self.p.eat(b',') { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().map_err(|_| "ev")?); } IK::ExtractValue(a, ix) }
            "insertvalue" => { let (t, a) = self.topd()?; self.p.expect(b',')?; let (_, b) = self.topd()?; let mut ix = vec![]; while self.p.eat(b',') { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().map_err(|_| "iv")?); } IK::InsertValue(t, a, b, ix) }
            "extractelement" => { let (_, a) = self.topd()?; self.p.expect(b',')?; let (_, i) = self.topd()?; IK::ExtractElem(a, i) }
            "insertelement" => { let (t, a) = self.topd()?; self.p.expect(b',')?; let (_, b) = self.topd()?; self.p.expect(b',')?; let (_, i) = self.topd()?; IK::InsertElem(t, a, b, i) }
            "shufflevector" => {
                let (t, a) = self.topd()?; self.p.expect(b',')?; let (_, b) = self.topd()?; self.p.expect(b',')?;
                let mt = self.p.ty()?; let mk = self.p.konst(&mt)?;
                let n = if let Ty::Vec(_, n) = t { n } else { return Err("shuffle".into()) };
                let mn = if let Ty::Vec(_, n) = mt { n } else { return Err("shuffle".into()) };
                let ix = match mk { K::Zero => vec![0; mn as usize], K::Undef => vec![-1; mn as usize], K::Agg(v) => v.iter().map(|k| if let K::I(x) = k { *x as u32 as i32 } else { -1 }).collect(), _ => return Err("shuffle mask".into()) };
                IK::Shuffle(a, b, n, ix)
            }
            "br" => {
                if self.p.peek_word() == "label" { IK::Br(self.label()?) } else { let (_, c) = self.topd()?; self.p.expect(b',')?; let a = self.label()?; self.p.expect(b',')?; let b = self.label()?; IK::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, v) = self.topd()?; self.p.expect(b',')?; let d = self.label()?; self.p.expect(b'[')?;
                let mut cs = vec![];
                while !self.p.eat(b']') { let ct = self.p.ty()?; let k = self.p.konst(&ct)?; self.p.expect(b',')?; let l = self.label()?; match k { K::I(x) => cs.push((x, l)), _ => return Err("wide switch".into()) } }
                IK::Switch(t.bits(), v, d, cs)
            }
            "ret" => { let t = self.p.ty()?; if t == Ty::Void { IK::Ret(None) } else { IK::Ret(Some(self.opd(&t)?)) } }
            "unreachable" | "landingpad" | "resume" | "cleanuppad" => IK::Unreachable,
            "fence" => IK::Nop,
            "freeze" => { let (_, a) = self.topd()?; IK::Freeze(a) }
            "atomicrmw" => { self.flags(); let op = self.p.word().to_string(); let (_, p) = self.topd()?; self.p.expect(b',')?; let (t, v) = self.topd()?; IK::AtomicRmw(op, t, p, v) }
            "cmpxchg" => { self.flags(); let (_, p) = self.topd()?; self.p.expect(b',')?; let (t, c) = self.topd()?; self.p.expect(b',')?; let (_, n) = self.topd()?; IK::CmpXchg(t, p, c, n) }
            _ => return Err(format!("instruction '{}'", w)),
        };
        Ok(Inst { dst, k })
    }
}

fn find_name(line: &str) -> Option<(String, usize)> { // function name after first '@' ; returns (name, index just after name)
    let at = line.find('@')?;
    let b = line.as_bytes();
    if b[at + 1] == b'"' { let e = line[at + 2..].find('"')? + at + 2; Some((line[at + 2..e].to_string(), e + 1)) }
    else { let mut e = at + 1; while e < b.len() && P::is_w(b[e]) { e += 1; } Some((line[at + 1..e].to_string(), e)) }
}

pub fn parse(text: &str) -> Module {
    let mut names = Names { types: FxMap::default(), addr: FxMap::default(), fidx: FxMap::default() };
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let mut funcs: Vec<Func> = vec![];
    let mut fbody: Vec<Option<(usize, usize)>> = vec![];
    let mut globs: Vec<(String, &str)> = vec![];
    let mut tydefs = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define") || l.starts_with("declare") {
            if let Some((n, _)) = find_name(l) {
                let a = FN_BASE + 16 * funcs.len() as u64;
                names.addr.insert(n.clone(), a); names.fidx.insert(n.clone(), funcs.len() as u32);
                funcs.push(Func { name: n, params: vec![], ret: Ty::Void, nregs: 0, blocks: vec![], err: None, addr: a, declared_only: l.starts_with("declare") });
                if l.starts_with("define") { let st = i; while lines[i] != "}" { i += 1; } fbody.push(Some((st, i))); } else { fbody.push(None); }
            }
        } else if l.starts_with('@') { globs.push((find_name(l).unwrap().0, l)); }
        else if l.starts_with('%') { tydefs.push(l); }
        i += 1;
    }
    for l in tydefs { if let Some((a, b)) = l.split_once(" = type ") { let mut p = P { s: b.as_bytes(), i: 0, m: &names }; if let Ok(t) = p.ty() { let n = a[1..].trim_matches('"').to_string(); drop(p); names.types.insert(n, t); } } }
    // layout of globals
    let mut globals = vec![];
    let mut addr = GLOB_BASE;
    let mut pend: Vec<(usize, Ty, &str, usize)> = vec![];
    let mut aliases = vec![];
    for (n, l) in &globs {
        let eq = l.find(" = ").unwrap() + 3;
        let mut p = P { s: l.as_bytes(), i: eq, m: &names };
        let mut ro = false; let mut ext = false; let mut ok = false; let mut is_alias = false;
        loop {
            let w = p.peek_word();
            match w {
                "global" => { p.word(); ok = true; break; }
                "constant" => { p.word(); ro = true; ok = true; break; }
                "alias" | "ifunc" => { p.word(); is_alias = true; break; }
                "external" | "extern_weak" => { p.word(); ext = true; }
                "thread_local" => { p.word(); if p.peek() == b'(' { p.skip_balanced(); } }
                "addrspace" => { p.word(); p.skip_balanced(); }
                "" => break,
                _ => { p.word(); }
            }
        }
        if is_alias { aliases.push((n.clone(), *l, p.i)); continue; }
        if !ok { continue; }
        let t = match p.ty() { Ok(t) => t, Err(_) => continue };
        let mut al = t.align().max(8);
        if let Some(k) = l.rfind(", align ") { let s: String = l[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect(); al = s.parse().unwrap_or(8); }
        let sz = t.size(); let pi = p.i;
        addr = (addr + al - 1) / al * al;
        names.addr.insert(n.clone(), addr);
        globals.push(Global { name: n.clone(), addr, size: sz, align: al, init: vec![0; sz as usize], undef: false, ro });
        if !ext { pend.push((globals.len() - 1, t, l, pi)); }
        addr += sz + 16;
    }
    for (n, l, pos) in aliases { let mut p = P { s: l.as_bytes(), i: pos, m: &names }; let t = p.ty(); if t.is_ok() { p.expect(b',').ok(); if p.ty().is_ok() { if let Ok(K::I(a)) = p.konst(&Ty::Ptr) { names.addr.insert(n, a); } } } }
    for (gi, t, l, pos) in pend {
        let mut p = P { s: l.as_bytes(), i: pos, m: &names };
        match p.konst(&t) { Ok(k) => { let g = &mut globals[gi]; let mut u = false; write_const(&k, &t, &mut g.init, &mut u); g.undef = u; } Err(_e) => { globals[gi].undef = true; } }
    }
    // functions
    for (fi, b) in fbody.iter().enumerate() {
        let (st, en) = match b { Some(x) => *x, None => continue };
        let r = parse_fn(&lines[st..en], &names, &mut funcs[fi]);
        if let Err(e) = r { funcs[fi].err = Some(e); }
    }
    let mut fn_by_addr = FxMap::default();
    for (i, f) in funcs.iter().enumerate() { fn_by_addr.insert(f.addr, i as u32); }
    Module { funcs, fidx: names.fidx, globals, fn_by_addr }
}

fn parse_fn(lines: &[&str], names: &Names, f: &mut Func) -> R<()> {
    let hdr = lines[0];
    let (_, pos) = find_name(hdr).unwrap();
    let mut fp = FP { p: P { s: hdr.as_bytes(), i: pos, m: names }, regs: FxMap::default(), blocks: FxMap::default(), nreg: 0 };
    // return type
    {
        let mut q = FP { p: P { s: hdr.as_bytes(), i: 6, m: names }, regs: FxMap::default(), blocks: FxMap::default(), nreg: 0 };
        loop { match q.p.peek_word() { "internal" | "private" | "dso_local" | "hidden" | "protected" | "weak" | "linkonce_odr" | "weak_odr" | "linkonce" | "unnamed_addr" | "local_unnamed_addr" | "available_externally" | "external" => { q.p.word(); } _ => { let b = q.p.i; q.attrs(); if q.p.i == b { break; } } } }
        f.ret = q.p.ty()?;
    }
    fp.p.expect(b'(')?;
    let mut unnamed = 0;
    if !fp.p.eat(b')') {
        loop {
            if fp.p.peek() == b'.' { fp.p.i += 3; fp.p.expect(b')')?; break; }
            fp.p.ty()?; fp.attrs();
            let n = if fp.p.peek() == b'%' { fp.p.i += 1; fp.p.name()? } else { unnamed += 1; format!("{}", unnamed - 1) };
            let r = fp.reg(n); f.params.push(r);
            if fp.p.eat(b',') { continue; }
            fp.p.expect(b')')?;
            break;
        }
    }
    // block labels
    let mut bi: Vec<(usize, usize)> = vec![];
    let is_label = |l: &str| -> Option<String> {
        if l.is_empty() { return None; }
        let c = l.as_bytes()[0];
        if c == b' ' || c == b';' || c == b'}' || c == b'#' { return None; }
        if c == b'"' { let e = l[1..].find('"')? + 1; return Some(l[1..e].to_string()); }
        let e = l.find(':')?;
        Some(l[..e].to_string())
    };
    let mut cur = 1;
    if is_label(lines.get(1).unwrap_or(&"")).is_none() {
        // implicit entry label: next unnamed number
        fp.blocks.insert(format!("{}", f.params.len()), 0);
        bi.push((1, 0));
    }
    while cur < lines.len() {
        if let Some(n) = is_label(lines[cur]) { if let Some(x) = bi.last_mut() { x.1 = cur; } fp.blocks.insert(n, bi.len() as u32); bi.push((cur + 1, 0)); }
        cur += 1;
    }
    bi.last_mut().unwrap().1 = lines.len();
    for &(s, e) in &bi {
        let mut blk = Block { phis: vec![], insts: vec![] };
        let mut k = s;
        while k < e {
            let l = lines[k].trim_start();
            k += 1;
            if l.is_empty() || l.starts_with(';') || l.starts_with("#dbg") { continue; }
            let mut buf: String;
            let mut txt: &str = l;
            if l.starts_with("switch") { buf = l.to_string(); while !lines[k - 1].contains(']') { buf.push(' '); buf.push_str(lines[k].trim_start()); k += 1; } txt = Box::leak(buf.into_boxed_str()); }
            else if l.starts_with("invoke") || l.contains("= invoke") { buf = l.to_string(); if !l.contains("to label") { buf.push(' '); buf.push_str(lines[k].trim_start()); k += 1; } txt = Box::leak(buf.into_boxed_str()); }
            else if l.contains("= landingpad") || l.starts_with("landingpad") { blk.insts.push(Inst { dst: NODST, k: IK::Unreachable }); break; }
            fp.p = P { s: txt.as_bytes(), i: 0, m: names };
            if let Some(x) = txt.find(" = phi ") {
                fp.p.i = 1; let n = fp.p.name()?; let dst = fp.reg(n);
                fp.p.i = x + 7; fp.flags();
                let t = fp.p.ty()?;
                let mut inc = vec![];
                loop {
                    fp.p.expect(b'[')?; let o = fp.opd(&t)?; fp.p.expect(b',')?; fp.p.expect(b'%')?; let ln = fp.p.name()?; fp.p.expect(b']')?;
                    let b = *fp.blocks.get(&ln).ok_or(format!("phi label {}", ln))?;
                    inc.push((b, o));
                    if fp.p.eat(b',') { if fp.p.peek() == b'!' { break; } continue; }
                    break;
                }
                blk.phis.push(Phi { dst, inc });
                continue;
            }
            match fp.inst() { Ok(i) => blk.insts.push(i), Err(e) => return Err(format!("{} in: {}", e, &txt[..txt.len().min(200)])) }
        }
        f.blocks.push(blk);
    }
    f.nregs = fp.nreg;
    Ok(())
}
