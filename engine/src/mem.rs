//! Byte-granular memory: concrete addresses, concrete/symbolic/uninitialised bytes, copy on write.
use crate::ir::Module;
use crate::term::T;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const UNINIT: u64 = u64::MAX;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global }
#[derive(Clone)]
pub struct Obj { pub size: u64, pub kind: Kind, pub data: Vec<u8>, pub sym: Option<Vec<u64>> }
/// byte: concrete, or (term, byte index), or uninit
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B { C(u8), S(T, u8), U }

#[derive(Clone)]
pub struct Mem { pub objs: BTreeMap<u64, Rc<Obj>>, pub heap_next: u64, pub stack_next: u64, pub live: u64 }

pub enum MErr { Bad(String) }

impl Mem {
    pub fn new() -> Mem { Mem { objs: BTreeMap::new(), heap_next: 0x10_0000_0000, stack_next: 0x7000_0000_0000, live: 0 } }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let al = align.max(16);
        let next = if kind == Kind::Stack { &mut self.stack_next } else { &mut self.heap_next };
        let base = (*next + al - 1) / al * al;
        *next = base + size + 64;
        let o = Obj { size, kind, data: vec![0; size as usize], sym: if zero { None } else { Some(vec![UNINIT; size as usize]) } };
        self.objs.insert(base, Rc::new(o));
        if kind == Kind::Heap { self.live += 1; }
        base
    }
    pub fn find<'a>(&'a self, addr: u64, n: u64) -> Option<(u64, &'a Rc<Obj>)> {
        let (b, o) = self.objs.range(..=addr).next_back()?;
        if addr - b <= o.size && o.size - (addr - b) >= n { Some((*b, o)) } else { None }
    }
    fn global<'m>(m: &'m Module, addr: u64, n: u64) -> Option<&'m crate::ir::Global> {
        let i = m.globals.partition_point(|g| g.addr <= addr);
        if i == 0 { return None; }
        let g = &m.globals[i - 1];
        if addr - g.addr <= g.size && g.size - (addr - g.addr) >= n { Some(g) } else { None }
    }
    pub fn bounds(&self, m: &Module, addr: u64) -> Option<(u64, u64)> {
        if let Some((b, o)) = self.find(addr, 0) { return Some((b, o.size)); }
        Self::global(m, addr, 0).map(|g| (g.addr, g.size))
    }
    /// Concrete read if every byte is concrete
    pub fn read_concrete(&self, m: &Module, addr: u64, n: u64) -> Result<Option<u64>, MErr> {
        if let Some((b, o)) = self.find(addr, n) {
            let off = (addr - b) as usize; let e = off + n as usize;
            if let Some(s) = &o.sym { if s[off..e].iter().any(|&x| x != 0) { return Ok(None); } }
            let mut v = 0u64; for i in (off..e).rev() { v = (v << 8) | o.data[i] as u64; }
            return Ok(Some(v));
        }
        if let Some(g) = Self::global(m, addr, n) { let off = (addr - g.addr) as usize; let mut v = 0u64; for i in (off..off + n as usize).rev() { v = (v << 8) | g.init[i] as u64; } return Ok(Some(v)); }
        Err(MErr::Bad(format!("read of {} bytes at {:#x}", n, addr)))
    }
    pub fn read_bytes(&self, m: &Module, addr: u64, n: u64) -> Result<Vec<B>, MErr> {
        if n == 0 { return Ok(vec![]); }
        if let Some((b, o)) = self.find(addr, n) {
            let off = (addr - b) as usize;
            return Ok((off..off + n as usize).map(|i| match &o.sym { Some(s) if s[i] != 0 => if s[i] == UNINIT { B::U } else { B::S((s[i] >> 8) as T, (s[i] & 0xff) as u8) }, _ => B::C(o.data[i]) }).collect());
        }
        if let Some(g) = Self::global(m, addr, n) { let off = (addr - g.addr) as usize; return Ok(g.init[off..off + n as usize].iter().map(|&x| B::C(x)).collect()); }
        Err(MErr::Bad(format!("read of {} bytes at {:#x}", n, addr)))
    }
    fn obj_mut(&mut self, m: &Module, addr: u64, n: u64) -> Result<(u64, &mut Obj), MErr> {
        let found = self.find(addr, n).map(|x| x.0);
        let base = match found {
            Some(b) => b,
            None => {
                let g = match Self::global(m, addr, n) { Some(g) => g, None => return Err(MErr::Bad(format!("write of {} bytes at {:#x}", n, addr))) };
                if g.ro { return Err(MErr::Bad(format!("write to constant {}", g.name))); }
                self.objs.insert(g.addr, Rc::new(Obj { size: g.size, kind: Kind::Global, data: g.init.clone(), sym: None }));
                g.addr
            }
        };
        let o = Rc::make_mut(self.objs.get_mut(&base).unwrap());
        Ok((base, o))
    }
    pub fn write_concrete(&mut self, m: &Module, addr: u64, n: u64, v: u64) -> Result<(), MErr> {
        let (b, o) = self.obj_mut(m, addr, n)?;
        let off = (addr - b) as usize;
        for i in 0..n as usize { o.data[off + i] = (v >> (8 * i)) as u8; }
        if let Some(s) = &mut o.sym { for x in &mut s[off..off + n as usize] { *x = 0; } }
        Ok(())
    }
    pub fn write_bytes(&mut self, m: &Module, addr: u64, bs: &[B]) -> Result<(), MErr> {
        if bs.is_empty() { return Ok(()); }
        let (b, o) = self.obj_mut(m, addr, bs.len() as u64)?;
        let off = (addr - b) as usize;
        let need = bs.iter().any(|x| !matches!(x, B::C(_)));
        if need && o.sym.is_none() { o.sym = Some(vec![0; o.size as usize]); }
        for (i, x) in bs.iter().enumerate() {
            let (d, s) = match *x { B::C(c) => (c, 0), B::S(t, k) => (0, ((t as u64) << 8) | k as u64), B::U => (0, UNINIT) };
            o.data[off + i] = d;
            if let Some(sy) = &mut o.sym { sy[off + i] = s; }
        }
        Ok(())
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MErr> {
        match self.objs.get(&addr) { Some(o) if o.kind == Kind::Heap => { self.objs.remove(&addr); self.live -= 1; Ok(()) } _ => Err(MErr::Bad(format!("free of {:#x}", addr))) }
    }
}
