//! Native meaning of the harness primitives: replays concrete values against the real build.
//! Deliberately simple schoolbook big integers (i64 limbs base 2^16) for the exact-integer API.
use std::cell::RefCell;
use std::cmp::Ordering;
#[derive(Clone)]
struct Big { neg: bool, m: Vec<u16> } // magnitude little endian, no leading zeros
impl Big {
    fn trim(mut self) -> Big { while self.m.last() == Some(&0) { self.m.pop(); } if self.m.is_empty() { self.neg = false; } self }
    fn from_u64(mut x: u64) -> Big { let mut m = vec![]; while x > 0 { m.push(x as u16); x >>= 16; } Big { neg: false, m } }
    fn cmp_mag(a: &[u16], b: &[u16]) -> Ordering { if a.len() != b.len() { return a.len().cmp(&b.len()); } for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } } Ordering::Equal }
    fn add_mag(a: &[u16], b: &[u16]) -> Vec<u16> { let mut r = vec![]; let mut c = 0u32; for i in 0..a.len().max(b.len()) { c += *a.get(i).unwrap_or(&0) as u32 + *b.get(i).unwrap_or(&0) as u32; r.push(c as u16); c >>= 16; } if c > 0 { r.push(c as u16); } r }
    fn sub_mag(a: &[u16], b: &[u16]) -> Vec<u16> { let mut r = vec![]; let mut c = 0i32; for i in 0..a.len() { let mut d = a[i] as i32 - *b.get(i).unwrap_or(&0) as i32 - c; c = 0; if d < 0 { d += 65536; c = 1; } r.push(d as u16); } r }
    fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big { neg: self.neg, m: Big::add_mag(&self.m, &o.m) }.trim(); }
        match Big::cmp_mag(&self.m, &o.m) { Ordering::Less => Big { neg: o.neg, m: Big::sub_mag(&o.m, &self.m) }.trim(), _ => Big { neg: self.neg, m: Big::sub_mag(&self.m, &o.m) }.trim() }
    }
    fn mul(&self, o: &Big) -> Big { let mut r = vec![0u16; self.m.len() + o.m.len()]; for i in 0..self.m.len() { let mut c = 0u64; for j in 0..o.m.len() { c += r[i + j] as u64 + self.m[i] as u64 * o.m[j] as u64; r[i + j] = c as u16; c >>= 16; } r[i + o.m.len()] = c as u16; } Big { neg: self.neg != o.neg, m: r }.trim() }
    fn shl(&self, k: u64) -> Big { let mut m = vec![0u16; (k / 16) as usize]; let s = (k % 16) as u32; let mut c = 0u32; for &x in &self.m { let v = (x as u32) << s | c; m.push(v as u16); c = v >> 16; } m.push(c as u16); Big { neg: self.neg, m }.trim() }
    fn cmp(&self, o: &Big) -> Ordering { match (self.neg, o.neg) { (true, false) => Ordering::Less, (false, true) => Ordering::Greater, (false, false) => Big::cmp_mag(&self.m, &o.m), (true, true) => Big::cmp_mag(&o.m, &self.m) } }
}
#[derive(Default)]
struct Rt { vals: Vec<u64>, pos: usize, params: Vec<u64>, zs: Vec<Big>, outs: Vec<u64>, may_panic: bool, fails: Vec<u32>, reach: bool, ign: Vec<u32>, skip: bool, hw: Vec<(u64, bool)>, hwp: usize }
thread_local!(static RT: RefCell<Rt> = RefCell::new(Rt::default()));
fn with<A>(f: impl FnOnce(&mut Rt) -> A) -> A { RT.with(|r| f(&mut r.borrow_mut())) }
fn flush() { let (o, f) = with(|r| (r.outs.clone(), r.fails.clone())); println!("OUTS {}", o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); for x in f { println!("FAIL {}", x); } }
fn quit(code: i32) -> ! { flush(); std::process::exit(code) }
fn fail(id: u32) { if with(|r| r.ign.contains(&id)) { return; } with(|r| r.fails.push(id)); quit(42) }
fn zpush(b: Big) -> u32 { with(|r| { r.zs.push(b); r.zs.len() as u32 - 1 }) }
fn z(i: u32) -> Big { with(|r| r.zs[i as usize].clone()) }
#[no_mangle] extern "C" fn vs_sym(bits: u32) -> u64 { let v = with(|r| { let v = r.vals.get(r.pos).copied(); r.pos += 1; v }); match v { Some(v) => if bits == 64 { v } else { v & ((1u64 << bits) - 1) }, None => { println!("DIVERGED"); quit(45) } } }
#[no_mangle] extern "C" fn vs_assume(c: bool) { if !c { println!("ASSUME-FALSE"); quit(46) } }
#[no_mangle] extern "C" fn vs_assert(c: bool, id: u32) { if !c { fail(id) } }
#[no_mangle] extern "C" fn vs_reach(_: u32) { with(|r| r.reach = true) }
#[no_mangle] extern "C" fn vs_param(i: u32) -> u64 { with(|r| r.params.get(i as usize).copied().unwrap_or(0)) }
#[no_mangle] extern "C" fn vs_concretize(x: u64) -> u64 { x }
#[no_mangle] extern "C" fn vs_may_panic(c: bool) { with(|r| r.may_panic = c) }
#[no_mangle] extern "C" fn vs_lazy(_: bool) {}
/// counts the live allocations
struct Count;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::Relaxed;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
#[global_allocator] static COUNT: Count = Count;
#[no_mangle] extern "C" fn vs_live() -> u64 { LIVE.load(Relaxed) as u64 }
#[no_mangle] extern "C" fn vs_defined(x: u64) { if x % 3 == 1 { with(|r| r.pos += 0) } }
#[no_mangle] extern "C" fn vs_out(x: u64) { with(|r| r.outs.push(x)) }
#[no_mangle] extern "C" fn vs_hw_push(v: u64, ok: bool) { with(|r| r.hw.push((v, ok))) }
#[no_mangle] extern "C" fn vs_hw_used() -> u64 { with(|r| r.hwp as u64) }
/// stands in for the rdrand/rdseed intrinsics in builds made from rewritten IR (value in rax, flag in rdx)
#[repr(C)] pub struct HwOut(u64, u64);
#[no_mangle] extern "C" fn vs_hw_insn() -> HwOut { match with(|r| { let x = r.hw.get(r.hwp).copied(); r.hwp += 1; x }) { Some((v, ok)) => HwOut(if ok { v } else { 0 }, ok as u64), None => { println!("ASSUME-FALSE"); quit(46) } } }
#[no_mangle] extern "C" fn vs_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
#[no_mangle] unsafe extern "C" fn vs_z_words(p: *const u32, len: u64) -> u32 { let s = std::slice::from_raw_parts(p, len as usize); let mut m = vec![]; for &x in s { m.push(x as u16); m.push((x >> 16) as u16); } zpush(Big { neg: false, m }.trim()) }
#[no_mangle] extern "C" fn vs_z_u64(x: u64) -> u32 { zpush(Big::from_u64(x)) }
#[no_mangle] extern "C" fn vs_z_add(a: u32, b: u32) -> u32 { let r = z(a).add(&z(b)); zpush(r) }
#[no_mangle] extern "C" fn vs_z_sub(a: u32, b: u32) -> u32 { let mut y = z(b); if !y.m.is_empty() { y.neg = !y.neg; } let r = z(a).add(&y); zpush(r) }
#[no_mangle] extern "C" fn vs_z_mul(a: u32, b: u32) -> u32 { let r = z(a).mul(&z(b)); zpush(r) }
#[no_mangle] extern "C" fn vs_z_shl(a: u32, k: u64) -> u32 { let r = z(a).shl(k); zpush(r) }
#[no_mangle] extern "C" fn vs_z_assert(cmp: u32, a: u32, b: u32, id: u32) { let o = z(a).cmp(&z(b)); let ok = match cmp { 0 => o == Ordering::Equal, 1 => o == Ordering::Less, _ => o != Ordering::Greater }; if !ok { fail(id) } }
/// args: harness params(comma) values(comma) [ignored assert ids(comma)]
extern "C" { fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32; }
pub fn run(tables: &[&[(&str, extern "C" fn())]]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    // a runaway allocation fails here, not in the machine
    if std::env::var_os("VS_NOLIM").is_none() { unsafe { setrlimit(9, &[6 << 30, 6 << 30]); } }
    let list = |s: Option<&String>| -> Vec<u64> { s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default() };
    let (p, v, ig) = (list(a.get(2)), list(a.get(3)), list(a.get(4)));
    with(|r| { r.params = p; r.vals = v; r.ign = ig.iter().map(|&x| x as u32).collect(); });
    std::panic::set_hook(Box::new(|i| { let mp = with(|r| r.may_panic); println!("PANIC {}", i.to_string().replace('\n', " ")); flush(); std::process::exit(if mp { 44 } else { 43 }) }));
    for t in tables { for (n, f) in t.iter() { if *n == a[1] { f(); quit(0) } } }
    println!("no harness {}", a[1]);
    std::process::exit(47)
}
