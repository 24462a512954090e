//! SMT-LIB emission and solver processes (z3 over a pipe; cvc5 as a second opinion).
use crate::term::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

struct Proc { child: Child, rx: Receiver<String>, stdin: std::process::ChildStdin }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn spawn(cmd: &[&str]) -> Option<Proc> {
    let mut child = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let out = child.stdout.take()?;
    let stdin = child.stdin.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => { if tx.send(l).is_err() { break; } } Err(_) => break } } });
    Some(Proc { child, rx, stdin })
}

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub secs: f64, pub cache_hits: u64, pub lia: u64, pub poly: u64, pub errors: u64, pub cvc5: u64 }

pub struct Solver { z3: Option<Proc>, pub st: Stats, cache: FxMap<Vec<T>, Option<Vec<(u32, u128)>>>, pub dump: Option<String> }

pub fn bv_const(w: u32, v: u128) -> String { if w % 4 == 0 { format!("#x{:0n$x}", v, n = (w / 4) as usize) } else { format!("#b{:0n$b}", v, n = w as usize) } }

/// Emit definitions for the cone of `roots`. Width-1 terms are Bool.
pub fn emit(tm: &mut TM, roots: &[T], s: &mut String, syms: &mut Vec<(u32, u32)>) {
    use std::fmt::Write;
    let cone = tm.cone(roots);
    for &t in &cone {
        let n = tm.node(t);
        let r = |x: T| -> String {
            let k = tm.node(x);
            if k.op == Op::Const { if k.w == 1 { return if k.k == 1 { "true".into() } else { "false".into() }; } return bv_const(k.w, k.k); }
            if k.op == Op::Sym { return format!("s{}", k.k); }
            format!("t{}", x)
        };
        let bv = |x: T| -> String { if tm.w(x) == 1 { format!("(ite {} #b1 #b0)", r(x)) } else { r(x) } };
        let sort = |w: u32| if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        if n.op == Op::Const || n.op == Op::Nil { continue; }
        if n.op == Op::Sym { syms.push((n.k as u32, n.w)); let _ = writeln!(s, "(declare-const s{} {})", n.k, sort(n.w)); continue; }
        let body = match n.op {
            Op::Tab => tab_text(tm, n.w, &tm.tabs[n.k as usize].sup, &tm.tabs[n.k as usize].vals()),
            Op::Add => format!("(bvadd {} {})", r(n.a), r(n.b)),
            Op::Sub => format!("(bvsub {} {})", r(n.a), r(n.b)),
            Op::Mul => format!("(bvmul {} {})", r(n.a), r(n.b)),
            Op::UDiv => format!("(bvudiv {} {})", r(n.a), r(n.b)),
            Op::URem => format!("(bvurem {} {})", r(n.a), r(n.b)),
            Op::SDiv => format!("(bvsdiv {} {})", r(n.a), r(n.b)),
            Op::SRem => format!("(bvsrem {} {})", r(n.a), r(n.b)),
            Op::And => format!("({} {} {})", if n.w == 1 { "and" } else { "bvand" }, r(n.a), r(n.b)),
            Op::Or => format!("({} {} {})", if n.w == 1 { "or" } else { "bvor" }, r(n.a), r(n.b)),
            Op::Xor => format!("({} {} {})", if n.w == 1 { "xor" } else { "bvxor" }, r(n.a), r(n.b)),
            Op::Shl => format!("(bvshl {} {})", r(n.a), r(n.b)),
            Op::LShr => format!("(bvlshr {} {})", r(n.a), r(n.b)),
            Op::AShr => format!("(bvashr {} {})", r(n.a), r(n.b)),
            Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
            Op::Extract => { let lo = n.k as u32; let e = format!("((_ extract {} {}) {})", lo + n.w - 1, lo, r(n.a)); if n.w == 1 { format!("(= {} #b1)", e) } else { e } }
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - tm.w(n.a), bv(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - tm.w(n.a), bv(n.a)),
            Op::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Eq => format!("(= {} {})", r(n.a), r(n.b)),
            Op::Ult => format!("(bvult {} {})", r(n.a), r(n.b)),
            Op::Slt => format!("(bvslt {} {})", r(n.a), r(n.b)),
            Op::Not => format!("(not {})", r(n.a)),
            _ => unreachable!(),
        };
        let _ = writeln!(s, "(define-fun t{} () {} {})", t, sort(n.w), body);
    }
}
fn tab_text(tm: &TM, w: u32, sup: &[T], v: &[u128]) -> String {
    if v.iter().all(|x| *x == v[0]) { return if w == 1 { if v[0] == 1 { "true".into() } else { "false".into() } } else { bv_const(w, v[0]) }; }
    let h = v.len() / 2; let top = sup[sup.len() - 1];
    if v[..h] == v[h..] { return tab_text(tm, w, &sup[..sup.len() - 1], &v[..h]); }
    format!("(ite s{} {} {})", tm.node(top).k, tab_text(tm, w, &sup[..sup.len() - 1], &v[h..]), tab_text(tm, w, &sup[..sup.len() - 1], &v[..h]))
}
pub fn tref(tm: &TM, t: T) -> String { let k = tm.node(t); if k.op == Op::Const { if k.w == 1 { return if k.k == 1 { "true".into() } else { "false".into() }; } return bv_const(k.w, k.k); } if k.op == Op::Sym { return format!("s{}", k.k); } format!("t{}", t) }

pub fn parse_val(s: &str) -> Option<u128> {
    let s = s.trim();
    if s == "true" { return Some(1); }
    if s == "false" { return Some(0); }
    if let Some(h) = s.strip_prefix("#x") { return u128::from_str_radix(h, 16).ok(); }
    if let Some(h) = s.strip_prefix("#b") { return u128::from_str_radix(h, 2).ok(); }
    if let Some(h) = s.strip_prefix("(_ bv") { return h.split(' ').next()?.parse().ok(); }
    s.parse().ok()
}
fn parse_model(lines: &[String]) -> Vec<(u32, u128)> {
    let txt = lines.join(" ");
    let mut out = vec![];
    // ((s0 #x..) (s1 ...))
    let b = txt.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b's' && i > 0 && (b[i - 1] == b'(') {
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(id) = txt[i + 1..j].parse::<u32>() {
                let rest = &txt[j..].trim_start();
                let e = if rest.starts_with('(') { rest.find(')').map(|x| x + 1) } else { rest.find(')') };
                if let Some(e) = e { if let Some(v) = parse_val(&rest[..e]) { out.push((id, v)); } }
            }
            i = j;
        } else { i += 1; }
    }
    out
}

impl Stats { pub fn merge(&mut self, o: &Stats) { self.queries += o.queries; self.sat += o.sat; self.unsat += o.unsat; self.unknown += o.unknown; self.secs += o.secs; self.cache_hits += o.cache_hits; self.lia += o.lia; self.poly += o.poly; self.errors += o.errors; self.cvc5 += o.cvc5; } }
impl Solver {
    pub fn reset(&mut self) { self.cache.clear(); }
    pub fn new() -> Solver { Solver { z3: None, st: Stats::default(), cache: FxMap::default(), dump: std::env::var("SYMEX_DUMP").ok() } }
    /// raw text query; text must contain its own (check-sat). Returns output lines or None on timeout/crash.
    fn raw(&mut self, text: &str, timeout_ms: u64) -> Option<Vec<String>> {
        if self.z3.is_none() { self.z3 = spawn(&["z3-new", "-in", "-smt2", "-memory:2000"]); }
        let p = match self.z3.as_mut() { Some(p) => p, None => { return None; } };
        let mut ok = p.stdin.write_all(text.as_bytes()).is_ok();
        ok &= p.stdin.write_all(b"\n(echo \"@@done\")\n").is_ok();
        ok &= p.stdin.flush().is_ok();
        if !ok { self.z3 = None; return None; }
        let dl = Instant::now() + Duration::from_millis(timeout_ms * 2 + 3000);
        let mut out = vec![];
        loop {
            let now = Instant::now();
            if now >= dl { self.z3 = None; return None; }
            match p.rx.recv_timeout(dl - now) {
                Ok(l) => { if l.contains("@@done") { return Some(out); } out.push(l); }
                Err(RecvTimeoutError::Timeout) => { self.z3 = None; return None; }
                Err(_) => { self.z3 = None; return None; }
            }
        }
    }
    pub fn query_text(&mut self, logic: &str, body: &str, get: &str, timeout_ms: u64) -> (String, Vec<String>) {
        let t0 = Instant::now();
        self.st.queries += 1;
        let mut txt = format!("(reset)\n(set-option :timeout {})\n{}", timeout_ms, if logic.is_empty() { String::new() } else { format!("(set-logic {})\n", logic) });
        txt.push_str(body);
        txt.push_str("(check-sat)\n");
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{:06}_{:?}.smt2", d, self.st.queries, std::thread::current().id()), &txt); }
        let r = self.raw(&txt, timeout_ms);
        let mut res = ("unknown".to_string(), vec![]);
        if let Some(o) = r {
            if o.iter().any(|l| l.starts_with("(error")) { self.st.errors += 1; eprintln!("solver error: {:?}", o.iter().find(|l| l.starts_with("(error"))); }
            else if let Some(s) = o.iter().find(|l| *l == "sat" || *l == "unsat") {
                res.0 = s.clone();
                if s == "sat" && !get.is_empty() { if let Some(g) = self.raw(get, 5000) { if g.iter().any(|l| l.starts_with("(error")) { res.0 = "unknown".into(); self.st.errors += 1; } else { res.1 = g; } } else { res.0 = "unknown".into(); } }
            }
        }
        match res.0.as_str() { "sat" => self.st.sat += 1, "unsat" => self.st.unsat += 1, _ => self.st.unknown += 1 }
        self.st.secs += t0.elapsed().as_secs_f64();
        res
    }
    pub fn check(&mut self, tm: &mut TM, conj: &[T], timeout_ms: u64) -> Res {
        let mut c: Vec<T> = conj.iter().copied().filter(|&t| t != tm.tru).collect();
        c.sort(); c.dedup();
        if c.contains(&tm.fls) { return Res::Unsat; }
        if c.is_empty() { return Res::Sat(vec![]); }
        if let Some(r) = self.cache.get(&c) { self.st.cache_hits += 1; return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat }; }
        let mut s = String::new(); let mut syms = vec![];
        emit(tm, &c, &mut s, &mut syms);
        for &t in &c { s.push_str(&format!("(assert {})\n", tref(tm, t))); }
        let get = if syms.is_empty() { String::new() } else { format!("(get-value ({}))", syms.iter().map(|x| format!("s{}", x.0)).collect::<Vec<_>>().join(" ")) };
        let (r, o) = self.query_text("QF_BV", &s, &get, timeout_ms);
        match r.as_str() {
            "sat" => { let m = parse_model(&o);
                if m.len() != syms.len() { return Res::Unknown; }
                self.cache.insert(c, Some(m.clone())); Res::Sat(m) }
            "unsat" => { self.cache.insert(c, None); Res::Unsat }
            _ => Res::Unknown,
        }
    }
    /// one-shot cvc5 run
    pub fn cvc5(&mut self, body: &str, args: &[&str], timeout_ms: u64) -> (String, Vec<String>) {
        let t0 = Instant::now();
        self.st.queries += 1; self.st.cvc5 += 1;
        let tl = format!("--tlimit={}", timeout_ms);
        let mut cmd = vec!["cvc5", "--lang=smt2", "--produce-models", &tl];
        cmd.extend_from_slice(args);
        let mut out = vec![]; let mut status = "unknown".to_string();
        if let Some(mut p) = spawn(&cmd) {
            let _ = p.stdin.write_all(body.as_bytes());
            let _ = p.stdin.write_all(b"\n(exit)\n"); let _ = p.stdin.flush();
            let dl = Instant::now() + Duration::from_millis(timeout_ms + 3000);
            loop {
                let now = Instant::now(); if now >= dl { break; }
                match p.rx.recv_timeout(dl - now) { Ok(l) => out.push(l), Err(_) => break }
            }
        }
        if !out.iter().any(|l| l.starts_with("(error")) || out.iter().any(|l| l == "unsat") { if let Some(s) = out.iter().find(|l| *l == "sat" || *l == "unsat") { status = s.clone(); } }
        match status.as_str() { "sat" => self.st.sat += 1, "unsat" => self.st.unsat += 1, _ => self.st.unknown += 1 }
        self.st.secs += t0.elapsed().as_secs_f64();
        (status, out)
    }
    pub fn check_cvc5(&mut self, tm: &mut TM, conj: &[T], args: &[&str], timeout_ms: u64) -> Res {
        let mut s = String::from("(set-logic QF_BV)\n"); let mut syms = vec![];
        emit(tm, conj, &mut s, &mut syms);
        for &t in conj { s.push_str(&format!("(assert {})\n", tref(tm, t))); }
        s.push_str("(check-sat)\n");
        if !syms.is_empty() { s.push_str(&format!("(get-value ({}))\n", syms.iter().map(|x| format!("s{}", x.0)).collect::<Vec<_>>().join(" "))); }
        let (r, o) = self.cvc5(&s, args, timeout_ms);
        match r.as_str() {
            "sat" => { let o: Vec<String> = o.into_iter().filter(|l| l != "sat").collect(); let m = parse_model(&o); if m.len() == syms.len() { Res::Sat(m) } else { Res::Unknown } }
            "unsat" => Res::Unsat,
            _ => Res::Unknown,
        }
    }
}
pub fn parse_model_pub(l: &[String]) -> Vec<(u32, u128)> { parse_model(l) }
