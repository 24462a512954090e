mod exec; mod ir; mod lift; mod mem; mod solver; mod term;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Job { idx: usize, prefix: Vec<(u8, u64)>, vals: Vec<u64> }
#[derive(Clone)]
struct Spec { name: String, params: Vec<u64>, opts: BTreeMap<String, String> }
#[derive(Default, Clone)]
struct Agg { st: JobStats, sol: solver::Stats, viol: Vec<Violation>, susp: Vec<Vec<(u32, u64)>>, fns: BTreeSet<String>, secs: f64, chunks: u64 }

struct Shared { q: Mutex<(VecDeque<Job>, usize, usize)>, cv: Condvar } // queue, idle, nthreads

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() };
    let irf = get("--ir").expect("--ir");
    let text = std::fs::read_to_string(&irf).expect("read ir");
    let t0 = Instant::now();
    let m = Arc::new(ir::parse(&text));
    drop(text);
    if a.iter().any(|x| x == "--list") { for f in &m.funcs { if let Some(e) = &f.err { println!("ERR {}: {}", f.name, e); } } return; }
    let bi = Arc::new(m.funcs.iter().map(resolve_builtin).collect::<Vec<_>>());
    let jobs_txt = std::fs::read_to_string(get("--jobs").expect("--jobs")).expect("jobs");
    let nthr: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let verbose = a.iter().any(|x| x == "-v");
    let stop_first = !a.iter().any(|x| x == "--keep-going");
    let suppress: Vec<String> = get("--suppress").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let deadline = t0 + Duration::from_secs_f64(budget);
    let specs: Vec<Spec> = jobs_txt.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| {
        let mut it = l.split_whitespace(); let name = it.next().unwrap().to_string(); let mut params = vec![]; let mut opts = BTreeMap::new();
        for w in it { if let Some((k, v)) = w.split_once('=') { opts.insert(k.to_string(), v.to_string()); } else { params.push(if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).expect("param") } else { w.parse::<i128>().expect("param") as u64 }); } }
        Spec { name, params, opts }
    }).collect();
    let sh = Arc::new(Shared { q: Mutex::new((specs.iter().enumerate().map(|(i, _)| Job { idx: i, prefix: vec![], vals: vec![] }).collect(), 0, nthr)), cv: Condvar::new() });
    let specs = Arc::new(specs);
    let res: Arc<Vec<Mutex<Agg>>> = Arc::new((0..specs.len()).map(|_| Mutex::new(Agg::default())).collect());
    let stop = Arc::new(AtomicBool::new(false));
    // memory watchdog: give up (incomplete) rather than be killed
    let memlim: u64 = get("--mem").and_then(|s| s.parse().ok()).unwrap_or(20_000);
    let memhit = Arc::new(AtomicBool::new(false));
    { let (stop, memhit) = (stop.clone(), memhit.clone()); std::thread::spawn(move || loop {
        if let Some(p) = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())) { if p * 4 / 1024 > memlim { memhit.store(true, Ordering::Relaxed); stop.store(true, Ordering::Relaxed); } }
        std::thread::sleep(Duration::from_millis(300));
    }); }
    let mut hs = vec![];
    for _ in 0..nthr {
        let (sh, specs, res, m, bi, stop, suppress) = (sh.clone(), specs.clone(), res.clone(), m.clone(), bi.clone(), stop.clone(), suppress.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let mut spare: Option<solver::Solver> = None;
            loop {
                let job = {
                    let mut g = sh.q.lock().unwrap();
                    loop {
                        if let Some(j) = g.0.pop_front() { break Some(j); }
                        g.1 += 1;
                        if g.1 == g.2 { sh.cv.notify_all(); break None; }
                        g = sh.cv.wait(g).unwrap();
                        if g.1 == g.2 && g.0.is_empty() { break None; }
                        g.1 -= 1;
                    }
                };
                let job = match job { Some(j) => j, None => return };
                let sp = &specs[job.idx];
                let tj = Instant::now();
                let o = |k: &str, d: u64| -> u64 { sp.opts.get(k).and_then(|s| s.parse().ok()).unwrap_or(d) };
                let entry = match m.fidx.get(&sp.name) { Some(&e) => e, None => { res[job.idx].lock().unwrap().st.incomplete.push(format!("no harness {}", sp.name)); continue; } };
                let cfg = Cfg { branch_ms: o("bms", 3000), assert_ms: o("ams", 20000), max_steps: o("steps", 60_000_000), max_paths: o("paths", u64::MAX), deadline, params: sp.params.clone(), samples: o("samples", 2) as usize, verbose, stop: stop.clone() };
                let mut ex = Exec::new(m.clone(), bi.clone(), cfg);
                for s in &suppress { if let Some((h, id)) = s.split_once(':') { if h == sp.name { if let Ok(i) = id.parse() { ex.failed_asserts.insert(i); } } } }
                if let Some(mut s) = spare.take() { s.reset(); ex.sol = s; }
                let mut st = ex.init_state(entry);
                if !job.prefix.is_empty() {
                    st.prefix = std::rc::Rc::new(job.prefix.clone());
                    ex.seed_vals = job.vals.clone();
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    ex.work.push_back(st);
                    while let Some(s) = ex.work.pop_back() {
                        if Instant::now() > deadline || stop.load(Ordering::Relaxed) { ex.st.incomplete.push("deadline".into()); break; }
                        if ex.st.paths >= ex.cfg.max_paths { ex.st.incomplete.push("path limit".into()); break; }
                        ex.run_state(s);
                        if !ex.violations.is_empty() { if stop_first { stop.store(true, Ordering::Relaxed); break; } if ex.violations.len() >= 5 { break; } }
                        // memory: hand the remaining paths to fresh executors
                        if ex.tm.tab_bytes > 700_000_000 || ex.tm.n.len() > 12_000_000 {
                            let mut keep = VecDeque::new();
                            while let Some(s) = ex.work.pop_back() {
                                if s.rp < s.prefix.len() { keep.push_front(s); continue; }
                                match ex.vals_of(&s) { Some(v) => { let mut g = sh.q.lock().unwrap(); g.0.push_front(Job { idx: job.idx, prefix: s.trace.clone(), vals: v }); sh.cv.notify_one(); } None => keep.push_front(s) }
                            }
                            ex.work = keep;
                            if ex.work.is_empty() { break; }
                        }
                        // donate
                        if ex.work.len() > 1 || (ex.work.len() == 1 && ex.st.paths > 8) {
                            let mut g = sh.q.lock().unwrap();
                            let want = g.1.saturating_sub(g.0.len());
                            for _ in 0..want {
                                if ex.work.len() < 2 { break; }
                                let s = ex.work.pop_front().unwrap();
                                if s.rp < s.prefix.len() { ex.work.push_front(s); break; }
                                let vals = ex.vals_of(&s);
                                match vals { Some(v) => { g.0.push_back(Job { idx: job.idx, prefix: s.trace.clone(), vals: v }); sh.cv.notify_one(); } None => { ex.work.push_front(s); break; } }
                            }
                        }
                    }
                }));
                let mut g = res[job.idx].lock().unwrap();
                if let Err(e) = r { let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); g.st.incomplete.push(format!("engine error: {}", msg)); }
                ex.st.terms = ex.tm.n.len() as u64;
                g.st.merge(&ex.st);
                g.sol.merge(&ex.sol.st);
                g.viol.extend(ex.violations.drain(..));
                g.susp.extend(ex.suspects.drain(..)); g.susp.truncate(2);
                for f in &ex.fns { g.fns.insert(m.funcs[*f as usize].name.clone()); }
                g.secs += tj.elapsed().as_secs_f64();
                g.chunks += 1;
                drop(g);
                if verbose { eprintln!("[{:7.1}] {} {:?} chunk done in {:.1}s: paths {} insts {} q {} ({:.1}s)", t0.elapsed().as_secs_f64(), sp.name, sp.params, tj.elapsed().as_secs_f64(), ex.st.paths, ex.st.insts, ex.sol.st.queries, ex.sol.st.secs); }
                let mut s = std::mem::replace(&mut ex.sol, solver::Solver::new());
                s.st = solver::Stats::default();
                spare = Some(s);
            }
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    // ---- report ----
    let mut out = String::from("{\"jobs\":[\n");
    for (i, sp) in specs.iter().enumerate() {
        let g = res[i].lock().unwrap();
        if i > 0 { out.push_str(",\n"); }
        let s = &g.st;
        let mut inc: BTreeMap<String, u64> = BTreeMap::new();
        for x in &s.incomplete { *inc.entry(x.clone()).or_insert(0) += 1; }
        out.push_str(&format!("{{\"harness\":{},\"params\":{:?},\"secs\":{:.3},\"paths\":{},\"completed\":{},\"infeasible\":{},\"panics_ok\":{},\"forks\":{},\"insts\":{},\"branches\":{},\"asserts_proved\":{},\"asserts_trivial\":{},\"asserts_poly\":{},\"asserts_tab\":{},\"asserts_bv\":{},\"asserts_lia\":{},\"asserts_unknown\":{},\"unknown_branches\":{},\"terms\":{},\"max_pc\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_secs\":{:.3},\"solver_errors\":{},\"lia\":{},\"cvc5\":{}",
            js(&sp.name), sp.params, g.secs, s.paths, s.completed, s.infeasible, s.panics_ok, s.forks, s.insts, s.branches, s.asserts_proved, s.asserts_trivial, s.asserts_poly, s.asserts_tab, s.asserts_bv, s.asserts_lia, s.asserts_unknown, s.unknown_branches, s.terms, s.max_pc, g.sol.queries, g.sol.sat, g.sol.unsat, g.sol.unknown, g.sol.cache_hits, g.sol.secs, g.sol.errors, g.sol.lia, g.sol.cvc5));
        out.push_str(&format!(",\"reach\":{{{}}}", s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(",\"incomplete\":{{{}}}", inc.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(",\"samples\":[{}]", s.samples.iter().map(|(v, o, _)| format!("{{\"values\":[{}],\"outs\":[{}]}}", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","), o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(",\"violations\":[{}]", g.viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"values\":[{}],\"trail\":[{}]}}", js(&v.kind), v.id, js(&v.msg), v.values.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","), v.trail.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        out.push_str(&format!(",\"suspects\":[{}]", g.susp.iter().map(|v| format!("[{}]", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        out.push_str("}");
    }
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for r in res.iter() { fns.extend(r.lock().unwrap().fns.iter().cloned()); }
    out.push_str(&format!("\n],\"functions\":[{}],\"memory_limit_hit\":{},\"wall\":{:.3}}}\n", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), memhit.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()));
    match get("--out") { Some(f) => std::fs::write(f, out).unwrap(), None => print!("{}", out) }
}
