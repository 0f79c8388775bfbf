#![allow(static_mut_refs)]
mod exec;
mod expr;
mod ll;
mod solver;
mod sys;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::Instant;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

struct Found { kind: String, msg: String, bt: Vec<String>, replay: String }
#[derive(Default)]
struct Out { viol: Vec<Found>, seen: BTreeSet<String>, unsup: BTreeMap<String, u64>, samples: Vec<String>, timeout: bool, pathlimit: bool, left: usize, stopped: bool }

fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { write!(s, "{:02x}", x).unwrap() } s }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(), c => o.push(c) } }
    o + "\""
}
static mut PARAM: u64 = 0;
fn replay(st: &State, obs: bool) -> String {
    let mut s = format!("param {}\n", unsafe { PARAM });
    for e in &st.log {
        match e {
            Ev::Any(f, n) => { let b: Vec<u8> = (*f..f + n).map(|v| st.model[v as usize]).collect(); writeln!(s, "any {}", hex(&b)).unwrap() }
            Ev::Choice(c) => writeln!(s, "choice {}", c).unwrap(),
            Ev::Fault(n, t) => writeln!(s, "fault {} {}", n, t).unwrap(),
            Ev::Note(t) => writeln!(s, "note {}", t).unwrap(),
        }
    }
    if obs { for o in &st.obs { let b: Vec<u8> = o.iter().map(|(b, e)| if *e == 0 { *b } else { expr::eval(*e, &st.model) as u8 }).collect(); writeln!(s, "obs {}", hex(&b)).unwrap() } }
    s
}

fn main() {
    // deep recursion in the expression code needs a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let mut opt = |k: &str| -> Option<String> { a.iter().position(|x| x == k).map(|i| { a.remove(i); a.remove(i) }) };
    let entry = opt("--entry").unwrap_or("sx_main".into());
    let arg: u64 = opt("--arg").map_or(0, |x| x.parse().unwrap());
    let param: u64 = opt("--param").map_or(0, |x| x.parse().unwrap());
    unsafe { PARAM = param }
    let out = opt("--out");
    let tlimit: f64 = opt("--time").map_or(1e9, |x| x.parse().unwrap());
    let plimit: u64 = opt("--paths").map_or(u64::MAX, |x| x.parse().unwrap());
    let jobs: usize = opt("--jobs").map_or(1, |x| x.parse().unwrap());
    let nsamples: usize = opt("--samples").map_or(8, |x| x.parse().unwrap());
    let maxviol: usize = opt("--max-viol").map_or(6, |x| x.parse().unwrap());
    let qtimeout: u32 = opt("--qtimeout").map_or(60_000, |x| x.parse().unwrap());
    let dump = opt("--dump-every").map_or(0, |x| x.parse().unwrap());
    let prof = opt("--profile").is_some();
    let confirm: f64 = opt("--confirm").map_or(15.0, |x| x.parse().unwrap());
    let file = a.pop().expect("usage: symex [options] FILE.ll");
    let t0 = Instant::now();
    expr::init();
    let m = Rc::new(ll::Module::load(&file));
    let mut e = Eng::new(m.clone(), qtimeout);
    e.profile = prof;
    e.confirm_secs = confirm;
    e.param = param;
    e.t0 = t0;
    e.tlimit = tlimit;
    e.sol.dump_every = dump;
    let ea = m.sym_addr(&entry);
    let f = m.func((ea >> 32) as u32 - m.fn_base());
    let st = e.initial(f, vec![V::C(arg as u128)]);
    e.work.push(st);
    let mut o = Out::default();
    let mut child = usize::MAX;
    let mut kids = vec![];
    let mut tick = 0u64;
    loop {
        // breadth first until there is enough work to share out
        let next = if jobs > 1 && child == usize::MAX && !e.work.is_empty() { Some(e.work.remove(0)) } else { e.work.pop() };
        let mut st = match next { Some(st) => st, None => break };
        if jobs > 1 && child == usize::MAX && kids.is_empty() && e.work.len() >= 25 * jobs {
            e.work.push(st);
            let all = std::mem::take(&mut e.work);
            for k in 0..jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    child = k;
                    e.work = all.iter().enumerate().filter(|(i, _)| i % jobs == k).map(|(_, s)| s.clone()).collect();
                    // counters accumulated so far belong to the parent
                    e.stats = Stats::default();
                    e.sol.queries = 0; e.sol.secs = 0.0; e.sol.sat = 0; e.sol.unsat = 0; e.sol.unknown = 0; e.sol.hits = 0;
                    e.sol.dumps.clear();
                    o = Out { seen: std::mem::take(&mut o.seen), ..Out::default() };
                    break;
                }
                kids.push(pid);
            }
            if child == usize::MAX { break }
            drop(all);
            continue;
        }
        tick += 1;
        if t0.elapsed().as_secs_f64() > tlimit { o.timeout = true; o.left = e.work.len() + 1; break }
        if e.stats.paths + e.stats.killed >= plimit { o.pathlimit = true; o.left = e.work.len() + 1; break }
        let s = e.run(&mut st);
        match s {
            Stop::Time => { o.timeout = true; o.left = e.work.len() + 1; break }
            Stop::Infeasible => e.stats.killed += 1,
            Stop::Done => {
                e.stats.paths += 1;
                // keep a spread of samples
                if o.samples.len() < nsamples { o.samples.push(replay(&st, true)) }
                else if tick % 37 == 0 && nsamples > 0 { let k = (tick / 37) as usize % nsamples; o.samples[k] = replay(&st, true) }
            }
            Stop::Violation(k, msg) => {
                e.stats.paths += 1;
                let bt = e.backtrace(&st);
                let key = format!("{} {} {}", k, msg, bt.iter().filter(|x| x.contains("rusty_git")).take(2).cloned().collect::<Vec<_>>().join("/"));
                if o.seen.insert(key) {
                    o.viol.push(Found { kind: k, msg, bt, replay: replay(&st, false) });
                    if o.viol.len() >= maxviol { o.left = e.work.len(); o.stopped = true; break }
                }
            }
            Stop::Unsupported(msg) => { let bt = e.backtrace(&st); *o.unsup.entry(format!("{} in {}", msg, bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < "))).or_insert(0) += 1; if o.unsup.len() > 20 { break } }
        }
    }
    let tag = if child != usize::MAX { format!(".{}", child) } else { String::new() };
    let r = report(&e, &o, t0.elapsed().as_secs_f64());
    if let Some(out) = &out { std::fs::write(format!("{}{}", out, tag), &r).unwrap() } else { println!("{}", r) }
    if dump > 0 { if let Some(out) = &out { for (i, (q, sat)) in e.sol.dumps.iter().enumerate() { std::fs::write(format!("{}{}.q{}.{}.smt2", out, tag, i, if *sat { "sat" } else { "unsat" }), q).unwrap() } } }
    if prof {
        let mut v: Vec<_> = e.stats.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b, i), n) in v.into_iter().take(25) { let fd = &m.fns[*f as usize]; eprintln!("{:8} forks in {} block {} instr {}", n, demangle(&fd.name), b, i) }
    }
    if child != usize::MAX { unsafe { _exit(0) } }
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { eprintln!("worker failed: status {}", s); if let Some(out) = &out { std::fs::write(format!("{}.crashed", out), format!("{}", s)).unwrap() } } }
    std::process::exit(0);
}

fn report(e: &Eng, o: &Out, secs: f64) -> String {
    let mut s = String::from("{\n");
    let st = &e.stats;
    write!(s, "\"paths\":{},\"killed\":{},\"instructions\":{},\"forks\":{},\"symbolic_branches\":{},\"domain_decisions\":{},\"confirmed\":{},\"unconfirmed\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"max_vars\":{},\"asserts\":{},\"seconds\":{:.2},\"timeout\":{},\"pathlimit\":{},\"stopped\":{},\"left\":{},\"exprs\":{},\"solver\":{},\n",
        st.paths, st.killed, st.instrs, st.forks, st.branch_sym, st.dom_decisions, st.confirmed, st.unconfirmed, e.sol.queries, e.sol.hits, e.sol.sat, e.sol.unsat, e.sol.unknown, e.sol.secs, e.sol.max_secs, st.max_vars, st.asserts, secs, o.timeout, o.pathlimit, o.stopped, o.left, expr::ar().nodes.len(), js(&solver::version())).unwrap();
    let cov: Vec<String> = st.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    write!(s, "\"covers\":{{{}}},\n", cov.join(",")).unwrap();
    let fs: BTreeSet<String> = st.funcs.iter().map(|f| demangle(&e.m.fns[*f as usize].name)).filter(|n| n.contains("rusty_git")).collect();
    write!(s, "\"functions\":[{}],\n\"functions_total\":{},\n", fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), st.funcs.len()).unwrap();
    write!(s, "\"unsupported\":[{}],\n", o.unsup.iter().map(|(k, v)| format!("[{},{}]", js(k), v)).collect::<Vec<_>>().join(",")).unwrap();
    write!(s, "\"samples\":[{}],\n", o.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")).unwrap();
    let vs: Vec<String> = o.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"backtrace\":[{}],\"replay\":{}}}", js(&v.kind), js(&v.msg), v.bt.iter().take(12).map(|x| js(x)).collect::<Vec<_>>().join(","), js(&v.replay))).collect();
    write!(s, "\"violations\":[{}]\n}}\n", vs.join(",\n")).unwrap();
    s
}
