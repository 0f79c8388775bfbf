//! Symbolic interpreter: states, memory, forking, instruction semantics.
use crate::expr::*;
use crate::ll::*;
use crate::solver::Solver;
use crate::sys::Sys;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<[V]>) }
impl V {
    #[inline] pub fn c(&self) -> u128 { match self { V::C(c) => *c, _ => panic!("constant expected, got {:?}", self) } }
    #[inline] pub fn e(&self, w: u32) -> E { match self { V::C(c) => cst(w, *c), V::S(e) => *e, V::A(_) => panic!("scalar expected") } }
    #[inline] pub fn from(e: E) -> V { match is_const(e) { Some(c) => V::C(c), None => V::S(e) } }
}

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Option<Box<Vec<E>>>, pub ro: bool, pub freed: bool, pub heap: bool }
impl Obj {
    pub fn new(size: u64) -> Obj { Obj { size, data: vec![], sym: None, ro: false, freed: false, heap: false } }
    fn ensure(&mut self, n: u64) {
        if (self.data.len() as u64) < n {
            let want = if n * 2 < self.size && n > 64 { n * 2 } else if self.size <= 4096 { self.size } else { n };
            self.data.resize(want.min(self.size).max(n) as usize, 0);
            if let Some(s) = &mut self.sym { s.resize(self.data.len(), 0) }
        }
    }
    #[inline] pub fn byte(&self, i: u64) -> (u8, E) {
        let i = i as usize;
        (self.data.get(i).copied().unwrap_or(0), match &self.sym { Some(s) => s.get(i).copied().unwrap_or(0), None => 0 })
    }
    pub fn set(&mut self, i: u64, b: u8, e: E) {
        self.ensure(i + 1);
        self.data[i as usize] = b;
        if e != 0 && self.sym.is_none() { self.sym = Some(Box::new(vec![0; self.data.len()])) }
        if let Some(s) = &mut self.sym { s[i as usize] = e }
    }
}

pub const CH: usize = 64;
pub type Chunk = [Option<Rc<Obj>>; CH];
pub const STACK: u32 = 0x4000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK { Normal, Crash, Thread, Env }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub prev: u32, pub regs: Vec<V>, pub sbase: u32, pub sbytes: u64, pub ret: u32, pub normal: u32, pub kind: FK }

#[derive(Clone, PartialEq, Debug)]
pub enum TS { Run, Futex(u64), Join(u32), Done }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub stack: Vec<Rc<Obj>>, pub sbytes: u64, pub ts: TS }

#[derive(Clone)]
pub enum Ev { Any(u32, u32), Choice(u64), Fault(u64, String), Note(String) }

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub heap: Vec<Rc<Chunk>>,
    pub nheap: u32,
    pub gmod: Rc<HashMap<u32, Rc<Obj>>>,
    pub tls: Rc<HashMap<(u32, u32), u32>>,
    pub pc: Vec<E>,
    pub model: Vec<u8>,
    pub doms: Vec<[u64; 4]>,
    pub multi: Vec<u64>,
    pub nvars: u32,
    pub scratch: Vec<u64>,
    pub spos: usize,
    pub steps: u64,
    pub forks: u32,
    pub log: Vec<Ev>,
    pub obs: Vec<Vec<(u8, E)>>,
    pub hashes: Vec<(Vec<(u8, E)>, [u8; 20])>,
    pub live: u64,
    pub peak: u64,
    pub sys: Sys,
}

#[derive(Debug)]
pub enum Stop { Done, Time, Infeasible, Violation(String, String), Unsupported(String) }
pub type R<T> = Result<T, Stop>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Stop::Unsupported(s.into())) }
pub fn viol<T>(k: &str, s: impl Into<String>) -> R<T> { Err(Stop::Violation(k.into(), s.into())) }

#[derive(Default)]
pub struct Stats { pub instrs: u64, pub paths: u64, pub killed: u64, pub forks: u64, pub confirmed: u64, pub unconfirmed: u64, pub dom_decisions: u64, pub branch_sym: u64, pub asserts: u64, pub max_vars: u32, pub covers: BTreeMap<String, u64>, pub funcs: BTreeSet<u32>, pub sites: HashMap<(u32, u32, u32), u64> }

pub struct Eng {
    pub t0: std::time::Instant,
    pub tlimit: f64,
    pub m: Rc<Module>,
    pub sol: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub base: Vec<Option<Rc<Obj>>>, // globals
    pub fb: u32,
    pub hb: u32,
    pub param: u64,
    pub domx: HashMap<(u32, [u64; 4]), E>,
    pub limits: Limits,
    pub trace: bool,
    pub profile: bool,
    pub confirm_secs: f64,
    small: HashMap<E, bool>,
}
#[derive(Clone)]
pub struct Limits { pub steps: u64, pub alloc: u64, pub depth: usize, pub stack: u64 }

enum Flow { Next, Jump }

impl Eng {
    pub fn new(m: Rc<Module>, timeout_ms: u32) -> Eng {
        let n = m.fn_base() as usize;
        Eng { t0: std::time::Instant::now(), tlimit: 1e9, fb: m.fn_base(), hb: m.first_heap(), param: 0, domx: HashMap::new(), m, sol: Solver::new(timeout_ms), work: vec![], stats: Stats::default(), base: vec![None; n], limits: Limits { steps: 400_000_000, alloc: 1 << 30, depth: 3000, stack: 8 << 20 }, trace: false, profile: false, confirm_secs: 15.0, small: HashMap::new() }
    }
    pub fn initial(&self, f: Rc<Func>, args: Vec<V>) -> State {
        let mut st = State { th: vec![Thread { frames: vec![], stack: vec![], sbytes: 0, ts: TS::Run }], cur: 0, heap: vec![], nheap: 0, gmod: Rc::new(HashMap::new()), tls: Rc::new(HashMap::new()), pc: vec![], model: vec![], doms: vec![], multi: vec![], nvars: 0, scratch: vec![], spos: 0, steps: 0, forks: 0, log: vec![], obs: vec![], hashes: vec![], live: 0, peak: 0, sys: Sys::new() };
        self.push_frame(&mut st, f, args, u32::MAX, u32::MAX, FK::Normal);
        st
    }
    pub fn push_frame(&self, st: &mut State, f: Rc<Func>, args: Vec<V>, ret: u32, normal: u32, kind: FK) {
        let mut regs = vec![V::C(0); f.nslots as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a }
        let t = &mut st.th[st.cur];
        let (sbase, sbytes) = (t.stack.len() as u32, t.sbytes);
        t.frames.push(Frame { f, blk: 0, ip: 0, prev: u32::MAX, regs, sbase, sbytes, ret, normal, kind });
    }

    // ---------------- memory ----------------
    fn load_global(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.base[id as usize] { return Ok(o.clone()) }
        let g = (id - GL_BASE) as usize;
        let m = self.m.clone();
        let (ty, init) = m.global_init(g);
        let mut o = Obj::new(ty.size().max(1));
        o.size = ty.size();
        if let Some(v) = init { o.ensure(ty.size()); write_const(&mut o, 0, &ty, &v) }
        else if m.gls[g].name.contains("no_alloc_shim") { o.ensure(ty.size()) }
        else { return unsup(format!("external global {}", m.gls[g].name)) }
        o.ro = m.gls[g].constant;
        let r = Rc::new(o);
        self.base[id as usize] = Some(r.clone());
        Ok(r)
    }
    pub fn obj(&mut self, st: &State, id: u32) -> R<Rc<Obj>> { Ok(self.obj_ref(st, id)?.clone()) }
    #[inline] fn obj_ref<'a>(&'a mut self, st: &'a State, id: u32) -> R<&'a Rc<Obj>> {
        if id & STACK != 0 && id < 2 * STACK {
            let (t, i) = ((id >> 20 & 0x3ff) as usize, (id & 0xfffff) as usize);
            return match st.th.get(t).and_then(|t| t.stack.get(i)) { Some(o) => Ok(o), None => viol("memory", "access to a dead stack slot") };
        }
        if id >= self.hb {
            let k = (id - self.hb) as usize;
            return match st.heap.get(k / CH).and_then(|c| c[k % CH].as_ref()) { Some(o) => Ok(o), None => viol("memory", format!("use of freed or wild memory (object {:#x})", id)) };
        }
        if id == 0 { return viol("memory", "null dereference") }
        if id < self.fb {
            if let Some(o) = st.gmod.get(&id) { return Ok(o) }
            if self.base[id as usize].is_none() { self.load_global(id)?; }
            return Ok(self.base[id as usize].as_ref().unwrap());
        }
        viol("memory", "data access to code")
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id & STACK != 0 && id < 2 * STACK {
            let (t, i) = ((id >> 20 & 0x3ff) as usize, (id & 0xfffff) as usize);
            return match st.th.get_mut(t).and_then(|t| t.stack.get_mut(i)) { Some(o) => Ok(Rc::make_mut(o)), None => viol("memory", "access to a dead stack slot") };
        }
        if id >= self.hb {
            let k = (id - self.hb) as usize;
            if k / CH >= st.heap.len() { return viol("memory", "wild write") }
            let c = Rc::make_mut(&mut st.heap[k / CH]);
            return match c[k % CH].as_mut() { Some(o) => { if o.ro { return viol("memory", "write to read-only mapping") } Ok(Rc::make_mut(o)) } None => viol("memory", "write to freed memory") };
        }
        if id == 0 { return viol("memory", "null write") }
        if id < self.fb {
            if !st.gmod.contains_key(&id) { let o = self.load_global(id)?; if o.ro { return viol("memory", "write to constant") } Rc::make_mut(&mut st.gmod).insert(id, o); }
            return Ok(Rc::make_mut(Rc::make_mut(&mut st.gmod).get_mut(&id).unwrap()));
        }
        viol("memory", "write to code")
    }
    pub fn alloc(&mut self, st: &mut State, o: Obj) -> u64 {
        let k = st.nheap as usize;
        st.nheap += 1;
        if k / CH >= st.heap.len() { const N: Option<Rc<Obj>> = None; st.heap.push(Rc::new([N; CH])) }
        Rc::make_mut(&mut st.heap[k / CH])[k % CH] = Some(Rc::new(o));
        addr(self.hb + k as u32)
    }
    pub fn malloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > self.limits.alloc { return viol("alloc", format!("allocation of {} bytes", size)) }
        st.live += size;
        if st.live > st.peak { st.peak = st.live }
        if st.live > self.limits.alloc { return viol("alloc", format!("{} bytes live", st.live)) }
        let mut o = Obj::new(size);
        o.heap = true;
        Ok(self.alloc(st, o))
    }
    pub fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 { return Ok(()) }
        let id = (p >> 32) as u32;
        if id < self.hb || id >= STACK || p as u32 != 0 { return viol("memory", "invalid free") }
        let k = (id - self.hb) as usize;
        if k / CH >= st.heap.len() { return viol("memory", "invalid free") }
        let c = Rc::make_mut(&mut st.heap[k / CH]);
        match c[k % CH].take() { Some(o) => { if o.heap { st.live -= o.size } Ok(()) } None => viol("memory", "double free") }
    }
    pub fn read(&mut self, st: &State, a: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 { return Ok(vec![]) }
        let o = self.obj_ref(st, (a >> 32) as u32)?;
        let off = a & 0xffff_ffff;
        if off + n > o.size { return viol("memory", format!("read of {} bytes at offset {} of an object of {} bytes", n, off, o.size)) }
        Ok((0..n).map(|i| o.byte(off + i)).collect())
    }
    pub fn write(&mut self, st: &mut State, a: u64, b: &[(u8, E)]) -> R<()> {
        if b.is_empty() { return Ok(()) }
        let off = a & 0xffff_ffff;
        let o = self.obj_mut(st, (a >> 32) as u32)?;
        if off + b.len() as u64 > o.size { return viol("memory", format!("write of {} bytes at offset {} of an object of {} bytes", b.len(), off, o.size)) }
        o.ensure(off + b.len() as u64);
        for (i, (x, e)) in b.iter().enumerate() { o.set(off + i as u64, *x, *e) }
        Ok(())
    }
    pub fn write_conc(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> { let v: Vec<_> = b.iter().map(|x| (*x, 0)).collect(); self.write(st, a, &v) }
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        let v = self.read(st, a, n)?;
        let mut r = Vec::with_capacity(v.len());
        for (b, e) in v { r.push(if e == 0 { b } else { self.concretise(st, e)? as u8 }) }
        Ok(r)
    }
    pub fn read_int(&mut self, st: &mut State, a: u64, n: u64) -> R<u64> { let b = self.read_conc(st, a, n)?; Ok(b.iter().rev().fold(0, |x, y| x << 8 | *y as u64)) }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()) }
        let so = self.obj(st, (s >> 32) as u32)?;
        let soff = (s & 0xffff_ffff) as usize;
        if soff as u64 + n > so.size { return viol("memory", format!("copy of {} bytes from offset {} of an object of {} bytes", n, soff, so.size)) }
        let doff = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        // how much of the source is materialised
        let have = so.data.len().saturating_sub(soff).min(n);
        if d >> 32 == s >> 32 {
            let ssym: Option<Vec<E>> = if have == 0 { None } else { so.sym.as_ref().map(|v| v[soff..soff + have].to_vec()) };
            let sdat = if have == 0 { vec![] } else { so.data[soff..soff + have].to_vec() };
            drop(so);
            let o = self.obj_mut(st, (d >> 32) as u32)?;
            put_range(o, doff, &sdat, ssym.as_deref(), n)
        } else {
            let o = self.obj_mut(st, (d >> 32) as u32)?;
            if have == 0 { return put_range(o, doff, &[], None, n) }
            put_range(o, doff, &so.data[soff..soff + have], so.sym.as_ref().map(|v| &v[soff..soff + have]), n)
        }
    }
    pub fn memset(&mut self, st: &mut State, d: u64, v: (u8, E), n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let off = d & 0xffff_ffff;
        let o = self.obj_mut(st, (d >> 32) as u32)?;
        if off + n > o.size { return viol("memory", format!("memset of {} bytes at offset {} of an object of {} bytes", n, off, o.size)) }
        if v == (0, 0) {
            let end = ((off + n) as usize).min(o.data.len());
            if (off as usize) < end {
                o.data[off as usize..end].fill(0);
                if let Some(s) = &mut o.sym { s[off as usize..end].fill(0) }
            }
            return Ok(());
        }
        o.ensure(off + n);
        if v.1 == 0 && o.sym.is_none() { o.data[off as usize..(off + n) as usize].fill(v.0) } else { for i in 0..n { o.set(off + i, v.0, v.1) } }
        Ok(())
    }

    // ---------------- constraints ----------------
    pub fn fresh(&mut self, st: &mut State) -> E {
        let v = st.nvars;
        st.nvars += 1;
        st.doms.push([!0; 4]);
        st.model.push(0);
        if st.multi.len() * 64 <= v as usize { st.multi.push(0) }
        if st.nvars > self.stats.max_vars { self.stats.max_vars = st.nvars }
        var(v)
    }
    fn single(&self, st: &State, c: E) -> Option<u32> {
        match &info(c).vars { Vars::One(v) if st.multi[*v as usize / 64] >> (v % 64) & 1 == 0 => Some(*v), _ => None }
    }
    /// A condition on one byte that the byte's possible values already decide
    fn settle(&mut self, st: &State, c: E) -> E {
        // (the reference into the arena does not outlive the creation of other terms)
        if let Vars::One(v) = &info(c).vars {
            let v = *v;
            let d = st.doms[v as usize];
            if d != [!0; 4] {
                let t = truth(c, v);
                let (must, never) = ((0..4).all(|i| d[i] & !t[i] == 0), (0..4).all(|i| d[i] & t[i] == 0));
                if must { self.confirm(not(c), v, d); return tru() }
                if never { self.confirm(c, v, d); return fls() }
            }
        }
        c
    }
    /// A condition the byte domains exclude: z3 must refute it as well.
    fn confirm(&mut self, c: E, v: u32, d: [u64; 4]) {
        if is_const(c).is_some() || self.confirm_secs <= 0.0 || !self.confirmable(c) { self.stats.unconfirmed += 1; return }
        let before = self.sol.secs;
        self.stats.confirmed += 1;
        let mut q = vec![c];
        if d != [!0; 4] { q.push(self.dom_expr(v, d)) }
        match self.sol.check(q) { Ok(None) => (), Ok(Some(_)) => panic!("z3 satisfies a condition that the byte domains exclude: {}", show(c, 6)), Err(_) => self.stats.unconfirmed += 1 }
        self.confirm_secs -= self.sol.secs - before;
    }
    /// small enough to be translated (the automata of regular expressions give terms of tens of thousands of nodes)
    fn confirmable(&mut self, c: E) -> bool {
        if let Some(b) = self.small.get(&c) { return *b }
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue }
            if seen.len() > 400 { break }
            let n = node(x);
            match n.op {
                Op::Const | Op::Var => (),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Lut => todo.push(n.a),
                Op::Ite => { todo.push(n.a); todo.push(n.b); todo.push(n.c) }
                _ => { todo.push(n.a); todo.push(n.b) }
            }
        }
        let b = seen.len() <= 400;
        self.small.insert(c, b);
        b
    }
    /// Constraints transitively connected with `c`. Those on one byte are represented by its exact domain.
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut set = vec![];
        info(c).vars.or_into(&mut set);
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] { continue }
                let vs = &info(p).vars;
                if let Vars::One(_) = vs { used[i] = true; continue }
                if vs.intersects(&set) {
                    used[i] = true;
                    out.push(p);
                    let before: u32 = set.iter().map(|x| x.count_ones()).sum();
                    vs.or_into(&mut set);
                    if set.iter().map(|x| x.count_ones()).sum::<u32>() != before { ch = true }
                }
            }
            if !ch { break }
        }
        for (i, w) in set.iter().enumerate() { let mut w = *w; while w != 0 { let v = (i * 64) as u32 + w.trailing_zeros(); w &= w - 1; let d = st.doms[v as usize]; if d != [!0; 4] { out.push(self.dom_expr(v, d)) } } }
        out
    }
    fn conjuncts(c: E, out: &mut Vec<E>) { let n = node(c); if n.op == Op::And { let (a, b) = (n.a, n.b); Self::conjuncts(a, out); Self::conjuncts(b, out) } else { out.push(c) } }
    fn dom_expr(&mut self, v: u32, d: [u64; 4]) -> E {
        if let Some(e) = self.domx.get(&(v, d)) { return *e }
        let has = |x: usize| d[x / 64] >> (x % 64) & 1 == 1;
        let mut e = fls();
        let mut x = 0;
        while x < 256 {
            if !has(x) { x += 1; continue }
            let lo = x;
            while x < 256 && has(x) { x += 1 }
            let hi = x - 1;
            let t = if lo == hi { eq(var(v), cst(8, lo as u128)) } else { and(ule(cst(8, lo as u128), var(v)), ule(var(v), cst(8, hi as u128))) };
            e = or(e, t);
        }
        self.domx.insert((v, d), e);
        e
    }
    /// Some(patch to the model) if c can hold together with the path condition
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Vec<(u32, u8)>>> {
        if let Some(k) = is_const(c) { return Ok(if k == 1 { Some(vec![]) } else { None }) }
        if let Some(v) = self.single(st, c) {
            self.stats.dom_decisions += 1;
            let t = truth(c, v);
            let d = st.doms[v as usize];
            let x: Vec<u64> = (0..4).map(|i| t[i] & d[i]).collect();
            let cur = st.model[v as usize] as usize;
            if x[cur / 64] >> (cur % 64) & 1 == 1 { return Ok(Some(vec![])) }
            for i in 0..4 { if x[i] != 0 { return Ok(Some(vec![(v, (i * 64) as u8 + x[i].trailing_zeros() as u8)])) } }
            self.confirm(c, v, d);
            return Ok(None);
        }
        if eval(c, &st.model) == 1 { return Ok(Some(vec![])) }
        // a conjunction of conditions on single bytes holds iff every byte keeps a value; a disjunction iff one part does
        let n = node(c);
        if n.op == Op::Not && node(n.a).op == Op::And {
            let mut parts = vec![];
            Self::conjuncts(n.a, &mut parts);
            if parts.len() <= 40 {
                for p in parts { if let Some(x) = self.feasible(st, not(p))? { return Ok(Some(x)) } }
                // every part was refuted above
                return Ok(None);
            }
        }
        if n.op == Op::And {
            let mut parts = vec![];
            Self::conjuncts(c, &mut parts);
            let mut exact = true;
            let mut dom: Vec<(u32, [u64; 4])> = vec![];
            for p in parts {
                match &info(p).vars {
                    Vars::One(v) => {
                        let t = truth(p, *v);
                        if st.multi[*v as usize / 64] >> (v % 64) & 1 == 1 { exact = false }
                        let k = match dom.iter().position(|x| x.0 == *v) { Some(k) => k, None => { dom.push((*v, st.doms[*v as usize])); dom.len() - 1 } };
                        for i in 0..4 { dom[k].1[i] &= t[i] }
                        if dom[k].1 == [0; 4] {
                            self.stats.dom_decisions += 1;
                            let v = *v;
                            let mut mine = vec![];
                            Self::conjuncts(c, &mut mine);
                            let all = mine.into_iter().filter(|p| matches!(&info(*p).vars, Vars::One(w) if *w == v)).fold(tru(), and);
                            self.confirm(all, v, st.doms[v as usize]);
                            return Ok(None);
                        }
                    }
                    _ => exact = false,
                }
            }
            let pick: Vec<(u32, u8)> = dom.iter().map(|(v, d)| { let cur = st.model[*v as usize] as usize; if d[cur / 64] >> (cur % 64) & 1 == 1 { return (*v, cur as u8) } let i = (0..4).find(|i| d[*i] != 0).unwrap(); (*v, (i * 64) as u8 + d[i].trailing_zeros() as u8) }).collect();
            if exact { self.stats.dom_decisions += 1; return Ok(Some(pick)) }
            let mut m = st.model.clone();
            for (v, b) in &pick { m[*v as usize] = *b }
            if eval(c, &m) == 1 && st.pc.iter().all(|p| eval(*p, &m) == 1) { self.stats.dom_decisions += 1; return Ok(Some(pick)) }
        }
        if let Vars::One(v) = &info(c).vars {
            // a byte that other constraints mention too: an empty domain decides, a fitting value is a witness
            let v = *v;
            let t = truth(c, v);
            let d = st.doms[v as usize];
            let cand: Vec<u8> = (0..256usize).filter(|b| (t[b / 64] & d[b / 64]) >> (b % 64) & 1 == 1).map(|b| b as u8).collect();
            if cand.is_empty() { self.stats.dom_decisions += 1; self.confirm(c, v, d); return Ok(None) }
            let rel: Vec<E> = st.pc.iter().copied().filter(|p| match &info(*p).vars { Vars::One(_) => false, o => { let mut s = vec![]; o.or_into(&mut s); s.len() > v as usize / 64 && s[v as usize / 64] >> (v % 64) & 1 == 1 } }).collect();
            let mut m = st.model.clone();
            for k in 0..cand.len().min(6) {
                m[v as usize] = cand[k * cand.len() / cand.len().min(6)];
                if rel.iter().all(|p| eval(*p, &m) == 1) { self.stats.dom_decisions += 1; return Ok(Some(vec![(v, m[v as usize])])) }
            }
        }
        let s = self.slice(st, c);
        match self.sol.check(s) { Ok(x) => Ok(x), Err(e) => unsup(format!("solver: {}", e)) }
    }
    fn add(&mut self, st: &mut State, c: E, patch: &[(u32, u8)]) {
        if is_const(c).is_some() { return }
        for (v, b) in patch { st.model[*v as usize] = *b }
        debug_assert_eq!(eval(c, &st.model), 1);
        // split conjunctions so that unary parts stay unary
        let n = node(c);
        if n.op == Op::And { self.add(st, n.a, &[]); self.add(st, n.b, &[]); return }
        match &info(c).vars {
            Vars::One(v) => { let t = truth(c, *v); for i in 0..4 { st.doms[*v as usize][i] &= t[i] } }
            o => { o.or_into(&mut st.multi) }
        }
        if !st.pc.contains(&c) { st.pc.push(c) }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match self.feasible(st, c)? { Some(p) => { self.add(st, c, &p); Ok(()) } None => Err(Stop::Infeasible) }
    }
    /// Decide a symbolic condition, forking if both sides are possible. The sibling re-executes the instruction.
    pub fn fork(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = is_const(c) { return Ok(k == 1) }
        let c = if let Vars::Many(_) = &info(c).vars { self.split_tables(st, c)? } else { c };
        if let Some(k) = is_const(c) { return Ok(k == 1) }
        self.stats.branch_sym += 1;
        let val = eval(c, &st.model) == 1;
        let (yes, no) = if val { (c, not(c)) } else { (not(c), c) };
        if let Some(p) = self.feasible(st, no)? {
            let mut alt = st.clone();
            alt.spos = 0;
            alt.forks += 1;
            self.add(&mut alt, no, &p);
            self.stats.forks += 1;
            if self.profile { let f = st.th[st.cur].frames.last().unwrap(); *self.stats.sites.entry((f.f.id, f.blk, f.ip)).or_insert(0) += 1; }
            self.work.push(alt);
            st.forks += 1;
        }
        self.add(st, yes, &[]);
        Ok(val)
    }
    /// Is c certainly true on this path?
    pub fn must(&mut self, st: &State, c: E) -> R<bool> { Ok(self.feasible(st, not(c))?.is_none()) }
    pub fn concretise(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = is_const(e) { return Ok(k) }
        let v = eval(e, &st.model);
        let c = eq(e, cst(width(e), v));
        let r = self.fork(st, c)?;
        debug_assert!(r);
        Ok(v)
    }
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u64> { match v { V::C(c) => Ok(*c as u64), V::S(e) => Ok(self.concretise(st, *e)? as u64), _ => unsup("concretise aggregate") } }
    /// Nondeterministic choice among n alternatives (each explored)
    pub fn choose(&mut self, st: &mut State, n: u64) -> u64 {
        if st.spos < st.scratch.len() { st.spos += 1; return st.scratch[st.spos - 1] }
        // a symbolic value below n, split into its values at once; z3 confirms that none is left out
        let v = if (2..=64).contains(&n) { let v = self.fresh(st); Some(node(v).k as u32) } else { None };
        if let Some(v) = v {
            let rest = (0..n).fold(tru(), |r, i| and(r, not(eq(var(v), cst(8, i as u128)))));
            self.confirm(rest, v, [if n == 64 { !0 } else { (1u64 << n) - 1 }, 0, 0, 0]);
            st.doms[v as usize] = [1, 0, 0, 0];
        }
        for i in (1..n).rev() {
            let mut alt = st.clone();
            if let Some(v) = v { alt.model[v as usize] = i as u8; alt.doms[v as usize] = [1 << i, 0, 0, 0] }
            alt.scratch.push(i);
            alt.spos = 0;
            alt.forks += 1;
            self.stats.forks += 1;
            self.work.push(alt);
        }
        st.scratch.push(0);
        st.spos += 1;
        0
    }

    // ---------------- values ----------------
    pub fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> R<V> {
        let a = match p {
            V::C(c) => *c as u64,
            V::S(e) => { if let Some(v) = self.load_sym(st, ty, *e)? { return Ok(v) } self.concretise(st, *e)? as u64 }
            _ => return unsup("vector load"),
        };
        let o = self.obj_ref(st, (a >> 32) as u32)?;
        let off = a & 0xffff_ffff;
        if off + ty.store_size() > o.size { return viol("memory", format!("load of {} bytes at offset {} of an object of {} bytes", ty.store_size(), off, o.size)) }
        Ok(load_val(o, off, ty))
    }
    /// Values a single-byte expression can take on this path; None: more than `max`
    fn values(&self, st: &State, e: E, v: u32, max: usize) -> Option<Vec<u128>> {
        let d = st.doms[v as usize];
        let mut model = vec![0u8; v as usize + 1];
        let mut out: Vec<u128> = vec![];
        for x in 0..256usize {
            if d[x / 64] >> (x % 64) & 1 == 0 { continue }
            model[v as usize] = x as u8;
            let y = eval(e, &model);
            if !out.contains(&y) { if out.len() == max { return None } out.push(y) }
        }
        Some(out)
    }
    /// The largest parts of `e` that depend on one byte
    fn unary_parts(e: E) -> Option<Vec<(E, u32)>> {
        let (mut todo, mut seen, mut parts) = (vec![e], std::collections::HashSet::new(), vec![]);
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue }
            if seen.len() > 400 { return None }
            match &info(x).vars {
                Vars::None => {}
                Vars::One(v) => parts.push((x, *v)),
                _ => { let n = node(x); for y in [n.a, n.b, n.c] { if y != 0 { todo.push(y) } } }
            }
        }
        Some(parts)
    }
    /// An address that depends on several bytes, each through a part with few possible values (a table-driven
    /// automaton): fork on those parts instead of building tables of tables. Some(value) if that settles it.
    fn split_address(&mut self, st: &mut State, e: E) -> R<Option<u128>> {
        let Some(parts) = Self::unary_parts(e) else { return Ok(None) };
        if parts.iter().any(|(x, v)| self.values(st, *x, *v, 48).is_none()) { return Ok(None) }
        for (x, v) in parts { self.pin(st, x, v)? }
        Ok(Some(eval(e, &st.model)))
    }
    fn pin(&mut self, st: &mut State, x: E, v: u32) -> R<()> {
        if self.values(st, x, v, 1).is_none() { let y = eval(x, &st.model); self.fork(st, eq(x, cst(width(x), y)))?; }
        Ok(())
    }
    /// A condition on several bytes: parts that a table maps to few values are fixed first
    fn split_tables(&mut self, st: &mut State, c: E) -> R<E> {
        fn has_lut(x: E, n: &mut u32) -> bool { let d = node(x); if d.op == Op::Lut { return true } *n += 1; *n < 200 && [d.a, d.b, d.c].iter().any(|y| *y != 0 && has_lut(*y, n)) }
        let Some(parts) = Self::unary_parts(c) else { return Ok(c) };
        let mut map = HashMap::new();
        for (x, v) in parts {
            if !has_lut(x, &mut 0) || self.values(st, x, v, 48).is_none() { continue }
            self.pin(st, x, v)?;
            map.insert(x, cst(width(x), eval(x, &st.model)));
        }
        Ok(if map.is_empty() { c } else { subst(c, &mut map) })
    }
    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: E) -> R<Option<V>> {
        if ty.is_agg() { return Ok(None) }
        if let Vars::Many(_) = &info(e).vars {
            if let Some(a) = self.split_address(st, e)? { return Ok(Some(self.load(st, ty, &V::C(a))?)) }
        }
        let val = eval(e, &st.model) as u64;
        let id = (val >> 32) as u32;
        let o = self.obj(st, id)?;
        let n = ty.store_size();
        if o.size < n || o.size > 1 << 20 { return Ok(None) }
        let base = (id as u128) << 32;
        let inf = info(e);
        let (mut lo, mut hi) = (inf.lo, inf.hi);
        // tighten with the domain of a lone variable
        if let Some(v) = self.single(st, e) {
            let (mut l, mut h) = (u128::MAX, 0);
            let mut model = st.model.clone();
            for x in 0..256usize { if st.doms[v as usize][x / 64] >> (x % 64) & 1 == 1 { model[v as usize] = x as u8; let y = eval(e, &model); l = l.min(y); h = h.max(y); } }
            lo = l; hi = h;
        }
        let last = base + (o.size - n) as u128;
        if lo < base || hi > last {
            let inside = and(ule(cst(64, base), e), ule(e, cst(64, last)));
            if !self.fork(st, inside)? { return Ok(None) }
            lo = lo.max(base);
            hi = hi.min(last);
        }
        let span = (hi - lo) as u64 + 1;
        if span > 8192 { return Ok(None) }
        let loff = (lo - base) as u64;
        let w = ty.bits();
        let idx = bin(Op::Sub, e, cst(64, lo));
        let idx = extract(idx, 15, 0);
        let symbolic = (loff..loff + span - 1 + n).any(|i| o.byte(i).1 != 0);
        if !symbolic && w <= 64 {
            let t: Vec<u64> = (0..span).map(|k| match load_val(&o, loff + k, ty) { V::C(c) => c as u64, _ => unreachable!() }).collect();
            return Ok(Some(V::from(lut(idx, t, w))));
        }
        if span <= 64 {
            let mut r = load_val(&o, loff, ty).e(w);
            for k in 1..span { let v = load_val(&o, loff + k, ty).e(w); r = ite(eq(idx, cst(16, k as u128)), v, r) }
            return Ok(Some(V::from(r)));
        }
        Ok(None)
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, p: &V, v: &V) -> R<()> {
        let a = self.conc(st, p)?;
        let off = a & 0xffff_ffff;
        let o = self.obj_mut(st, (a >> 32) as u32)?;
        let n = ty.store_size();
        if off + n > o.size { return viol("memory", format!("store of {} bytes at offset {} of an object of {} bytes", n, off, o.size)) }
        o.ensure(off + n);
        store_val(o, off, ty, v);
        Ok(())
    }

    // ---------------- stepping ----------------
    /// Run one state until it stops.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) { Ok(()) => {} Err(s) => return s }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.th[st.cur].frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }
    #[inline] fn get<'a>(f: &'a Frame, o: &'a O) -> &'a V { match o { O::L(s) => &f.regs[*s as usize], O::K(v) => v } }

    fn jump(f: &mut Frame, to: u32) {
        f.prev = f.blk;
        f.blk = to;
        f.ip = 0;
        let func = f.f.clone();
        let b = &func.blocks[to as usize];
        if b.phis.is_empty() { return }
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let v = inc.iter().find(|(l, _)| *l == f.prev).map(|(_, o)| Self::get(f, o).clone()).expect("phi");
            f.regs[*d as usize] = v;
            return;
        }
        let vals: Vec<(u32, V)> = b.phis.iter().map(|(d, inc)| (*d, inc.iter().find(|(l, _)| *l == f.prev).map(|(_, o)| Self::get(f, o).clone()).expect("phi"))).collect();
        for (d, v) in vals { f.regs[d as usize] = v }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let func;
        let (blk, ip);
        {
            let f = match st.th[cur].frames.last() { Some(f) => f, None => return Err(Stop::Done) };
            func = f.f.clone();
            blk = f.blk;
            ip = f.ip;
        }
        self.stats.funcs.insert(func.id);
        let mut ip = ip as usize;
        let block = &func.blocks[blk as usize];
        // run the straight-line part of the block without re-fetching the frame
        loop {
            let ins = &block.ins[ip];
            self.stats.instrs += 1;
            st.steps += 1;
            if self.stats.instrs & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.tlimit { return Err(Stop::Time) }
            if st.steps > self.limits.steps { return viol("hang", format!("more than {} instructions executed", self.limits.steps)) }
            st.spos = 0;
            match self.exec(st, cur, ins)? {
                Flow::Next => {
                    if !st.scratch.is_empty() { st.scratch.clear() }
                    ip += 1;
                    st.th[cur].frames.last_mut().unwrap().ip = ip as u32;
                }
                Flow::Jump => { if !st.scratch.is_empty() { st.scratch.clear() } return Ok(()) }
            }
        }
    }

    fn exec(&mut self, st: &mut State, cur: usize, ins: &I) -> R<Flow> {
        macro_rules! fr { () => { st.th[cur].frames.last_mut().unwrap() }; }
        macro_rules! g { ($o:expr) => { Self::get(st.th[cur].frames.last().unwrap(), $o) }; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; fr!().regs[$d as usize] = v; }}; }
        match ins {
            I::Bin(op, w, d, a, b) => {
                let f = fr!();
                let (x, y) = (Self::get(f, a), Self::get(f, b));
                let r = match (x, y) { (V::C(x), V::C(y)) => V::C(cbin(*op, *w, *x, *y)), _ => { let (x, y) = (x.clone(), y.clone()); self.sbin(st, *op, *w, &x, &y)? } };
                set!(*d, r);
            }
            I::Icmp(p, w, d, a, b) => {
                let f = fr!();
                let (x, y) = (Self::get(f, a), Self::get(f, b));
                let r = match (x, y) { (V::C(x), V::C(y)) => V::C(ccmp(*p, *w, *x, *y) as u128), _ => { let c = scmp(*p, x.e(*w), y.e(*w)); V::from(self.settle(st, c)) } };
                set!(*d, r);
            }
            I::Gep(d, base, off, terms) => {
                let f = fr!();
                let b = Self::get(f, base);
                let mut conc = matches!(b, V::C(_));
                let mut a = if conc { (b.c() as u64).wrapping_add(*off) } else { 0 };
                if conc {
                    for (o, w, s) in terms {
                        match Self::get(f, o) { V::C(c) => a = a.wrapping_add((sext128(*c, *w) as i64 as u64).wrapping_mul(*s)), _ => { conc = false; break } }
                    }
                }
                let r = if conc { V::C(a as u128) } else {
                    let mut e = match b { V::A(_) => return unsup("vector gep"), _ => bin(Op::Add, b.e(64), cst(64, *off as u128)) };
                    for (o, w, s) in terms {
                        let x = Self::get(f, o).e(*w);
                        let x = if *w < 64 { sext(x, 64) } else { x };
                        e = bin(Op::Add, e, bin(Op::Mul, x, cst(64, *s as u128)));
                    }
                    V::from(e)
                };
                set!(*d, r);
            }
            I::Load(d, ty, p) => { let pv = g!(p).clone(); let v = self.load(st, ty, &pv)?; set!(*d, v) }
            I::Store(ty, v, p) => { let (pv, vv) = (g!(p).clone(), g!(v).clone()); self.store(st, ty, &pv, &vv)? }
            I::Br(t) => { Self::jump(fr!(), *t); return Ok(Flow::Jump) }
            I::CondBr(c, x, y) => {
                let v = match g!(c) { V::C(k) => *k & 1 == 1, V::S(e) => { let e = *e; self.fork(st, e)? } _ => return unsup("branch") };
                Self::jump(fr!(), if v { *x } else { *y });
                return Ok(Flow::Jump);
            }
            I::Switch(w, v, def, cs) => {
                let t = match g!(v) {
                    V::C(k) => cs.iter().find(|(c, _)| c == k).map(|x| x.1).unwrap_or(*def),
                    V::S(e) => {
                        let e = *e;
                        let mut t = None;
                        // group the cases by target so that one fork decides per target
                        let mut targets: Vec<(u32, E)> = vec![];
                        for (c, l) in cs { let q = eq(e, cst(*w, *c)); match targets.iter_mut().find(|x| x.0 == *l) { Some(x) => x.1 = or(x.1, q), None => targets.push((*l, q)) } }
                        for (l, q) in targets { if l == *def { continue } if self.fork(st, q)? { t = Some(l); break } }
                        t.unwrap_or(*def)
                    }
                    _ => return unsup("switch"),
                };
                Self::jump(fr!(), t);
                return Ok(Flow::Jump);
            }
            I::Cast(k, fw, tw, d, a) => {
                if *tw > 128 || *fw > 128 { return unsup("integers wider than 128 bits") }
                let r = match g!(a) {
                    V::C(c) => V::C(match k { C::Trunc => c & mask(*tw), C::SExt => sext128(*c, *fw) as u128 & mask(*tw), _ => *c }),
                    V::S(e) => V::from(match k { C::Trunc => extract(*e, tw - 1, 0), C::SExt => sext(*e, *tw), _ => zext(*e, *tw) }),
                    _ => return unsup("cast"),
                };
                set!(*d, r);
            }
            I::Select(d, ty, vec, c, x, y) => {
                let (cv, xv, yv) = (g!(c).clone(), g!(x).clone(), g!(y).clone());
                let r = if *vec {
                    match (&cv, &xv, &yv) { (V::A(c), V::A(x), V::A(y)) => { let ew = ty.elem(0).bits(); let mut o = vec![]; for i in 0..c.len() { o.push(match &c[i] { V::C(k) => if *k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::S(e) => V::from(ite(*e, x[i].e(ew), y[i].e(ew))), _ => return unsup("vselect") }) } V::A(o.into()) } _ => return unsup("vselect") }
                } else {
                    match cv {
                        V::C(k) => if k & 1 == 1 { xv } else { yv },
                        V::S(e) => match (&xv, &yv) {
                            (V::A(_), _) | (_, V::A(_)) => if self.fork(st, e)? { xv } else { yv },
                            _ if *ty == Ty::Ptr => {
                                // pointers into one object may be merged; otherwise fork
                                let same = match (&xv, &yv) { (V::C(a), V::C(b)) => a >> 32 == b >> 32 && *a >> 32 != 0, _ => false };
                                if same { V::from(ite(e, xv.e(64), yv.e(64))) } else if self.fork(st, e)? { xv } else { yv }
                            }
                            _ => { let w = ty.bits(); V::from(ite(e, xv.e(w), yv.e(w))) }
                        },
                        _ => return unsup("select"),
                    }
                };
                set!(*d, r);
            }
            I::Copy(d, a) => { let v = g!(a).clone(); set!(*d, v) }
            I::Alloca(d, size, n) => {
                let n = { let v = g!(n).clone(); self.conc(st, &v)? };
                let t = &mut st.th[cur];
                let id = STACK | (cur as u32) << 20 | t.stack.len() as u32;
                if t.stack.len() >= 0xfffff { return viol("stack", "stack overflow (number of slots)") }
                let sz = size * n;
                t.sbytes += sz + 16;
                if t.sbytes > self.limits.stack { return viol("stack", "stack overflow") }
                t.stack.push(Rc::new(Obj::new(sz)));
                set!(*d, V::C(addr(id) as u128));
            }
            I::Ret(v) => {
                let rv = match v { Some(o) => Some(g!(o).clone()), None => None };
                return self.ret(st, rv);
            }
            I::Call(c) => return self.call(st, cur, c),
            I::ExtractV(d, a, ix) => {
                let mut v = g!(a).clone();
                for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return unsup("extractvalue") } }
                set!(*d, v);
            }
            I::InsertV(d, a, b, ix) => {
                let (x, y) = (g!(a).clone(), g!(b).clone());
                fn ins(x: &V, ix: &[u32], y: V) -> V { if ix.is_empty() { return y } match x { V::A(a) => { let mut n = a.to_vec(); n[ix[0] as usize] = ins(&a[ix[0] as usize], &ix[1..], y); V::A(n.into()) } _ => panic!("insertvalue") } }
                set!(*d, ins(&x, ix, y));
            }
            I::ExtractE(d, a, i) => {
                let i = { let v = g!(i).clone(); self.conc(st, &v)? };
                let v = match g!(a) { V::A(x) => x[i as usize].clone(), _ => return unsup("extractelement") };
                set!(*d, v);
            }
            I::InsertE(d, a, b, i) => {
                let i = { let v = g!(i).clone(); self.conc(st, &v)? };
                let y = g!(b).clone();
                let v = match g!(a) { V::A(x) => { let mut n = x.to_vec(); n[i as usize] = y; V::A(n.into()) } _ => return unsup("insertelement") };
                set!(*d, v);
            }
            I::Shuffle(d, a, b, mask, n) => {
                let r: Vec<V> = match (g!(a), g!(b)) { (V::A(x), V::A(y)) => mask.iter().map(|k| if *k < 0 { V::C(0) } else if (*k as u64) < *n { x[*k as usize].clone() } else { y[*k as usize - *n as usize].clone() }).collect(), _ => return unsup("shuffle") };
                set!(*d, V::A(r.into()));
            }
            I::BinV(op, w, d, a, b) => {
                let r = match (g!(a).clone(), g!(b).clone()) { (V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..x.len() { o.push(match (&x[i], &y[i]) { (V::C(p), V::C(q)) => V::C(cbin(*op, *w, *p, *q)), (p, q) => self.sbin(st, *op, *w, p, q)? }) } V::A(o.into()) } _ => return unsup("vector op") };
                set!(*d, r);
            }
            I::IcmpV(p, w, d, a, b) => {
                let r = match (g!(a), g!(b)) { (V::A(x), V::A(y)) => V::A(x.iter().zip(y.iter()).map(|(x, y)| match (x, y) { (V::C(x), V::C(y)) => V::C(ccmp(*p, *w, *x, *y) as u128), _ => V::from(self.settle(st, scmp(*p, x.e(*w), y.e(*w)))) }).collect::<Vec<_>>().into()), _ => return unsup("vector icmp") };
                set!(*d, r);
            }
            I::CastV(k, fw, tw, d, a) => {
                let r = match g!(a) { V::A(x) => V::A(x.iter().map(|v| match v { V::C(c) => V::C(match k { C::Trunc => c & mask(*tw), C::SExt => sext128(*c, *fw) as u128 & mask(*tw), _ => *c }), v => { let e = v.e(*fw); V::from(match k { C::Trunc => extract(e, tw - 1, 0), C::SExt => sext(e, *tw), _ => zext(e, *tw) }) } }).collect::<Vec<_>>().into()), _ => return unsup("vector cast") };
                set!(*d, r);
            }
            I::BitAgg(ft, tt, d, a) => { let v = g!(a).clone(); set!(*d, bitcast(&v, ft, tt)) }
            I::Rmw(d, op, w, p, v) => {
                let (pv, vv) = (g!(p).clone(), g!(v).clone());
                let ty = Ty::Int(*w);
                let a = self.conc(st, &pv)?;
                let pv = V::C(a as u128);
                let old = self.load(st, &ty, &pv)?;
                let (o, x) = (old.e(*w), vv.e(*w));
                let n = match op.as_str() {
                    "add" => bin(Op::Add, o, x), "sub" => bin(Op::Sub, o, x), "and" => bin(Op::And, o, x), "or" => bin(Op::Or, o, x), "xor" => bin(Op::Xor, o, x), "xchg" => x,
                    "nand" => not(bin(Op::And, o, x)), "max" => ite(bin(Op::Slt, o, x), x, o), "min" => ite(bin(Op::Slt, o, x), o, x), "umax" => ite(ult(o, x), x, o), "umin" => ite(ult(o, x), o, x),
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.store(st, &ty, &pv, &V::from(n))?;
                set!(*d, old);
            }
            I::CmpXchg(d, w, p, x, y) => {
                let (pv, xv, yv) = (g!(p).clone(), g!(x).clone(), g!(y).clone());
                let ty = Ty::Int(*w);
                let a = self.conc(st, &pv)?;
                let pv = V::C(a as u128);
                let old = self.load(st, &ty, &pv)?;
                let c = eq(old.e(*w), xv.e(*w));
                let hit = self.fork(st, c)?;
                if hit { self.store(st, &ty, &pv, &yv)? }
                set!(*d, V::A(vec![old, V::C(hit as u128)].into()));
            }
            I::Fence | I::Nop => {}
            I::FBin(op, dbl, d, a, b) => {
                let (x, y) = (g!(a).clone(), g!(b).clone());
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let f = |p: f64, q: f64| match op { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, _ => p / q };
                let r = if *dbl { f(f64::from_bits(x), f64::from_bits(y)).to_bits() as u128 } else { (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128 };
                set!(*d, V::C(r));
            }
            I::Fcmp(p, dbl, d, a, b) => {
                let (x, y) = (g!(a).clone(), g!(b).clone());
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "true" => true, _ => false };
                set!(*d, V::C(r as u128));
            }
            I::FpCast(k, ft, tt, d, a) => {
                let v = g!(a).clone();
                let x = self.conc(st, &v)?;
                let r = match k.as_str() {
                    "uitofp" => fbits(tt, x as f64),
                    "sitofp" => fbits(tt, sext128(x as u128, ft.bits()) as f64),
                    "fptoui" => fval(ft, x) as u64 as u128 & mask(tt.bits()),
                    "fptosi" => fval(ft, x) as i64 as u128 & mask(tt.bits()),
                    _ => fbits(tt, fval(ft, x)),
                };
                set!(*d, V::C(r));
            }
            I::Unreachable => return viol("unreachable", "unreachable code executed"),
            I::Bad(s) => return unsup(format!("instruction {}", s)),
        }
        Ok(Flow::Next)
    }

    fn sbin(&mut self, st: &mut State, op: B, w: u32, x: &V, y: &V) -> R<V> {
        let (a, b) = (x.e(w), y.e(w));
        let o = match op {
            B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor,
            B::UDiv | B::SDiv | B::URem | B::SRem => {
                let z = eq(b, cst(w, 0));
                if self.fork(st, z)? { return viol("ub", "division by zero") }
                match op { B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, _ => Op::SRem }
            }
            _ => return unsup("float op"),
        };
        Ok(V::from(bin(o, a, b)))
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<Flow> {
        let cur = st.cur;
        let t = &mut st.th[cur];
        let f = t.frames.pop().unwrap();
        t.stack.truncate(f.sbase as usize);
        t.sbytes = f.sbytes;
        match f.kind {
            FK::Crash => { st.sys.crash_armed = None; let c = t.frames.last_mut().unwrap(); c.regs[f.ret as usize] = V::C(0); c.ip += 1; return Ok(Flow::Jump) }
            FK::Thread => { st.th[cur].ts = TS::Done; self.thread_done(st, cur)?; return Ok(Flow::Jump) }
            _ => {}
        }
        match t.frames.last_mut() {
            None => Err(Stop::Done),
            Some(c) => {
                if f.ret != u32::MAX { if let Some(v) = v { c.regs[f.ret as usize] = v } }
                if f.normal != u32::MAX { Self::jump(c, f.normal) } else { c.ip += 1 }
                Ok(Flow::Jump)
            }
        }
    }

    fn call(&mut self, st: &mut State, cur: usize, c: &Call) -> R<Flow> {
        let fi = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Ind(o) => {
                let v = Self::get(st.th[cur].frames.last().unwrap(), o).clone();
                let a = self.conc(st, &v)?;
                let id = (a >> 32) as u32;
                if id < self.fb || id >= self.hb || a as u32 != 0 { return viol("memory", "call through a bad function pointer") }
                id - self.fb
            }
            Callee::Asm(s) => {
                let r = self.asm(s, c)?;
                self.finish_call(st, cur, c, r);
                return Ok(Flow::Jump);
            }
        };
        let args: Vec<V> = { let f = st.th[cur].frames.last().unwrap(); c.args.iter().map(|(_, o)| Self::get(f, o).clone()).collect() };
        let m = self.m.clone();
        let d = &m.fns[fi as usize];
        let mut ext = d.ext.get();
        if ext == u32::MAX { ext = crate::sys::classify(&d.name, d.declared); d.ext.set(ext) }
        if ext != 0 {
            match self.external(st, cur, fi, ext, &args, c)? {
                Some(v) => self.finish_call(st, cur, c, v),
                None => {}
            }
            return Ok(Flow::Jump);
        }
        if d.declared { return unsup(format!("external function {}", d.name)) }
        let f = self.m.func(fi);
        if st.th[cur].frames.len() > self.limits.depth { return viol("stack", "stack overflow (call depth)") }
        self.push_frame(st, f, args, c.d, c.normal, FK::Normal);
        Ok(Flow::Jump)
    }
    pub fn finish_call(&mut self, st: &mut State, cur: usize, c: &Call, v: V) {
        let f = st.th[cur].frames.last_mut().unwrap();
        if c.d != u32::MAX { f.regs[c.d as usize] = v }
        if c.normal != u32::MAX { Self::jump(f, c.normal) } else { f.ip += 1 }
    }
    fn asm(&mut self, s: &str, c: &Call) -> R<V> {
        let code = s.split('|').next().unwrap();
        if code.contains("cpuid") || code.contains("xgetbv") { return Ok(c.ret.zero()) }
        if c.ret == Ty::Void && (code.is_empty() || code.contains("mfence") || code.contains("pause")) { return Ok(V::C(0)) }
        if code.is_empty() { return unsup(format!("asm {}", s)) }
        unsup(format!("asm {}", s))
    }
}

pub fn fval(t: &Ty, x: u64) -> f64 { if *t == Ty::Double { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 } }
pub fn fbits(t: &Ty, x: f64) -> u128 { if *t == Ty::Double { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } }

fn put_range(o: &mut Obj, off: usize, data: &[u8], sym: Option<&[E]>, n: usize) -> R<()> {
    if (off + n) as u64 > o.size { return viol("memory", format!("copy of {} bytes to offset {} of an object of {} bytes", n, off, o.size)) }
    o.ensure((off + data.len()) as u64);
    o.data[off..off + data.len()].copy_from_slice(data);
    let has = sym.map_or(false, |s| s.iter().any(|e| *e != 0));
    if has && o.sym.is_none() { o.sym = Some(Box::new(vec![0; o.data.len()])) }
    if let Some(s) = &mut o.sym { match sym { Some(x) => s[off..off + data.len()].copy_from_slice(x), None => s[off..off + data.len()].fill(0) } }
    // the rest of the source was never written: zero
    let (a, b) = (off + data.len(), (off + n).min(o.data.len()));
    if a < b { o.data[a..b].fill(0); if let Some(s) = &mut o.sym { s[a..b].fill(0) } }
    Ok(())
}

pub fn load_val(o: &Obj, off: u64, ty: &Ty) -> V {
    match ty {
        Ty::Struct(f, _) => V::A((0..f.len() as u64).map(|i| load_val(o, off + ty.field_off(i), &f[i as usize])).collect::<Vec<_>>().into()),
        Ty::Arr(n, t) => V::A((0..*n).map(|i| load_val(o, off + i * t.size(), t)).collect::<Vec<_>>().into()),
        Ty::Vec(n, t) => { let b = t.bits(); if b % 8 != 0 { let it = Ty::Int(b * *n as u32); return bitcast(&load_val(o, off, &it), &it, ty) } V::A((0..*n).map(|i| load_val(o, off + i * (b as u64 / 8), t)).collect::<Vec<_>>().into()) }
        _ => {
            let w = ty.bits();
            let n = ty.store_size() as usize;
            let off = off as usize;
            let symbolic = match &o.sym { Some(s) => s.len() > off && s[off..(off + n).min(s.len())].iter().any(|e| *e != 0), None => false };
            if !symbolic {
                let mut r = 0u128;
                if off + n <= o.data.len() { for i in (0..n).rev() { r = r << 8 | o.data[off + i] as u128 } } else { for i in (0..n).rev() { r = r << 8 | o.data.get(off + i).copied().unwrap_or(0) as u128 } }
                return V::C(r & mask(w));
            }
            let by = |i: usize| { let (b, e) = o.byte((off + i) as u64); if e != 0 { e } else { cst(8, b as u128) } };
            let mut r = by(n - 1);
            for i in (0..n - 1).rev() { r = concat(r, by(i)) }
            if w < 8 * n as u32 { r = extract(r, w - 1, 0) }
            V::from(r)
        }
    }
}
pub fn store_val(o: &mut Obj, off: u64, ty: &Ty, v: &V) {
    match (ty, v) {
        (Ty::Struct(f, _), V::A(x)) => for i in 0..f.len() { store_val(o, off + ty.field_off(i as u64), &f[i], &x[i]) },
        (Ty::Arr(_, t), V::A(x)) => for i in 0..x.len() { store_val(o, off + i as u64 * t.size(), t, &x[i]) },
        (Ty::Vec(_, t), V::A(x)) => { let b = t.bits() as u64; if b % 8 != 0 { let it = Ty::Int(b as u32 * x.len() as u32); return store_val(o, off, &it, &bitcast(v, ty, &it)) } for i in 0..x.len() { store_val(o, off + i as u64 * (b / 8), t, &x[i]) } }
        (_, V::C(c)) => {
            let n = ty.store_size() as usize;
            let off = off as usize;
            let le = c.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&le[..n]);
            if let Some(s) = &mut o.sym { s[off..off + n].fill(0) }
        }
        (_, V::S(e)) => {
            let n = ty.store_size() as u32;
            let e = zext(*e, n * 8);
            for i in 0..n {
                let b = extract(e, i * 8 + 7, i * 8);
                match is_const(b) { Some(k) => o.set(off + i as u64, k as u8, 0), None => o.set(off + i as u64, 0, b) }
            }
        }
        _ => panic!("store {:?} {:?}", ty, v),
    }
}
fn write_const(o: &mut Obj, off: u64, ty: &Ty, v: &V) { store_val(o, off, ty, v) }

pub fn bitcast(v: &V, ft: &Ty, tt: &Ty) -> V {
    let (fv, fw): (Vec<V>, u32) = match (v, ft) { (V::A(x), Ty::Vec(_, t)) => (x.to_vec(), t.bits()), (x, t) => (vec![x.clone()], t.bits()) };
    let tw = match tt { Ty::Vec(_, t) => t.bits(), t => t.bits() };
    let mut out: Vec<V> = vec![];
    if fw == tw { out = fv }
    else if fw < tw {
        let k = (tw / fw) as usize;
        for g in fv.chunks(k) {
            if g.iter().all(|x| matches!(x, V::C(_))) { out.push(V::C(g.iter().rev().fold(0u128, |a, x| a << fw | x.c()))) }
            else { let mut r = g[k - 1].e(fw); for x in g[..k - 1].iter().rev() { r = concat(r, x.e(fw)) } out.push(V::from(r)) }
        }
    } else {
        let k = fw / tw;
        for x in fv { for i in 0..k { out.push(match &x { V::C(c) => V::C(c >> (i * tw) & mask(tw)), x => V::from(extract(x.e(fw), i * tw + tw - 1, i * tw)) }) } }
    }
    if let Ty::Vec(..) = tt { V::A(out.into()) } else { out.pop().unwrap() }
}

#[inline] fn cbin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m, B::Sub => a.wrapping_sub(b) & m, B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
        B::Mul => a.wrapping_mul(b) & m,
        B::Shl => binop(Op::Shl, w, a, b), B::LShr => binop(Op::LShr, w, a, b), B::AShr => binop(Op::AShr, w, a, b),
        B::UDiv => binop(Op::UDiv, w, a, b), B::URem => binop(Op::URem, w, a, b), B::SDiv => binop(Op::SDiv, w, a, b), B::SRem => binop(Op::SRem, w, a, b),
        _ => panic!("cbin"),
    }
}
#[inline] fn ccmp(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b, P::Ne => a != b, P::Ugt => a > b, P::Uge => a >= b, P::Ult => a < b, P::Ule => a <= b,
        P::Sgt => sext128(a, w) > sext128(b, w), P::Sge => sext128(a, w) >= sext128(b, w), P::Slt => sext128(a, w) < sext128(b, w), P::Sle => sext128(a, w) <= sext128(b, w),
    }
}
fn scmp(p: P, a: E, b: E) -> E {
    match p {
        P::Eq => eq(a, b), P::Ne => not(eq(a, b)), P::Ugt => ult(b, a), P::Uge => ule(b, a), P::Ult => ult(a, b), P::Ule => ule(a, b),
        P::Sgt => bin(Op::Slt, b, a), P::Sge => bin(Op::Sle, b, a), P::Slt => bin(Op::Slt, a, b), P::Sle => bin(Op::Sle, a, b),
    }
}

/// Readable form of a v0-mangled name: the identifiers, joined.
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string() }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() { // disambiguator s<base62>_
            let mut k = i + 1;
            while k < b.len() && b[k].is_ascii_alphanumeric() { k += 1 }
            if k < b.len() && b[k] == b'_' && k - i < 16 { i = k + 1; continue }
        }
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1 }
            let l: usize = n[s..i].parse().unwrap_or(0);
            if l > 0 && b[s] != b'0' {
                if i < b.len() && b[i] == b'_' { i += 1 }
                if i + l <= b.len() { out.push(n[i..i + l].to_string()); i += l; continue }
            }
            continue;
        }
        i += 1;
    }
    let mut r: Vec<String> = vec![];
    for x in out { if r.last() != Some(&x) { r.push(x) } }
    r.join("::")
}
