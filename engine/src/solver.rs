//! z3 through its C API. One incremental solver per process; queries are slices of the path condition.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub struct Solver {
    c: P, s: P,
    ast: HashMap<E, P>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub queries: u64, pub hits: u64, pub secs: f64, pub max_secs: f64, pub unknown: u64, pub sat: u64, pub unsat: u64,
    pub dumps: Vec<(String, bool)>, pub dump_every: u64,
}
pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, ast: HashMap::new(), sorts: HashMap::new(), cache: HashMap::new(), queries: 0, hits: 0, secs: 0.0, max_secs: 0.0, unknown: 0, sat: 0, unsat: 0, dumps: vec![], dump_every: 0 }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s })
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    /// bool-valued z3 term from comparison -> bv1
    fn b2v(&mut self, b: P) -> P {
        let (o, z) = (self.num(1, 1), self.num(1, 0));
        unsafe { Z3_mk_ite(self.c, b, o, z) }
    }
    fn is1(&mut self, v: P) -> P { let o = self.num(1, 1); unsafe { Z3_mk_eq(self.c, v, o) } }
    fn lut_rec(&mut self, idx: P, iw: u32, t: &[u64], lo: usize, hi: usize, w: u32) -> P {
        if t[lo..=hi].iter().all(|x| *x == t[lo]) { return self.num(w, t[lo] as u128); }
        let mid = (lo + hi) / 2;
        let l = self.lut_rec(idx, iw, t, lo, mid, w);
        let r = self.lut_rec(idx, iw, t, mid + 1, hi, w);
        let m = self.num(iw, mid as u128);
        unsafe { Z3_mk_ite(self.c, Z3_mk_bvule(self.c, idx, m), l, r) }
    }
    fn tr(&mut self, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) { return p; }
        let n = node(e);
        let c = self.c;
        let w = n.w as u32;
        macro_rules! b { ($f:ident) => {{ let x = self.tr(n.a); let y = self.tr(n.b); unsafe { $f(c, x, y) } }}; }
        macro_rules! cmp { ($f:ident) => {{ let x = self.tr(n.a); let y = self.tr(n.b); let r = unsafe { let r = $f(c, x, y); Z3_inc_ref(c, r); r }; self.b2v(r) }}; }
        let r = match n.op {
            Op::Const => self.num(w, n.k),
            Op::Var => { let s = self.sort(8); let nm = CString::new(format!("v{}", n.k)).unwrap(); unsafe { Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) } }
            Op::Add => b!(Z3_mk_bvadd), Op::Sub => b!(Z3_mk_bvsub), Op::Mul => b!(Z3_mk_bvmul),
            Op::UDiv => b!(Z3_mk_bvudiv), Op::URem => b!(Z3_mk_bvurem), Op::SDiv => b!(Z3_mk_bvsdiv), Op::SRem => b!(Z3_mk_bvsrem),
            Op::And => b!(Z3_mk_bvand), Op::Or => b!(Z3_mk_bvor), Op::Xor => b!(Z3_mk_bvxor),
            Op::Shl => b!(Z3_mk_bvshl), Op::LShr => b!(Z3_mk_bvlshr), Op::AShr => b!(Z3_mk_bvashr),
            Op::Concat => b!(Z3_mk_concat),
            Op::Not => { let x = self.tr(n.a); unsafe { Z3_mk_bvnot(c, x) } }
            Op::Extract => { let x = self.tr(n.a); unsafe { Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x) } }
            Op::ZExt => { let x = self.tr(n.a); unsafe { Z3_mk_zero_ext(c, w - width(n.a), x) } }
            Op::SExt => { let x = self.tr(n.a); unsafe { Z3_mk_sign_ext(c, w - width(n.a), x) } }
            Op::Eq => cmp!(Z3_mk_eq), Op::Ult => cmp!(Z3_mk_bvult), Op::Ule => cmp!(Z3_mk_bvule), Op::Slt => cmp!(Z3_mk_bvslt), Op::Sle => cmp!(Z3_mk_bvsle),
            Op::Ite => { let x = self.tr(n.a); let y = self.tr(n.b); let z = self.tr(n.c); let q = self.is1(x); unsafe { Z3_mk_ite(c, q, y, z) } }
            Op::Lut => {
                let x = self.tr(n.a);
                let t = ar().tables[n.k as usize].clone();
                let inf = info(n.a);
                let (lo, hi) = (inf.lo.min(t.len() as u128 - 1) as usize, inf.hi.min(t.len() as u128 - 1) as usize);
                self.lut_rec(x, width(n.a), &t, lo, hi, w)
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.ast.insert(e, r);
        r
    }
    /// Is the conjunction satisfiable? Some(assignment) / None. Errors (unknown) are reported as Err.
    pub fn check(&mut self, mut cs: Vec<E>) -> Result<Option<Vec<(u32, u8)>>, String> {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.hits += 1; return Ok(r.clone()); }
        let t0 = Instant::now();
        let mut vars = Vars::None;
        for &x in &cs { vars = vars.union(&info(x).vars); }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &x in &cs { let a = self.tr(x); let b = self.is1(a); Z3_solver_assert(self.c, self.s, b); }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut o = vec![];
                    for v in vars.list() {
                        let t = self.tr(var(v));
                        let mut val: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.c, m, t, true, &mut val) { Z3_get_numeral_uint64(self.c, val, &mut x); }
                        o.push((v, x as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Ok(Some(o))
                }
                -1 => Ok(None),
                _ => Err("solver answered unknown".to_string()),
            };
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && self.dumps.len() < 60 && out.is_ok() {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                self.dumps.push((s, r == 1));
            }
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.secs += dt;
        if dt > self.max_secs { self.max_secs = dt; }
        if dt > 0.4 && std::env::var_os("SYMEX_SLOW").is_some() { for &x in &cs { eprintln!("SLOW {:.2} {}", dt, &show(x, 9)[..show(x, 9).len().min(600)]); } }
        match &r { Ok(Some(_)) => self.sat += 1, Ok(None) => self.unsat += 1, Err(_) => self.unknown += 1 }
        if let Ok(x) = &r {
            // the model must satisfy the query under our own evaluator: a cheap check of the translation
            if let Some(m) = x {
                let mut model = vec![0u8; m.iter().map(|p| p.0 as usize + 1).max().unwrap_or(0)];
                for (v, b) in m { model[*v as usize] = *b; }
                for &c in &cs { if eval(c, &model) != 1 { return Err(format!("model does not satisfy {}", show(c, 4))); } }
            }
            self.cache.insert(cs, x.clone());
        }
        r
    }
}
