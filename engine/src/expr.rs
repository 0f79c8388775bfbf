//! Hash-consed bit-vector expressions with construction-time simplification.
//! Every symbolic variable is one byte. Booleans are 1-bit vectors.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 is reserved ("no expression")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Not, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite, Lut,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

#[derive(Clone)]
pub enum Vars { None, One(u32), Many(Rc<[u64]>) }

impl Vars {
    pub fn union(&self, o: &Vars) -> Vars {
        match (self, o) {
            (Vars::None, x) | (x, Vars::None) => x.clone(),
            (Vars::One(a), Vars::One(b)) if a == b => Vars::One(*a),
            (Vars::Many(a), Vars::Many(b)) if Rc::ptr_eq(a, b) => Vars::Many(a.clone()),
            _ => {
                let n = self.words().max(o.words());
                let mut v = vec![0u64; n];
                self.or_into(&mut v);
                o.or_into(&mut v);
                Vars::Many(v.into())
            }
        }
    }
    fn words(&self) -> usize {
        match self { Vars::None => 0, Vars::One(v) => *v as usize / 64 + 1, Vars::Many(m) => m.len() }
    }
    pub fn or_into(&self, out: &mut Vec<u64>) {
        if out.len() < self.words() { out.resize(self.words(), 0); }
        match self {
            Vars::None => {}
            Vars::One(v) => out[*v as usize / 64] |= 1 << (v % 64),
            Vars::Many(m) => for (i, x) in m.iter().enumerate() { out[i] |= x },
        }
    }
    pub fn intersects(&self, s: &[u64]) -> bool {
        match self {
            Vars::None => false,
            Vars::One(v) => s.get(*v as usize / 64).map_or(false, |x| x >> (v % 64) & 1 == 1),
            Vars::Many(m) => m.iter().zip(s).any(|(a, b)| a & b != 0),
        }
    }
    pub fn list(&self) -> Vec<u32> {
        match self {
            Vars::None => vec![],
            Vars::One(v) => vec![*v],
            Vars::Many(m) => bits(m),
        }
    }
}
pub fn bits(m: &[u64]) -> Vec<u32> {
    let mut r = vec![];
    for (i, x) in m.iter().enumerate() {
        let mut x = *x;
        while x != 0 { r.push(i as u32 * 64 + x.trailing_zeros()); x &= x - 1; }
    }
    r
}

pub struct Info { pub lo: u128, pub hi: u128, pub vars: Vars }

pub struct Arena {
    pub ext: HashMap<(E, u8, u8), E>,
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    pub tables: Vec<Rc<Vec<u64>>>,
    table_map: HashMap<Rc<Vec<u64>>, u32>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    truth: HashMap<E, [u64; 4]>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
pub fn init() {
    let a = Arena {
        ext: HashMap::new(),
        nodes: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 }],
        info: vec![Info { lo: 0, hi: 0, vars: Vars::None }],
        map: HashMap::new(), tables: vec![], table_map: HashMap::new(),
        memo_gen: vec![], memo_val: vec![], gen: 0, truth: HashMap::new(),
    };
    unsafe { ARENA = Box::into_raw(Box::new(a)); }
}
#[inline] pub fn ar() -> &'static mut Arena { unsafe { &mut *ARENA } }
#[inline] pub fn node(e: E) -> Node { ar().nodes[e as usize] }
#[inline] pub fn info(e: E) -> &'static Info { &ar().info[e as usize] }
#[inline] pub fn width(e: E) -> u32 { ar().nodes[e as usize].w as u32 }

#[inline] pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn binop(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
        Op::SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext128(a, w); let sh = if b >= w as u128 { w - 1 } else { b as u32 }; (s >> sh) as u128 & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => panic!("binop {:?}", op),
    }
}

fn intern(n: Node) -> E {
    let a = ar();
    if let Some(&e) = a.map.get(&n) { return e; }
    let inf = compute_info(&n);
    // an expression whose interval is one point is a constant
    if n.op != Op::Const && inf.lo == inf.hi {
        return cst(n.w as u32, inf.lo);
    }
    let e = a.nodes.len() as E;
    a.nodes.push(n);
    a.info.push(inf);
    a.map.insert(n, e);
    e
}

fn compute_info(n: &Node) -> Info {
    let w = n.w as u32;
    let m = mask(w);
    let full = |vars: Vars| Info { lo: 0, hi: m, vars };
    let un = |e: E| if e == 0 { Vars::None } else { info(e).vars.clone() };
    let vars = match n.op {
        Op::Const => Vars::None,
        Op::Var => Vars::One(n.k as u32),
        _ => un(n.a).union(&un(n.b)).union(&un(n.c)),
    };
    let (a, b) = (info(n.a), info(n.b));
    match n.op {
        Op::Const => Info { lo: n.k, hi: n.k, vars },
        Op::ZExt => Info { lo: a.lo, hi: a.hi, vars },
        Op::Extract => {
            let lo = n.k as u32;
            if a.hi <= mask(lo + w) { Info { lo: a.lo >> lo, hi: a.hi >> lo, vars } } else { full(vars) }
        }
        Op::Concat => { let bw = width(n.b); Info { lo: a.lo << bw | b.lo, hi: a.hi << bw | b.hi, vars } }
        Op::Add => match a.hi.checked_add(b.hi) { Some(h) if h <= m => Info { lo: a.lo + b.lo, hi: h, vars }, _ => full(vars) },
        Op::Sub => if a.lo >= b.hi { Info { lo: a.lo - b.hi, hi: a.hi - b.lo, vars } } else { full(vars) },
        Op::Mul => match a.hi.checked_mul(b.hi) { Some(h) if h <= m => Info { lo: a.lo * b.lo, hi: h, vars }, _ => full(vars) },
        Op::UDiv => if b.lo > 0 { Info { lo: a.lo / b.hi, hi: a.hi / b.lo, vars } } else { full(vars) },
        Op::URem => if b.lo > 0 { if a.hi < b.lo { Info { lo: a.lo, hi: a.hi, vars } } else { Info { lo: 0, hi: (b.hi - 1).min(a.hi), vars } } } else { full(vars) },
        Op::And => Info { lo: 0, hi: a.hi.min(b.hi), vars },
        Op::Or | Op::Xor => {
            let t = a.hi | b.hi;
            let bitsn = 128 - t.leading_zeros();
            Info { lo: if n.op == Op::Or { a.lo.max(b.lo) } else { 0 }, hi: mask(bitsn), vars }
        }
        Op::LShr => if b.lo < 128 { Info { lo: 0, hi: a.hi >> b.lo.min(127), vars } } else { full(vars) },
        Op::Ite => { let (x, y) = (info(n.b), info(n.c)); Info { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), vars } }
        Op::Lut => {
            let t = &ar().tables[n.k as usize];
            let i0 = (a.lo.min(t.len() as u128 - 1)) as usize;
            let i1 = (a.hi.min(t.len() as u128 - 1)) as usize;
            let s = &t[i0..=i1];
            Info { lo: *s.iter().min().unwrap() as u128, hi: *s.iter().max().unwrap() as u128, vars }
        }
        _ => full(vars),
    }
}

#[inline] pub fn cst(w: u32, v: u128) -> E {
    intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
}
pub fn var(id: u32) -> E { intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 }) }
#[inline] pub fn is_const(e: E) -> Option<u128> { let n = node(e); if n.op == Op::Const { Some(n.k) } else { None } }
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(1, 0) }
fn mk2(op: Op, w: u32, a: E, b: E) -> E { intern(Node { op, w: w as u16, a, b, c: 0, k: 0 }) }

pub fn zext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w as u32 == w { return e; }
    match n.op {
        Op::Const => cst(w, n.k),
        Op::ZExt => zext(n.a, w),
        _ => intern(Node { op: Op::ZExt, w: w as u16, a: e, b: 0, c: 0, k: 0 }),
    }
}
pub fn sext(e: E, w: u32) -> E {
    let n = node(e);
    let ew = n.w as u32;
    if ew == w { return e; }
    if n.op == Op::Const { return cst(w, sext128(n.k, ew) as u128); }
    if ew > 1 && info(e).hi < 1u128 << (ew - 1) { return zext(e, w); }
    if ew == 1 { return ite(e, cst(w, !0), cst(w, 0)); }
    intern(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
}
pub fn extract(e: E, hi: u32, lo: u32) -> E {
    let n = node(e);
    let ew = n.w as u32;
    let w = hi - lo + 1;
    if w == ew { return e; }
    if matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Add | Op::Sub | Op::Mul | Op::Ite) {
        let key = (e, hi as u8, lo as u8);
        if let Some(r) = ar().ext.get(&key) { return *r }
        let r = extract1(e, hi, lo);
        ar().ext.insert(key, r);
        return r;
    }
    extract1(e, hi, lo)
}
fn extract1(e: E, hi: u32, lo: u32) -> E {
    let n = node(e);
    let w = hi - lo + 1;
    match n.op {
        Op::Const => cst(w, n.k >> lo),
        Op::Extract => extract(n.a, hi + n.k as u32, lo + n.k as u32),
        Op::Concat => {
            let bw = width(n.b);
            if hi < bw { extract(n.b, hi, lo) }
            else if lo >= bw { extract(n.a, hi - bw, lo - bw) }
            else { concat(extract(n.a, hi - bw, 0), extract(n.b, bw - 1, lo)) }
        }
        Op::ZExt => {
            let aw = width(n.a);
            if lo >= aw { cst(w, 0) }
            else if hi < aw { extract(n.a, hi, lo) }
            else { zext(extract(n.a, aw - 1, lo), w) }
        }
        Op::SExt if hi < width(n.a) => extract(n.a, hi, lo),
        Op::And | Op::Or | Op::Xor => bin(n.op, extract(n.a, hi, lo), extract(n.b, hi, lo)),
        Op::Not => not(extract(n.a, hi, lo)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => bin(n.op, extract(n.a, hi, 0), extract(n.b, hi, 0)),
        Op::Ite => ite(n.a, extract(n.b, hi, lo), extract(n.c, hi, lo)),
        _ => {
            if info(e).hi >> lo == 0 { return cst(w, 0); }
            intern(Node { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 })
        }
    }
}
/// a is the high part
pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32 + nb.w as u32;
    if na.op == Op::Const {
        if na.k == 0 { return zext(b, w); }
        if nb.op == Op::Const { return cst(w, na.k << nb.w | nb.k); }
        if nb.op == Op::Concat && node(nb.a).op == Op::Const { return concat(concat(a, nb.a), nb.b); }
    }
    if na.op == Op::ZExt { return zext(concat(na.a, b), w); }
    // adjacent extracts
    let base = |n: &Node, e: E| if n.op == Op::Extract { (n.a, n.k as u32) } else { (e, 0) };
    let (xa, la) = base(&na, a);
    if nb.op == Op::Concat {
        let h = node(nb.a);
        let (xb, lb) = base(&h, nb.a);
        if na.op == Op::Extract && xa == xb && la == lb + h.w as u32 && (h.op == Op::Extract || lb == 0) {
            return concat(concat(a, nb.a), nb.b);
        }
    }
    let (xb, lb) = base(&nb, b);
    if na.op == Op::Extract && xa == xb && la == lb + nb.w as u32 {
        return extract(xa, la + na.w as u32 - 1, lb);
    }
    if nb.op == Op::Const && nb.w > 0 {
        // (x ++ c1) ++ c2
        if na.op == Op::Concat && node(na.b).op == Op::Const { return concat(na.a, concat(na.b, b)); }
    }
    if na.op == Op::Concat {
        // right-associate so that adjacent pieces meet
        return concat(na.a, concat(na.b, b));
    }
    // sext-bit style merges are not attempted
    intern(Node { op: Op::Concat, w: w as u16, a, b, c: 0, k: 0 })
}
pub fn not(a: E) -> E {
    let n = node(a);
    let w = n.w as u32;
    match n.op {
        Op::Const => cst(w, !n.k),
        Op::Not => n.a,
        Op::Ult => ule(n.b, n.a),
        Op::Ule => ult(n.b, n.a),
        Op::Slt => bin(Op::Sle, n.b, n.a),
        Op::Sle => bin(Op::Slt, n.b, n.a),
        _ => intern(Node { op: Op::Not, w: w as u16, a, b: 0, c: 0, k: 0 }),
    }
}

/// Decompose into constant-zero and other pieces, low to high: (width, piece or 0 for zero bits)
fn pieces(e: E, out: &mut Vec<(u32, E)>) {
    let n = node(e);
    match n.op {
        Op::Const if n.k == 0 => out.push((n.w as u32, 0)),
        Op::Concat => { pieces(n.b, out); pieces(n.a, out); }
        Op::ZExt => { pieces(n.a, out); out.push((n.w as u32 - width(n.a), 0)); }
        _ => out.push((n.w as u32, e)),
    }
}
fn disjoint_merge(a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    let ok = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt);
    if !ok(&na) && !ok(&nb) { return None; }
    let (mut pa, mut pb) = (vec![], vec![]);
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    if !pa.iter().any(|p| p.1 == 0) && !pb.iter().any(|p| p.1 == 0) { return None; }
    let (mut i, mut j) = (0, 0);
    let mut res: Option<E> = None;
    let push = |e: E, r: &mut Option<E>| *r = Some(match *r { None => e, Some(x) => concat(e, x) });
    while i < pa.len() && j < pb.len() {
        let (wa, ea) = pa[i];
        let (wb, eb) = pb[j];
        let w = wa.min(wb);
        let part = |e: E, t: u32| if e == 0 { 0 } else if w == t { e } else { extract(e, w - 1, 0) };
        let (x, y) = (part(ea, wa), part(eb, wb));
        let zero = |e: E| e == 0 || is_const(e) == Some(0);
        if zero(x) && zero(y) { push(cst(w, 0), &mut res) }
        else if zero(x) { push(y, &mut res) }
        else if zero(y) { push(x, &mut res) }
        else { return None; }
        let rest = |e: E, t: u32| (t - w, if e == 0 { 0 } else { extract(e, t - 1, w) });
        if wa == w { i += 1 } else { pa[i] = rest(ea, wa) }
        if wb == w { j += 1 } else { pb[j] = rest(eb, wb) }
    }
    res
}

pub fn ult(a: E, b: E) -> E { bin(Op::Ult, a, b) }
pub fn ule(a: E, b: E) -> E { bin(Op::Ule, a, b) }
pub fn eq(a: E, b: E) -> E { bin(Op::Eq, a, b) }
pub fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
pub fn or(a: E, b: E) -> E { bin(Op::Or, a, b) }

fn const_leaves(e: E, depth: u32) -> bool {
    let n = node(e);
    match n.op { Op::Const => true, Op::Ite => depth > 0 && const_leaves(n.b, depth - 1) && const_leaves(n.c, depth - 1), _ => false }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    debug_assert_eq!(na.w, nb.w, "{:?}", op);
    let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
    let rw = if cmp { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const { return cst(rw, binop(op, w, na.k, nb.k)); }
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) && !(nb.op == Op::Const) { return bin(op, b, a); }
    let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
    let m = mask(w);
    let (ia, ib) = (info(a), info(b));
    match op {
        Op::Add => {
            if kb == Some(0) { return a; }
            if let Some(k) = kb { if na.op == Op::Add { if let Some(k2) = is_const(na.b) { return bin(Op::Add, na.a, cst(w, k.wrapping_add(k2))); } } }
            if w == 1 { return bin(Op::Xor, a, b); }
            if let Some(r) = disjoint_merge(a, b) { return r; }
        }
        Op::Sub => {
            if a == b { return cst(w, 0); }
            if kb == Some(0) { return a; }
            // keep (x - k) as x + (-k) unless the interval shows it cannot wrap
            if let Some(k) = kb { if ia.lo < k || na.op == Op::Add { return bin(Op::Add, a, cst(w, k.wrapping_neg())); } }
            if na.op == Op::Add && na.a == b { return na.b; }
            if na.op == Op::Add && na.b == b { return na.a; }
        }
        Op::Mul => {
            if kb == Some(0) { return b; }
            if kb == Some(1) { return a; }
            if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::Shl, a, cst(w, k.trailing_zeros() as u128)); } }
        }
        Op::UDiv => {
            if kb == Some(1) { return a; }
            if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::LShr, a, cst(w, k.trailing_zeros() as u128)); } }
        }
        Op::URem => {
            if let Some(k) = kb {
                if k != 0 && ia.hi < k { return a; }
                if k.is_power_of_two() { return bin(Op::And, a, cst(w, k - 1)); }
            }
        }
        Op::SDiv | Op::SRem => {
            let half = 1u128 << (w - 1);
            if ia.hi < half && ib.hi < half { return bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
        }
        Op::And => {
            if a == b { return a; }
            if let Some(k) = kb {
                if k == 0 { return b; }
                if k == m { return a; }
                if w == 1 { return a; }
                // split the mask into runs
                let mut runs: Vec<(u32, bool)> = vec![];
                let mut i = 0;
                while i < w {
                    let bit = k >> i & 1 == 1;
                    let mut j = i;
                    while j < w && (k >> j & 1 == 1) == bit { j += 1; }
                    runs.push((j - i, bit));
                    i = j;
                }
                if runs.len() <= 5 {
                    let mut lo = 0;
                    let mut r: Option<E> = None;
                    for (n, bit) in runs {
                        let p = if bit { extract(a, lo + n - 1, lo) } else { cst(n, 0) };
                        r = Some(match r { None => p, Some(x) => concat(p, x) });
                        lo += n;
                    }
                    return r.unwrap();
                }
            }
            if w == 1 {
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return fls(); }
                if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            }
        }
        Op::Or => {
            if a == b { return a; }
            if kb == Some(0) { return a; }
            if kb == Some(m) { return b; }
            if w == 1 {
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return tru(); }
            }
            if let Some(r) = disjoint_merge(a, b) { return r; }
        }
        Op::Xor => {
            if a == b { return cst(w, 0); }
            if kb == Some(0) { return a; }
            if kb == Some(m) { return not(a); }
            if let Some(k) = kb { if na.op == Op::Xor { if let Some(k2) = is_const(na.b) { return bin(Op::Xor, na.a, cst(w, k ^ k2)); } } }
            if let Some(r) = disjoint_merge(a, b) { return r; }
        }
        Op::Shl => {
            if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return cst(w, 0); }
                return concat(extract(a, w - 1 - k as u32, 0), cst(k as u32, 0));
            }
        }
        Op::LShr => {
            if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return cst(w, 0); }
                return zext(extract(a, w - 1, k as u32), w);
            }
        }
        Op::AShr => {
            if kb == Some(0) { return a; }
            if ia.hi < 1u128 << (w - 1) { return bin(Op::LShr, a, b); }
            if let Some(k) = kb { let k = k.min(w as u128 - 1) as u32; return sext(extract(a, w - 1, k), w); }
        }
        Op::Eq => {
            if a == b { return tru(); }
            if ia.hi < ib.lo || ib.hi < ia.lo { return fls(); }
            if w == 1 { if let Some(k) = kb { return if k == 1 { a } else { not(a) }; } }
            if let Some(k) = kb {
                match na.op {
                    Op::ZExt => { let aw = width(na.a); return if k > mask(aw) { fls() } else { eq(na.a, cst(aw, k)) }; }
                    Op::SExt => { let aw = width(na.a); let t = k & mask(aw); return if sext128(t, aw) as u128 & m == k { eq(na.a, cst(aw, t)) } else { fls() }; }
                    Op::Concat => { let bw = width(na.b); return and(eq(na.a, cst(width(na.a), k >> bw)), eq(na.b, cst(bw, k))); }
                    Op::Add => if let Some(k2) = is_const(na.b) { return eq(na.a, cst(w, k.wrapping_sub(k2))); },
                    Op::Xor => if let Some(k2) = is_const(na.b) { return eq(na.a, cst(w, k ^ k2)); },
                    Op::Not => return eq(na.a, cst(w, !k)),
                    Op::Ite => {
                        if const_leaves(na.b, 0) || const_leaves(na.c, 0) || const_leaves(a, 20) {
                            return ite(na.a, eq(na.b, b), eq(na.c, b));
                        }
                    }
                    Op::Sub if k == 0 => return eq(na.a, na.b),
                    _ => {}
                }
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return eq(na.a, nb.a); }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let mw = width(na.a).max(width(nb.a));
                return eq(zext(na.a, mw), zext(nb.a, mw));
            }
            if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
                return and(eq(na.a, nb.a), eq(na.b, nb.b));
            }
        }
        Op::Ult => {
            if a == b { return fls(); }
            if ia.hi < ib.lo { return tru(); }
            if ia.lo >= ib.hi { return fls(); }
            if kb == Some(1) { return eq(a, cst(w, 0)); }
            if na.op == Op::ZExt && nb.op == Op::Const { return ult(na.a, cst(width(na.a), nb.k)); }
            if nb.op == Op::ZExt && na.op == Op::Const { return ult(cst(width(nb.a), na.k), nb.a); }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return ult(na.a, nb.a); }
            if kb.is_some() && na.op == Op::Ite && const_leaves(a, 20) { return ite(na.a, ult(na.b, b), ult(na.c, b)); }
        }
        Op::Ule => {
            if a == b { return tru(); }
            if ia.hi <= ib.lo { return tru(); }
            if ia.lo > ib.hi { return fls(); }
            if na.op == Op::ZExt && nb.op == Op::Const { return ule(na.a, cst(width(na.a), nb.k)); }
            if nb.op == Op::ZExt && na.op == Op::Const { return ule(cst(width(nb.a), na.k), nb.a); }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return ule(na.a, nb.a); }
        }
        Op::Slt | Op::Sle => {
            let half = 1u128 << (w - 1);
            if a == b { return cst(1, (op == Op::Sle) as u128); }
            if ia.hi < half && ib.hi < half { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            if ia.hi < half && ib.lo >= half { return fls(); }
            if ia.lo >= half && ib.hi < half { return tru(); }
            if na.op == Op::Ite && kb.is_some() && const_leaves(a, 20) { return ite(na.a, bin(op, na.b, b), bin(op, na.c, b)); }
        }
        _ => {}
    }
    mk2(op, rw, a, b)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = is_const(c) { return if k == 1 { a } else { b }; }
    if a == b { return a; }
    let n = node(c);
    if n.op == Op::Not { return ite(n.a, b, a); }
    let w = width(a);
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(0)) => return and(c, a),
            (_, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
}
/// Table lookup: table[idx], entries of width w. Caller guarantees idx < table.len().
pub fn lut(idx: E, table: Vec<u64>, w: u32) -> E {
    let inf = info(idx);
    let n = table.len() as u128;
    if inf.lo == inf.hi { return cst(w, table[inf.lo as usize] as u128); }
    let (lo, hi) = (inf.lo.min(n - 1) as usize, inf.hi.min(n - 1) as usize);
    if table[lo..=hi].iter().all(|x| *x == table[lo]) { return cst(w, table[lo] as u128); }
    let a = ar();
    let rc = Rc::new(table);
    let id = match a.table_map.get(&rc) {
        Some(i) => *i,
        None => { let i = a.tables.len() as u32; a.tables.push(rc.clone()); a.table_map.insert(rc, i); i }
    };
    intern(Node { op: Op::Lut, w: w as u16, a: idx, b: 0, c: 0, k: id as u128 })
}

impl Arena {
    pub fn new_gen(&mut self) {
        self.gen += 1;
        self.memo_gen.resize(self.nodes.len(), 0);
        self.memo_val.resize(self.nodes.len(), 0);
    }
}
fn eval_rec(a: &mut Arena, e: E, model: &[u8]) -> u128 {
    let n = a.nodes[e as usize];
    match n.op {
        Op::Const => return n.k,
        Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
        _ => {}
    }
    if a.memo_gen[e as usize] == a.gen { return a.memo_val[e as usize]; }
    let w = n.w as u32;
    let r = match n.op {
        Op::Not => !eval_rec(a, n.a, model) & mask(w),
        Op::Concat => { let bw = a.nodes[n.b as usize].w; eval_rec(a, n.a, model) << bw | eval_rec(a, n.b, model) }
        Op::Extract => eval_rec(a, n.a, model) >> n.k & mask(w),
        Op::ZExt => eval_rec(a, n.a, model),
        Op::SExt => { let aw = a.nodes[n.a as usize].w as u32; sext128(eval_rec(a, n.a, model), aw) as u128 & mask(w) }
        Op::Ite => if eval_rec(a, n.a, model) == 1 { eval_rec(a, n.b, model) } else { eval_rec(a, n.c, model) },
        Op::Lut => { let i = eval_rec(a, n.a, model); let t = &a.tables[n.k as usize]; t[(i as usize).min(t.len() - 1)] as u128 }
        op => { let aw = a.nodes[n.a as usize].w as u32; let x = eval_rec(a, n.a, model); let y = eval_rec(a, n.b, model); binop(op, aw, x, y) }
    };
    a.memo_gen[e as usize] = a.gen;
    a.memo_val[e as usize] = r;
    r
}
pub fn eval(e: E, model: &[u8]) -> u128 {
    let a = ar();
    a.new_gen();
    eval_rec(a, e, model)
}
/// Truth table of a boolean over its single byte variable.
pub fn truth(e: E, v: u32) -> [u64; 4] {
    let a = ar();
    if let Some(t) = a.truth.get(&e) { return *t; }
    let mut model = vec![0u8; v as usize + 1];
    let mut t = [0u64; 4];
    for x in 0..256usize {
        model[v as usize] = x as u8;
        if eval(e, &model) == 1 { t[x / 64] |= 1 << (x % 64); }
    }
    a.truth.insert(e, t);
    t
}
/// `e` with the given subexpressions replaced by constants
pub fn subst(e: E, map: &mut HashMap<E, E>) -> E {
    if let Some(x) = map.get(&e) { return *x }
    let n = node(e);
    if matches!(n.op, Op::Const | Op::Var) { return e }
    let w = n.w as u32;
    let a = if n.a != 0 { subst(n.a, map) } else { 0 };
    let b = if n.b != 0 { subst(n.b, map) } else { 0 };
    let c = if n.c != 0 { subst(n.c, map) } else { 0 };
    let r = if (a, b, c) == (n.a, n.b, n.c) { e } else {
        match n.op {
            Op::Not => not(a),
            Op::Concat => concat(a, b),
            Op::Extract => extract(a, n.k as u32 + w - 1, n.k as u32),
            Op::ZExt => zext(a, w),
            Op::SExt => sext(a, w),
            Op::Ite => ite(a, b, c),
            Op::Lut => { let t = ar().tables[n.k as usize].to_vec(); lut(a, t, w) }
            op => bin(op, a, b),
        }
    };
    map.insert(e, r);
    r
}
pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    if n.op == Op::Const { return format!("{:#x}", n.k); }
    if n.op == Op::Var { return format!("v{}", n.k); }
    if depth == 0 { return "..".into(); }
    let mut s = format!("({:?}{}", n.op, n.w);
    if matches!(n.op, Op::Extract | Op::Lut) { s += &format!("@{}", n.k); }
    for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &show(x, depth - 1); } }
    s + ")"
}
