//! Parser for textual LLVM IR (as printed by rustc's LLVM). Function bodies are parsed on first use.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::exec::V;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Meta }

fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; up(b, self.align().max(1)) .max(if *w <= 64 { b.next_power_of_two() } else { 16 }) }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { o = up(o, t.align()); } o += t.size(); }
                if *packed { o } else { up(o, self.align()) }
            }
            Ty::Vec(..) => up(self.store_size(), 1).next_power_of_two(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size(),
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = up(o, t.align()); }
                    if k as u64 == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self { Ty::Struct(f, _) => f[i as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("elem {:?}", self) }
    }
    pub fn nelem(&self) -> u64 { match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) }
    /// scalar width in bits
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => panic!("bits of {:?}", self) } }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A((0..*n).map(|_| t.zero()).collect::<Vec<_>>().into()),
            Ty::Struct(f, _) => V::A(f.iter().map(|t| t.zero()).collect::<Vec<_>>().into()),
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum O { L(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C { Trunc, ZExt, SExt, Bit, Fp, }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ind(O), Asm(String) }
#[derive(Clone, Debug)]
pub struct Call { pub d: u32, pub ret: Ty, pub callee: Callee, pub args: Vec<(Ty, O)>, pub normal: u32 }

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, u32, O, O),
    BinV(B, u32, u32, O, O),
    FBin(B, bool, u32, O, O),
    Icmp(P, u32, u32, O, O),
    IcmpV(P, u32, u32, O, O),
    Fcmp(String, bool, u32, O, O),
    Cast(C, u32, u32, u32, O),
    CastV(C, u32, u32, u32, O),
    BitAgg(Ty, Ty, u32, O),
    FpCast(String, Ty, Ty, u32, O),
    Gep(u32, O, u64, Vec<(O, u32, u64)>),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Alloca(u32, u64, O),
    Select(u32, Ty, bool, O, O, O),
    ExtractV(u32, O, Vec<u32>),
    InsertV(u32, O, O, Vec<u32>),
    ExtractE(u32, O, O),
    InsertE(u32, O, O, O),
    Shuffle(u32, O, O, Vec<i64>, u64),
    Rmw(u32, String, u32, O, O),
    CmpXchg(u32, u32, O, O, O),
    Fence,
    Copy(u32, O),
    Call(Box<Call>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    Nop,
    Bad(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub ins: Vec<I> }
pub struct Func { pub id: u32, pub name: Rc<str>, pub params: Vec<u32>, pub nslots: u32, pub blocks: Vec<Block>, pub slot_names: Vec<String> }

pub struct FnDef { pub name: Rc<str>, pub pos: usize, pub end: usize, pub declared: bool, pub body: RefCell<Option<Rc<Func>>>, pub ext: std::cell::Cell<u32> }
pub struct GlDef { pub name: Rc<str>, pub pos: usize, pub constant: bool, pub tls: bool, pub ext: bool, pub weak: bool }

pub struct Module {
    pub t: &'static [u8],
    pub fns: Vec<FnDef>,
    pub gls: Vec<GlDef>,
    pub names: HashMap<Rc<str>, u32>, // symbol -> object id (globals first, then functions)
    pub types: HashMap<String, usize>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
}
pub const GL_BASE: u32 = 1;
pub fn addr(obj: u32) -> u64 { (obj as u64) << 32 }

fn find_line_end(t: &[u8], mut i: usize) -> usize { while i < t.len() && t[i] != b'\n' { i += 1 } i }

impl Module {
    pub fn load(path: &str) -> Module {
        let t: &'static [u8] = Box::leak(std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e)).into_boxed_slice());
        let mut m = Module { t, fns: vec![], gls: vec![], names: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
        let mut i = 0;
        let mut fnames = vec![];
        while i < t.len() {
            let e = find_line_end(t, i);
            match t[i] {
                b'@' => {
                    let mut c = Cur { t, i, m: None };
                    let name: Rc<str> = c.sym().into();
                    c.expect("=");
                    let (mut tls, mut ext, mut weak, mut alias) = (false, false, false, false);
                    let mut constant = false;
                    loop {
                        c.ws();
                        let w = c.word();
                        match w {
                            "global" => break,
                            "constant" => { constant = true; break }
                            "alias" => { alias = true; break }
                            "thread_local" => tls = true,
                            "external" => ext = true,
                            "extern_weak" => { ext = true; weak = true }
                            "" => panic!("global? {}", String::from_utf8_lossy(&t[i..e.min(i + 200)])),
                            _ => {}
                        }
                        c.ws();
                        if c.peek() == b'(' { c.skip_paren(); }
                    }
                    if alias {
                        let line = String::from_utf8_lossy(&t[c.i..e]).into_owned();
                        let k = line.find('@').unwrap();
                        let mut c2 = Cur { t, i: c.i + k, m: None };
                        let target = c2.sym();
                        m.aliases.insert(name, target.into());
                    } else {
                        m.gls.push(GlDef { name, pos: c.i, constant, tls, ext, weak });
                    }
                }
                b'd' if t[i..].starts_with(b"define") || t[i..].starts_with(b"declare") => {
                    let def = t[i..].starts_with(b"define");
                    let mut k = i;
                    while t[k] != b'@' { k += 1 }
                    let mut c = Cur { t, i: k, m: None };
                    let name: Rc<str> = c.sym().into();
                    let mut end = e;
                    if def {
                        end = e;
                        loop { let ne = find_line_end(t, end + 1); if t[end + 1] == b'}' { end = ne; break } end = ne; }
                        m.fns.push(FnDef { name: name.clone(), pos: c.i, end, declared: false, body: RefCell::new(None), ext: std::cell::Cell::new(u32::MAX) });
                    } else {
                        m.fns.push(FnDef { name: name.clone(), pos: c.i, end, declared: true, body: RefCell::new(None), ext: std::cell::Cell::new(u32::MAX) });
                    }
                    fnames.push(name);
                    i = end + 1;
                    continue;
                }
                b'%' => {
                    let mut c = Cur { t, i: i + 1, m: None };
                    let name = c.name();
                    c.expect("=");
                    c.expect("type");
                    m.types.insert(name, c.i);
                }
                _ => {}
            }
            i = e + 1;
        }
        for (k, g) in m.gls.iter().enumerate() { m.names.insert(g.name.clone(), GL_BASE + k as u32); }
        let fb = m.fn_base();
        for (k, f) in fnames.iter().enumerate() { m.names.insert(f.clone(), fb + k as u32); }
        m
    }
    pub fn fn_base(&self) -> u32 { GL_BASE + self.gls.len() as u32 }
    pub fn first_heap(&self) -> u32 { self.fn_base() + self.fns.len() as u32 + 1 }
    pub fn sym_addr(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).map(|x| &**x).unwrap_or(n);
        match self.names.get(n) {
            Some(id) => {
                if *id < self.fn_base() && self.gls[(*id - GL_BASE) as usize].weak { return 0; }
                if *id >= self.fn_base() {
                    // weak function declarations that the environment does not provide resolve to null
                    let f = &self.fns[(*id - self.fn_base()) as usize];
                    if f.declared { let line_start = self.t[..f.pos].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1); if self.t[line_start..f.pos].windows(11).any(|w| w == b"extern_weak") { return 0; } }
                }
                addr(*id)
            }
            None => panic!("unknown symbol {}", n),
        }
    }
    pub fn func(&self, idx: u32) -> Rc<Func> {
        let d = &self.fns[idx as usize];
        if let Some(f) = &*d.body.borrow() { return f.clone(); }
        let f = Rc::new(FnParser::parse(self, idx));
        *d.body.borrow_mut() = Some(f.clone());
        f
    }
    /// (type, initial value) of a global
    pub fn global_init(&self, g: usize) -> (Ty, Option<V>) {
        let d = &self.gls[g];
        let mut c = Cur { t: self.t, i: d.pos, m: Some(self) };
        let ty = c.ty();
        if d.ext { return (ty, None); }
        let v = c.constant(&ty);
        (ty, Some(v))
    }
}

pub struct Cur<'a> { pub t: &'static [u8], pub i: usize, pub m: Option<&'a Module> }

impl<'a> Cur<'a> {
    #[inline] pub fn peek(&self) -> u8 { if self.i < self.t.len() { self.t[self.i] } else { 0 } }
    pub fn ws(&mut self) { while matches!(self.peek(), b' ' | b'\t' | b'\n') { self.i += 1 } }
    pub fn word(&mut self) -> &'static str {
        let s = self.i;
        while { let c = self.peek(); c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' } { self.i += 1 }
        std::str::from_utf8(&self.t[s..self.i]).unwrap()
    }
    pub fn expect(&mut self, s: &str) {
        self.ws();
        if !self.t[self.i..].starts_with(s.as_bytes()) { self.err(&format!("expected {:?}", s)) }
        self.i += s.len();
    }
    pub fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if self.t[self.i..].starts_with(s.as_bytes()) { self.i += s.len(); true } else { false }
    }
    pub fn eat_word(&mut self, s: &str) -> bool {
        self.ws();
        let k = self.i;
        if self.word() == s { true } else { self.i = k; false }
    }
    pub fn err(&self, m: &str) -> ! {
        let s = self.t[..self.i.min(self.t.len())].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        panic!("IR parse error: {} at `{}` in `{}`", m, String::from_utf8_lossy(&self.t[self.i..(self.i + 60).min(self.t.len())]), String::from_utf8_lossy(&self.t[s..find_line_end(self.t, self.i).min(s + 600)]));
    }
    /// name after % or @ (possibly quoted)
    pub fn name(&mut self) -> String {
        if self.peek() == b'"' {
            let s = self.i + 1;
            self.i += 1;
            while self.peek() != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.t[s..self.i]).into_owned();
            self.i += 1;
            r
        } else { self.word().to_string() }
    }
    pub fn sym(&mut self) -> String { self.ws(); if self.peek() != b'@' { self.err("symbol") } self.i += 1; self.name() }
    pub fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return } }
                b'"' => { self.i += 1; while self.peek() != b'"' { self.i += 1 } }
                0 => self.err("paren"),
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.peek() == b'-';
        if neg { self.i += 1 }
        let s = self.i;
        while self.peek().is_ascii_digit() { self.i += 1 }
        if s == self.i { self.err("integer") }
        let st = std::str::from_utf8(&self.t[s..self.i]).unwrap();
        let v: u128 = st.parse().unwrap();
        if neg { (v as i128).wrapping_neg() } else { v as i128 }
    }
    pub fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'<' | b'[' => true,
            b'%' => false,
            b'i' => { let mut k = self.i + 1; let s = k; while k < self.t.len() && self.t[k].is_ascii_digit() { k += 1 } k > s && !(self.t[k].is_ascii_alphanumeric() || self.t[k] == b'_') }
            _ => { let k = self.i; let w = self.word(); self.i = k; matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token") }
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => { self.i += 1; let f = self.ty_list(b'}'); Ty::Struct(Rc::new(f), false) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { self.i += 1; let f = self.ty_list(b'}'); self.expect(">"); return Ty::Struct(Rc::new(f), true); }
                let n = self.int() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect(">");
                Ty::Vec(n, Rc::new(t))
            }
            b'[' => { self.i += 1; let n = self.int() as u64; self.expect("x"); let t = self.ty(); self.expect("]"); Ty::Arr(n, Rc::new(t)) }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let m = self.m.expect("module");
                let mut c = Cur { t: self.t, i: *m.types.get(&n).unwrap_or_else(|| panic!("type {}", n)), m: self.m };
                c.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float, "double" => Ty::Double,
                    "metadata" | "label" | "token" => Ty::Meta,
                    "opaque" => Ty::Struct(Rc::new(vec![]), false),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => self.err(&format!("type {:?}", w)),
                }
            }
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        self.ws();
        if self.peek() == close { self.i += 1; return v; }
        loop {
            v.push(self.ty());
            self.ws();
            if self.peek() == b',' { self.i += 1; continue }
            if self.peek() == close { self.i += 1; return v }
            self.err("type list")
        }
    }
    fn typed_const(&mut self) -> (Ty, V) { let t = self.ty(); let v = self.constant(&t); (t, v) }
    pub fn constant(&mut self, ty: &Ty) -> V {
        self.ws();
        match self.peek() {
            b'@' => { let n = self.sym(); V::C(self.m.unwrap().sym_addr(&n) as u128) }
            b'{' => { self.i += 1; let v = self.const_list(b'}'); V::A(v.into()) }
            b'[' => { self.i += 1; let v = self.const_list(b']'); V::A(v.into()) }
            b'<' => {
                self.i += 1;
                self.ws();
                if matches!(ty, Ty::Struct(..)) { self.expect("{"); let v = self.const_list(b'}'); self.expect(">"); return V::A(v.into()); }
                let v = self.const_list(b'>');
                V::A(v.into())
            }
            b'c' if self.t[self.i + 1] == b'"' => {
                self.i += 2;
                let mut out = vec![];
                while self.peek() != b'"' {
                    if self.peek() == b'\\' {
                        if self.t[self.i + 1] == b'\\' { out.push(V::C(b'\\' as u128)); self.i += 2; continue }
                        let h = std::str::from_utf8(&self.t[self.i + 1..self.i + 3]).unwrap();
                        out.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        self.i += 3;
                    } else { out.push(V::C(self.peek() as u128)); self.i += 1 }
                }
                self.i += 1;
                V::A(out.into())
            }
            b'-' | b'0'..=b'9' => {
                if matches!(ty, Ty::Double | Ty::Float) {
                    let s = self.i;
                    while { let c = self.peek(); c.is_ascii_alphanumeric() || matches!(c, b'.' | b'-' | b'+') } { self.i += 1 }
                    let w = std::str::from_utf8(&self.t[s..self.i]).unwrap();
                    let d = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse::<f64>().unwrap() };
                    return V::C(if *ty == Ty::Double { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 });
                }
                let v = self.int();
                V::C(v as u128 & crate::expr::mask(ty.bits()))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => V::C(1), "false" => V::C(0), "null" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => ty.zero(),
                    "none" => V::C(0),
                    "splat" => { self.expect("("); let (_, v) = self.typed_const(); self.expect(")"); V::A((0..ty.nelem()).map(|_| v.clone()).collect::<Vec<_>>().into()) }
                    "getelementptr" => {
                        loop { self.ws(); if self.peek() == b'(' { break } let w = self.word(); if w.is_empty() { self.err("gep flags") } self.ws(); if w == "inrange" { self.skip_paren(); } }
                        self.expect("(");
                        let mut t = self.ty();
                        self.expect(",");
                        let (_, b) = self.typed_const();
                        let mut a = b.c() as u64;
                        let mut first = true;
                        while self.eat(",") {
                            let (it, iv) = self.typed_const();
                            let k = crate::expr::sext128(iv.c(), it.bits()) as i64;
                            if first { a = a.wrapping_add((k as u64).wrapping_mul(t.size())); first = false }
                            else { a = a.wrapping_add(t.field_off(k as u64)); t = t.elem(k as u64) }
                        }
                        self.expect(")");
                        V::C(a as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect("(");
                        let (_, v) = self.typed_const();
                        self.ws();
                        self.expect("to");
                        let t = self.ty();
                        self.expect(")");
                        V::C(v.c() & crate::expr::mask(t.bits()))
                    }
                    "sub" | "add" | "xor" => {
                        while !self.eat("(") { self.ws(); self.word(); }
                        let (t, a) = self.typed_const();
                        self.expect(",");
                        let (_, b) = self.typed_const();
                        self.expect(")");
                        let r = match w { "sub" => a.c().wrapping_sub(b.c()), "add" => a.c().wrapping_add(b.c()), _ => a.c() ^ b.c() };
                        V::C(r & crate::expr::mask(t.bits()))
                    }
                    _ => self.err(&format!("constant {:?}", w)),
                }
            }
        }
    }
    fn const_list(&mut self, close: u8) -> Vec<V> {
        let mut v = vec![];
        self.ws();
        if self.peek() == close { self.i += 1; return v }
        loop {
            v.push(self.typed_const().1);
            self.ws();
            if self.peek() == b',' { self.i += 1; continue }
            if self.peek() == close { self.i += 1; return v }
            self.err("constant list")
        }
    }
    /// Skip attribute words (with optional parenthesised arguments or numbers) until a type starts
    fn skip_attrs_to_type(&mut self) {
        loop {
            if self.at_type() { return }
            self.ws();
            if self.peek() == b'"' { self.name(); if self.peek() == b'=' { self.i += 1; self.name(); } continue }
            if self.peek() == b'%' { return }
            let w = self.word();
            if w.is_empty() { self.err("attrs") }
            if self.peek() == b'(' { self.skip_paren() }
        }
    }
}

struct FnParser<'a> { c: Cur<'a>, slots: HashMap<String, u32>, slot_names: Vec<String>, blocks: HashMap<String, u32>, bnames: Vec<String> }

impl<'a> FnParser<'a> {
    fn slot(&mut self, n: String) -> u32 {
        if let Some(s) = self.slots.get(&n) { return *s }
        let k = self.slots.len() as u32;
        self.slot_names.push(n.clone());
        self.slots.insert(n, k);
        k
    }
    fn label(&mut self) -> u32 {
        self.c.eat_word("label");
        self.c.expect("%");
        let n = self.c.name();
        self.block(n)
    }
    fn block(&mut self, n: String) -> u32 {
        if let Some(b) = self.blocks.get(&n) { return *b }
        let k = self.blocks.len() as u32;
        self.bnames.push(n.clone());
        self.blocks.insert(n, k);
        k
    }
    fn op(&mut self, ty: &Ty) -> O {
        self.c.ws();
        if self.c.peek() == b'%' { self.c.i += 1; let n = self.c.name(); return O::L(self.slot(n)) }
        if self.c.peek() == b'<' || self.c.peek() == b'{' || self.c.peek() == b'[' {
            // constants may not contain locals
        }
        O::K(self.c.constant(ty))
    }
    fn top(&mut self) -> (Ty, O) { let t = self.c.ty(); let o = self.op(&t); (t, o) }
    fn eol(&mut self) { self.c.i = find_line_end(self.c.t, self.c.i) }

    fn parse(m: &'a Module, idx: u32) -> Func {
        let d = &m.fns[idx as usize];
        let mut p = FnParser { c: Cur { t: m.t, i: d.pos, m: Some(m) }, slots: HashMap::new(), slot_names: vec![], blocks: HashMap::new(), bnames: vec![] };
        p.c.expect("(");
        let mut params = vec![];
        let mut unnamed = 0;
        p.c.ws();
        while p.c.peek() != b')' {
            if p.c.eat("...") { continue }
            let _t = p.c.ty();
            // attributes up to %name
            loop {
                p.c.ws();
                match p.c.peek() {
                    b'%' => { p.c.i += 1; let n = p.c.name(); if n.parse::<u32>().is_ok() { unnamed += 1 } let s = p.slot(n); params.push(s); break }
                    b',' | b')' => { let n = unnamed.to_string(); unnamed += 1; let s = p.slot(n); params.push(s); break }
                    b'(' => p.c.skip_paren(),
                    b'"' => { p.c.name(); }
                    b'=' => p.c.i += 1,
                    _ => { if p.c.word().is_empty() { p.c.err("param attrs") } }
                }
            }
            p.c.ws();
            if p.c.peek() == b',' { p.c.i += 1; p.c.ws() }
        }
        p.eol();
        let end = d.end;
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            p.c.ws();
            if p.c.peek() == b'}' || p.c.i >= end { break }
            match p.c.peek() { b';' | b'#' | b'!' => { p.eol(); continue } _ => {} }
            // label?
            let save = p.c.i;
            let at_line_start = save == 0 || p.c.t[save - 1] == b'\n';
            if at_line_start {
                let n = p.c.name();
                if p.c.peek() == b':' {
                    p.c.i += 1;
                    let b = p.block(n);
                    if let Some((k, bl)) = cur.take() { put(&mut blocks, k, bl) }
                    cur = Some((b, Block { phis: vec![], ins: vec![] }));
                    p.eol();
                    continue;
                }
                p.c.i = save;
            }
            if cur.is_none() {
                let b = p.block(unnamed.to_string());
                cur = Some((b, Block { phis: vec![], ins: vec![] }));
            }
            let is_phi = p.instr(&mut cur.as_mut().unwrap().1);
            let _ = is_phi;
        }
        if let Some((k, bl)) = cur.take() { put(&mut blocks, k, bl) }
        fn put(v: &mut Vec<Option<Block>>, k: u32, b: Block) { while v.len() <= k as usize { v.push(None) } v[k as usize] = Some(b) }
        // the entry block must be index 0: it is parsed first, so it is registered first
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![I::Bad("missing block".into())] })).collect();
        Func { id: idx, name: d.name.clone(), params, nslots: p.slots.len() as u32, blocks, slot_names: p.slot_names }
    }

    fn instr(&mut self, b: &mut Block) -> bool {
        self.c.ws();
        let mut d = u32::MAX;
        if self.c.peek() == b'%' {
            self.c.i += 1;
            let n = self.c.name();
            d = self.slot(n);
            self.c.expect("=");
            self.c.ws();
        }
        let mut w = self.c.word();
        while matches!(w, "tail" | "musttail" | "notail") { self.c.ws(); w = self.c.word() }
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while self.c.eat_word("nuw") || self.c.eat_word("nsw") || self.c.eat_word("exact") || self.c.eat_word("disjoint") {}
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                let op = match w { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, _ => B::Xor };
                match &t { Ty::Vec(_, e) => I::BinV(op, e.bits(), d, x, y), _ => I::Bin(op, t.bits(), d, x, y) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" => {
                while !self.c.at_type() { self.c.word(); self.c.ws() }
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                let op = match w { "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, _ => B::FDiv };
                I::FBin(op, t == Ty::Double, d, x, y)
            }
            "icmp" => {
                self.c.eat_word("samesign");
                self.c.ws();
                let pw = self.c.word();
                let p = match pw { "eq" => P::Eq, "ne" => P::Ne, "ugt" => P::Ugt, "uge" => P::Uge, "ult" => P::Ult, "ule" => P::Ule, "sgt" => P::Sgt, "sge" => P::Sge, "slt" => P::Slt, "sle" => P::Sle, _ => self.c.err("icmp predicate") };
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                match &t { Ty::Vec(_, e) => I::IcmpV(p, e.bits(), d, x, y), _ => I::Icmp(p, t.bits(), d, x, y) }
            }
            "fcmp" => {
                self.c.ws();
                let mut pw = self.c.word().to_string();
                while matches!(pw.as_str(), "fast" | "nnan" | "ninf" | "nsz") { self.c.ws(); pw = self.c.word().to_string() }
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                I::Fcmp(pw, t == Ty::Double, d, x, y)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "addrspacecast" | "ptrtoaddr" => {
                while self.c.eat_word("nuw") || self.c.eat_word("nsw") || self.c.eat_word("nneg") {}
                let (t, x) = self.top();
                self.c.ws();
                self.c.expect("to");
                let u = self.c.ty();
                match w {
                    "bitcast" if t.is_agg() || u.is_agg() => I::BitAgg(t, u, d, x),
                    "bitcast" => I::Copy(d, x),
                    "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" => I::FpCast(w.into(), t, u, d, x),
                    _ => {
                        let k = match w { "trunc" => C::Trunc, "zext" => C::ZExt, "sext" => C::SExt, _ => C::Bit };
                        match (&t, &u) {
                            (Ty::Vec(_, a), Ty::Vec(_, b)) => I::CastV(k, a.bits(), b.bits(), d, x),
                            _ => { let (fb, tb) = (t.bits(), u.bits()); let k = if k == C::Bit { if tb < fb { C::Trunc } else { C::ZExt } } else { k }; if fb == tb { I::Copy(d, x) } else { I::Cast(k, fb, tb, d, x) } }
                        }
                    }
                }
            }
            "getelementptr" => {
                while !self.c.at_type() && self.c.peek() != b'%' { self.c.word(); self.c.ws(); if self.c.peek() == b'(' { self.c.skip_paren() } }
                let mut t = self.c.ty();
                self.c.expect(",");
                let (_, base) = self.top();
                let mut off = 0u64;
                let mut terms = vec![];
                let mut first = true;
                while { self.c.ws_line(); self.c.peek() == b',' } {
                    let save = self.c.i;
                    self.c.i += 1;
                    self.c.ws_line();
                    if self.c.peek() == b'!' { self.c.i = save; break }
                    let (it, ix) = self.top();
                    let scale;
                    if first { scale = t.size(); first = false }
                    else if let Ty::Struct(..) = t {
                        let k = match &ix { O::K(v) => v.c() as u64, _ => self.c.err("struct index") };
                        off = off.wrapping_add(t.field_off(k));
                        t = t.elem(k);
                        continue;
                    } else { t = t.elem(0); scale = t.size() }
                    match &ix {
                        O::K(v) => off = off.wrapping_add((crate::expr::sext128(v.c(), it.bits()) as u64).wrapping_mul(scale)),
                        _ => terms.push((ix, it.bits(), scale)),
                    }
                }
                I::Gep(d, base, off, terms)
            }
            "load" => {
                while self.c.eat_word("atomic") || self.c.eat_word("volatile") {}
                let t = self.c.ty();
                self.c.expect(",");
                let (_, p) = self.top();
                I::Load(d, t, p)
            }
            "store" => {
                while self.c.eat_word("atomic") || self.c.eat_word("volatile") {}
                let (t, v) = self.top();
                self.c.expect(",");
                let (_, p) = self.top();
                I::Store(t, v, p)
            }
            "alloca" => {
                let t = self.c.ty();
                let mut n = O::K(V::C(1));
                self.c.ws_line();
                if self.c.peek() == b',' {
                    self.c.i += 1;
                    if self.c.at_type() { let (_, o) = self.top(); n = o }
                }
                I::Alloca(d, t.size(), n)
            }
            "select" => {
                while !self.c.at_type() { self.c.word(); self.c.ws() }
                let (ct, c) = self.top();
                self.c.expect(",");
                let (t, x) = self.top();
                self.c.expect(",");
                let (_, y) = self.top();
                I::Select(d, t, matches!(ct, Ty::Vec(..)), c, x, y)
            }
            "freeze" => { let (_, x) = self.top(); I::Copy(d, x) }
            "extractvalue" => {
                let (_, x) = self.top();
                let mut ix = vec![];
                while { self.c.ws_line(); self.c.peek() == b',' } { let s = self.c.i; self.c.i += 1; self.c.ws_line(); if !self.c.peek().is_ascii_digit() { self.c.i = s; break } ix.push(self.c.int() as u32) }
                I::ExtractV(d, x, ix)
            }
            "insertvalue" => {
                let (_, x) = self.top();
                self.c.expect(",");
                let (_, y) = self.top();
                let mut ix = vec![];
                while { self.c.ws_line(); self.c.peek() == b',' } { let s = self.c.i; self.c.i += 1; self.c.ws_line(); if !self.c.peek().is_ascii_digit() { self.c.i = s; break } ix.push(self.c.int() as u32) }
                I::InsertV(d, x, y, ix)
            }
            "extractelement" => { let (_, x) = self.top(); self.c.expect(","); let (_, i) = self.top(); I::ExtractE(d, x, i) }
            "insertelement" => { let (_, x) = self.top(); self.c.expect(","); let (_, y) = self.top(); self.c.expect(","); let (_, i) = self.top(); I::InsertE(d, x, y, i) }
            "shufflevector" => {
                let (t, x) = self.top();
                self.c.expect(",");
                let (_, y) = self.top();
                self.c.expect(",");
                let mt = self.c.ty();
                self.c.ws();
                let mut mask = vec![];
                if self.c.peek() == b'<' {
                    self.c.i += 1;
                    loop {
                        let t = self.c.ty();
                        let s = self.c.i;
                        if self.c.eat_word("poison") || self.c.eat_word("undef") { mask.push(-1) } else { self.c.i = s; mask.push(self.c.constant(&t).c() as i64) }
                        if self.c.eat(",") { continue }
                        self.c.expect(">");
                        break;
                    }
                } else {
                    let k = self.c.constant(&mt);
                    if let V::A(v) = k { for x in v.iter() { mask.push(x.c() as i64) } }
                }
                I::Shuffle(d, x, y, mask, t.nelem())
            }
            "atomicrmw" => {
                self.c.eat_word("volatile");
                self.c.ws();
                let op = self.c.word().to_string();
                let (_, p) = self.top();
                self.c.expect(",");
                let (t, v) = self.top();
                I::Rmw(d, op, t.bits(), p, v)
            }
            "cmpxchg" => {
                while self.c.eat_word("weak") || self.c.eat_word("volatile") {}
                let (_, p) = self.top();
                self.c.expect(",");
                let (t, x) = self.top();
                self.c.expect(",");
                let (_, y) = self.top();
                I::CmpXchg(d, t.bits(), p, x, y)
            }
            "fence" => I::Fence,
            "phi" => {
                while !self.c.at_type() { self.c.word(); self.c.ws() }
                let t = self.c.ty();
                let mut v = vec![];
                loop {
                    self.c.expect("[");
                    let o = self.op(&t);
                    self.c.expect(",");
                    let l = self.label();
                    self.c.expect("]");
                    v.push((l, o));
                    self.c.ws_line();
                    if self.c.peek() == b',' { let s = self.c.i; self.c.i += 1; self.c.ws_line(); if self.c.peek() == b'[' { continue } self.c.i = s }
                    break;
                }
                b.phis.push((d, v));
                self.eol();
                return true;
            }
            "call" | "invoke" => {
                self.c.skip_attrs_to_type();
                let ret = self.c.ty();
                self.c.ws();
                if self.c.peek() == b'(' { self.c.skip_paren() }
                self.c.ws();
                let callee = if self.c.peek() == b'@' {
                    let n = self.c.sym();
                    let m = self.c.m.unwrap();
                    let n = m.aliases.get(n.as_str()).map(|x| x.to_string()).unwrap_or(n);
                    let id = m.names[n.as_str()];
                    Callee::Direct(id - m.fn_base())
                } else if self.c.peek() == b'%' { Callee::Ind(self.op(&Ty::Ptr)) }
                else {
                    let s = self.c.i;
                    let w = self.c.word();
                    if w == "asm" {
                        loop { self.c.ws(); if self.c.peek() == b'"' { break } self.c.word(); }
                        let a = self.c.name();
                        self.c.expect(",");
                        self.c.ws();
                        let k = self.c.name();
                        Callee::Asm(format!("{}|{}", a, k))
                    } else { self.c.i = s; Callee::Ind(O::K(self.c.constant(&Ty::Ptr))) }
                };
                self.c.expect("(");
                let mut args = vec![];
                self.c.ws();
                while self.c.peek() != b')' {
                    let t = self.c.ty();
                    if t == Ty::Meta {
                        // skip metadata operand
                        let mut dep = 0;
                        loop { match self.c.peek() { b'(' => dep += 1, b')' if dep == 0 => break, b')' => dep -= 1, b',' if dep == 0 => break, b'"' => { self.c.name(); continue } _ => {} } self.c.i += 1 }
                        args.push((t, O::K(V::C(0))));
                    } else {
                        loop {
                            self.c.ws();
                            let ch = self.c.peek();
                            if matches!(ch, b'%' | b'@' | b'-' | b'0'..=b'9' | b'<' | b'{' | b'[') { break }
                            let s = self.c.i;
                            if ch == b'"' { self.c.name(); if self.c.peek() == b'=' { self.c.i += 1; self.c.name(); } continue }
                            let w = self.c.word();
                            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "c" | "bitcast" | "trunc" | "sub" | "add") { self.c.i = s; break }
                            if w.is_empty() { self.c.err("argument attributes") }
                            if w == "align" { self.c.ws(); if self.c.peek() != b'(' { self.c.int(); continue } }
                            self.c.ws();
                            if self.c.peek() == b'(' { self.c.skip_paren() }
                        }
                        let o = self.op(&t);
                        args.push((t, o));
                    }
                    self.c.ws();
                    if self.c.peek() == b',' { self.c.i += 1; self.c.ws() }
                }
                self.c.i += 1;
                let mut normal = u32::MAX;
                if w == "invoke" {
                    // find "to label"
                    loop { self.c.ws(); if self.c.eat_word("to") { break } if self.c.peek() == b'[' { while self.c.peek() != b']' { self.c.i += 1 } self.c.i += 1; continue } if self.c.peek() == b'#' { self.c.i += 1; self.c.word(); continue } if self.c.peek() == b'(' { self.c.skip_paren(); continue } if self.c.word().is_empty() { self.c.err("invoke") } }
                    normal = self.label();
                    self.c.expect("unwind");
                    self.label();
                }
                I::Call(Box::new(Call { d, ret, callee, args, normal }))
            }
            "br" => {
                self.c.ws();
                if self.c.t[self.c.i..].starts_with(b"label") { I::Br(self.label()) }
                else { let (_, c) = self.top(); self.c.expect(","); let x = self.label(); self.c.expect(","); let y = self.label(); I::CondBr(c, x, y) }
            }
            "switch" => {
                let (t, v) = self.top();
                self.c.expect(",");
                let def = self.label();
                self.c.expect("[");
                let mut cs = vec![];
                loop {
                    self.c.ws();
                    if self.c.peek() == b']' { self.c.i += 1; break }
                    let t = self.c.ty();
                    let k = self.c.constant(&t).c();
                    self.c.expect(",");
                    let l = self.label();
                    cs.push((k, l));
                }
                I::Switch(t.bits(), v, def, cs)
            }
            "ret" => { self.c.ws(); if self.c.eat_word("void") { I::Ret(None) } else { let (_, v) = self.top(); I::Ret(Some(v)) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Bad("resume".into()),
            "landingpad" => {
                self.eol();
                // clause lines
                loop {
                    let s = self.c.i;
                    self.c.ws();
                    let w = self.c.word();
                    if matches!(w, "cleanup" | "catch" | "filter") { 
                        if w == "filter" { let mut dep = 0; loop { match self.c.peek() { b'[' => dep += 1, b']' => { dep -= 1; if dep == 0 { let k = self.c.i; let e = find_line_end(self.c.t, k); if !self.c.t[k..e].contains(&b'[') { break } } } b'\n' if dep == 0 => break, _ => {} } self.c.i += 1 } }
                        self.eol();
                    } else { self.c.i = s; break }
                }
                b.ins.push(I::Bad("landingpad".into()));
                return false;
            }
            "va_arg" | "cleanupret" | "catchswitch" | "indirectbr" => I::Bad(w.into()),
            _ => self.c.err(&format!("instruction {:?}", w)),
        };
        self.eol();
        b.ins.push(ins);
        false
    }
}
impl<'a> Cur<'a> { fn ws_line(&mut self) { while matches!(self.peek(), b' ' | b'\t') { self.i += 1 } } }
