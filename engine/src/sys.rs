//! The environment: intrinsics, libc, an in-memory file system with fault injection, crash points,
//! concurrent environment operations and threads.
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type SB = (u8, E); // possibly symbolic byte
const PG: u64 = 4096;

#[derive(Clone)]
pub struct Page { pub d: Vec<u8>, pub s: Option<Vec<E>> }
#[derive(Clone)]
pub enum Kind { File { size: u64, pages: BTreeMap<u64, Rc<Page>> }, Dir { ents: BTreeMap<Vec<u8>, u32>, parent: u32 }, Link(Vec<u8>) }
#[derive(Clone)]
pub struct Inode { pub k: Kind, pub mtime: u64, pub mode: u32, pub nlink: u32 }
#[derive(Clone)]
/// `own`: the descriptor whose `pos` is used (a duplicate shares the position of the original)
pub struct Fd { pub ino: u32, pub pos: u64, pub own: usize, pub flags: u32, pub alive: bool, pub dir_pos: usize, pub dirent: u64, pub snap: Rc<Vec<(Vec<u8>, u32)>> }
#[derive(Clone, Debug)]
pub struct EnvOp { pub kind: u32, pub a: Vec<u8>, pub b: Vec<u8>, pub data: Rc<Vec<SB>> }

#[derive(Clone)]
pub struct Sys {
    pub inodes: Rc<Vec<Rc<Inode>>>,
    pub fds: Rc<Vec<Fd>>,
    pub clock: u64,
    /// what the file system's coarse clock says: everything between two advances has the same time
    pub epoch: u64,
    pub keys: u32,
    pub keyv: Rc<HashMap<(usize, u32), u64>>,
    pub sysno: u64,
    pub point: u64,           // bit per thread: the choices of the current system call were made
    pub decision: [u32; 16],  // fault decision per thread
    pub fault_mask: u32,
    pub fault_budget: u32,
    pub eintr: u32,
    pub env: Rc<Vec<EnvOp>>,
    pub env_at: usize,
    pub env_on: bool,
    pub crash_armed: Option<usize>, // thread
    pub preempt: u32,
    pub writes: u64,
    pub jail: Option<Vec<u8>>,
    pub escapes: u64,
    pub rev_dir: bool,
    pub nopens: u64,
    pub yielded: u64,
    pub wakes: u32,
    /// since threads() was called: moving in a file is a point at which another thread may run
    pub threaded: bool,
    pub woke: [Option<i64>; 16],
    pub spins: u64,
}

pub const ROOT: &[u8] = b"/r";
pub const M_READ: u32 = 1; // short reads
pub const M_EINTR: u32 = 2;
pub const M_EIO: u32 = 4;
pub const M_WSHORT: u32 = 8;
pub const M_WERR: u32 = 16;
pub const M_OPENERR: u32 = 32;
// without a budget: every read delivers at most 1 / 7 bytes; every other read is interrupted
pub const M_STUTTER: u32 = 64;
pub const M_STUTTER7: u32 = 128;
pub const M_EVERY_EINTR: u32 = 256;
pub const M_MANY_EINTR: u32 = 512;

impl Sys {
    pub fn new() -> Sys {
        let dir = |p: u32| Rc::new(Inode { k: Kind::Dir { ents: BTreeMap::new(), parent: p }, mtime: 1, mode: 0o40755, nlink: 2 });
        let mut v = vec![dir(0), dir(0)];
        if let Kind::Dir { ents, .. } = &mut Rc::make_mut(&mut v[0]).k { ents.insert(b"r".to_vec(), 1); }
        Sys { inodes: Rc::new(v), fds: Rc::new(vec![]), clock: 1_600_000_000_000_000_000, epoch: 1_600_000_000_000_000_000, keys: 1, keyv: Rc::new(HashMap::new()), sysno: 0, point: 0, decision: [0; 16], fault_mask: 0, fault_budget: 0, eintr: 0, env: Rc::new(vec![]), env_at: 0, env_on: false, crash_armed: None, preempt: 0, writes: 0, jail: None, escapes: 0, rev_dir: false, nopens: 0, yielded: 0, wakes: 0, threaded: false, woke: [None; 16], spins: 0 }
    }
    fn ino(&self, i: u32) -> &Inode { &self.inodes[i as usize] }
    fn ino_mut(&mut self, i: u32) -> &mut Inode { Rc::make_mut(&mut Rc::make_mut(&mut self.inodes)[i as usize]) }
    fn new_ino(&mut self, k: Kind, mode: u32) -> u32 { let n = Inode { k, mtime: self.epoch, mode, nlink: 1 }; let v = Rc::make_mut(&mut self.inodes); v.push(Rc::new(n)); v.len() as u32 - 1 }
    fn pos(&self, i: usize) -> u64 { self.fds[self.fds[i].own].pos }
    fn pos_mut(&mut self, i: usize) -> &mut u64 { let o = self.fds[i].own; &mut self.fd_mut(o).pos }
    fn fd_mut(&mut self, i: usize) -> &mut Fd { &mut Rc::make_mut(&mut self.fds)[i] }
    /// resolve a concrete path for harness-side operations (no symlinks, no choice)
    fn walk(&self, path: &[u8]) -> (u32, Vec<u8>, Option<u32>) {
        let mut cur = 0u32;
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        for (i, c) in comps.iter().enumerate() {
            match &self.ino(cur).k {
                Kind::Dir { ents, .. } => {
                    let nx = ents.get(*c).copied();
                    if i + 1 == comps.len() { return (cur, c.to_vec(), nx) }
                    match nx { Some(n) => cur = n, None => panic!("harness path {:?}: missing directory", String::from_utf8_lossy(path)) }
                }
                _ => panic!("harness path {:?}: not a directory", String::from_utf8_lossy(path)),
            }
        }
        (cur, vec![], Some(cur))
    }
    fn link_into(&mut self, dir: u32, name: Vec<u8>, n: u32) { let now = self.epoch; self.ino_mut(dir).mtime = now; if let Kind::Dir { ents, .. } = &mut self.ino_mut(dir).k { ents.insert(name, n); } }
    fn unlink_from(&mut self, dir: u32, name: &[u8]) { let now = self.epoch; self.ino_mut(dir).mtime = now; if let Kind::Dir { ents, .. } = &mut self.ino_mut(dir).k { ents.remove(name); } }
    pub fn file_write(&mut self, ino: u32, off: u64, b: &[SB]) {
        let now = self.epoch;
        let n = self.ino_mut(ino);
        n.mtime = now;
        if let Kind::File { size, pages } = &mut n.k {
            for (i, (x, e)) in b.iter().enumerate() {
                let o = off + i as u64;
                let p = Rc::make_mut(pages.entry(o / PG).or_insert_with(|| Rc::new(Page { d: vec![], s: None })));
                let k = (o % PG) as usize;
                if p.d.len() <= k { p.d.resize(k + 1, 0); if let Some(s) = &mut p.s { s.resize(k + 1, 0) } }
                p.d[k] = *x;
                if *e != 0 && p.s.is_none() { p.s = Some(vec![0; p.d.len()]) }
                if let Some(s) = &mut p.s { s[k] = *e }
            }
            *size = (*size).max(off + b.len() as u64);
        }
    }
    pub fn file_read(&self, ino: u32, off: u64, n: u64) -> Vec<SB> {
        match &self.ino(ino).k {
            Kind::File { size, pages } => {
                let end = (*size).min(off.saturating_add(n));
                (off..end.max(off)).map(|o| match pages.get(&(o / PG)) { Some(p) => { let k = (o % PG) as usize; (p.d.get(k).copied().unwrap_or(0), p.s.as_ref().and_then(|s| s.get(k)).copied().unwrap_or(0)) } None => (0, 0) }).collect()
            }
            _ => vec![],
        }
    }
    fn size(&self, ino: u32) -> u64 { match &self.ino(ino).k { Kind::File { size, .. } => *size, Kind::Link(t) => t.len() as u64, _ => 4096 } }
    fn put(&mut self, path: &[u8], off: u64, data: &[SB], trunc: bool) {
        let (d, name, n) = self.walk(path);
        let n = match n { Some(n) if !trunc => n, _ => { let n = self.new_ino(Kind::File { size: 0, pages: BTreeMap::new() }, 0o100644); self.link_into(d, name, n); n } };
        self.file_write(n, off, data);
    }
    fn apply_env(&mut self, op: &EnvOp) {
        match op.kind {
            0 => { let (d, name, _) = self.walk(&op.a); let n = self.new_ino(Kind::Dir { ents: BTreeMap::new(), parent: d }, 0o40755); self.link_into(d, name, n) }
            1 => self.put(&op.a, 0, &op.data, true),
            2 => { let (d, name, n) = self.walk(&op.a); if n.is_some() { self.unlink_from(d, &name) } }
            3 => { let (d, name, n) = self.walk(&op.a); if let Some(n) = n { let (d2, name2, _) = self.walk(&op.b); self.unlink_from(d, &name); self.link_into(d2, name2, n); if let Kind::Dir { parent, .. } = &mut self.ino_mut(n).k { *parent = d2 } } }
            4 => { let (d, name, _) = self.walk(&op.a); let n = self.new_ino(Kind::Link(op.b.clone()), 0o120777); self.link_into(d, name, n) }
            // by other programs: rmdir, mkdir and rename that fail when they cannot be done
            5 => if self.parent(&op.a) { let (d, name, n) = self.walk(&op.a); let empty = n.map_or(false, |n| matches!(&self.ino(n).k, Kind::Dir { ents, .. } if ents.is_empty())); if empty { self.unlink_from(d, &name) } }
            6 => if self.parent(&op.a) && self.walk(&op.a).2.is_none() { self.apply_env(&EnvOp { kind: 0, ..op.clone() }) }
            7 => if self.parent(&op.a) && self.parent(&op.b) { self.apply_env(&EnvOp { kind: 3, ..op.clone() }) }
            _ => panic!("env op"),
        }
    }
    /// the folder that `path` lies in exists
    fn parent(&self, path: &[u8]) -> bool {
        let mut cur = 0u32;
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        for c in &comps[..comps.len() - 1] {
            match &self.ino(cur).k { Kind::Dir { ents, .. } => match ents.get(*c) { Some(n) => cur = *n, None => return false }, _ => return false }
        }
        matches!(self.ino(cur).k, Kind::Dir { .. })
    }
    fn under_root(&self, mut ino: u32) -> bool { loop { if ino == 1 { return true } if ino == 0 { return false } match &self.ino(ino).k { Kind::Dir { parent, .. } => ino = *parent, _ => return false } } }
    fn under(&self, mut ino: u32, top: u32) -> bool { loop { if ino == top { return true } if ino == 0 { return false } match &self.ino(ino).k { Kind::Dir { parent, .. } => ino = *parent, _ => return false } } }
}

pub const NAMES: &[&str] = &[
    "", "nop", "memcpy", "memmove", "memset", "bcmp", "memcmp", "strlen", "assume", "umin", "umax", "smin", "smax", "abs", "ctpop", "ctlz", "cttz", "bswap", "bitreverse", "fshl", "fshr", "ucmp", "scmp",
    "uadd.with.overflow", "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow", "uadd.sat", "usub.sat", "sadd.sat", "ssub.sat", "is.constant", "threadlocal.address", "expect", "trap", "ceil", "floor", "fptoui.sat", "fptosi.sat",
    "psad", "pmadd", "pshufb", "zero", "vreduce", "fabs", "ptrmask",
    "@panic", "@alloc_error", "malloc", "calloc", "realloc", "free", "posix_memalign", "abort", "__errno_location", "getenv", "sched_getaffinity", "sysconf", "clock_gettime", "getcwd", "pthread_key_create", "pthread_key_delete", "pthread_setspecific", "pthread_getspecific", "pthread_self", "syscall", "getrandom", "sched_yield", "__xpg_strerror_r", "_exit",
    "open64", "close", "read", "pread64", "write", "writev", "lseek64", "stat64", "lstat64", "fstat64", "mmap64", "munmap", "fcntl", "readlink", "realpath", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "opendir", "fdopendir", "readdir64", "closedir", "dirfd", "utimensat", "futimens", "fsync", "ftruncate64", "access", "gettimeofday", "getpid", "chmod", "fchmod", "madvise", "flock", "dup", "posix_fadvise64", "unlinkat", "copy_file_range", "sendfile64", "umask", "geteuid", "poll", "isatty", "gethostname", "linkat", "renameat2",
    "sx_any", "sx_assume", "sx_assert", "sx_choice", "sx_concrete", "sx_cover", "sx_observe", "sx_digest", "sx_fs_op", "sx_fs_put_at", "sx_fs_get", "sx_env_add", "sx_env_on", "sx_fault", "sx_crash", "sx_writes", "sx_jail", "sx_escapes", "sx_time_advance", "sx_heap_reset", "sx_heap_peak", "sx_heap_live", "sx_open_files", "sx_spawn", "sx_join", "sx_preempt", "sx_is_symbolic", "sx_root", "sx_exists", "sx_note", "sx_readdir_rev", "sx_limits", "sx_eq", "sx_list", "sx_concrete_bytes", "sx_adler", "sx_param",
];

pub fn classify(name: &str, declared: bool) -> u32 {
    let id = |n: &str| NAMES.iter().position(|x| *x == n).map(|x| x as u32);
    if let Some(r) = name.strip_prefix("llvm.") {
        for p in ["lifetime.", "experimental.noalias", "donothing", "prefetch", "dbg.", "invariant", "va_", "sideeffect", "x86.sse2.pause", "pseudoprobe"] { if r.starts_with(p) { return 1 } }
        if r.starts_with("x86.sse2.psad.bw") { return id("psad").unwrap() }
        if r.starts_with("x86.sse2.pmadd.wd") { return id("pmadd").unwrap() }
        if r.starts_with("x86.ssse3.pshuf.b") || r.starts_with("x86.avx2.pshuf.b") { return id("pshufb").unwrap() }
        if r.starts_with("x86.xgetbv") { return id("zero").unwrap() }
        if r.starts_with("vector.reduce.") { return id("vreduce").unwrap() }
        let mut best = 0;
        for (i, n) in NAMES.iter().enumerate() { if i > 1 && r.starts_with(n) && r[n.len()..].starts_with('.') && n.len() > NAMES[best].len() { best = i } }
        if best == 0 { for (i, n) in NAMES.iter().enumerate() { if i > 1 && r == *n { best = i } } }
        return best as u32;
    }
    if name.contains("9panicking9panic_fmt") || name.contains("9panicking11begin_panic") || name.contains("rust_panic_with_hook") || name.contains("9panicking18panic_nounwind_fmt") || name.contains("rust_begin_unwind") { return id("@panic").unwrap() }
    if name.contains("18handle_alloc_error") || name.contains("17capacity_overflow") && false { return id("@alloc_error").unwrap() }
    if declared || name.starts_with("sx_") { if let Some(i) = id(name) { return i } }
    if !declared && matches!(name, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") { return id(name).unwrap() }
    let alias = match name { "open" => "open64", "lseek" => "lseek64", "stat" => "stat64", "fstat" => "fstat64", "lstat" => "lstat64", "mmap" => "mmap64", "readdir" => "readdir64", "ftruncate" => "ftruncate64", "pread" => "pread64", _ => "" };
    if declared && !alias.is_empty() { return id(alias).unwrap() }
    0
}

const ENOENT: i32 = 2; const EINTR: i32 = 4; const EIO: i32 = 5; const EBADF: i32 = 9; const EAGAIN: i32 = 11; const EACCES: i32 = 13; const EEXIST: i32 = 17; const ENOTDIR: i32 = 20; const EISDIR: i32 = 21; const EINVAL: i32 = 22; const EMFILE: i32 = 24; const ENOSPC: i32 = 28; const ENOTEMPTY: i32 = 39; const ELOOP: i32 = 40;

struct Res { dir: u32, name: Vec<SB>, ino: Option<u32> }

fn int_w(t: &Ty) -> u32 { match t { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 64 } }
fn i32r(x: i32) -> V { V::C(x as u32 as u128) }
fn i64r(x: i64) -> V { V::C(x as u64 as u128) }

impl Eng {
    fn set_errno(&mut self, st: &mut State, e: i32) -> R<()> { let a = self.errno(st)?; self.write_conc(st, a, &e.to_le_bytes()) }
    fn errno(&mut self, st: &mut State) -> R<u64> {
        let k = (st.cur as u32, u32::MAX);
        let id = match st.tls.get(&k) { Some(i) => *i, None => { let a = self.alloc(st, Obj::new(4)); let i = (a >> 32) as u32; Rc::make_mut(&mut st.tls).insert(k, i); i } };
        Ok(addr(id))
    }
    fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<SB>> {
        let mut v = vec![];
        let o = self.obj(st, (a >> 32) as u32)?;
        let mut i = a & 0xffff_ffff;
        loop {
            if i >= o.size { return viol("memory", "unterminated C string") }
            let (b, e) = o.byte(i);
            if e == 0 { if b == 0 { break } } else if self.fork(st, eq(e, cst(8, 0)))? { break }
            v.push((b, e));
            i += 1;
        }
        Ok(v)
    }
    fn sb_eq(&self, a: &[SB], b: &[u8]) -> E {
        if a.len() != b.len() { return fls() }
        let mut r = tru();
        for (x, y) in a.iter().zip(b) { let q = if x.1 == 0 { cst(1, (x.0 == *y) as u128) } else { eq(x.1, cst(8, *y as u128)) }; r = and(r, q) }
        r
    }
    fn is_byte(&mut self, st: &mut State, b: SB, k: u8) -> R<bool> { if b.1 == 0 { Ok(b.0 == k) } else { self.fork(st, eq(b.1, cst(8, k as u128))) } }
    /// Resolve a possibly symbolic path. Err(errno) inside Ok for kernel errors.
    fn resolve(&mut self, st: &mut State, path: &[SB], follow: bool) -> R<Result<Res, i32>> { self.resolve_at(st, path, follow, 1, 0) }
    fn resolve_at(&mut self, st: &mut State, path: &[SB], follow: bool, start: u32, depth: u32) -> R<Result<Res, i32>> {
        if depth > 8 { return Ok(Err(ELOOP)) }
        if path.is_empty() { return Ok(Err(ENOENT)) }
        let mut comps: Vec<Vec<SB>> = vec![];
        let mut cur: Vec<SB> = vec![];
        let abs = self.is_byte(st, path[0], b'/')?;
        let mut trailing = false;
        for b in path {
            if self.is_byte(st, *b, b'/')? { if !cur.is_empty() { comps.push(std::mem::take(&mut cur)) } trailing = true } else { cur.push(*b); trailing = false }
        }
        if !cur.is_empty() { comps.push(cur) }
        let mut at = if abs { 0 } else { start };
        let n = comps.len();
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == n;
            let parent = match &st.sys.ino(at).k { Kind::Dir { parent, .. } => *parent, _ => return Ok(Err(ENOTDIR)) };
            if c.len() == 1 && self.is_byte(st, c[0], b'.')? { if last { return Ok(Ok(Res { dir: at, name: vec![], ino: Some(at) })) } continue }
            if c.len() == 2 && { let e = self.sb_eq(c, b".."); self.fork(st, e)? } { at = parent; if last { return Ok(Ok(Res { dir: at, name: vec![], ino: Some(at) })) } continue }
            if c.len() > 255 { return Ok(Err(36)) }
            let inode = st.sys.inodes[at as usize].clone();
            let ents = match &inode.k { Kind::Dir { ents, .. } => ents, _ => return Ok(Err(ENOTDIR)) };
            let mut hit = None;
            if c.iter().all(|b| b.1 == 0) { let k: Vec<u8> = c.iter().map(|b| b.0).collect(); hit = ents.get(&k).copied() }
            else { for (k, v) in ents.iter() { if k.len() == c.len() { let e = self.sb_eq(c, k); if self.fork(st, e)? { hit = Some(*v); break } } } }
            if let Some(h) = hit {
                if let Kind::Link(t) = &st.sys.ino(h).k {
                    if !last || follow || trailing {
                        let mut p: Vec<SB> = t.iter().map(|b| (*b, 0)).collect();
                        for c in &comps[i + 1..] { p.push((b'/', 0)); p.extend(c.iter().copied()) }
                        return self.resolve_at(st, &p, follow, at, depth + 1);
                    }
                }
            }
            if last {
                if let Some(h) = hit { if trailing { if !matches!(st.sys.ino(h).k, Kind::Dir { .. }) { return Ok(Err(ENOTDIR)) } } }
                return Ok(Ok(Res { dir: at, name: c.clone(), ino: hit }));
            }
            match hit { Some(h) => at = h, None => { self.note_access(st, at); return Ok(Err(ENOENT)) } }
        }
        Ok(Ok(Res { dir: at, name: vec![], ino: Some(at) }))
    }
    fn note_access(&mut self, st: &mut State, dir: u32) {
        if let Some(j) = st.sys.jail.clone() { let (_, _, top) = st.sys.walk(&j); if let Some(t) = top { if !st.sys.under(dir, t) { st.sys.escapes += 1 } } }
    }
    fn note_res(&mut self, st: &mut State, r: &Res) { let d = match r.ino { Some(i) if r.name.is_empty() || matches!(st.sys.ino(i).k, Kind::Dir { .. }) => i, _ => r.dir }; if !self.sysdir(st, d) { self.note_access(st, d) } }
    // /proc, /sys and similar are consulted by std and num_cpus; they do not exist here and are not counted
    fn sysdir(&self, _st: &State, _d: u32) -> bool { false }
    fn conc_name(&mut self, st: &mut State, n: &[SB]) -> R<Vec<u8>> { let mut v = vec![]; for b in n { v.push(if b.1 == 0 { b.0 } else { self.concretise(st, b.1)? as u8 }) } Ok(v) }
    fn fd(&self, st: &State, v: u64) -> Option<usize> { let i = (v as u32 as i32) as i64 - 3; if i >= 0 && (i as usize) < st.sys.fds.len() && st.sys.fds[i as usize].alive { Some(i as usize) } else { None } }
    fn in_root(&self, st: &State, p: &[SB]) -> bool { p.len() >= 2 && (p.len() == 2 || p[2] == (b'/', 0)) && p[0] == (b'/', 0) && p[1] == (b'r', 0) || { let _ = st; p.first().map_or(false, |b| b.1 != 0 || b.0 != b'/') } }

    /// Choices made at a system call on the scratch tree: thread switch, environment steps, crash, fault.
    /// Returns Some(fault decision) to proceed, None if control went elsewhere.
    fn syscall_point(&mut self, st: &mut State, class: u32) -> R<Option<u32>> {
        // class: 0 other, 1 read, 2 write, 3 open, 4 mutation
        let t = st.cur;
        if st.sys.point >> t & 1 == 1 { return Ok(Some(st.sys.decision[t])) }
        // gather every choice first, then apply
        let mut switch = None;
        if st.sys.preempt > 0 {
            let others: Vec<usize> = (0..st.th.len()).filter(|i| *i != t && st.th[*i].ts == TS::Run).collect();
            if !others.is_empty() { let k = self.choose(st, 1 + others.len() as u64); if k > 0 { switch = Some(others[k as usize - 1]) } }
        }
        if let Some(o) = switch {
            st.sys.preempt -= 1;
            st.scratch.clear();
            st.log.push(Ev::Fault(st.sys.sysno + 1, format!("switch {} {}", t, o)));
            st.cur = o;
            return Ok(None);
        }
        let mut envn = 0;
        if st.sys.env_on && st.sys.env_at < st.sys.env.len() { envn = self.choose(st, (st.sys.env.len() - st.sys.env_at) as u64 + 1) }
        let mut crash = false;
        if st.sys.crash_armed == Some(t) && (class == 2 || class == 4) { crash = self.choose(st, 2) == 1 }
        let mut f = 0u32;
        if st.sys.fault_budget > 0 && !crash {
            let m = st.sys.fault_mask;
            let mut opts = vec![0u32];
            match class {
                1 => { if m & M_READ != 0 { opts.extend([1, 6, 7]) } if m & M_EINTR != 0 { opts.push(2) } if m & M_EIO != 0 { opts.push(3) } }
                2 => { if m & M_WSHORT != 0 { opts.push(1) } if m & M_EINTR != 0 { opts.push(2) } if m & M_WERR != 0 { opts.push(4) } }
                3 => { if m & M_OPENERR != 0 { opts.extend([5, 8]) } if m & M_EINTR != 0 { opts.push(2) } }
                4 => { if m & M_WERR != 0 { opts.push(4) } }
                7 => { if m & M_EIO != 0 { opts.push(3) } }
                6 => { if m & M_OPENERR != 0 { opts.extend([5, 8]) } }
                5 => { if m & M_OPENERR != 0 { opts.extend([3, 8]) } }
                _ => {}
            }
            if opts.len() > 1 { f = opts[self.choose(st, opts.len() as u64) as usize] }
        }
        // apply
        st.sys.sysno += 1;
        st.sys.spins = 0;
        let no = st.sys.sysno;
        st.scratch.clear();
        st.spos = 0;
        for _ in 0..envn { let op = st.sys.env[st.sys.env_at].clone(); st.sys.apply_env(&op); st.sys.env_at += 1 }
        if envn > 0 { st.log.push(Ev::Fault(no, format!("env {}", envn))) }
        if crash {
            st.log.push(Ev::Fault(no, "crash".into()));
            st.sys.crash_armed = None;
            st.sys.fault_budget = 0;
            // every descriptor the crashed process opened is gone; memory of the caller is kept
            loop {
                let th = &mut st.th[t];
                let f = th.frames.pop().expect("crash frame");
                th.stack.truncate(f.sbase as usize);
                th.sbytes = f.sbytes;
                if f.kind == FK::Crash { let c = th.frames.last_mut().unwrap(); c.regs[f.ret as usize] = V::C(1); c.ip += 1; break }
            }
            return Ok(None);
        }
        if f != 0 { st.sys.fault_budget -= 1; st.log.push(Ev::Fault(no, format!("fault {}", f))) }
        st.sys.point |= 1 << t;
        st.sys.decision[t] = f;
        Ok(Some(f))
    }

    fn panic_location(&mut self, st: &mut State, args: &[V]) -> String {
        // some argument points at a core::panic::Location { ptr, len, line, col }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                let id = (p >> 32) as u32;
                if id == 0 || id >= self.fb { continue }
                if let Ok(b) = self.read(st, p, 24) {
                    let w = |i: usize, n: usize| b[i..i + n].iter().rev().fold(0u64, |x, y| x << 8 | y.0 as u64);
                    let (fp, fl, line) = (w(0, 8), w(8, 8), w(16, 4));
                    if fl > 0 && fl < 300 { if let Ok(n) = self.read(st, fp, fl) { return format!("{}:{}", String::from_utf8_lossy(&n.iter().map(|x| x.0).collect::<Vec<_>>()), line) } }
                }
            }
        }
        "unknown location".into()
    }

    pub fn thread_done(&mut self, st: &mut State, t: usize) -> R<()> {
        for x in st.th.iter_mut() { if x.ts == TS::Join(t as u32) { x.ts = TS::Run } }
        self.reschedule(st, true)
    }
    /// Pick another runnable thread (all choices explored)
    fn reschedule(&mut self, st: &mut State, _ended: bool) -> R<()> {
        let run: Vec<usize> = (0..st.th.len()).filter(|i| st.th[*i].ts == TS::Run).collect();
        if run.is_empty() { return viol("deadlock", "every thread is blocked") }
        // lowest-numbered runnable thread: switches beyond the preemption bound are deterministic
        st.log.push(Ev::Fault(st.sys.sysno, format!("sched {}", run[0])));
        st.cur = run[0];
        Ok(())
    }

    /// Executes an external or intrinsic function. Some(v): finished with result v. None: control moved.
    pub fn external(&mut self, st: &mut State, cur: usize, fi: u32, ext: u32, a: &[V], c: &Call) -> R<Option<V>> {
        let name = NAMES[ext as usize];
        let r = self.ext2(st, cur, fi, name, a, c)?;
        if r.is_some() { st.sys.point &= !(1 << cur); st.scratch.clear(); }
        Ok(r)
    }
    fn ext2(&mut self, st: &mut State, cur: usize, fi: u32, name: &'static str, a: &[V], c: &Call) -> R<Option<V>> {
        macro_rules! n { ($i:expr) => { self.conc(st, &a[$i])? }; }
        let unit = Ok(Some(V::C(0)));
        let w = if c.args.is_empty() { 64 } else { match &c.args[0].0 { Ty::Vec(_, t) => int_w(t), t => int_w(t) } };
        match name {
            "nop" => unit,
            "memcpy" | "memmove" => { let (d, s, l) = (n!(0), n!(1), n!(2)); self.memcpy(st, d, s, l)?; Ok(Some(V::C(d as u128))) }
            "memset" => {
                let (d, l) = (n!(0), n!(2));
                let v = match &a[1] { V::C(c) => (*c as u8, 0), V::S(e) => { let e = extract(*e, 7, 0); match is_const(e) { Some(k) => (k as u8, 0), None => (0, e) } } _ => return unsup("memset") };
                self.memset(st, d, v, l)?;
                Ok(Some(V::C(d as u128)))
            }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (n!(0), n!(1), n!(2));
                let (x, y) = (self.read(st, p, l)?, self.read(st, q, l)?);
                if x.iter().chain(y.iter()).all(|b| b.1 == 0) {
                    let o = x.iter().map(|b| b.0).cmp(y.iter().map(|b| b.0));
                    return Ok(Some(i32r(o as i32)));
                }
                let by = |b: SB| if b.1 == 0 { cst(8, b.0 as u128) } else { b.1 };
                if name == "bcmp" {
                    let mut r = tru();
                    for (p, q) in x.iter().zip(&y) { r = and(r, eq(by(*p), by(*q))) }
                    return Ok(Some(V::from(zext(not(r), 32))));
                }
                let mut r = cst(32, 0);
                for (p, q) in x.iter().zip(&y).rev() { let (p, q) = (by(*p), by(*q)); r = ite(eq(p, q), r, ite(ult(p, q), cst(32, u32::MAX as u128), cst(32, 1))) }
                Ok(Some(V::from(r)))
            }
            "strlen" => { let p = n!(0); let s = self.cstr(st, p)?; Ok(Some(V::C(s.len() as u128))) }
            "assume" => unit,
            "expect" => Ok(Some(a[0].clone())),
            "umin" | "umax" | "smin" | "smax" | "abs" | "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "fshl" | "fshr" | "ucmp" | "scmp" | "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let rw = match &c.ret { Ty::Vec(_, t) => int_w(t), t => int_w(t) };
                match &a[0] {
                    V::A(x) => {
                        let mut o = vec![];
                        for i in 0..x.len() {
                            let arg: Vec<V> = a.iter().map(|v| match v { V::A(y) => y[i].clone(), v => v.clone() }).collect();
                            o.push(V::from(intrin(name, w, rw, &arg)));
                        }
                        Ok(Some(V::A(o.into())))
                    }
                    // a position found by scanning several bytes: one path per position
                    V::S(e) if (name == "cttz" || name == "ctlz") && matches!(info(*e).vars, Vars::Many(_)) => {
                        let w = width(*e);
                        for i in 0..w {
                            let k = if name == "cttz" { i } else { w - 1 - i };
                            if self.fork(st, extract(*e, k, k))? { return Ok(Some(V::C(i as u128))) }
                        }
                        Ok(Some(V::C(w as u128)))
                    }
                    _ => Ok(Some(V::from(intrin(name, w, rw, a)))),
                }
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (x, y) = (a[0].e(w), a[1].e(w));
                let (r, o) = overflow(name, w, x, y);
                Ok(Some(V::A(vec![V::from(r), V::from(o)].into())))
            }
            "is.constant" => Ok(Some(V::C(0))),
            "threadlocal.address" => {
                let p = n!(0);
                let g = (p >> 32) as u32;
                let k = (cur as u32, g);
                let id = match st.tls.get(&k) {
                    Some(i) => *i,
                    None => { let mut o = (*self.obj(st, g)?).clone(); o.ro = false; let x = self.alloc(st, o); let i = (x >> 32) as u32; Rc::make_mut(&mut st.tls).insert(k, i); i }
                };
                Ok(Some(V::C((addr(id) | p & 0xffff_ffff) as u128)))
            }
            "trap" => viol("abort", "trap"),
            "ceil" | "floor" | "fabs" => { let x = n!(0); let f = fval(&c.ret, x); Ok(Some(V::C(fbits(&c.ret, match name { "ceil" => f.ceil(), "floor" => f.floor(), _ => f.abs() })))) }
            "fptoui.sat" => { let x = n!(0); let f = fval(&c.args[0].0, x); Ok(Some(V::C((f as u64).min(mask(int_w(&c.ret)) as u64) as u128))) }
            "fptosi.sat" => { let x = n!(0); let f = fval(&c.args[0].0, x); Ok(Some(V::C(f as i64 as u64 as u128 & mask(int_w(&c.ret))))) }
            "zero" => Ok(Some(c.ret.zero())),
            "psad" => {
                let x = bitcast(&a[0], &c.args[0].0, &Ty::Vec(16, Rc::new(Ty::Int(8))));
                let y = bitcast(&a[1], &c.args[1].0, &Ty::Vec(16, Rc::new(Ty::Int(8))));
                let (V::A(x), V::A(y)) = (x, y) else { return unsup("psad") };
                let mut o = vec![];
                for h in 0..2 { let mut s = cst(64, 0); for i in 0..8 { let (p, q) = (x[h * 8 + i].e(8), y[h * 8 + i].e(8)); let d = ite(ult(p, q), bin(Op::Sub, q, p), bin(Op::Sub, p, q)); s = bin(Op::Add, s, zext(d, 64)) } o.push(V::from(s)) }
                Ok(Some(V::A(o.into())))
            }
            "pmadd" => {
                let (V::A(x), V::A(y)) = (&a[0], &a[1]) else { return unsup("pmadd") };
                let mut o = vec![];
                for i in 0..x.len() / 2 { let m = |k: usize| bin(Op::Mul, sext(x[k].e(16), 32), sext(y[k].e(16), 32)); o.push(V::from(bin(Op::Add, m(2 * i), m(2 * i + 1)))) }
                Ok(Some(V::A(o.into())))
            }
            "vreduce" => {
                let nm = self.m.fns[fi as usize].name.clone();
                let V::A(x) = &a[a.len() - 1] else { return unsup("vreduce") };
                let w = match &c.args[c.args.len() - 1].0 { Ty::Vec(_, t) => t.bits(), _ => 64 };
                let op = nm.trim_start_matches("llvm.vector.reduce.").split('.').next().unwrap().to_string();
                let mut r = x[0].e(w);
                for v in &x[1..] { let v = v.e(w); r = match op.as_str() { "add" => bin(Op::Add, r, v), "or" => bin(Op::Or, r, v), "and" => bin(Op::And, r, v), "xor" => bin(Op::Xor, r, v), "umax" => ite(ult(r, v), v, r), "umin" => ite(ult(r, v), r, v), _ => return unsup(format!("vreduce {}", op)) } }
                Ok(Some(V::from(r)))
            }
            "ptrmask" => { let (x, y) = (n!(0), n!(1)); Ok(Some(V::C((x & y) as u128))) }
            "@panic" => { let l = self.panic_location(st, a); viol("panic", l) }
            "@alloc_error" => viol("alloc", "allocation failure"),
            "abort" | "_exit" => viol("abort", "process aborted"),
            "malloc" => { let s = self.alloc_size(st, &a[0])?; Ok(Some(V::C(self.malloc(st, s)? as u128))) }
            "calloc" => { let x = n!(0); let y = n!(1); let s = x.saturating_mul(y); Ok(Some(V::C(self.malloc(st, s)? as u128))) }
            "posix_memalign" => { let p = n!(0); let s = self.alloc_size(st, &a[2])?; let x = self.malloc(st, s)?; self.write_conc(st, p, &x.to_le_bytes())?; Ok(Some(V::C(0))) }
            "realloc" => {
                let p = n!(0);
                let s = self.alloc_size(st, &a[1])?;
                if p == 0 { return Ok(Some(V::C(self.malloc(st, s)? as u128))) }
                let old = self.obj(st, (p >> 32) as u32)?;
                let q = self.malloc(st, s)?;
                let l = old.size.min(s);
                drop(old);
                self.memcpy(st, q, p, l)?;
                self.free(st, p)?;
                Ok(Some(V::C(q as u128)))
            }
            "free" => { let p = n!(0); self.free(st, p)?; unit }
            "__errno_location" => Ok(Some(V::C(self.errno(st)? as u128))),
            "getenv" => Ok(Some(V::C(0))),
            "sched_getaffinity" => { self.set_errno(st, EINVAL)?; Ok(Some(i32r(-1))) }
            "sysconf" => { let k = n!(0); Ok(Some(i64r(match k { 30 => 4096, 84 | 83 => 1, _ => -1 }))) }
            "clock_gettime" | "gettimeofday" => {
                let p = if name == "clock_gettime" { n!(1) } else { n!(0) };
                st.sys.clock += 1000;
                let t = st.sys.clock;
                let mut b = vec![];
                b.extend_from_slice(&(t / 1_000_000_000).to_le_bytes());
                b.extend_from_slice(&(if name == "clock_gettime" { t % 1_000_000_000 } else { t % 1_000_000_000 / 1000 }).to_le_bytes());
                self.write_conc(st, p, &b)?;
                Ok(Some(V::C(0)))
            }
            "getcwd" => { let p = n!(0); self.write_conc(st, p, b"/r\0")?; Ok(Some(V::C(p as u128))) }
            "getpid" => Ok(Some(V::C(4242))),
            "geteuid" | "umask" | "madvise" | "flock" | "posix_fadvise64" | "isatty" => Ok(Some(V::C(0))),
            "gethostname" => { self.set_errno(st, EINVAL)?; Ok(Some(i32r(-1))) }
            "pthread_self" => Ok(Some(V::C(cur as u128 + 1))),
            "pthread_key_create" => { let p = n!(0); let k = st.sys.keys; st.sys.keys += 1; self.write_conc(st, p, &k.to_le_bytes())?; Ok(Some(V::C(0))) }
            "pthread_key_delete" => Ok(Some(V::C(0))),
            "pthread_setspecific" => { let (k, v) = (n!(0), n!(1)); Rc::make_mut(&mut st.sys.keyv).insert((cur, k as u32), v); Ok(Some(V::C(0))) }
            "pthread_getspecific" => { let k = n!(0); Ok(Some(V::C(st.sys.keyv.get(&(cur, k as u32)).copied().unwrap_or(0) as u128))) }
            "sched_yield" => {
                // another runnable thread runs next (round robin); back here, the call returns
                if st.sys.yielded >> cur & 1 == 1 { st.sys.yielded &= !(1 << cur); return Ok(Some(V::C(0))) }
                st.sys.spins += 1;
                if st.sys.spins > 10000 { return viol("deadlock", "a lock is spun on that nobody will release") }
                let n = st.th.len();
                match (1..n).map(|k| (cur + k) % n).find(|i| st.th[*i].ts == TS::Run) {
                    Some(o) => { st.sys.yielded |= 1 << cur; st.cur = o; Ok(None) }
                    None => Ok(Some(V::C(0))),
                }
            }
            "poll" => Ok(Some(V::C(0))),
            "__xpg_strerror_r" => { let (p, l) = (n!(1), n!(2)); if l > 6 { self.write_conc(st, p, b"error\0")? } Ok(Some(V::C(0))) }
            "getrandom" => { let (p, l) = (n!(0), n!(1)); self.memset(st, p, (0x5a, 0), l)?; Ok(Some(i64r(l as i64))) }
            "syscall" => {
                let k = n!(0);
                match k {
                    318 => { let (p, l) = (n!(1), n!(2)); self.memset(st, p, (0x5a, 0), l)?; Ok(Some(i64r(l as i64))) }
                    202 => {
                        let (p, op) = (n!(1), n!(2));
                        let val = n!(3) as u32;
                        match op & 0x7f {
                            0 | 9 => {
                                let v = self.read_int(st, p, 4)? as u32;
                                if v != val { self.set_errno(st, EAGAIN)?; return Ok(Some(i64r(-1))) }
                                st.th[cur].ts = TS::Futex(p);
                                if st.th.iter().any(|t| t.ts == TS::Run) { self.reschedule(st, false)?; return Ok(None) }
                                viol("deadlock", "a lock is waited for that nobody will release")
                            }
                            1 | 10 => {
                                // a thread that was waiting for this lock may run at once
                                if let Some(v) = st.sys.woke[cur].take() { return Ok(Some(i64r(v))) }
                                let mut hit: Vec<usize> = (0..st.th.len()).filter(|i| st.th[*i].ts == TS::Futex(p)).collect();
                                hit.truncate(val as usize);
                                let mut switch = None;
                                if !hit.is_empty() {
                                    if st.sys.preempt > 0 {
                                        let others: Vec<usize> = (0..st.th.len()).filter(|i| *i != cur && (st.th[*i].ts == TS::Run || hit.contains(i))).collect();
                                        let k = self.choose(st, 1 + others.len() as u64);
                                        if k > 0 { switch = Some(others[k as usize - 1]) }
                                    }
                                    st.sys.wakes += 1;
                                }
                                for i in &hit { st.th[*i].ts = TS::Run }
                                let woken = hit.len() as i64;
                                if let Some(o) = switch {
                                    st.sys.preempt -= 1;
                                    st.sys.woke[cur] = Some(woken);
                                    st.scratch.clear();
                                    st.spos = 0;
                                    st.log.push(Ev::Fault(st.sys.sysno + 1, format!("wake {} {} {}", st.sys.wakes, cur, o)));
                                    st.cur = o;
                                    return Ok(None);
                                }
                                Ok(Some(i64r(woken)))
                            }
                            o => unsup(format!("futex op {}", o)),
                        }
                    }
                    186 => Ok(Some(V::C(4242 + cur as u128))),
                    _ => { self.set_errno(st, 38)?; Ok(Some(i64r(-1))) }
                }
            }
            _ if name.starts_with("sx_") => self.sx(st, cur, name, a, c),
            _ => self.posix(st, cur, fi, name, a, c),
        }
    }
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c as u64),
            V::S(e) => {
                let lim = cst(64, self.limits.alloc as u128);
                if !self.fork(st, ule(*e, lim))? { let v = eval(*e, &st.model); return viol("alloc", format!("allocation of {} bytes", v)) }
                Ok(self.concretise(st, *e)? as u64)
            }
            _ => unsup("alloc size"),
        }
    }

    fn sx(&mut self, st: &mut State, cur: usize, name: &'static str, a: &[V], c: &Call) -> R<Option<V>> {
        macro_rules! n { ($i:expr) => { self.conc(st, &a[$i])? }; }
        macro_rules! bytes { ($i:expr) => {{ let (p, l) = (n!($i), n!($i + 1)); self.read(st, p, l)? }}; }
        macro_rules! cbytes { ($i:expr) => {{ let (p, l) = (n!($i), n!($i + 1)); self.read_conc(st, p, l)? }}; }
        let unit = Ok(Some(V::C(0)));
        match name {
            "sx_any" => {
                let (p, l) = (n!(0), n!(1));
                let first = st.nvars;
                let v: Vec<SB> = (0..l).map(|_| (0, self.fresh(st))).collect();
                st.log.push(Ev::Any(first, l as u32));
                self.write(st, p, &v)?;
                unit
            }
            "sx_assume" => { let e = a[0].e(int_w(&c.args[0].0)); let e = extract(e, 0, 0); self.assume(st, e)?; unit }
            "sx_assert" => {
                let e = extract(a[0].e(int_w(&c.args[0].0)), 0, 0);
                let msg = String::from_utf8_lossy(&cbytes!(1)).into_owned();
                self.stats.asserts += 1;
                if is_const(e) == Some(1) { return unit }
                if is_const(e) == Some(0) { return viol("assert", msg) }
                // the verdict is the solver's: can the negation hold on this path?
                let s = self.slice_pub(st, not(e));
                match self.sol.check(s) {
                    Err(x) => unsup(format!("solver: {}", x)),
                    Ok(Some(m)) => { for (v, b) in m { st.model[v as usize] = b } viol("assert", msg) }
                    Ok(None) => unit,
                }
            }
            "sx_choice" => { let k = n!(0); if k == 0 { return Err(Stop::Infeasible) } let v = self.choose(st, k); st.log.push(Ev::Choice(v)); Ok(Some(V::C(v as u128))) }
            "sx_concrete" => { let v = n!(0); Ok(Some(V::C(v as u128))) }
            "sx_concrete_bytes" => { let (p, l) = (n!(0), n!(1)); let b = self.read_conc(st, p, l)?; self.write_conc(st, p, &b)?; unit }
            "sx_eq" => {
                let (p, q, l) = (n!(0), n!(1), n!(2));
                let (x, y) = (self.read(st, p, l)?, self.read(st, q, l)?);
                let by = |b: SB| if b.1 == 0 { cst(8, b.0 as u128) } else { b.1 };
                let mut r = tru();
                for (p, q) in x.iter().zip(&y) { r = and(r, eq(by(*p), by(*q))) }
                Ok(Some(V::from(zext(r, int_w(&c.ret)))))
            }
            "sx_cover" => { let m = String::from_utf8_lossy(&cbytes!(0)).into_owned(); *self.stats.covers.entry(m).or_insert(0) += 1; unit }
            "sx_note" => { let m = String::from_utf8_lossy(&cbytes!(0)).into_owned(); st.log.push(Ev::Note(m)); unit }
            "sx_observe" => { let b = bytes!(0); st.obs.push(b); unit }
            "sx_digest" => {
                let b = bytes!(0);
                let out = n!(2);
                let conc = b.iter().all(|x| x.1 == 0);
                let by = |b: SB| if b.1 == 0 { cst(8, b.0 as u128) } else { b.1 };
                let mut found = None;
                for k in 0..st.hashes.len() {
                    let (m, d) = st.hashes[k].clone();
                    if m.len() != b.len() { continue }
                    let mut r = tru();
                    for (p, q) in m.iter().zip(&b) { r = and(r, eq(by(*p), by(*q))) }
                    if self.fork(st, r)? { found = Some(d); break }
                }
                let d = match found { Some(d) => d, None => {
                    let d = if conc { sha1(&b.iter().map(|x| x.0).collect::<Vec<_>>()) } else { sha1(format!("symbolic message {}", st.hashes.len()).as_bytes()) };
                    st.hashes.push((b, d));
                    d
                } };
                self.write_conc(st, out, &d)?;
                unit
            }
            "sx_root" => { let p = n!(0); self.write_conc(st, p, ROOT)?; Ok(Some(V::C(ROOT.len() as u128))) }
            "sx_fs_op" => {
                // kind, a, alen, b, blen : 0 mkdir, 1 put (b = data), 2 remove, 3 rename, 4 symlink (b = target)
                let k = n!(0) as u32;
                let p = cbytes!(1);
                let d = bytes!(3);
                let b: Vec<u8> = if k == 3 || k == 4 || k == 7 { self.conc_name(st, &d)? } else { vec![] };
                let op = EnvOp { kind: k, a: p, b, data: Rc::new(d) };
                st.sys.apply_env(&op);
                unit
            }
            "sx_fs_put_at" => { let p = cbytes!(0); let off = n!(2); let d = bytes!(3); st.sys.put(&p, off, &d, false); unit }
            "sx_fs_get" => {
                // path, plen, buf, cap -> length or -1
                let p = cbytes!(0);
                let (buf, cap) = (n!(2), n!(3));
                let (_, _, i) = st.sys.walk(&p);
                match i {
                    Some(i) if matches!(st.sys.ino(i).k, Kind::File { .. }) => { let d = st.sys.file_read(i, 0, cap); self.write(st, buf, &d)?; Ok(Some(i64r(st.sys.size(i) as i64))) }
                    _ => Ok(Some(i64r(-1))),
                }
            }
            "sx_exists" => {
                let p = cbytes!(0);
                let mut cur = 0u32;
                let mut ok = true;
                for c in p.split(|c| *c == b'/').filter(|c| !c.is_empty()) { match &st.sys.ino(cur).k { Kind::Dir { ents, .. } => match ents.get(c) { Some(n) => cur = *n, None => { ok = false; break } }, _ => { ok = false; break } } }
                Ok(Some(V::C(ok as u128)))
            }
            "sx_list" => {
                // names in a directory, NUL-terminated, sorted -> total length
                let p = cbytes!(0);
                let (buf, cap) = (n!(2), n!(3));
                let (_, _, i) = st.sys.walk(&p);
                let mut out = vec![];
                if let Some(i) = i { if let Kind::Dir { ents, .. } = &st.sys.ino(i).k { for k in ents.keys() { out.extend_from_slice(k); out.push(0) } } }
                if out.len() as u64 > cap { return unsup("sx_list buffer") }
                self.write_conc(st, buf, &out)?;
                Ok(Some(V::C(out.len() as u128)))
            }
            "sx_env_add" => { let k = n!(0) as u32; let p = cbytes!(1); let d = bytes!(3); let b: Vec<u8> = if k == 3 || k == 4 || k == 7 { self.conc_name(st, &d)? } else { vec![] }; Rc::make_mut(&mut st.sys.env).push(EnvOp { kind: k, a: p, b, data: Rc::new(d) }); unit }
            "sx_env_on" => { let k = n!(0); st.sys.env_on = k == 1; while k == 2 && st.sys.env_at < st.sys.env.len() { let op = st.sys.env[st.sys.env_at].clone(); st.sys.apply_env(&op); st.sys.env_at += 1 } unit }
            "sx_fault" => { st.sys.fault_mask = n!(0) as u32; st.sys.fault_budget = n!(1) as u32; unit }
            "sx_preempt" => { st.sys.preempt = n!(0) as u32; st.sys.threaded = st.sys.preempt > 0; unit }
            "sx_crash" => {
                let (f, arg) = (n!(0), a[1].clone());
                let func = self.m.func((f >> 32) as u32 - self.fb);
                st.sys.crash_armed = Some(cur);
                st.scratch.clear();
                self.push_frame(st, func, vec![arg], c.d, u32::MAX, FK::Crash);
                Ok(None)
            }
            "sx_writes" => Ok(Some(V::C(st.sys.writes as u128))),
            "sx_jail" => { let p = cbytes!(0); st.sys.jail = if p.is_empty() { None } else { Some(p) }; st.sys.escapes = 0; unit }
            "sx_escapes" => Ok(Some(V::C(st.sys.escapes as u128))),
            "sx_time_advance" => { let ms = n!(0); st.sys.clock += ms * 1_000_000; st.sys.epoch += ms * 1_000_000; unit }
            "sx_param" => Ok(Some(V::C(self.param as u128))),
            "sx_heap_reset" => { st.peak = st.live; Ok(Some(V::C(st.live as u128))) }
            "sx_heap_peak" => Ok(Some(V::C(st.peak as u128))),
            "sx_heap_live" => Ok(Some(V::C(st.live as u128))),
            "sx_open_files" => Ok(Some(V::C(st.sys.fds.iter().filter(|f| f.alive).count() as u128))),
            "sx_readdir_rev" => { let k = n!(0); st.sys.rev_dir = k != 0; unit }
            "sx_is_symbolic" | "sx_adler" => Ok(Some(V::C(1))),
            "sx_limits" => { let (s, al) = (n!(0), n!(1)); if s > 0 { self.limits.steps = s } if al > 0 { self.limits.alloc = al } unit }
            "sx_spawn" => {
                let (f, arg) = (n!(0), a[1].clone());
                let func = self.m.func((f >> 32) as u32 - self.fb);
                st.th.push(Thread { frames: vec![], stack: vec![], sbytes: 0, ts: TS::Run });
                let t = st.th.len() - 1;
                st.cur = t;
                self.push_frame(st, func, vec![arg], u32::MAX, u32::MAX, FK::Thread);
                st.cur = cur;
                Ok(Some(V::C(t as u128)))
            }
            "sx_join" => {
                let t = n!(0) as usize;
                if st.th[t].ts == TS::Done { return unit }
                st.th[cur].ts = TS::Join(t as u32);
                self.reschedule(st, false)?;
                Ok(None)
            }
            _ => unsup(format!("intrinsic {}", name)),
        }
    }
    pub fn slice_pub(&self, st: &State, c: E) -> Vec<E> {
        let mut set = vec![];
        info(c).vars.or_into(&mut set);
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() { if !used[i] && info(p).vars.intersects(&set) { used[i] = true; out.push(p); ch = true; info(p).vars.or_into(&mut set) } }
            if !ch { break }
        }
        out
    }

    fn posix(&mut self, st: &mut State, cur: usize, fi: u32, name: &'static str, a: &[V], c: &Call) -> R<Option<V>> {
        let _ = cur;
        macro_rules! n { ($i:expr) => { self.conc(st, &a[$i])? }; }
        macro_rules! fail { ($e:expr) => {{ let e = $e; self.set_errno(st, e)?; return Ok(Some(if c.ret == Ty::Int(32) { i32r(-1) } else if c.ret == Ty::Ptr { V::C(0) } else { i64r(-1) })); }}; }
        macro_rules! point { ($cl:expr) => { match self.syscall_point(st, $cl)? { Some(f) => f, None => return Ok(None) } }; }
        macro_rules! fault { ($f:expr) => { match $f { 2 => fail!(EINTR), 3 => fail!(EIO), 4 => fail!(ENOSPC), 5 => fail!(EMFILE), 8 => fail!(EACCES), _ => {} } }; }
        macro_rules! path { ($i:expr) => {{ let p = n!($i); self.cstr(st, p)? }}; }
        macro_rules! res { ($p:expr, $f:expr) => { match self.resolve(st, $p, $f)? { Ok(r) => r, Err(e) => fail!(e) } }; }
        match name {
            "open64" => {
                let p = path!(0);
                let fl = n!(1) as u32;
                let creat = fl & 0o100 != 0;
                let f = if self.in_root(st, &p) { point!(if creat { 4 } else { 3 }) } else { 0 };
                fault!(f);
                let r = res!(&p, fl & 0o400000 == 0);
                self.note_res(st, &r);
                let ino = match r.ino {
                    Some(i) => {
                        if creat && fl & 0o200 != 0 { fail!(EEXIST) }
                        let isdir = matches!(st.sys.ino(i).k, Kind::Dir { .. });
                        if isdir && fl & 3 != 0 { fail!(EISDIR) }
                        if !isdir && fl & 0o200000 != 0 { fail!(ENOTDIR) }
                        if fl & 0o1000 != 0 { if let Kind::File { size, pages } = &mut st.sys.ino_mut(i).k { *size = 0; pages.clear() } st.sys.writes += 1 }
                        i
                    }
                    None => {
                        if !creat { fail!(ENOENT) }
                        let nm = self.conc_name(st, &r.name)?;
                        let i = st.sys.new_ino(Kind::File { size: 0, pages: BTreeMap::new() }, 0o100644);
                        st.sys.link_into(r.dir, nm, i);
                        st.sys.writes += 1;
                        i
                    }
                };
                let v = Rc::make_mut(&mut st.sys.fds);
                let own = v.len();
                v.push(Fd { ino, pos: 0, own, flags: fl, alive: true, dir_pos: 0, dirent: 0, snap: Rc::new(vec![]) });
                let fd = v.len() as i32 + 2;
                st.sys.nopens += 1;
                Ok(Some(i32r(fd)))
            }
            "close" => { let f = n!(0); match self.fd(st, f) { Some(i) => { st.sys.fd_mut(i).alive = false; Ok(Some(V::C(0))) } None => fail!(EBADF) } }
            "fcntl" => {
                let (f, cmd) = (n!(0), n!(1) as u32);
                let i = match self.fd(st, f) { Some(i) => i, None if f <= 2 => return Ok(Some(V::C(0))), None => fail!(EBADF) };
                match cmd { 0 | 1030 => { let d = st.sys.fds[i].clone(); let v = Rc::make_mut(&mut st.sys.fds); v.push(d); Ok(Some(i32r(v.len() as i32 + 2))) } _ => Ok(Some(V::C(0))) }
            }
            "read" | "pread64" => {
                let (f, p, l) = (n!(0), n!(1), n!(2));
                let i = match self.fd(st, f) { Some(i) => i, None => fail!(EBADF) };
                let ino = st.sys.fds[i].ino;
                if matches!(st.sys.ino(ino).k, Kind::Dir { .. }) { fail!(EISDIR) }
                let d = point!(1);
                fault!(d);
                let off = if name == "read" { st.sys.pos(i) } else { n!(3) };
                let mut l = l;
                let many = if st.sys.fault_mask & M_EVERY_EINTR != 0 { 2 } else if st.sys.fault_mask & M_MANY_EINTR != 0 { 21 } else { 0 };
                if many > 0 { st.sys.eintr = (st.sys.eintr + 1) % many; if st.sys.eintr != 0 { fail!(EINTR) } }
                let avail = st.sys.size(ino).saturating_sub(off).min(l);
                if avail > 1 { l = match d { 1 => 1, 6 => avail / 2, 7 => avail - 1, _ => l } }
                if st.sys.fault_mask & M_STUTTER != 0 { l = l.min(1) }
                if st.sys.fault_mask & M_STUTTER7 != 0 { l = l.min(7) }
                let b = st.sys.file_read(ino, off, l);
                self.write(st, p, &b)?;
                if name == "read" { let o = st.sys.fds[i].own; st.sys.fd_mut(o).pos += b.len() as u64 }
                Ok(Some(i64r(b.len() as i64)))
            }
            "write" | "writev" => {
                let f = n!(0);
                let mut data = vec![];
                if name == "write" { let (p, l) = (n!(1), n!(2)); data = self.read(st, p, l)? }
                else { let (v, k) = (n!(1), n!(2)); for j in 0..k { let p = self.read_int(st, v + 16 * j, 8)?; let l = self.read_int(st, v + 16 * j + 8, 8)?; data.extend(self.read(st, p, l)?) } }
                if f <= 2 { return Ok(Some(i64r(data.len() as i64))) }
                let i = match self.fd(st, f) { Some(i) => i, None => fail!(EBADF) };
                if st.sys.fds[i].flags & 3 == 0 { fail!(EBADF) }
                let d = point!(2);
                fault!(d);
                if d == 1 && data.len() > 1 { let k = (data.len() / 2).max(1); data.truncate(k) }
                let ino = st.sys.fds[i].ino;
                let off = if st.sys.fds[i].flags & 0o2000 != 0 { st.sys.size(ino) } else { st.sys.pos(i) };
                st.sys.file_write(ino, off, &data);
                *st.sys.pos_mut(i) = off + data.len() as u64;
                st.sys.writes += 1;
                Ok(Some(i64r(data.len() as i64)))
            }
            "lseek64" => {
                let (f, wh) = (n!(0), n!(2) as u32);
                let i = match self.fd(st, f) { Some(i) => i, None => fail!(EBADF) };
                if wh == 0 && st.sys.threaded { point!(9); }
                let size = st.sys.size(st.sys.fds[i].ino) as i128;
                let o = match &a[1] {
                    V::S(e) if wh == 0 => {
                        let e = *e;
                        if self.fork(st, bin(Op::Slt, e, cst(64, 0)))? { fail!(EINVAL) }
                        // past the end every position reads the same (nothing)
                        if self.fork(st, ult(cst(64, size as u128), e))? { *st.sys.pos_mut(i) = size as u64 + 1; return Ok(Some(V::S(e))) }
                        n!(1) as i64 as i128
                    }
                    _ => n!(1) as i64 as i128,
                };
                let base = match wh { 0 => 0, 1 => st.sys.pos(i) as i128, _ => size };
                let p = base + o;
                if p < 0 || p > i64::MAX as i128 { fail!(EINVAL) }
                *st.sys.pos_mut(i) = p as u64;
                Ok(Some(i64r(p as i64)))
            }
            "stat64" | "lstat64" | "fstat64" | "access" => {
                let ino = if name == "fstat64" { let f = n!(0); match self.fd(st, f) { Some(i) => st.sys.fds[i].ino, None => fail!(EBADF) } }
                else {
                    let p = path!(0);
                    let f = if self.in_root(st, &p) { point!(5) } else { 0 };
                    fault!(f);
                    let r = res!(&p, name != "lstat64");
                    self.note_res(st, &r);
                    match r.ino { Some(i) => i, None => fail!(ENOENT) }
                };
                if name == "access" { return Ok(Some(V::C(0))) }
                let p = n!(1);
                let nd = st.sys.ino(ino).clone();
                let mut b = vec![0u8; 144];
                b[0..8].copy_from_slice(&1u64.to_le_bytes());
                b[8..16].copy_from_slice(&(ino as u64 + 1).to_le_bytes());
                b[16..24].copy_from_slice(&(nd.nlink as u64).to_le_bytes());
                b[24..28].copy_from_slice(&nd.mode.to_le_bytes());
                b[48..56].copy_from_slice(&st.sys.size(ino).to_le_bytes());
                b[56..64].copy_from_slice(&4096u64.to_le_bytes());
                for k in 0..3 { b[72 + 16 * k..80 + 16 * k].copy_from_slice(&(nd.mtime / 1_000_000_000).to_le_bytes()); b[80 + 16 * k..88 + 16 * k].copy_from_slice(&(nd.mtime % 1_000_000_000).to_le_bytes()) }
                self.write_conc(st, p, &b)?;
                Ok(Some(V::C(0)))
            }
            "mmap64" => {
                let (len, fl, f, off) = (n!(1), n!(3), n!(4), n!(5));
                if len == 0 { self.set_errno(st, EINVAL)?; return Ok(Some(i64r(-1))) }
                let mut o = Obj::new((len + 4095) / 4096 * 4096);
                if fl & 0x20 == 0 {
                    let i = match self.fd(st, f) { Some(i) => i, None => { self.set_errno(st, EBADF)?; return Ok(Some(i64r(-1))) } };
                    let b = st.sys.file_read(st.sys.fds[i].ino, off, len);
                    for (k, (x, e)) in b.iter().enumerate() { o.set(k as u64, *x, *e) }
                    o.ro = true;
                }
                if o.size > self.limits.alloc { return viol("alloc", "huge mapping") }
                Ok(Some(V::C(self.alloc(st, o) as u128)))
            }
            "munmap" => { let p = n!(0); self.free(st, p)?; Ok(Some(V::C(0))) }
            "readlink" => { let p = path!(0); let r = res!(&p, false); self.note_res(st, &r); match r.ino { None => fail!(ENOENT), Some(i) => match st.sys.ino(i).k.clone() { Kind::Link(t) => { let (b, l) = (n!(1), n!(2)); let k = t.len().min(l as usize); self.write_conc(st, b, &t[..k])?; Ok(Some(i64r(k as i64))) } _ => fail!(EINVAL) } } }
            "realpath" => {
                let p = path!(0);
                if n!(1) != 0 { return unsup("realpath with a buffer") }
                let r = res!(&p, true);
                self.note_res(st, &r);
                let mut i = match r.ino { Some(i) => i, None => fail!(ENOENT) };
                let mut parts: Vec<Vec<u8>> = vec![];
                if !matches!(st.sys.ino(i).k, Kind::Dir { .. }) { let nm = self.conc_name(st, &r.name)?; parts.push(nm); i = r.dir }
                while i != 0 { let par = match &st.sys.ino(i).k { Kind::Dir { parent, .. } => *parent, _ => 0 }; if let Kind::Dir { ents, .. } = &st.sys.ino(par).k { if let Some((k, _)) = ents.iter().find(|(_, v)| **v == i) { parts.push(k.clone()) } } i = par }
                let mut s = vec![];
                for x in parts.iter().rev() { s.push(b'/'); s.extend_from_slice(x) }
                if s.is_empty() { s.push(b'/') }
                s.push(0);
                let q = self.malloc(st, s.len() as u64)?;
                self.write_conc(st, q, &s)?;
                Ok(Some(V::C(q as u128)))
            }
            "mkdir" => {
                let p = path!(0);
                let f = point!(4);
                fault!(f);
                let r = res!(&p, true);
                self.note_res(st, &r);
                if r.ino.is_some() { fail!(EEXIST) }
                let nm = self.conc_name(st, &r.name)?;
                let i = st.sys.new_ino(Kind::Dir { ents: BTreeMap::new(), parent: r.dir }, 0o40755);
                st.sys.link_into(r.dir, nm, i);
                st.sys.writes += 1;
                Ok(Some(V::C(0)))
            }
            "unlink" | "rmdir" => {
                let p = path!(0);
                let f = point!(4);
                fault!(f);
                let r = res!(&p, false);
                self.note_res(st, &r);
                match r.ino {
                    None => fail!(ENOENT),
                    Some(i) => match &st.sys.ino(i).k { Kind::Dir { ents, .. } => { if name == "unlink" { fail!(EISDIR) } if !ents.is_empty() { fail!(ENOTEMPTY) } } _ => if name == "rmdir" { fail!(ENOTDIR) } },
                }
                let nm = self.conc_name(st, &r.name)?;
                st.sys.unlink_from(r.dir, &nm);
                st.sys.writes += 1;
                Ok(Some(V::C(0)))
            }
            "rename" | "link" | "linkat" | "renameat2" => {
                let at = name == "linkat" || name == "renameat2";
                let (p, q) = if at { (path!(1), path!(3)) } else { (path!(0), path!(1)) };
                let f = point!(4);
                fault!(f);
                let (r, s) = (res!(&p, false), res!(&q, false));
                self.note_res(st, &r);
                self.note_res(st, &s);
                let i = match r.ino { Some(i) => i, None => fail!(ENOENT) };
                let islink = name == "link" || name == "linkat";
                if let Some(j) = s.ino { if islink { fail!(EEXIST) } if name == "renameat2" && n!(4) & 1 != 0 { fail!(EEXIST) } if matches!(st.sys.ino(j).k, Kind::Dir { .. }) { fail!(EISDIR) } }
                let (nr, ns) = (self.conc_name(st, &r.name)?, self.conc_name(st, &s.name)?);
                if !islink { st.sys.unlink_from(r.dir, &nr) }
                st.sys.link_into(s.dir, ns, i);
                st.sys.writes += 1;
                Ok(Some(V::C(0)))
            }
            "opendir" => {
                let p = path!(0);
                let f = if self.in_root(st, &p) { point!(6) } else { 0 };
                fault!(f);
                let r = res!(&p, true);
                self.note_res(st, &r);
                let i = match r.ino { Some(i) => i, None => fail!(ENOENT) };
                let mut snap: Vec<(Vec<u8>, u32)> = match &st.sys.ino(i).k { Kind::Dir { ents, .. } => ents.iter().map(|(k, v)| (k.clone(), *v)).collect(), _ => fail!(ENOTDIR) };
                if st.sys.rev_dir { snap.reverse() }
                snap.insert(0, (b".".to_vec(), i));
                snap.insert(1, (b"..".to_vec(), i));
                let de = self.alloc(st, Obj::new(280));
                let v = Rc::make_mut(&mut st.sys.fds);
                let own = v.len();
                v.push(Fd { ino: i, pos: 0, own, flags: 0, alive: true, dir_pos: 0, dirent: de, snap: Rc::new(snap) });
                let k = v.len() as u64 + 2;
                let mut o = Obj::new(8);
                for (j, b) in k.to_le_bytes().iter().enumerate() { o.set(j as u64, *b, 0) }
                Ok(Some(V::C(self.alloc(st, o) as u128)))
            }
            "readdir64" => {
                let d = n!(0);
                let f = self.read_int(st, d, 8)?;
                let i = match self.fd(st, f) { Some(i) => i, None => fail!(EBADF) };
                let k = st.sys.fds[i].dir_pos;
                let snap = st.sys.fds[i].snap.clone();
                if k >= snap.len() { return Ok(Some(V::C(0))) }
                let dp = point!(7);
                if dp == 3 { fail!(EIO) }
                st.sys.fd_mut(i).dir_pos += 1;
                let (nm, ino) = &snap[k];
                let de = st.sys.fds[i].dirent;
                let mut b = vec![0u8; 19];
                b[0..8].copy_from_slice(&(*ino as u64 + 1).to_le_bytes());
                b[8..16].copy_from_slice(&(k as u64 + 1).to_le_bytes());
                b[16..18].copy_from_slice(&280u16.to_le_bytes());
                b[18] = match st.sys.ino(*ino).k { Kind::Dir { .. } => 4, Kind::File { .. } => 8, Kind::Link(_) => 10 };
                b.extend_from_slice(nm);
                b.push(0);
                self.write_conc(st, de, &b)?;
                Ok(Some(V::C(de as u128)))
            }
            "closedir" => { let d = n!(0); let f = self.read_int(st, d, 8)?; if let Some(i) = self.fd(st, f) { st.sys.fd_mut(i).alive = false } Ok(Some(V::C(0))) }
            "dirfd" => { let d = n!(0); let f = self.read_int(st, d, 8)?; Ok(Some(V::C(f as u128))) }
            "chmod" => { let p = path!(0); let f = point!(4); fault!(f); let r = res!(&p, true); self.note_res(st, &r); if r.ino.is_none() { fail!(ENOENT) } st.sys.writes += 1; Ok(Some(V::C(0))) }
            "fchmod" => { let f = n!(0); match self.fd(st, f) { Some(_) => { let d = point!(4); fault!(d); st.sys.writes += 1; Ok(Some(V::C(0))) } None => fail!(EBADF) } }
            "utimensat" | "futimens" => {
                let ts = if name == "futimens" { 1 } else { 2 };
                let ino = if name == "futimens" { let f = n!(0); match self.fd(st, f) { Some(i) => st.sys.fds[i].ino, None => fail!(EBADF) } } else { let p = path!(1); let f = point!(4); fault!(f); let r = res!(&p, true); self.note_res(st, &r); match r.ino { Some(i) => i, None => fail!(ENOENT) } };
                let p = n!(ts);
                st.sys.clock += 1000;
                let mut t = st.sys.epoch;
                if p != 0 { let s = self.read_int(st, p + 16, 8)?; let ns = self.read_int(st, p + 24, 8)?; if ns < 1_000_000_000 { t = t.min(s.wrapping_mul(1_000_000_000).wrapping_add(ns)) } }
                st.sys.ino_mut(ino).mtime = t;
                st.sys.writes += 1;
                Ok(Some(V::C(0)))
            }
            "fsync" => { let f = n!(0); match self.fd(st, f) { Some(_) => { let d = point!(4); fault!(d); Ok(Some(V::C(0))) } None => fail!(EBADF) } }
            "ftruncate64" => { let (f, l) = (n!(0), n!(1)); match self.fd(st, f) { Some(i) => { let d = point!(4); fault!(d); let ino = st.sys.fds[i].ino; let now = st.sys.epoch; st.sys.ino_mut(ino).mtime = now; if let Kind::File { size, pages } = &mut st.sys.ino_mut(ino).k { *size = l; if l == 0 { pages.clear() } } st.sys.writes += 1; Ok(Some(V::C(0))) } None => fail!(EBADF) } }
            _ => unsup(format!("external function {}", self.m.fns[fi as usize].name)),
        }
    }
}

fn overflow(name: &str, w: u32, x: E, y: E) -> (E, E) {
    match name {
        "uadd.with.overflow" => { let r = bin(Op::Add, x, y); let o = if info(x).hi.checked_add(info(y).hi).map_or(false, |h| h <= mask(w)) { fls() } else { ult(r, x) }; (r, o) }
        "usub.with.overflow" => (bin(Op::Sub, x, y), ult(x, y)),
        "umul.with.overflow" => {
            let r = bin(Op::Mul, x, y);
            if info(x).hi.checked_mul(info(y).hi).map_or(false, |h| h <= mask(w)) { return (r, fls()) }
            if w > 64 { if let (Some(a), Some(b)) = (is_const(x), is_const(y)) { return (r, cst(1, a.checked_mul(b).is_none() as u128)) } }
            // by a constant: x > MAX / c
            if let Some(c) = is_const(y) { return (r, if c == 0 { fls() } else { ult(cst(w, mask(w) / c), x) }) }
            if let Some(c) = is_const(x) { return (r, if c == 0 { fls() } else { ult(cst(w, mask(w) / c), y) }) }
            let (a, b) = (zext(x, 2 * w), zext(y, 2 * w));
            let p = bin(Op::Mul, a, b);
            (r, not(eq(extract(p, 2 * w - 1, w), cst(w, 0))))
        }
        "sadd.with.overflow" | "ssub.with.overflow" => {
            let sub = name.starts_with("ssub");
            let r = bin(if sub { Op::Sub } else { Op::Add }, x, y);
            let s = |e: E| extract(e, w - 1, w - 1);
            let (sx, sy, sr) = (s(x), s(y), s(r));
            let o = if sub { and(not(eq(sx, sy)), not(eq(sr, sx))) } else { and(eq(sx, sy), not(eq(sr, sx))) };
            (r, o)
        }
        _ => {
            let (a, b) = (sext(x, 2 * w), sext(y, 2 * w));
            let p = bin(Op::Mul, a, b);
            let r = extract(p, w - 1, 0);
            (r, not(eq(sext(r, 2 * w), p)))
        }
    }
}
fn intrin(name: &str, w: u32, rw: u32, a: &[V]) -> E {
    let x = a[0].e(w);
    match name {
        "umin" | "umax" | "smin" | "smax" => {
            let y = a[1].e(w);
            let (op, mx) = match name { "umin" => (Op::Ult, false), "umax" => (Op::Ult, true), "smin" => (Op::Slt, false), _ => (Op::Slt, true) };
            let l = bin(op, x, y);
            if mx { ite(l, y, x) } else { ite(l, x, y) }
        }
        "abs" => { let neg = bin(Op::Slt, x, cst(w, 0)); ite(neg, bin(Op::Sub, cst(w, 0), x), x) }
        "ctpop" => { if let Some(k) = is_const(x) { return cst(w, k.count_ones() as u128) } let mut r = cst(w, 0); for i in 0..w { r = bin(Op::Add, r, zext(extract(x, i, i), w)) } r }
        "cttz" => { if let Some(k) = is_const(x) { return cst(w, if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }) } let mut r = cst(w, w as u128); for i in (0..w).rev() { r = ite(extract(x, i, i), cst(w, i as u128), r) } r }
        "ctlz" => { if let Some(k) = is_const(x) { return cst(w, if k == 0 { w as u128 } else { (w - (128 - k.leading_zeros())) as u128 }) } let mut r = cst(w, w as u128); for i in 0..w { r = ite(extract(x, i, i), cst(w, (w - 1 - i) as u128), r) } r }
        "bswap" => { let n = w / 8; let mut r = extract(x, 7, 0); for i in 1..n { r = concat(r, extract(x, i * 8 + 7, i * 8)) } r }
        "bitreverse" => { let mut r = extract(x, 0, 0); for i in 1..w { r = concat(r, extract(x, i, i)) } r }
        "fshl" | "fshr" => {
            let y = a[1].e(w);
            let s = a[2].e(w);
            match is_const(s) {
                Some(k) => { let k = (k % w as u128) as u32; let k = if name == "fshl" { k } else { (w - k) % w }; if k == 0 { if name == "fshl" { x } else { y } } else { concat(extract(x, w - k - 1, 0), extract(y, w - 1, w - k)) } }
                None => { let s = bin(Op::URem, s, cst(w, w as u128)); let inv = bin(Op::Sub, cst(w, w as u128), s); let (l, r) = if name == "fshl" { (s, inv) } else { (inv, s) }; bin(Op::Or, bin(Op::Shl, x, l), bin(Op::LShr, y, r)) }
            }
        }
        "ucmp" | "scmp" => { let y = a[1].e(w); let op = if name == "ucmp" { Op::Ult } else { Op::Slt }; ite(bin(op, x, y), cst(rw, mask(rw)), ite(eq(x, y), cst(rw, 0), cst(rw, 1))) }
        "uadd.sat" => { let y = a[1].e(w); let (r, o) = overflow("uadd.with.overflow", w, x, y); ite(o, cst(w, mask(w)), r) }
        "usub.sat" => { let y = a[1].e(w); ite(ult(x, y), cst(w, 0), bin(Op::Sub, x, y)) }
        "sadd.sat" | "ssub.sat" => {
            let y = a[1].e(w);
            let (r, o) = overflow(if name == "sadd.sat" { "sadd.with.overflow" } else { "ssub.with.overflow" }, w, x, y);
            let neg = bin(Op::Slt, x, cst(w, 0));
            ite(o, ite(neg, cst(w, 1 << (w - 1)), cst(w, mask(w) >> 1)), r)
        }
        _ => panic!("intrinsic {}", name),
    }
}

pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 { v.push(0) }
    v.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in v.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]) }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1) }
        let [mut a, mut bb, mut c, mut d, mut e] = h;
        for i in 0..80 {
            let (f, k) = match i { 0..=19 => (bb & c | !bb & d, 0x5A827999), 20..=39 => (bb ^ c ^ d, 0x6ED9EBA1), 40..=59 => (bb & c | bb & d | c & d, 0x8F1BBCDC), _ => (bb ^ c ^ d, 0xCA62C1D6u32) };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d; d = c; c = bb.rotate_left(30); bb = a; a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) { *x = x.wrapping_add(y) }
    }
    let mut o = [0; 20];
    for i in 0..5 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()) }
    o
}
#[allow(dead_code)]
const _UNUSED: i32 = EACCES;
