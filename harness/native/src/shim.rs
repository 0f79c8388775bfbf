//! The environment interface for the native build: values and decisions come from a replay file, and
//! the libc functions that the model in engine/src/sys.rs treats as system calls are interposed so
//! that faults, environment steps, crashes and thread switches happen at the same calls.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::VecDeque;
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

// ---- raw system calls ------------------------------------------------------------------------------
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

// ---- state -----------------------------------------------------------------------------------------
#[derive(PartialEq, Clone, Copy, Debug)]
enum TS {
    Run,
    Futex(usize),
    Join(usize),
    Done,
}
struct St {
    root: Vec<u8>,
    anys: VecDeque<(bool, Vec<u8>, u64)>,
    faults: VecDeque<(u64, String)>,
    sysno: u64,
    env: Vec<(u32, Vec<u8>, Vec<u8>)>,
    env_at: usize,
    dead: bool,
    armed: bool,
    writes: u64,
    jail: Option<Vec<u8>>,
    escapes: u64,
    rev: bool,
    threaded: bool,
    clock: i64,
    /// the real time and the virtual offset at which each stretch between two advances began
    epochs: Vec<(i64, i64)>,
    th: Vec<TS>,
    cur: usize,
    spins: u64,
    wakes: u64,
}
static mut ST: Option<St> = None;
fn st() -> &'static mut St {
    unsafe { ST.as_mut().unwrap() }
}
static ON: AtomicBool = AtomicBool::new(false); // interposition active
static ROOTED: [AtomicBool; 1024] = [const { AtomicBool::new(false) }; 1024];
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static PARAM: AtomicU64 = AtomicU64::new(0);
static ALIM: AtomicU64 = AtomicU64::new(1 << 30);
static INSHIM: AtomicUsize = AtomicUsize::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

struct Quiet;
impl Quiet {
    fn new() -> Quiet {
        INSHIM.fetch_add(1, SeqCst);
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        INSHIM.fetch_sub(1, SeqCst);
    }
}
fn active() -> bool {
    ON.load(SeqCst) && INSHIM.load(SeqCst) == 0
}

pub fn violation(m: &str) -> ! {
    ON.store(false, SeqCst);
    let s = format!("VIOL {}\n", m.replace('\n', " "));
    unsafe {
        raw(1, 1, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
        raw(231, 42, 0, 0, 0, 0, 0);
    }
    loop {}
}
fn quit(code: i64, m: &str) -> ! {
    ON.store(false, SeqCst);
    let s = format!("{}\n", m);
    unsafe {
        raw(1, 1, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
        raw(231, code, 0, 0, 0, 0, 0);
    }
    loop {}
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn start(text: &str, root: &str) {
    let mut anys = VecDeque::new();
    let mut faults = VecDeque::new();
    for l in text.lines() {
        let mut w = l.splitn(3, ' ');
        match w.next().unwrap_or("") {
            "any" => anys.push_back((true, unhex(w.next().unwrap_or("")), 0)),
            "param" => PARAM.store(w.next().unwrap().parse().unwrap(), SeqCst),
            "choice" => anys.push_back((false, vec![], w.next().unwrap().parse().unwrap())),
            "fault" => {
                let n = w.next().unwrap().parse().unwrap();
                let d = w.next().unwrap().to_string();
                if !d.starts_with("sched") && !d.starts_with("yield") {
                    faults.push_back((n, d))
                }
            }
            _ => {}
        }
    }
    std::env::set_current_dir(root).expect("root");
    // never grows: memory is counted
    let mut epochs = Vec::with_capacity(4096);
    epochs.push((real_now() - 12_000_000, 0));
    unsafe {
        ST = Some(St { root: root.as_bytes().to_vec(), anys, faults, sysno: 0, env: vec![], env_at: 0, dead: false, armed: false, writes: 0, jail: None, escapes: 0, rev: false, threaded: false, clock: 0, epochs, th: vec![TS::Run], cur: 0, spins: 0, wakes: 0 });
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
    }
    LIVE.store(0, SeqCst);
    ON.store(true, SeqCst);
}
pub fn end() {
    ON.store(false, SeqCst);
    if !st().anys.is_empty() || !st().faults.is_empty() {
        quit(43, &format!("MISMATCH left over: {} values, {:?}", st().anys.len(), st().faults))
    }
    println!("END");
}

// ---- allocation ------------------------------------------------------------------------------------
struct Count;
#[global_allocator]
static A: Count = Count;
fn grow(n: u64) {
    if ON.load(SeqCst) {
        let l = LIVE.fetch_add(n, SeqCst).wrapping_add(n);
        if l < 1 << 62 {
            PEAK.fetch_max(l, SeqCst);
        }
        if n > ALIM.load(SeqCst) {
            violation(&format!("allocation of {} bytes", n))
        }
    }
}
fn shrink(n: u64) {
    if ON.load(SeqCst) {
        LIVE.fetch_sub(n, SeqCst);
    }
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size() as u64);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as u64);
        shrink(l.size() as u64);
        System.realloc(p, l, n)
    }
}

// ---- harness interface -----------------------------------------------------------------------------
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
fn next(any: bool) -> (Vec<u8>, u64) {
    match st().anys.pop_front() {
        Some((k, b, v)) if k == any => (b, v),
        o => quit(43, &format!("MISMATCH wanted any={} got {:?}", any, o)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_any(p: *mut u8, n: usize) {
    let _q = Quiet::new();
    let (b, _) = next(true);
    if b.len() != n {
        quit(43, &format!("MISMATCH any {} {}", n, b.len()))
    }
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n)
}
#[no_mangle]
pub unsafe extern "C" fn sx_assume(c: bool) {
    if !c {
        quit(44, "ASSUME")
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_assert(c: bool, m: *const u8, n: usize) {
    if !c {
        violation(&String::from_utf8_lossy(sl(m, n)))
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_choice(n: u32) -> u32 {
    let (_, v) = next(false);
    if v >= n as u64 {
        quit(43, "MISMATCH choice")
    }
    v as u32
}
#[no_mangle]
pub unsafe extern "C" fn sx_eq(p: *const u8, q: *const u8, n: usize) -> bool {
    sl(p, n) == sl(q, n)
}
#[no_mangle]
pub unsafe extern "C" fn sx_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C" fn sx_note(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C" fn sx_observe(p: *const u8, n: usize) {
    let _q = Quiet::new();
    let mut s = String::from("obs ");
    for b in sl(p, n) {
        s.push_str(&format!("{:02x}", b))
    }
    s.push('\n');
    let mut i = 0;
    while i < s.len() {
        let k = raw(1, 1, s.as_ptr() as i64 + i as i64, (s.len() - i) as i64, 0, 0, 0);
        if k <= 0 {
            break;
        }
        i += k as usize
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_digest(p: *const u8, n: usize, o: *mut u8) {
    use sha1::Digest;
    let d = sha1::Sha1::digest(sl(p, n));
    std::ptr::copy_nonoverlapping(d.as_ptr(), o, 20)
}
#[no_mangle]
pub unsafe extern "C" fn sx_adler(p: *const u8, n: usize) -> u32 {
    adler2::adler32_slice(sl(p, n))
}
#[no_mangle]
pub unsafe extern "C" fn sx_root(p: *mut u8) -> usize {
    let r = &st().root;
    std::ptr::copy_nonoverlapping(r.as_ptr(), p, r.len());
    r.len()
}
fn path(b: &[u8]) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::path::PathBuf::from(std::ffi::OsStr::from_bytes(b))
}
// (remove_dir_all would go through calls of its own that are intercepted)
fn remove_tree(p: &std::path::Path) {
    let inside: Vec<_> = std::fs::read_dir(p).map_or(vec![], |d| d.filter_map(|e| e.ok()).collect());
    for e in inside {
        if e.file_type().map_or(false, |t| t.is_dir()) {
            remove_tree(&e.path())
        } else {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let _ = std::fs::remove_dir(p);
}
fn apply(k: u32, a: &[u8], b: &[u8]) {
    let _q = Quiet::new();
    let p = path(a);
    match k {
        0 => std::fs::create_dir(&p).expect("mkdir"),
        1 => {
            let _ = std::fs::remove_file(&p);
            std::fs::write(&p, b).expect("put")
        }
        2 => {
            if p.is_dir() {
                remove_tree(&p)
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
        3 => {
            let _ = std::fs::rename(&p, path(b));
        }
        4 => std::os::unix::fs::symlink(path(b), &p).expect("symlink"),
        5 => {
            let _ = std::fs::remove_dir(&p);
        }
        6 => {
            let _ = std::fs::create_dir(&p);
        }
        7 => {
            let _ = std::fs::rename(&p, path(b));
        }
        _ => quit(43, "env op"),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_fs_op(k: u32, a: *const u8, al: usize, b: *const u8, bl: usize) {
    apply(k, sl(a, al), sl(b, bl))
}
#[no_mangle]
pub unsafe extern "C" fn sx_fs_put_at(a: *const u8, al: usize, off: u64, b: *const u8, bl: usize) {
    let _q = Quiet::new();
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path(sl(a, al))).expect("put_at");
    f.write_all_at(sl(b, bl), off).expect("put_at")
}
#[no_mangle]
pub unsafe extern "C" fn sx_fs_get(a: *const u8, al: usize, b: *mut u8, cap: usize) -> i64 {
    let _q = Quiet::new();
    match std::fs::read(path(sl(a, al))) {
        Ok(v) => {
            std::ptr::copy_nonoverlapping(v.as_ptr(), b, v.len().min(cap));
            v.len() as i64
        }
        Err(_) => -1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_exists(a: *const u8, al: usize) -> bool {
    let _q = Quiet::new();
    std::fs::symlink_metadata(path(sl(a, al))).is_ok()
}
#[no_mangle]
pub unsafe extern "C" fn sx_list(a: *const u8, al: usize, b: *mut u8, cap: usize) -> usize {
    let _q = Quiet::new();
    use std::os::unix::ffi::OsStrExt;
    let mut v: Vec<Vec<u8>> = match std::fs::read_dir(path(sl(a, al))) {
        Ok(d) => d.map(|e| e.unwrap().file_name().as_bytes().to_vec()).collect(),
        Err(_) => vec![],
    };
    v.sort();
    let mut o = vec![];
    for x in v {
        o.extend(x);
        o.push(0)
    }
    assert!(o.len() <= cap);
    std::ptr::copy_nonoverlapping(o.as_ptr(), b, o.len());
    o.len()
}
#[no_mangle]
pub unsafe extern "C" fn sx_env_add(k: u32, a: *const u8, al: usize, b: *const u8, bl: usize) {
    let _q = Quiet::new();
    st().env.push((k, sl(a, al).to_vec(), sl(b, bl).to_vec()))
}
#[no_mangle]
pub unsafe extern "C" fn sx_env_on(on: u32) {
    let _q = Quiet::new();
    let s = st();
    while on == 2 && s.env_at < s.env.len() {
        let (k, a, b) = s.env[s.env_at].clone();
        apply(k, &a, &b);
        s.env_at += 1
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_fault(mask: u32, _: u32) {
    MASK.store(mask, SeqCst)
}
static MASK: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
static EVERY: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// the length a read gets, or None: interrupted
unsafe fn read_len(fd: i32, d: u32, n: usize, off: Option<i64>) -> Option<usize> {
    let m = MASK.load(SeqCst);
    let many = if m & 256 != 0 {
        2
    } else if m & 512 != 0 {
        21
    } else {
        0
    };
    if many > 0 && (EVERY.fetch_add(1, SeqCst) + 1) % many != 0 {
        return None;
    }
    let mut s: libc::stat64 = std::mem::zeroed();
    raw(5, fd as i64, &mut s as *mut _ as i64, 0, 0, 0, 0);
    let off = off.unwrap_or_else(|| raw(8, fd as i64, 0, libc::SEEK_CUR as i64, 0, 0, 0));
    let avail = (s.st_size.saturating_sub(off).max(0) as usize).min(n);
    let mut n = n;
    if avail > 1 {
        n = match d {
            1 => 1,
            6 => avail / 2,
            7 => avail - 1,
            _ => n,
        }
    }
    if m & 64 != 0 {
        n = n.min(1)
    }
    if m & 128 != 0 {
        n = n.min(7)
    }
    Some(n)
}
#[no_mangle]
pub unsafe extern "C" fn sx_preempt(n: u32) {
    st().threaded = n > 0
}
#[no_mangle]
pub unsafe extern "C" fn sx_crash(f: extern "C" fn(*mut u8), a: *mut u8) -> i32 {
    st().armed = true;
    f(a);
    st().armed = false;
    let d = st().dead;
    st().dead = false;
    d as i32
}
#[no_mangle]
pub unsafe extern "C" fn sx_writes() -> u64 {
    st().writes
}
#[no_mangle]
pub unsafe extern "C" fn sx_jail(a: *const u8, al: usize) {
    let _q = Quiet::new();
    st().jail = if al == 0 { None } else { Some(sl(a, al).to_vec()) };
    st().escapes = 0
}
#[no_mangle]
pub unsafe extern "C" fn sx_escapes() -> u64 {
    st().escapes
}
#[no_mangle]
pub unsafe extern "C" fn sx_time_advance(ms: u64) {
    if ms == 0 {
        return;
    }
    // what the file system's clock says after this must differ; the program's clock does not see the nap
    let (nap, before) = (libc::timespec { tv_sec: 0, tv_nsec: 30_000_000 }, real_now());
    raw(35, &nap as *const _ as i64, 0, 0, 0, 0, 0);
    let now = real_now();
    st().clock += ms as i64 * 1_000_000 - (now - before);
    let e = (now - 12_000_000, st().epochs.last().unwrap().1 + ms as i64 * 1_000_000);
    assert!(st().epochs.len() < 4096);
    st().epochs.push(e)
}
fn real_now() -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(228, 0, &mut t as *mut _ as i64, 0, 0, 0, 0) };
    t.tv_sec * 1_000_000_000 + t.tv_nsec
}
/// The model's file system has a coarse clock: everything between two advances has the same time.
fn coarse(m: i64) -> i64 {
    let s = st();
    match s.epochs.iter().rev().find(|e| e.0 <= m) {
        Some(e) => s.epochs[0].0 + e.1,
        None => m,
    }
}
unsafe fn coarsen(b: *mut libc::stat64, r: i64) -> i32 {
    if r == 0 && active() {
        let m = coarse((*b).st_mtime * 1_000_000_000 + (*b).st_mtime_nsec);
        let (s, n) = (m.div_euclid(1_000_000_000), m.rem_euclid(1_000_000_000));
        (*b).st_mtime = s;
        (*b).st_mtime_nsec = n;
        (*b).st_ctime = s;
        (*b).st_ctime_nsec = n;
        (*b).st_atime = s;
        (*b).st_atime_nsec = n;
    }
    ret(r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sx_heap_reset() -> u64 {
    let l = LIVE.load(SeqCst);
    PEAK.store(if l < 1 << 62 { l } else { 0 }, SeqCst);
    l
}
#[no_mangle]
pub unsafe extern "C" fn sx_heap_peak() -> u64 {
    PEAK.load(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn sx_heap_live() -> u64 {
    LIVE.load(SeqCst).wrapping_add(1 << 40)
}
#[no_mangle]
pub unsafe extern "C" fn sx_open_files() -> u64 {
    let _q = Quiet::new();
    // one more, of the listing itself, every time
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count() as u64)
}
#[no_mangle]
pub unsafe extern "C" fn sx_readdir_rev(on: u32) {
    st().rev = on != 0
}
#[no_mangle]
pub unsafe extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn sx_concrete_bytes(_: *mut u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C" fn sx_limits(_: u64, a: u64) {
    if a > 0 {
        ALIM.store(a, SeqCst)
    }
}

// ---- threads: one runs at a time, as in the model --------------------------------------------------
static mut MX: libc::pthread_mutex_t = libc::PTHREAD_MUTEX_INITIALIZER;
static mut CV: libc::pthread_cond_t = libc::PTHREAD_COND_INITIALIZER;
unsafe fn give(to: usize) {
    libc::pthread_mutex_lock(&raw mut MX);
    st().cur = to;
    libc::pthread_cond_broadcast(&raw mut CV);
    libc::pthread_mutex_unlock(&raw mut MX);
}
unsafe fn wait_turn(me: usize) {
    libc::pthread_mutex_lock(&raw mut MX);
    while st().cur != me {
        libc::pthread_cond_wait(&raw mut CV, &raw mut MX);
    }
    libc::pthread_mutex_unlock(&raw mut MX);
}
unsafe fn reschedule() {
    let me = ME.get();
    match st().th.iter().position(|t| *t == TS::Run) {
        None => violation("deadlock: every thread is blocked"),
        Some(o) if o == me => {}
        Some(o) => {
            give(o);
            if st().th[me] != TS::Done {
                wait_turn(me)
            }
        }
    }
}
extern "C" fn tmain(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut (usize, extern "C" fn(*mut u8), usize));
        ME.set(b.0);
        wait_turn(b.0);
        (b.1)(b.2 as *mut u8);
        st().th[b.0] = TS::Done;
        for t in st().th.iter_mut() {
            if *t == TS::Join(b.0) {
                *t = TS::Run
            }
        }
        drop(b);
        reschedule();
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn sx_spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u32 {
    let _q = Quiet::new();
    st().th.push(TS::Run);
    let t = st().th.len() - 1;
    let b = Box::new((t, f, a as usize));
    let mut h: libc::pthread_t = 0;
    libc::pthread_create(&mut h, std::ptr::null(), tmain, Box::into_raw(b) as *mut libc::c_void);
    libc::pthread_detach(h);
    t as u32
}
#[no_mangle]
pub unsafe extern "C" fn sx_param() -> u64 {
    PARAM.load(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn sx_join(t: u32) {
    if st().th[t as usize] != TS::Done {
        st().th[ME.get()] = TS::Join(t as usize);
        reschedule()
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        let me = ME.get();
        let n = st().th.len();
        let o = (1..n).map(|k| (me + k) % n).find(|i| st().th[*i] == TS::Run);
        st().spins += 1;
        if st().spins > 10000 {
            violation("deadlock: a lock is spun on that nobody will release")
        }
        if let Some(o) = o {
            give(o);
            wait_turn(me)
        }
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if active() {
        if n == 318 {
            std::ptr::write_bytes(a as *mut u8, 0x5a, b as usize);
            return b;
        }
        if n == 202 {
            let p = a as usize;
            match b & 0x7f {
                0 | 9 => {
                    if (*(p as *const std::sync::atomic::AtomicU32)).load(SeqCst) != c as u32 {
                        return fail(libc::EAGAIN);
                    }
                    st().th[ME.get()] = TS::Futex(p);
                    reschedule();
                    return 0;
                }
                1 | 10 => {
                    let mut k = 0;
                    for t in st().th.iter_mut() {
                        if k < c && *t == TS::Futex(p) {
                            *t = TS::Run;
                            k += 1
                        }
                    }
                    if k > 0 {
                        wake_point();
                    }
                    return k;
                }
                _ => {}
            }
        }
        if n == 332 {
            return statx(a as i32, b as *const i8, c as i32, d as u32, e as *mut libc::c_void) as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, f: u32) -> isize {
    if active() {
        std::ptr::write_bytes(p, 0x5a, n);
        return n as isize;
    }
    ret(raw(318, p as i64, n as i64, f as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(k: i32, t: *mut libc::timespec) -> i32 {
    let r = ret(raw(228, k as i64, t as i64, 0, 0, 0, 0)) as i32;
    if r == 0 && ON.load(SeqCst) {
        let n = (*t).tv_nsec + st().clock;
        (*t).tv_sec += n / 1_000_000_000;
        (*t).tv_nsec = n % 1_000_000_000;
    }
    r
}

// ---- system calls on the scratch tree --------------------------------------------------------------
unsafe fn cs<'a>(p: *const i8) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
unsafe fn in_root(p: *const i8) -> bool {
    if !active() {
        return false;
    }
    let b = cs(p);
    let r = &st().root;
    b.first() != Some(&b'/') || b.starts_with(r) && (b.len() == r.len() || b[r.len()] == b'/')
}
/// After threads waiting for a lock were woken: another thread may run at once.
unsafe fn wake_point() {
    let _q = Quiet::new();
    let me = ME.get();
    let s = st();
    s.wakes += 1;
    let w: Vec<usize> = match s.faults.front() {
        Some((n, d)) if *n == s.sysno + 1 && d.starts_with("wake ") => d[5..].split(' ').map(|x| x.parse().unwrap()).collect(),
        _ => return,
    };
    if w[0] as u64 != s.wakes {
        return;
    }
    if w[1] != me {
        quit(43, "MISMATCH wake by another thread")
    }
    s.faults.pop_front();
    INSHIM.fetch_sub(1, SeqCst);
    give(w[2]);
    wait_turn(me);
    INSHIM.fetch_add(1, SeqCst);
}
/// The next system call of this thread: returns its fault decision, or None if the process is dead.
unsafe fn point() -> Option<u32> {
    let _q = Quiet::new();
    let me = ME.get();
    loop {
        let s = st();
        if s.dead {
            return None;
        }
        s.spins = 0;
        match s.faults.front() {
            Some((n, d)) if *n == s.sysno + 1 && d.starts_with("switch ") => {
                let w: Vec<usize> = d[7..].split(' ').map(|x| x.parse().unwrap()).collect();
                if w[0] != me {
                    quit(43, "MISMATCH switch by another thread")
                }
                s.faults.pop_front();
                INSHIM.fetch_sub(1, SeqCst);
                give(w[1]);
                wait_turn(me);
                INSHIM.fetch_add(1, SeqCst);
            }
            _ => break,
        }
    }
    let s = st();
    s.sysno += 1;
    let mut dec = 0;
    while let Some((n, d)) = s.faults.front().cloned() {
        if n != s.sysno || d.starts_with("switch") {
            break;
        }
        s.faults.pop_front();
        let mut w = d.split(' ');
        match w.next().unwrap() {
            "env" => {
                for _ in 0..w.next().unwrap().parse::<usize>().unwrap() {
                    let (k, a, b) = s.env[s.env_at].clone();
                    apply(k, &a, &b);
                    s.env_at += 1
                }
            }
            "crash" => {
                if !s.armed {
                    quit(43, "MISMATCH crash")
                }
                s.dead = true;
                return None;
            }
            "fault" => dec = w.next().unwrap().parse().unwrap(),
            _ => quit(43, &format!("MISMATCH event {}", d)),
        }
    }
    Some(dec)
}
fn code(d: u32) -> i32 {
    match d {
        2 => libc::EINTR,
        3 => libc::EIO,
        4 => libc::ENOSPC,
        5 => libc::EMFILE,
        8 => libc::EACCES,
        _ => 0,
    }
}
macro_rules! point {
    () => {
        match point() {
            None => return fail(libc::EIO) as _,
            Some(d) => {
                if code(d) != 0 {
                    return fail(code(d)) as _;
                }
                d
            }
        }
    };
}
/// With a jail set, an access outside of it is only recorded: it never reaches the file system.
unsafe fn escaped(p: *const i8) -> bool {
    if !active() {
        return false;
    }
    let _q = Quiet::new();
    let j = match &st().jail {
        None => return false,
        Some(j) => match std::fs::canonicalize(path(j)) {
            Ok(j) => j,
            Err(_) => return false,
        },
    };
    let mut q = path(cs(p));
    loop {
        if let Ok(r) = std::fs::canonicalize(&q) {
            let d = if r.is_dir() { Some(r.as_path()) } else { r.parent() };
            let out = !d.map_or(false, |d| d.starts_with(&j));
            if out {
                st().escapes += 1
            }
            return out;
        }
        match parent_text(&q) {
            Some(x) => q = x,
            None => return false,
        }
    }
}
/// the path without its last component, textually (`..` kept)
fn parent_text(p: &std::path::Path) -> Option<std::path::PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    let b = p.as_os_str().as_bytes();
    let b = &b[..b.iter().rposition(|c| *c != b'/').map_or(0, |i| i + 1)];
    let i = b.iter().rposition(|c| *c == b'/')?;
    if b.is_empty() {
        return None;
    }
    Some(path(if i == 0 { b"/" } else { &b[..i] }))
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
    let r = in_root(p);
    if r {
        point!();
    }
    if escaped(p) {
        return fail(libc::ENOENT) as i32;
    }
    let fresh = r && raw(21, p as i64, 0, 0, 0, 0, 0) < 0;
    let fd = ret(raw(257, libc::AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)) as i32;
    if r && fd >= 0 {
        if (fd as usize) < 1024 {
            ROOTED[fd as usize].store(true, SeqCst)
        }
        if fresh || fl & libc::O_TRUNC != 0 {
            st().writes += 1
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, fl: i32, mode: u32) -> i32 {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if (0..1024).contains(&fd) {
        ROOTED[fd as usize].store(false, SeqCst)
    }
    ret(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn rooted(fd: i32) -> bool {
    active() && (0..1024).contains(&fd) && ROOTED[fd as usize].load(SeqCst)
}
unsafe fn isdir(fd: i32) -> bool {
    let mut s: libc::stat64 = std::mem::zeroed();
    raw(5, fd as i64, &mut s as *mut _ as i64, 0, 0, 0, 0) == 0 && s.st_mode & libc::S_IFMT == libc::S_IFDIR
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, mut n: usize) -> isize {
    if rooted(fd) {
        if isdir(fd) {
            return fail(libc::EISDIR) as isize;
        }
        let d = point!();
        n = match read_len(fd, d, n, None) {
            Some(n) => n,
            None => return fail(libc::EINTR) as isize,
        }
    }
    ret(raw(0, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, wh: i32) -> i64 {
    if wh == 0 && rooted(fd) && st().threaded {
        point!();
    }
    ret(raw(8, fd as i64, o, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, wh: i32) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut u8, mut n: usize, o: i64) -> isize {
    if rooted(fd) {
        let d = point!();
        n = match read_len(fd, d, n, Some(o)) {
            Some(n) => n,
            None => return fail(libc::EINTR) as isize,
        }
    }
    ret(raw(17, fd as i64, p as i64, n as i64, o, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, mut n: usize) -> isize {
    if rooted(fd) {
        if point!() == 1 && n > 1 {
            n = (n / 2).max(1)
        }
        st().writes += 1;
    }
    ret(raw(1, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, k: i32) -> isize {
    if rooted(fd) {
        let mut all = vec![];
        {
            let _q = Quiet::new();
            for i in 0..k as usize {
                all.extend_from_slice(sl((*v.add(i)).iov_base as *const u8, (*v.add(i)).iov_len))
            }
        }
        return write(fd, all.as_ptr(), all.len());
    }
    ret(raw(20, fd as i64, v as i64, k as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const i8, b: *mut libc::stat64) -> i32 {
    if in_root(p) {
        point!();
    }
    if escaped(p) {
        return fail(libc::ENOENT) as i32;
    }
    let r = raw(4, p as i64, b as i64, 0, 0, 0, 0);
    if in_root(p) { coarsen(b, r) } else { ret(r) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const i8, b: *mut libc::stat64) -> i32 {
    if in_root(p) {
        point!();
    }
    if escaped(p) {
        return fail(libc::ENOENT) as i32;
    }
    let r = raw(6, p as i64, b as i64, 0, 0, 0, 0);
    if in_root(p) { coarsen(b, r) } else { ret(r) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut libc::stat64) -> i32 {
    let r = raw(5, fd as i64, b as i64, 0, 0, 0, 0);
    if rooted(fd) { coarsen(b, r) } else { ret(r) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const i8, fl: i32, mask: u32, b: *mut libc::c_void) -> i32 {
    if !p.is_null() && *p != 0 && !b.is_null() {
        if in_root(p) {
            point!();
        }
        if escaped(p) {
            return fail(libc::ENOENT) as i32;
        }
    }
    let r = raw(332, d as i64, p as i64, fl as i64, mask as i64, b as i64, 0);
    if r == 0 && !b.is_null() && !p.is_null() && (if *p == 0 { rooted(d) } else { in_root(p) }) {
        // stx_atime, stx_ctime and stx_mtime: an i64 of seconds and a u32 of nanoseconds each
        let m = (b as *mut u8).add(112);
        let t = coarse(*(m as *const i64) * 1_000_000_000 + *(m.add(8) as *const u32) as i64);
        for at in [64, 96, 112] {
            let q = (b as *mut u8).add(at);
            *(q as *mut i64) = t.div_euclid(1_000_000_000);
            *(q.add(8) as *mut u32) = t.rem_euclid(1_000_000_000) as u32;
        }
    }
    ret(r) as i32
}
macro_rules! mutate {
    ($p:expr, $call:expr) => {{
        if in_root($p) {
            point!();
        }
        if escaped($p) {
            return fail(libc::ENOENT) as i32;
        }
        let r = ret($call) as i32;
        if r == 0 && active() {
            st().writes += 1
        }
        r
    }};
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const i8, m: u32) -> i32 {
    mutate!(p, raw(83, p as i64, m as i64, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    mutate!(p, raw(87, p as i64, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const i8) -> i32 {
    mutate!(p, raw(84, p as i64, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const i8, q: *const i8) -> i32 {
    mutate!(p, raw(82, p as i64, q as i64, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const i8, q: *const i8) -> i32 {
    mutate!(p, raw(86, p as i64, q as i64, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: i32, p: *const i8, e: i32, q: *const i8, f: i32) -> i32 {
    mutate!(p, raw(265, d as i64, p as i64, e as i64, q as i64, f as i64, 0))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const i8, m: u32) -> i32 {
    mutate!(p, raw(90, p as i64, m as i64, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 {
    if rooted(fd) {
        point!();
        st().writes += 1;
    }
    ret(raw(91, fd as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn futimens(d: i32, t: *const libc::timespec) -> i32 {
    utimensat(d, std::ptr::null(), t, 0)
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: i32, p: *const i8, mut t: *const libc::timespec, f: i32) -> i32 {
    // a time after the real one comes from the virtual clock: it is the present
    let mut two = [libc::timespec { tv_sec: 0, tv_nsec: libc::UTIME_NOW }; 2];
    if !t.is_null() {
        let g = *t.add(1);
        if g.tv_nsec < 1_000_000_000 && g.tv_sec * 1_000_000_000 + g.tv_nsec < real_now() {
            two = [*t, g]
        }
        t = two.as_ptr()
    }
    if p.is_null() {
        if rooted(d) {
            st().writes += 1
        }
        return ret(raw(280, d as i64, 0, t as i64, f as i64, 0, 0)) as i32;
    }
    mutate!(p, raw(280, d as i64, p as i64, t as i64, f as i64, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if rooted(fd) {
        point!();
    }
    ret(raw(74, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if rooted(fd) {
        point!();
        st().writes += 1;
    }
    ret(raw(77, fd as i64, n, 0, 0, 0, 0)) as i32
}

// directories: entries are taken at opendir, `.` and `..` first, the rest sorted
struct Dir {
    fd: i32,
    ents: Vec<(CString, u8, u64)>,
    at: usize,
    buf: libc::dirent64,
    rooted: bool,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const i8) -> *mut libc::c_void {
    let r = in_root(p);
    if r {
        match point() {
            None => {
                fail(libc::EIO);
                return std::ptr::null_mut();
            }
            Some(d) if code(d) != 0 => {
                fail(code(d));
                return std::ptr::null_mut();
            }
            _ => {}
        }
    }
    if escaped(p) {
        fail(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let _q = Quiet::new();
    let fd = ret(raw(257, libc::AT_FDCWD as i64, p as i64, (libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as i64, 0, 0, 0)) as i32;
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let mut ents = vec![];
    let mut b = vec![0u8; 65536];
    loop {
        let n = raw(217, fd as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0);
        if n <= 0 {
            break;
        }
        let mut i = 0;
        while i < n as usize {
            let ino = u64::from_ne_bytes(b[i..i + 8].try_into().unwrap());
            let l = u16::from_ne_bytes([b[i + 16], b[i + 17]]) as usize;
            ents.push((CStr::from_ptr(b.as_ptr().add(i + 19) as *const i8).to_owned(), b[i + 18], ino));
            i += l
        }
    }
    let dots = |c: &CString| matches!(c.as_bytes(), b"." | b"..");
    let mut d: Vec<_> = ents.iter().filter(|e| !dots(&e.0)).cloned().collect();
    d.sort();
    if st_opt().map_or(false, |s| s.rev) {
        d.reverse()
    }
    let mut all: Vec<_> = ents.into_iter().filter(|e| dots(&e.0)).collect();
    all.sort();
    all.extend(d);
    Box::into_raw(Box::new(Dir { fd, ents: all, at: 0, buf: std::mem::zeroed(), rooted: r })) as *mut libc::c_void
}
unsafe fn st_opt() -> Option<&'static mut St> {
    ST.as_mut()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut Dir);
    if d.at >= d.ents.len() {
        return std::ptr::null_mut();
    }
    if d.rooted && active() {
        match point() {
            Some(3) => {
                fail(libc::EIO);
                return std::ptr::null_mut();
            }
            None => {
                fail(libc::EIO);
                return std::ptr::null_mut();
            }
            _ => {}
        }
    }
    let (n, t, ino) = &d.ents[d.at];
    d.at += 1;
    d.buf.d_ino = *ino;
    d.buf.d_type = *t;
    d.buf.d_reclen = 280;
    let b = n.as_bytes_with_nul();
    for (i, c) in b.iter().enumerate() {
        d.buf.d_name[i] = *c as i8
    }
    &mut d.buf
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::c_void) -> i32 {
    let _q = Quiet::new();
    let d = Box::from_raw(d as *mut Dir);
    raw(3, d.fd as i64, 0, 0, 0, 0, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::c_void) -> i32 {
    (*(d as *mut Dir)).fd
}
