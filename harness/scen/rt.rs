//! Interface to the executor. In the symbolic build these calls are intrinsics of the engine
//! (engine/src/sys.rs); in the native build they are implemented by native/src/shim.rs, which replays
//! the values and decisions of one path.
#![allow(dead_code)]

extern "C" {
    fn sx_any(p: *mut u8, n: usize);
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, m: *const u8, n: usize);
    fn sx_choice(n: u32) -> u32;
    fn sx_eq(p: *const u8, q: *const u8, n: usize) -> bool;
    fn sx_cover(m: *const u8, n: usize);
    fn sx_note(m: *const u8, n: usize);
    fn sx_observe(p: *const u8, n: usize);
    fn sx_digest(p: *const u8, n: usize, out: *mut u8);
    fn sx_adler(p: *const u8, n: usize) -> u32;
    fn sx_root(p: *mut u8) -> usize;
    fn sx_fs_op(k: u32, a: *const u8, al: usize, b: *const u8, bl: usize);
    fn sx_fs_put_at(a: *const u8, al: usize, off: u64, b: *const u8, bl: usize);
    fn sx_fs_get(a: *const u8, al: usize, b: *mut u8, cap: usize) -> i64;
    fn sx_exists(a: *const u8, al: usize) -> bool;
    fn sx_list(a: *const u8, al: usize, b: *mut u8, cap: usize) -> usize;
    fn sx_env_add(k: u32, a: *const u8, al: usize, b: *const u8, bl: usize);
    fn sx_env_on(on: u32);
    fn sx_fault(mask: u32, budget: u32);
    fn sx_crash(f: extern "C" fn(*mut u8), a: *mut u8) -> i32;
    fn sx_writes() -> u64;
    fn sx_jail(a: *const u8, al: usize);
    fn sx_escapes() -> u64;
    fn sx_time_advance(ms: u64);
    fn sx_heap_reset() -> u64;
    fn sx_heap_peak() -> u64;
    fn sx_heap_live() -> u64;
    fn sx_open_files() -> u64;
    fn sx_spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u32;
    fn sx_join(t: u32);
    fn sx_preempt(n: u32);
    fn sx_readdir_rev(on: u32);
    fn sx_concrete(v: u64) -> u64;
    fn sx_concrete_bytes(p: *mut u8, n: usize);
    fn sx_param() -> u64;
    fn sx_limits(steps: u64, alloc: u64);
}

/// `n` unconstrained bytes
pub fn any(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { sx_any(v.as_mut_ptr(), n) }
    }
    v
}
pub fn any_u8() -> u8 {
    let mut b = [0u8; 1];
    unsafe { sx_any(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn any_u32() -> u32 {
    let mut b = [0u8; 4];
    unsafe { sx_any(b.as_mut_ptr(), 4) };
    u32::from_le_bytes(b)
}
pub fn any_u64() -> u64 {
    let mut b = [0u8; 8];
    unsafe { sx_any(b.as_mut_ptr(), 8) };
    u64::from_le_bytes(b)
}
/// one of 0..n, every one explored
pub fn choice(n: usize) -> usize {
    unsafe { sx_choice(n as u32) as usize }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sx_assert(c, m.as_ptr(), m.len()) }
}
/// equality as one formula (no path split)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || unsafe { sx_eq(a.as_ptr(), b.as_ptr(), a.len()) })
}
pub fn cover(m: &str) {
    unsafe { sx_cover(m.as_ptr(), m.len()) }
}
pub fn note(m: &str) {
    unsafe { sx_note(m.as_ptr(), m.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { sx_observe(b.as_ptr(), b.len()) }
}
pub fn digest(b: &[u8]) -> [u8; 20] {
    let mut o = [0; 20];
    unsafe { sx_digest(b.as_ptr(), b.len(), o.as_mut_ptr()) };
    o
}
pub fn adler(b: &[u8]) -> u32 {
    unsafe { sx_adler(b.as_ptr(), b.len()) }
}
pub fn root() -> Vec<u8> {
    let mut b = [0u8; 256];
    let n = unsafe { sx_root(b.as_mut_ptr()) };
    b[..n].to_vec()
}
/// path below the scratch root
pub fn at(rel: &[u8]) -> Vec<u8> {
    let mut p = root();
    p.push(b'/');
    p.extend_from_slice(rel);
    p
}
pub fn atp(rel: &[u8]) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::path::PathBuf::from(std::ffi::OsString::from_vec(at(rel)))
}
fn op(k: u32, a: &[u8], b: &[u8]) {
    unsafe { sx_fs_op(k, a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn mkdir(rel: &[u8]) {
    op(0, &at(rel), b"")
}
pub fn put(rel: &[u8], data: &[u8]) {
    op(1, &at(rel), data)
}
pub fn remove(rel: &[u8]) {
    op(2, &at(rel), b"")
}
pub fn rename(a: &[u8], b: &[u8]) {
    op(3, &at(a), &at(b))
}
/// symbolic link `rel` pointing to the literal text `target`
pub fn symlink(rel: &[u8], target: &[u8]) {
    op(4, &at(rel), target)
}
pub fn put_at(rel: &[u8], off: u64, data: &[u8]) {
    let p = at(rel);
    unsafe { sx_fs_put_at(p.as_ptr(), p.len(), off, data.as_ptr(), data.len()) }
}
pub fn get(rel: &[u8], cap: usize) -> Option<Vec<u8>> {
    let p = at(rel);
    let mut v = vec![0u8; cap];
    let n = unsafe { sx_fs_get(p.as_ptr(), p.len(), v.as_mut_ptr(), cap) };
    if n < 0 {
        return None;
    }
    v.truncate(n as usize);
    Some(v)
}
pub fn exists(rel: &[u8]) -> bool {
    let p = at(rel);
    unsafe { sx_exists(p.as_ptr(), p.len()) }
}
pub fn list(rel: &[u8]) -> Vec<Vec<u8>> {
    let p = at(rel);
    let mut v = vec![0u8; 4096];
    let n = unsafe { sx_list(p.as_ptr(), p.len(), v.as_mut_ptr(), 4096) };
    v.truncate(n);
    let mut r: Vec<Vec<u8>> = v.split(|b| *b == 0).map(|s| s.to_vec()).collect();
    r.pop();
    r
}
fn env(k: u32, a: &[u8], b: &[u8]) {
    unsafe { sx_env_add(k, a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn env_mkdir(rel: &[u8]) {
    env(0, &at(rel), b"")
}
pub fn env_put(rel: &[u8], data: &[u8]) {
    env(1, &at(rel), data)
}
pub fn env_remove(rel: &[u8]) {
    env(2, &at(rel), b"")
}
pub fn env_rename(a: &[u8], b: &[u8]) {
    env(3, &at(a), &at(b))
}
/// rmdir, mkdir and rename that do nothing when they cannot be done (not empty, already there, no such folder)
pub fn env_rmdir(rel: &[u8]) {
    env(5, &at(rel), b"")
}
pub fn env_mkdir_if(rel: &[u8]) {
    env(6, &at(rel), b"")
}
pub fn env_rename_if(a: &[u8], b: &[u8]) {
    env(7, &at(a), &at(b))
}
pub fn env_on(on: bool) {
    unsafe { sx_env_on(on as u32) }
}
/// the operations that have not happened yet happen now
pub fn env_finish() {
    unsafe { sx_env_on(2) }
}
pub const SHORT_READ: u32 = 1;
pub const EINTR: u32 = 2;
pub const READ_ERR: u32 = 4;
pub const SHORT_WRITE: u32 = 8;
pub const WRITE_ERR: u32 = 16;
pub const OPEN_ERR: u32 = 32;
/// without a budget: every read delivers at most one byte
pub const ONE_BYTE: u32 = 64;
/// every read delivers at most seven bytes
pub const SEVEN_BYTES: u32 = 128;
/// every other read is interrupted
pub const EVERY_EINTR: u32 = 256;
/// every read is interrupted 20 times before it is done
pub const MANY_EINTR: u32 = 512;
pub fn faults(mask: u32, budget: u32) {
    unsafe { sx_fault(mask, budget) }
}
/// Runs f; explores every point at which the process could stop. True: it was cut off.
pub fn crash_at_any_point<F: FnOnce()>(f: F) -> bool {
    extern "C" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take() };
        if let Some(f) = f {
            f()
        }
    }
    let mut slot = Some(f);
    let r = unsafe { sx_crash(tramp::<F>, &mut slot as *mut Option<F> as *mut u8) };
    std::mem::forget(slot);
    r == 1
}
pub fn writes() -> u64 {
    unsafe { sx_writes() }
}
pub fn jail(rel: &[u8]) {
    let p = at(rel);
    unsafe { sx_jail(p.as_ptr(), p.len()) }
}
pub fn escapes() -> u64 {
    unsafe { sx_escapes() }
}
pub fn time_advance(ms: u64) {
    unsafe { sx_time_advance(ms) }
}
pub fn heap_reset() -> u64 {
    unsafe { sx_heap_reset() }
}
/// bytes allocated now
pub fn heap_live() -> u64 {
    unsafe { sx_heap_live() }
}
/// descriptors open now
pub fn open_files() -> u64 {
    unsafe { sx_open_files() }
}
pub fn heap_peak() -> u64 {
    unsafe { sx_heap_peak() }
}
/// Runs every job on a thread of its own, with at most `preempt` forced switches at system calls
/// (every placement explored).
pub fn threads(preempt: u32, jobs: Vec<Box<dyn FnOnce()>>) {
    extern "C" fn tramp(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<Box<dyn FnOnce()>>)).take() };
        if let Some(f) = f {
            f()
        }
    }
    let mut slots: Vec<Option<Box<dyn FnOnce()>>> = jobs.into_iter().map(Some).collect();
    unsafe {
        let mut t = vec![];
        for s in slots.iter_mut() {
            t.push(sx_spawn(tramp, s as *mut _ as *mut u8));
        }
        sx_preempt(preempt);
        for t in t {
            sx_join(t);
        }
        sx_preempt(0);
    }
}
pub fn readdir_reversed(on: bool) {
    unsafe { sx_readdir_rev(on as u32) }
}
/// splits paths so that the value is concrete on each
pub fn concrete(v: u64) -> u64 {
    unsafe { sx_concrete(v) }
}
pub fn concrete_bytes(v: &mut [u8]) {
    unsafe { sx_concrete_bytes(v.as_mut_ptr(), v.len()) }
}
/// instruction budget of one path and largest single allocation before a hang / allocation report
pub fn limits(steps: u64, alloc: u64) {
    unsafe { sx_limits(steps, alloc) }
}
/// depth of this run: 0 quick, 1 thorough
pub fn deep() -> bool {
    unsafe { sx_param() > 0 }
}
/// `q` in a quick run, `t` in a thorough one
pub fn by(q: usize, t: usize) -> usize {
    if deep() {
        t
    } else {
        q
    }
}
