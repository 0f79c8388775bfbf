//! Builders of repository files, written from git's format documents and independent of rusty-git.
#![allow(dead_code)]
use super::rt::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::repository::Repository;

pub fn mkrepo() {
    for d in [&b".git"[..], b".git/objects", b".git/objects/pack", b".git/refs", b".git/refs/heads", b".git/refs/tags", b".git/refs/remotes"] {
        mkdir(d)
    }
}
pub fn open() -> Repository {
    match Repository::open(atp(b"")) {
        Ok(r) => r,
        Err(_) => {
            check(false, "opening a repository that has a .git directory failed");
            loop {}
        }
    }
}
pub fn hex(b: &[u8]) -> Vec<u8> {
    let d = b"0123456789abcdef";
    let mut v = Vec::with_capacity(b.len() * 2);
    for x in b {
        v.push(d[(x >> 4) as usize]);
        v.push(d[(x & 15) as usize]);
    }
    v
}
/// zlib stream made of stored blocks of at most `block` bytes
pub fn zlib_blocks(data: &[u8], block: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(data.len() + 16);
    v.extend_from_slice(&[0x78, 0x01]);
    let mut i = 0;
    loop {
        let n = (data.len() - i).min(block);
        let last = i + n == data.len();
        v.push(last as u8);
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend_from_slice(&(!(n as u16)).to_le_bytes());
        v.extend_from_slice(&data[i..i + n]);
        i += n;
        if last {
            break;
        }
    }
    v.extend_from_slice(&adler(data).to_be_bytes());
    v
}
pub fn zlib(data: &[u8]) -> Vec<u8> {
    zlib_blocks(data, 65535)
}
/// zlib stream that repeats one concrete byte `n` (>= 260) times, far smaller than its output
/// (a fixed-Huffman block: one literal, then matches of length 258 at distance 1)
pub fn zlib_run(byte: u8, n: usize) -> Vec<u8> {
    zlib_run_after(b"", byte, n)
}
/// the same with concrete literal bytes in front
pub fn zlib_run_after(head: &[u8], byte: u8, n: usize) -> Vec<u8> {
    struct W(Vec<u8>, u32, u32);
    impl W {
        fn bits(&mut self, v: u32, n: u32) {
            self.1 |= v << self.2;
            self.2 += n;
            while self.2 >= 8 {
                self.0.push(self.1 as u8);
                self.1 >>= 8;
                self.2 -= 8;
            }
        }
        fn code(&mut self, v: u32, n: u32) {
            for i in (0..n).rev() {
                self.bits(v >> i & 1, 1)
            }
        }
        fn lit(&mut self, b: u8) {
            if b < 144 {
                self.code(0x30 + b as u32, 8)
            } else {
                self.code(0x190 + (b as u32 - 144), 9)
            }
        }
    }
    let mut w = W(vec![0x78, 0x01], 0, 0);
    w.bits(1, 1);
    w.bits(1, 2);
    for b in head {
        w.lit(*b)
    }
    w.lit(byte);
    let mut left = n - 1;
    while left >= 258 {
        w.code(0xc0 + (285 - 280), 8);
        w.code(0, 5);
        left -= 258
    }
    for _ in 0..left {
        w.lit(byte)
    }
    w.code(0, 7);
    if w.2 > 0 {
        let k = 8 - w.2;
        w.bits(0, k)
    }
    let a = adler(&[head.to_vec(), vec![byte; n]].concat());
    w.0.extend_from_slice(&a.to_be_bytes());
    w.0
}
pub fn dec(n: u64) -> Vec<u8> {
    dec128(n as u128)
}
pub fn dec128(mut n: u128) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    v
}
pub fn framed(kind: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = kind.to_vec();
    v.push(b' ');
    v.extend_from_slice(&dec(body.len() as u64));
    v.push(0);
    v.extend_from_slice(body);
    v
}
pub fn loose_path(id: &[u8; 20]) -> Vec<u8> {
    let h = hex(id);
    let mut p = b".git/objects/".to_vec();
    p.extend_from_slice(&h[..2]);
    p.push(b'/');
    p.extend_from_slice(&h[2..]);
    p
}
pub fn loose_dir(id: &[u8; 20]) -> Vec<u8> {
    let mut p = loose_path(id);
    p.truncate(15);
    p
}
/// store raw file content under an id in the loose store
pub fn put_loose_raw(id: &[u8; 20], file: &[u8]) {
    let d = loose_dir(id);
    if !exists(&d) {
        mkdir(&d)
    }
    put(&loose_path(id), file)
}
pub fn put_loose(id: &[u8; 20], kind: &[u8], body: &[u8]) {
    put_loose_raw(id, &zlib(&framed(kind, body)))
}
pub const KINDS: [&[u8]; 5] = [b"", b"commit", b"tree", b"blob", b"tag"];
pub const COMMIT: u8 = 1;
pub const TREE: u8 = 2;
pub const BLOB: u8 = 3;
pub const TAG: u8 = 4;
pub const OFS: u8 = 6;
pub const REF: u8 = 7;

pub fn fake_id(first: u8, n: u8) -> [u8; 20] {
    let mut id = [n; 20];
    id[0] = first;
    id
}

// ---- pack files ----------------------------------------------------------------------------------

/// header of a pack entry: type and size
pub fn entry_header(kind: u8, size: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut b = kind << 4 | (size & 15) as u8;
    let mut s = size >> 4;
    while s > 0 {
        v.push(b | 0x80);
        b = (s & 0x7f) as u8;
        s >>= 7;
    }
    v.push(b);
    v
}
/// distance to the base of an ofs-delta, git's encoding (each continuation adds one)
pub fn ofs_encode(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    while n >= 0x80 {
        n = (n >> 7) - 1;
        v.push(0x80 | (n & 0x7f) as u8)
    }
    v.reverse();
    v
}
pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80)
    }
}
/// a copy instruction with only the operand bytes that are not zero
pub fn copy_op(off: u64, len: u64) -> Vec<u8> {
    let mut v = vec![0x80];
    for i in 0..4 {
        let b = (off >> (8 * i)) as u8;
        if b != 0 {
            v[0] |= 1 << i;
            v.push(b)
        }
    }
    let l = if len == 0x10000 { 0 } else { len };
    for i in 0..3 {
        let b = (l >> (8 * i)) as u8;
        if b != 0 {
            v[0] |= 0x10 << i;
            v.push(b)
        }
    }
    v
}
pub fn insert_op(data: &[u8]) -> Vec<u8> {
    let mut v = vec![data.len() as u8];
    v.extend_from_slice(data);
    v
}
pub fn delta(base_len: u64, result_len: u64, ops: &[Vec<u8>]) -> Vec<u8> {
    let mut v = varint(base_len);
    v.extend_from_slice(&varint(result_len));
    for o in ops {
        v.extend_from_slice(o)
    }
    v
}

pub struct Pack {
    pub bytes: Vec<u8>,
    pub ents: Vec<([u8; 20], u64)>,
}
impl Pack {
    pub fn new() -> Pack {
        Pack { bytes: b"PACK\0\0\0\x02\0\0\0\0".to_vec(), ents: vec![] }
    }
    pub fn here(&self) -> u64 {
        self.bytes.len() as u64
    }
    pub fn raw(&mut self, id: [u8; 20], b: &[u8]) -> u64 {
        let o = self.here();
        self.bytes.extend_from_slice(b);
        self.ents.push((id, o));
        o
    }
    pub fn whole(&mut self, id: [u8; 20], kind: u8, data: &[u8]) -> u64 {
        let mut b = entry_header(kind, data.len() as u64);
        b.extend_from_slice(&zlib(data));
        self.raw(id, &b)
    }
    pub fn ofs(&mut self, id: [u8; 20], base: u64, delta: &[u8]) -> u64 {
        let mut b = entry_header(OFS, delta.len() as u64);
        b.extend_from_slice(&ofs_encode(self.here() - base));
        b.extend_from_slice(&zlib(delta));
        self.raw(id, &b)
    }
    pub fn refd(&mut self, id: [u8; 20], base: &[u8; 20], delta: &[u8]) -> u64 {
        let mut b = entry_header(REF, delta.len() as u64);
        b.extend_from_slice(base);
        b.extend_from_slice(&zlib(delta));
        self.raw(id, &b)
    }
    /// object count and trailing checksum filled in
    pub fn finish(&self) -> Vec<u8> {
        let mut v = self.bytes.clone();
        v[8..12].copy_from_slice(&(self.ents.len() as u32).to_be_bytes());
        let t = trailer(&v);
        v.extend_from_slice(&t);
        v
    }
    pub fn sum(&self) -> [u8; 20] {
        let f = self.finish();
        let mut t = [0; 20];
        t.copy_from_slice(&f[f.len() - 20..]);
        t
    }
    pub fn idx(&self, version: u32) -> Vec<u8> {
        idx(version, &self.ents, &self.sum(), &[])
    }
    /// writes objects/pack/pack-NAME.{pack,idx}
    pub fn store(&self, name: &[u8], version: u32) {
        put(&pack_path(name, b"pack"), &self.finish());
        put(&pack_path(name, b"idx"), &self.idx(version));
    }
}
/// Checksum that ends a pack: its SHA-1. On symbolic content the engine's ideal hash.
pub fn trailer(v: &[u8]) -> [u8; 20] {
    digest(v)
}
pub fn pack_path(name: &[u8], ext: &[u8]) -> Vec<u8> {
    let mut p = b".git/objects/pack/pack-".to_vec();
    p.extend_from_slice(name);
    p.push(b'.');
    p.extend_from_slice(ext);
    p
}
fn less(a: &[u8; 20], b: &[u8; 20]) -> bool {
    for i in 0..20 {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
/// Pack index. `wide`: positions (in sorted order) whose offset is stored in the 64-bit table.
pub fn idx(version: u32, ents: &[([u8; 20], u64)], pack_sum: &[u8; 20], wide: &[usize]) -> Vec<u8> {
    let mut e: Vec<([u8; 20], u64)> = vec![];
    for x in ents {
        let mut i = e.len();
        while i > 0 && less(&x.0, &e[i - 1].0) {
            i -= 1
        }
        e.insert(i, *x)
    }
    idx_sorted(version, &e, pack_sum, wide)
}
pub fn idx_sorted(version: u32, e: &[([u8; 20], u64)], pack_sum: &[u8; 20], wide: &[usize]) -> Vec<u8> {
    let mut v = vec![];
    if version == 2 {
        v.extend_from_slice(b"\xfftOc\0\0\0\x02")
    }
    let mut k = 0u32;
    for b in 0..256u32 {
        while (k as usize) < e.len() && e[k as usize].0[0] as u32 == b {
            k += 1
        }
        v.extend_from_slice(&k.to_be_bytes())
    }
    if version == 1 {
        for (id, o) in e {
            v.extend_from_slice(&(*o as u32).to_be_bytes());
            v.extend_from_slice(id)
        }
    } else {
        for (id, _) in e {
            v.extend_from_slice(id)
        }
        for _ in e {
            v.extend_from_slice(&[0; 4])
        }
        let mut big = vec![];
        for (i, (_, o)) in e.iter().enumerate() {
            if *o >= 1 << 31 || wide.contains(&i) {
                v.extend_from_slice(&(0x8000_0000u32 | (big.len() / 8) as u32).to_be_bytes());
                big.extend_from_slice(&o.to_be_bytes())
            } else {
                v.extend_from_slice(&(*o as u32).to_be_bytes())
            }
        }
        v.extend_from_slice(&big)
    }
    v.extend_from_slice(pack_sum);
    let t = trailer(&v);
    v.extend_from_slice(&t);
    v
}

// ---- what a lookup returned ----------------------------------------------------------------------

pub enum Got {
    /// a value of this type
    Obj(ObjectData),
    NotFound,
    Err,
}
pub fn look(r: &Repository, id: &[u8; 20]) -> Got {
    match r.object_database().parse_object(Id::from_bytes(id)) {
        Ok(o) => {
            check(eq(&id_bytes(o.id()), id), "the object returned carries another id than the one asked for");
            Got::Obj(o.data().clone())
        }
        Err(e) => {
            if e.is_not_found() {
                Got::NotFound
            } else {
                Got::Err
            }
        }
    }
}
pub fn id_bytes(id: &Id) -> Vec<u8> {
    // through the public hex form
    let h = id.to_hex();
    unhex(h.as_bytes())
}
pub fn unhex(h: &[u8]) -> Vec<u8> {
    let d = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
    h.chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
pub fn kind_of(d: &ObjectData) -> u8 {
    match d {
        ObjectData::Commit(_) => COMMIT,
        ObjectData::Tree(_) => TREE,
        ObjectData::Blob(_) => BLOB,
        ObjectData::Tag(_) => TAG,
    }
}

/// sizes at which programs tend to change their ways: 2^k - 1, 2^k and 2^k + 1 for k from `from` to `to`, and a few more
pub fn edge_size(from: usize, to: usize) -> usize {
    let n = 3 * (to - from + 1);
    match choice(n + 6) {
        k if k < n => (1 << (from + k / 3)) + k % 3 - 1,
        k => [1000, 10_000, 40_000, 48 << 10, 96 << 10, 100_000][k - n],
    }
}

// ---- texts that mean something to git or to editors ---------------------------------------------------------------

/// texts with a meaning somewhere: as object contents and messages they are bytes like any others
pub const WORDS: &[&[u8]] = &[
    b"",
    b"\n",
    b"\n\n\n",
    b" ",
    b"\t\n ",
    b"\0",
    b"a\0b\0",
    b"\r\n",
    b"line\r\nline\r\n",
    b"\r",
    b"\x1a",
    b"\xef\xbb\xbfbom\n",
    b"\xff\xfeu\0t\0f\0",
    b"\xfe\xff\0u",
    b"caf\xc3\xa9 na\xc3\xafve \xf0\x9f\x8e\x89\n",
    b"caf\xe9\xe8\x80\n",
    b"\xed\xa0\x80\xc0\x80\xff",
    b"# comment\nnot a comment\n",
    b"subject\n\nbody\n\nSigned-off-by: A U Thor <a@b.c>\n",
    b"fixup! subject\n",
    b"m\n-----BEGIN PGP SIGNATURE-----\n\niQEz\n=abcd\n-----END PGP SIGNATURE-----\n",
    b"-----BEGIN SSH SIGNATURE-----\nU1NI\n-----END SSH SIGNATURE-----\n",
    b"-----BEGIN PGP MESSAGE-----\n",
    b"-----BEGIN SIGNED MESSAGE-----\n",
    b"tree 0123456789012345678901234567890123456789\n",
    b"parent 0123456789012345678901234567890123456789\n",
    b"author X Y <x@y> 1 +0000\ncommitter X Y <x@y> 1 +0000\n",
    b"encoding UTF-16\n\nm\n",
    b"gpgsig -----BEGIN\n x\n",
    b"object 0123456789012345678901234567890123456789\ntype tree\ntag t\ntagger X <y> 1 +0000\n\nm",
    b"blob 3\0abc",
    b"commit 0\0",
    b"PACK\0\0\0\x02\0\0\0\0",
    b"\xfftOc\0\0\0\x02",
    b"DIRC\0\0\0\x02",
    b"# v2 git bundle\n",
    b"\x78\x01\x03\0\0\0\0\x01",
    b"\x78\x9c",
    b"\x1f\x8b\x08\0",
    b"ref: refs/heads/main\n",
    b"0123456789012345678901234567890123456789\n",
    b"0000000000000000000000000000000000000000",
    b"diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n",
    b"------------------------ >8 ------------------------\nbelow\n",
    b"From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\n",
    b"<<<<<<< HEAD\n=======\n>>>>>>> x\n",
    b"$Id$ $Id: 0123 $\n",
    b"version https://git-lfs.github.com/spec/v1\noid sha256:00\nsize 1\n",
    b"100644 name\0aaaaaaaaaaaaaaaaaaaa",
    b"trailing blanks  \t \n\n\n",
    b"no newline at end",
    b"\x1b[31mred\x1b[0m",
    b"%s%n%d{}{:?}\\0\\n",
];
/// one of the texts, with nothing, or one arbitrary byte in front or behind
pub fn word() -> Vec<u8> {
    let w = WORDS[choice(WORDS.len())].to_vec();
    match choice(3) {
        0 => w,
        1 => [&[any_u8()][..], &w].concat(),
        _ => [&w[..], &[any_u8()]].concat(),
    }
}

/// names of folders that mean something elsewhere, or that are not text
pub const PLACES: &[&[u8]] = &[
    b"plain", b"a b", b"x.idx", b"pack-1.idx", b"x.idx.pack/y.idx", b"x.pack", b"refs", b"refs/heads", b"a/refs/heads/b", b"objects", b"objects/pack", b"x.git", b"d/.git", b"HEAD", b"ab", b"00", b"\xff\xfe", b"caf\xc3\xa9", b"a\nb", b"-x", b".hidden", b"..x", b"tmp_obj_x",
    b"a\\b", b"#c", b"x.lock", b"a:b", b"info", b"pack", b"*?[", b"refs/tags/objects/info/refs",
];
/// moves the repository into such a folder, and opens it there by one of the spellings of its path; the folder's name
pub fn moved() -> (Vec<u8>, Repository) {
    let place = PLACES[choice(by(24, PLACES.len()))].to_vec();
    let mut i = 0;
    while i <= place.len() {
        if i == place.len() || place[i] == b'/' {
            mkdir(&place[..i])
        }
        i += 1
    }
    rename(b".git", &[&place[..], b"/.git"].concat());
    let to = match choice(8) {
        0 => at(&place),
        1 => [at(&place), b"/".to_vec()].concat(),
        2 => [at(b"./"), place.clone(), b"//.".to_vec()].concat(),
        3 => place.clone(),
        4 => [&b"./"[..], &place, b"/"].concat(),
        5 => {
            mkdir(b"other");
            [&b"other/../"[..], &place].concat()
        }
        6 => {
            symlink(b"link.idx", &at(&place));
            at(b"link.idx")
        }
        _ => {
            symlink(b"refs-link", &place);
            b"refs-link".to_vec()
        }
    };
    use std::os::unix::ffi::OsStringExt;
    match Repository::open(std::path::PathBuf::from(std::ffi::OsString::from_vec(to))) {
        Ok(r) => (place, r),
        Err(_) => {
            check(false, "opening a repository that has a .git directory failed");
            loop {}
        }
    }
}
