//! C13: packs and indexes that do not fit
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;

const N: usize = 3;
fn idn(k: usize) -> [u8; 20] {
    fake_id([0x00, 0x33, 0xff][k], k as u8 + 1)
}
fn body(k: usize) -> Vec<u8> {
    vec![b'o', k as u8]
}
fn pack() -> Pack {
    let mut p = Pack::new();
    for k in 0..N {
        p.whole(idn(k), BLOB, &body(k));
    }
    p
}
fn write(pk: &[u8], ix: &[u8]) -> Repository {
    mkrepo();
    put(&pack_path(b"x", b"pack"), pk);
    put(&pack_path(b"x", b"idx"), ix);
    open()
}
fn refused(r: &Repository, what: &str) {
    // every object, and once more (a refusal is not remembered as an empty pack)
    for k in [0, 2, 1, 0].iter() {
        check(!matches!(look(r, &idn(*k)), Got::Obj(_)), what);
    }
    cover("refused");
}
/// no object is returned, and the first lookup says so with an error
fn refused_with_error(r: &Repository, what: &str) {
    match look(r, &idn(1)) {
        Got::Err => (),
        Got::NotFound => check(false, "a malformed pack was passed over in silence"),
        Got::Obj(_) => check(false, what),
    }
    refused(r, what)
}
fn accepted(r: &Repository) {
    for k in 0..N {
        match look(r, &idn(k)) {
            Got::Obj(ObjectData::Blob(b)) => check(eq(b.data(), &body(k)), "an object of a well-formed pack has another content"),
            _ => check(false, "a well-formed pack was refused"),
        }
    }
    cover("accepted");
}

/// well-formed pairs: both index versions, both pack versions, 0 to 3 entries (also an empty pack beside a loose object)
pub fn well_formed() {
    let n = choice(N + 1);
    let mut p = Pack::new();
    for k in 0..n {
        p.whole(idn(k), BLOB, &body(k));
    }
    if choice(2) == 1 {
        p.bytes[7] = 3
    }
    let r = write(&p.finish(), &p.idx(1 + choice(2) as u32));
    put_loose(&fake_id(0x34, 0x34), b"blob", b"loose");
    for k in 0..N {
        match look(&r, &idn(k)) {
            Got::Obj(ObjectData::Blob(b)) => check(k < n && eq(b.data(), &body(k)), "an object of a well-formed pack has another content"),
            Got::NotFound => check(k >= n, "an object of a well-formed pack was not found"),
            _ => check(false, "a well-formed pack was refused"),
        }
    }
    check(matches!(look(&r, &fake_id(0x34, 0x34)), Got::Obj(_)), "a loose object beside a well-formed pack was not returned");
    cover("accepted");
}

/// the pack's signature and version arbitrary (4 bytes of either)
pub fn pack_header() {
    let p = pack();
    let mut f = p.finish();
    let at = [0, 4][choice(2)];
    let x = any(4);
    f[at..at + 4].copy_from_slice(&x);
    let ok = if at == 0 { eq(&x, b"PACK") } else { eq(&x, &[0, 0, 0, 2]) || eq(&x, &[0, 0, 0, 3]) };
    let r = write(&f, &p.idx(1 + choice(2) as u32));
    if ok {
        accepted(&r)
    } else {
        refused_with_error(&r, "an object was returned from a pack with a wrong signature or version")
    }
}

/// the pack's object count arbitrary
pub fn pack_count() {
    let p = pack();
    let mut f = p.finish();
    let x = any(4);
    f[8..12].copy_from_slice(&x);
    let r = write(&f, &p.idx(1 + choice(2) as u32));
    if eq(&x, &[0, 0, 0, N as u8]) {
        accepted(&r)
    } else {
        refused_with_error(&r, "an object was returned from a pack whose object count differs from its index")
    }
}

/// the index's signature and version arbitrary
pub fn index_header() {
    let p = pack();
    let mut x = p.idx(2);
    let b = any(4);
    let at = [0, 4][choice(2)];
    x[at..at + 4].copy_from_slice(&b);
    let ok = if at == 0 { eq(&b, b"\xfftOc") } else { eq(&b, &[0, 0, 0, 2]) };
    let r = write(&p.finish(), &x);
    if ok {
        accepted(&r)
    } else {
        refused_with_error(&r, "an object was returned through an index with a wrong signature or version")
    }
}

/// one entry of the fan-out table arbitrary: any of eight (deep: 256) places, all 32 bits
pub fn fan_out() {
    let v = 1 + choice(2) as u32;
    let p = pack();
    let mut x = p.idx(v);
    let k = if deep() { choice(256) } else { [0usize, 1, 50, 51, 52, 100, 254, 255][choice(8)] };
    let at = (v as usize - 1) * 8 + 4 * k;
    let b = any(4);
    let small = b[0] == 0 && b[1] == 0 && b[2] == 0;
    let old = x[at + 3];
    let prev = if k == 0 { 0 } else { x[at - 1] };
    let next = if k == 255 { 0 } else { x[at + 7] };
    x[at..at + 4].copy_from_slice(&b);
    let r = write(&p.finish(), &x);
    let unchanged = small && b[3] == old;
    let monotonic = small && b[3] >= prev && (k == 255 || b[3] <= next);
    if unchanged {
        accepted(&r)
    } else if !monotonic || k == 255 {
        refused_with_error(&r, "an object was returned through an index whose fan-out table is wrong")
    } else {
        // in order but not true to the ids: whatever is found must be the object asked for
        for k in 0..N {
            if let Got::Obj(d) = look(&r, &idn(k)) {
                match d {
                    ObjectData::Blob(d) => check(eq(d.data(), &body(k)), "another object was returned than the one asked for"),
                    _ => check(false, "a blob was returned as an object of another type"),
                }
            }
        }
        cover("misplaced");
    }
}

/// the fan-out claims more entries than the file holds: all entries from some place on raised to an arbitrary count
pub fn too_many() {
    let v = 1 + choice(2) as u32;
    let p = pack();
    let mut x = p.idx(v);
    let from = [0usize, 128, 255][choice(3)];
    let c = any(4);
    assume(!eq(&c, &[0, 0, 0, N as u8]));
    for k in from..256 {
        let at = (v as usize - 1) * 8 + 4 * k;
        x[at..at + 4].copy_from_slice(&c)
    }
    let mut f = p.finish();
    if choice(2) == 1 {
        f[8..12].copy_from_slice(&c)
    }
    let r = write(&f, &x);
    refused_with_error(&r, "an object was returned through an index whose table is longer or shorter than the file")
}

/// the pack's checksum: all 20 bytes arbitrary in the index (or in the pack)
pub fn checksum() {
    let v = 1 + choice(2) as u32;
    let p = pack();
    let (mut f, mut x) = (p.finish(), p.idx(v));
    let s = any(20);
    let ok = eq(&s, &p.sum());
    if choice(2) == 0 {
        let at = x.len() - 40;
        x[at..at + 20].copy_from_slice(&s)
    } else {
        let at = f.len() - 20;
        f[at..].copy_from_slice(&s)
    }
    let r = write(&f, &x);
    if ok {
        accepted(&r)
    } else {
        refused_with_error(&r, "an object was returned from a pack whose checksum differs from the one in its index")
    }
}

/// the index cut at every byte, or with up to 24 more bytes in front of or behind its checksums (version 2 may have
/// whole 64-bit offsets there)
pub fn index_length() {
    let v = 1 + choice(2) as u32;
    let p = pack();
    let x = p.idx(v);
    if choice(2) == 0 {
        let n = choice(x.len());
        let r = write(&p.finish(), &x[..n]);
        refused_with_error(&r, "an object was returned through an index that is cut short")
    } else {
        let more = 1 + choice(24);
        let mut y = x.clone();
        let at = x.len() - 40;
        for _ in 0..more {
            y.insert(at, 0)
        }
        let r = write(&p.finish(), &y);
        if v == 2 && more % 8 == 0 && more / 8 < N {
            accepted(&r)
        } else {
            refused_with_error(&r, "an object was returned through an index of a wrong length")
        }
    }
}

/// the pack cut at every byte, or followed by up to 20 bytes
pub fn pack_length() {
    let p = pack();
    let mut f = p.finish();
    if choice(2) == 0 {
        let n = choice(f.len());
        f.truncate(n);
    } else {
        let n = 1 + choice(20);
        f.extend_from_slice(&[0x11; 20][..n])
    }
    let r = write(&f, &p.idx(1 + choice(2) as u32));
    refused_with_error(&r, "an object was returned from a pack that is cut short or followed by other data")
}

/// a pack under the index of another pack: other ids, other counts, same counts
pub fn swapped() {
    let p = pack();
    let mut q = Pack::new();
    let n = 2 + choice(2);
    for k in 0..n {
        q.whole(idn(k), BLOB, b"other");
    }
    let r = write(&q.finish(), &p.idx(1 + choice(2) as u32));
    refused_with_error(&r, "an object was returned from a pack that its index does not belong to")
}

/// 64-bit offsets: an arbitrary reference into the table of one entry
pub fn offset_reference() {
    let p = pack();
    let mut x = idx(2, &p.ents, &p.sum(), &[1]);
    let at = 8 + 1024 + 24 * N + 4;
    let b = any(4);
    assume(b[0] >= 0x80);
    x[at..at + 4].copy_from_slice(&b);
    let r = write(&p.finish(), &x);
    match look(&r, &idn(1)) {
        Got::Obj(ObjectData::Blob(d)) => {
            check(eq(&b, &[0x80, 0, 0, 0]), "an object was returned for an offset that is not in the table");
            check(eq(d.data(), &body(1)), "an object of a well-formed pack has another content");
            cover("accepted");
        }
        Got::Obj(_) => check(false, "a blob was returned as an object of another type"),
        Got::NotFound => check(false, "an object whose offset is not in the table was passed over in silence"),
        Got::Err => {
            check(!eq(&b, &[0x80, 0, 0, 0]), "a well-formed index was refused");
            cover("refused");
        }
    }
    match look(&r, &idn(0)) {
        Got::Obj(_) => (),
        _ => check(false, "an entry beside a malformed one was refused"),
    }
}

/// well-formed pairs of 0 to 3 entries in both versions, whose index has one arbitrary byte (deep: two) in the pack's
/// checksum, or the pack in its own, or the pack says one object more or less; or another pack of as many objects, or one
/// more or less, lies under the index: whatever the first lookup is for
pub fn small_pairs() {
    let n = choice(N + 1);
    let mut p = Pack::new();
    for k in 0..n {
        p.whole(idn(k), BLOB, &body(k));
    }
    if choice(2) == 1 {
        p.bytes[7] = 3
    }
    let (mut f, mut x) = (p.finish(), p.idx(1 + choice(2) as u32));
    let mut ok = false;
    match choice(5) {
        0 => {
            let (i, at) = ([0, 1, 10, 19][choice(4)], x.len() - 40);
            let c = any_u8();
            ok = x[at + i] == c;
            x[at + i] = c
        }
        1 => {
            let (i, at) = ([0, 1, 10, 19][choice(4)], f.len() - 20);
            let c = any_u8();
            ok = f[at + i] == c;
            f[at + i] = c
        }
        2 => f[11] += 1,
        3 => {
            assume(n > 0);
            f[11] -= 1
        }
        _ => {
            let m = choice(N + 1);
            let mut q = Pack::new();
            for k in 0..m {
                q.whole(idn(k), BLOB, b"another");
            }
            let g = q.finish();
            ok = n == 0 && m == 0 && eq(&f, &g);
            f = g
        }
    }
    let r = write(&f, &x);
    let first = choice(N);
    match look(&r, &idn(first)) {
        Got::Obj(ObjectData::Blob(b)) => check(ok && first < n && eq(b.data(), &body(first)), "an object was returned from a pack that does not belong to its index"),
        Got::Obj(_) => check(false, "a blob was returned as an object of another type"),
        Got::NotFound => check(ok && first >= n, "a pack that does not belong to its index was passed over in silence"),
        Got::Err => check(!ok, "a well-formed pack was refused"),
    }
    if ok {
        cover("accepted")
    } else {
        refused(&r, "an object was returned from a pack that does not belong to its index");
    }
}
