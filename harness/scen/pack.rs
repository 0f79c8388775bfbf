//! C10: whole objects in packs
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;

pub fn blob_is(r: &Repository, id: &[u8; 20], want: &[u8]) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(b.data().len() == want.len(), "a packed object has another length than recorded");
            check(eq(b.data(), want), "a packed object has another content than recorded")
        }
        Got::Obj(_) => check(false, "a packed blob was returned as an object of another type"),
        Got::NotFound => check(false, "a packed object was reported as not found"),
        Got::Err => check(false, "a well-formed packed object was refused"),
    }
}
const ID: [u8; 20] = [0x4d; 20];

/// stores one raw pack entry between two ordinary ones (or last) and the index for it
fn around(entry: &[u8], last: bool) {
    mkrepo();
    let mut p = Pack::new();
    p.whole(fake_id(1, 1), BLOB, b"before");
    p.raw(ID, entry);
    if !last {
        p.whole(fake_id(0xf1, 1), BLOB, b"after");
    }
    p.store(b"p", 2)
}

/// bodies of 0 to 3 (deep: 6) arbitrary bytes, compressed in one or several blocks, first, in the middle or last
pub fn small() {
    let b = any(choice(by(4, 7)));
    mkrepo();
    let at = choice(3);
    let mut p = Pack::new();
    for i in 0..3 {
        if i == at {
            let mut e = entry_header(BLOB, b.len() as u64);
            e.extend_from_slice(&zlib_blocks(&b, 1 + choice(2)));
            p.raw(ID, &e);
        } else {
            p.whole(fake_id(i as u8 * 100, 7), BLOB, &[b'x'; 20][..i * 10]);
        }
    }
    p.store(b"p", 1 + choice(2) as u32);
    let r = open();
    blob_is(&r, &ID, &b);
    blob_is(&r, &ID, &b);
    cover("read");
}

/// sizes around the size field's group boundaries and the buffers, up to 70 000 (deep: 300 000), stored and as one
/// highly compressed run, with one arbitrary byte
pub fn sizes() {
    let all = [1usize, 15, 16, 17, 127, 128, 2047, 2048, 4096, 8192, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 262143, 262144, 300000];
    let n = all[choice(by(16, 20))];
    let run = n >= 260 && choice(2) == 1;
    let (data, z) = if run {
        (vec![0x41; n], zlib_run(0x41, n))
    } else {
        let mut d = big(n, 5);
        let i = [0, n / 2, n - 1][choice(3)];
        d[i] = any_u8();
        let z = zlib_blocks(&d, if n > 40000 { [65535, 30000][choice(2)] } else { 65535 });
        (d, z)
    };
    let mut e = entry_header(BLOB, n as u64);
    e.extend_from_slice(&z);
    around(&e, choice(2) == 0);
    let r = open();
    if choice(2) == 1 {
        blob_is(&r, &fake_id(1, 1), b"before")
    }
    blob_is(&r, &ID, &data);
    blob_is(&r, &fake_id(1, 1), b"before");
    cover(if run { "run" } else { "stored" });
}

const TREE_HEX: &[u8] = b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\n";
const TAG_HEAD: &[u8] = b"object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\n\n";

fn typed(kind: u8, x: &[u8]) -> Vec<u8> {
    match kind {
        COMMIT => [TREE_HEX, x].concat(),
        TREE => [&b"100644 n\0"[..], &[0x99; 17], x].concat(),
        TAG => [TAG_HEAD, x].concat(),
        _ => x.to_vec(),
    }
}
/// all that is visible of an object
fn same_object(a: &ObjectData, b: &ObjectData) {
    match (a, b) {
        (ObjectData::Blob(a), ObjectData::Blob(b)) => check(eq(a.data(), b.data()), "a packed blob differs from the same blob stored loose"),
        (ObjectData::Commit(a), ObjectData::Commit(b)) => {
            check(a.tree() == b.tree() && eq(a.message(), b.message()) && eq(a.author().name(), b.author().name()), "a packed commit differs from the same commit stored loose")
        }
        (ObjectData::Tag(a), ObjectData::Tag(b)) => {
            check(a.object() == b.object() && eq(a.tag(), b.tag()) && eq(a.message().unwrap(), b.message().unwrap()), "a packed tag differs from the same tag stored loose")
        }
        (ObjectData::Tree(a), ObjectData::Tree(b)) => {
            let (x, y): (Vec<_>, Vec<_>) = (a.entries().collect(), b.entries().collect());
            check(x.len() == y.len(), "a packed tree differs from the same tree stored loose");
            for (p, q) in x.iter().zip(y.iter()) {
                check(p.mode() == q.mode() && eq(p.filename(), q.filename()) && p.id() == q.id(), "a packed tree differs from the same tree stored loose")
            }
        }
        _ => check(false, "a packed object has another type than recorded"),
    }
}

/// each type with three arbitrary bytes in its body: the type is the recorded one and the object equals the same one
/// stored loose; all four in one pack, read in any order of two
pub fn types() {
    let x = any(3);
    mkrepo();
    let mut p = Pack::new();
    for k in 1..5u8 {
        let b = typed(k, &x);
        p.whole(fake_id(k, k), k, &b);
        put_loose(&fake_id(k, 0x80 + k), KINDS[k as usize], &b)
    }
    p.store(b"p", 2);
    let r = open();
    let first = 1 + choice(4) as u8;
    let second = 1 + choice(4) as u8;
    for k in [first, second].iter() {
        match (look(&r, &fake_id(*k, *k)), look(&r, &fake_id(*k, 0x80 + k))) {
            (Got::Obj(a), Got::Obj(b)) => {
                check(kind_of(&a) == *k, "a packed object has another type than recorded");
                same_object(&a, &b)
            }
            _ => check(false, "a well-formed object was refused"),
        }
    }
    cover("typed");
}

/// the first byte of an entry arbitrary: type and low size bits; 5 bytes of data
pub fn type_any() {
    let h = any_u8();
    let mut e = vec![h];
    // a second byte, read only if the first says so
    let more = choice(2) == 1;
    if more {
        e.push(0)
    }
    assume(more == (h >= 0x80));
    e.extend_from_slice(&zlib(b"hello"));
    around(&e, choice(2) == 1);
    let r = open();
    let (kind, size) = (h >> 4 & 7, h & 15);
    match look(&r, &ID) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(kind == BLOB && size == 5, "an entry whose type or size does not match was accepted");
            check(eq(b.data(), b"hello"), "a packed object has another content than recorded");
            cover("blob");
        }
        Got::Obj(_) => check(false, "an entry whose data is not of its type was accepted"),
        Got::NotFound => check(false, "an existing object was reported as not found"),
        Got::Err => {
            // a size with a superfluous continuation may be refused
            check(more || kind != BLOB || size != 5, "a well-formed packed object was refused");
            cover("refused");
        }
    }
}

/// size fields of 1 to 3 groups with one arbitrary group and the others of the true size, zero or all ones, over 0, 5, 16
/// or 300 bytes of data
pub fn size_any() {
    let data = big([0usize, 5, 16, 300][choice(4)], 2);
    let n = 1 + choice(3);
    let want = entry_header(BLOB, data.len() as u64);
    let (at, fill) = (choice(n), choice(3));
    let mut h = vec![];
    for i in 0..n {
        let low = if i == 0 { 15 } else { 0x7f };
        let v = if i == at { any_u8() } else { [want.get(i).copied().unwrap_or(0), 0, 0xff][fill] };
        let keep = if i == 0 { BLOB << 4 } else { 0 };
        h.push((v & low) | keep | if i + 1 < n { 0x80 } else { 0 })
    }
    let mut e = h.clone();
    e.extend_from_slice(&zlib(&data));
    around(&e, false);
    // the encodings of the true size: git's, and those padded with zero groups
    let mut padded = want.clone();
    while padded.len() < n {
        let k = padded.len() - 1;
        padded[k] |= 0x80;
        padded.push(0)
    }
    let exact = n == want.len() && eq(&h, &want);
    let loose = n > want.len() && eq(&h, &padded);
    let r = open();
    match look(&r, &ID) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(exact || loose, "an entry whose size does not match its data was accepted");
            check(eq(b.data(), &data), "a packed object has another content than recorded");
            cover("read");
        }
        Got::Obj(_) => check(false, "a blob was returned as an object of another type"),
        Got::NotFound => check(false, "an existing object was reported as not found"),
        Got::Err => {
            check(!exact, "a well-formed packed object was refused");
            cover("refused");
        }
    }
}

/// sizes of 9 to 12 groups, the last two groups arbitrary: values that do not fit the machine, over data of their low bits
pub fn size_huge() {
    let n = 9 + choice(4);
    let mut e = vec![BLOB << 4 | 0x80 | 5];
    for _ in 1..n - 2 {
        e.push(0x80)
    }
    let (a, b) = (any_u8(), any_u8());
    assume(a >= 0x80);
    assume(b < 0x80);
    assume(a != 0x80 || b != 0);
    e.push(a);
    e.push(b);
    e.extend_from_slice(&zlib(b"hello"));
    around(&e, false);
    let r = open();
    check(matches!(look(&r, &ID), Got::Err), "an entry whose size does not match its data was accepted");
    cover("refused");
}

/// recorded sizes one to three off, or off by a power of two, for small and large data, stored and as a run
pub fn size_off() {
    let n = [1usize, 5, 300, 65536, 70000][choice(5)];
    let d: i64 = [-3, -2, -1, 1, 2, 3, 16, 256, -256, 1 << 16, 1 << 32][choice(11)];
    let s = n as i64 + d;
    assume(s >= 0);
    let mut e = entry_header(BLOB, s as u64);
    if n >= 300 && choice(2) == 1 {
        e.extend_from_slice(&zlib_run(7, n))
    } else {
        e.extend_from_slice(&zlib(&big(n, 3)))
    }
    around(&e, choice(2) == 1);
    let r = open();
    check(matches!(look(&r, &ID), Got::Err), "an entry whose size does not match its data was accepted");
    // and the neighbours are unharmed
    blob_is(&r, &fake_id(1, 1), b"before");
    cover("refused");
}

/// compressed data cut anywhere at the end of the pack (only the checksum follows)
pub fn cut() {
    let mut e = entry_header(BLOB, 30);
    let z = zlib_blocks(&[b'k'; 30], 11);
    let n = choice(z.len());
    // everything but (part of) the stream's own checksum
    assume(n < z.len() - 4);
    e.extend_from_slice(&z[..n]);
    around(&e, true);
    let r = open();
    check(!matches!(look(&r, &ID), Got::Obj(_)), "an entry whose data is cut short was accepted");
    cover("refused");
}

/// three objects of arbitrary content read in any order of three through one database, then again
pub fn orders() {
    let x = any(3);
    let bodies = [vec![x[0]], [&[b'-'; 4000][..], &[x[1]]].concat(), vec![x[2]; 2]];
    mkrepo();
    let mut p = Pack::new();
    for k in 0..3 {
        p.whole(fake_id(0x20 + k as u8, 3), BLOB, &bodies[k]);
    }
    p.store(b"p", 2);
    let r = open();
    for _ in 0..3 {
        let k = choice(3);
        blob_is(&r, &fake_id(0x20 + k as u8, 3), &bodies[k]);
    }
    cover("read");
}

/// an id that several packs and the loose store hold: the object is the same
pub fn duplicates() {
    let x = any(2);
    mkrepo();
    for k in 0..2u8 {
        let mut p = Pack::new();
        for j in 0..k {
            p.whole(fake_id(j, 9), BLOB, b"filler");
        }
        p.whole(ID, BLOB, &x);
        p.store(&[b'a' + k], 2)
    }
    if choice(2) == 1 {
        put_loose(&ID, b"blob", &x)
    }
    readdir_reversed(choice(2) == 1);
    let r = open();
    blob_is(&r, &ID, &x);
    cover("read");
}

/// objects of 100 000 to 1 048 577 (deep: 5 000 000) bytes, one of them arbitrary, stored, or one highly compressed run;
/// read twice, with another object in between
pub fn large() {
    let n = [100_000usize, 131_072, 200_000, 262_144, 500_000, 1_048_575, 1_048_576, 1_048_577, 5_000_000][choice(by(8, 9))];
    let run = choice(2) == 1;
    let (data, z) = if run {
        (vec![0x41; n], zlib_run(0x41, n))
    } else {
        let mut d = vec![0x42; n];
        let i = [0, n / 2, n - 1][choice(3)];
        d[i] = any_u8();
        let z = zlib(&d);
        (d, z)
    };
    let mut e = entry_header(BLOB, n as u64);
    e.extend_from_slice(&z);
    around(&e, choice(2) == 0);
    let r = open();
    blob_is(&r, &ID, &data);
    blob_is(&r, &fake_id(1, 1), b"before");
    blob_is(&r, &ID, &data);
    cover(if run { "run" } else { "stored" });
}

/// recorded sizes one off, for data of 255 to 131 073 (deep: 1 048 577) bytes around all powers of two, stored or as a run
pub fn size_one_off() {
    let n = edge_size(8, by(17, 20));
    let s = n - 1 + 2 * choice(2);
    let mut e = entry_header(BLOB, s as u64);
    if n >= 260 && choice(2) == 1 {
        e.extend_from_slice(&zlib_run(7, n))
    } else {
        e.extend_from_slice(&zlib(&vec![any_u8(); n]))
    }
    around(&e, choice(2) == 1);
    let r = open();
    check(matches!(look(&r, &ID), Got::Err), "an entry whose size does not match its data was accepted");
    blob_is(&r, &fake_id(1, 1), b"before");
    cover("refused");
}

/// data of 255 to 131 073 (deep: 1 048 577) bytes around all powers of two, stored or as a run, with an arbitrary last byte
pub fn edge_sizes() {
    let n = edge_size(8, by(17, 20));
    let mut e = entry_header(BLOB, n as u64);
    let mut d = vec![7; n];
    if n >= 260 && choice(2) == 1 {
        e.extend_from_slice(&zlib_run(7, n))
    } else {
        d[n - 1] = any_u8();
        e.extend_from_slice(&zlib(&d))
    }
    around(&e, choice(2) == 1);
    let r = open();
    blob_is(&r, &ID, &d);
    cover("read");
}

/// texts that mean something to git or to editors, with an arbitrary byte in front or behind, as blobs
pub fn words() {
    let b = word();
    let mut e = entry_header(BLOB, b.len() as u64);
    e.extend_from_slice(&zlib(&b));
    around(&e, choice(2) == 0);
    let r = open();
    blob_is(&r, &ID, &b);
    cover("read");
}
