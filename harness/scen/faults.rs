//! C16: split, interrupted and failing reads
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::reference::ReferenceTarget;
use rusty_git::repository::Repository;
use std::io::Read;

const ID: [u8; 20] = [0x6e; 20];
const BASE: [u8; 20] = [0x21; 20];

/// what a fault-free reader sees
enum Want<'a> {
    Blob(&'a [u8]),
    Kind(u8),
}
/// `errors`: an error is acceptable too. Returns whether the object came back.
fn read(r: &Repository, id: &[u8; 20], want: &Want, errors: bool) -> bool {
    match look(r, id) {
        Got::Obj(d) => {
            match (want, &d) {
                (Want::Blob(w), ObjectData::Blob(b)) => {
                    check(b.data().len() == w.len(), "an object read with faults has another length");
                    check(eq(b.data(), w), "an object read with faults has another content")
                }
                (Want::Kind(k), d) => check(kind_of(d) == *k, "an object read with faults has another type"),
                _ => check(false, "an object read with faults has another type"),
            }
            true
        }
        Got::NotFound => {
            check(false, "an existing object was reported as not found because of a fault");
            false
        }
        Got::Err => {
            check(errors, "splitting or interrupting reads made an object unreadable");
            false
        }
    }
}
/// how reads are disturbed without failing
fn disturb() {
    match choice(by(8, 9)) {
        0 => faults(SHORT_READ | EINTR, by(2, 3) as u32),
        1 => faults(ONE_BYTE, 0),
        2 => faults(SEVEN_BYTES, 0),
        3 => faults(EVERY_EINTR, 0),
        4 => faults(EVERY_EINTR | ONE_BYTE, 0),
        5 => faults(EVERY_EINTR | SEVEN_BYTES, 0),
        6 => faults(MANY_EINTR, 0),
        7 => faults(MANY_EINTR | SEVEN_BYTES, 0),
        _ => faults(EINTR | SEVEN_BYTES, 3),
    }
}
fn fail() {
    faults(READ_ERR | OPEN_ERR | SHORT_READ | EINTR, by(2, 3) as u32)
}
fn body(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => any(3),
        2 => {
            let mut b = big(300, 9);
            b[299] = any_u8();
            b
        }
        3 => {
            let mut b = big(9000, 9);
            b[8999] = any_u8();
            b
        }
        _ => {
            let mut b = big(70_000, 9);
            b[0] = any_u8();
            b
        }
    }
}
/// the ways an object of this content is stored: loose, loose in many blocks, packed, packed in many blocks, a delta,
/// a chain of two deltas by distance and by id
fn store(how: usize, b: &[u8]) {
    mkrepo();
    if how < 2 {
        put_loose_raw(&ID, &zlib_blocks(&framed(b"blob", b), if how == 0 { 65535 } else { (b.len() / 5).max(2) }));
        return;
    }
    let mut p = Pack::new();
    p.whole(fake_id(1, 1), BLOB, b"before");
    if how < 4 {
        let mut e = entry_header(BLOB, b.len() as u64);
        e.extend_from_slice(&zlib_blocks(b, if how == 2 { 65535 } else { (b.len() / 5).max(2) }));
        p.raw(ID, &e);
    } else {
        let h = b.len() / 2;
        let o = p.whole(BASE, BLOB, &b[..h]);
        let mut ops = vec![];
        if h > 0 {
            ops.push(copy_op(0, h as u64))
        }
        for c in b[h..].chunks(127) {
            ops.push(insert_op(c))
        }
        let d = delta(h as u64, b.len() as u64, &ops);
        if how == 4 {
            p.ofs(ID, o, &d);
        } else {
            p.ofs(fake_id(0x30, 3), o, &d);
            p.refd(ID, &fake_id(0x30, 3), &delta(b.len() as u64, b.len() as u64, &if b.is_empty() { vec![] } else if b.len() > 0xff_ffff { vec![] } else { vec![copy_op(0, b.len() as u64)] }));
        }
    }
    p.whole(fake_id(0xf1, 1), BLOB, b"after");
    p.store(b"p", 2);
}

/// a loose object of 0, 3, 300 or 9000 (deep: 70 000) bytes, the last one arbitrary, in one block or several; reads split at
/// two points in three ways or interrupted (deep: three points), all of one byte, all of seven, every one
/// interrupted once or 20 times
pub fn split_loose() {
    let b = body(choice(by(4, 5)));
    store(choice(2), &b);
    let r = open();
    disturb();
    read(&r, &ID, &Want::Blob(&b), false);
    faults(0, 0);
    cover("read");
}

/// the same for a packed object: whole, in blocks, as a delta, as a chain of two; then another object of the pack
pub fn split_packed() {
    let b = body(choice(by(3, 4)));
    store(2 + choice(4), &b);
    let r = open();
    disturb();
    read(&r, &ID, &Want::Blob(&b), false);
    read(&r, &fake_id(0xf1, 1), &Want::Blob(b"after"), false);
    faults(0, 0);
    read(&r, &fake_id(1, 1), &Want::Blob(b"before"), false);
    cover("read");
}

/// commits, trees and tags, loose or packed, and the raw reader
pub fn split_kinds() {
    mkrepo();
    let x = any_u8();
    let kind = [COMMIT, TREE, TAG][choice(3)];
    let b: Vec<u8> = match kind {
        COMMIT => [&b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\nm"[..], &[x]].concat(),
        TREE => [&b"100644 n\0"[..], &[0x99; 19], &[x]].concat(),
        _ => [&b"object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\n\nm"[..], &[x]].concat(),
    };
    let raw = choice(3);
    if raw == 2 {
        let mut p = Pack::new();
        p.whole(ID, kind, &b);
        p.store(b"p", 1);
    } else {
        put_loose(&ID, KINDS[kind as usize], &b)
    }
    let r = open();
    disturb();
    if raw == 1 {
        match r.object_database().read_object(Id::from_bytes(&ID)) {
            Ok(mut o) => {
                let mut v = vec![];
                check(o.reader().read_to_end(&mut v).is_ok(), "splitting or interrupting reads made an object unreadable");
                check(eq(&v, &framed(KINDS[kind as usize], &b)), "an object read with faults has another content");
            }
            Err(_) => check(false, "splitting or interrupting reads made an object unreadable"),
        }
        cover("raw");
    } else {
        read(&r, &ID, &Want::Kind(kind), false);
        cover("parsed");
    }
}

/// HEAD, a direct reference, one behind comments and one with a peeled id, read, followed and listed with disturbed reads
pub fn split_refs() {
    mkrepo();
    let b = any(1);
    put_loose(&ID, b"blob", &b);
    put(b".git/HEAD", b"ref: refs/heads/a\n");
    put(b".git/refs/heads/a", &[&hex(&ID)[..], b"\n"].concat());
    put(b".git/refs/tags/t", &[b"# comment\n\n", &hex(&ID)[..], b" refs/heads/a\n"].concat());
    let r = open();
    let db = r.reference_database();
    disturb();
    let f = match choice(3) {
        0 => db.head(),
        1 => db.reference(b"refs/heads/a"),
        _ => db.parse_reference(b"refs/tags/t"),
    };
    match f {
        Ok(f) => match f.peel(&r) {
            Ok(o) => match o.data() {
                ObjectData::Blob(d) => check(eq(d.data(), &b), "an object read with faults has another content"),
                _ => check(false, "an object read with faults has another type"),
            },
            Err(_) => check(false, "splitting or interrupting reads made a reference unreadable"),
        },
        Err(_) => check(false, "splitting or interrupting reads made a reference unreadable"),
    }
    check(db.reference_names().map_or(false, |v| v.len() == 2), "splitting or interrupting reads changed a listing");
    cover("peeled");
}

/// an error at any of the opens and reads, alone or with one (deep: two) more fault or split read, of a loose object: the object or an error, and
/// the object once the fault is gone
pub fn error_loose() {
    let b = body(choice(by(4, 5)));
    store(choice(2), &b);
    let r = open();
    fail();
    let ok = read(&r, &ID, &Want::Blob(&b), true);
    faults(0, 0);
    if choice(2) == 1 {
        time_advance(5000)
    }
    check(read(&r, &ID, &Want::Blob(&b), true), "an object cannot be read after a fault that has passed");
    if ok {
        cover("read")
    } else {
        cover("error")
    }
}

/// the same for a packed object, fresh or with another object of the pack read before
pub fn error_packed() {
    let b = body(choice(by(3, 4)));
    store(2 + choice(4), &b);
    let r = open();
    if choice(2) == 1 {
        read(&r, &fake_id(1, 1), &Want::Blob(b"before"), false);
    }
    fail();
    let ok = read(&r, &ID, &Want::Blob(&b), true);
    faults(0, 0);
    read(&r, &fake_id(0xf1, 1), &Want::Blob(b"after"), false);
    check(read(&r, &ID, &Want::Blob(&b), true), "an object cannot be read after a fault that has passed");
    if ok {
        cover("read")
    } else {
        cover("error")
    }
}

/// two packs and a loose object, an error anywhere while looking for any one of the three or for an id that none holds:
/// then it is not found or an error
pub fn error_search() {
    mkrepo();
    for k in 0..2u8 {
        let mut p = Pack::new();
        p.whole(fake_id(0x10 + k, 1), BLOB, &[k]);
        p.store(&[b'a' + k], 1 + k as u32)
    }
    put_loose(&fake_id(0x12, 1), b"blob", &[2]);
    readdir_reversed(choice(2) == 1);
    let r = open();
    fail();
    let k = choice(4) as u8;
    let id = fake_id(0x10 + k, 1);
    if k < 3 {
        if read(&r, &id, &Want::Blob(&[k]), true) {
            cover("found")
        } else {
            cover("error")
        }
    } else {
        check(!matches!(look(&r, &id), Got::Obj(_)), "an object was returned for an id that no store holds");
    }
    faults(0, 0);
    for k in 0..3u8 {
        check(read(&r, &fake_id(0x10 + k, 1), &Want::Blob(&[k]), true), "an object cannot be read after a fault that has passed")
    }
    check(matches!(look(&r, &fake_id(0x13, 1)), Got::NotFound), "an id that no store holds was not reported as not found");
}

/// commits and tags in packs and loose with an error anywhere
pub fn error_kinds() {
    mkrepo();
    let kind = [COMMIT, TREE, TAG][choice(3)];
    let b: Vec<u8> = match kind {
        COMMIT => b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\nm".to_vec(),
        TREE => [&b"100644 n\0"[..], &[0x99; 20]].concat(),
        _ => b"object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\n\nm".to_vec(),
    };
    let packed = choice(2) == 1;
    if packed {
        let mut p = Pack::new();
        p.whole(ID, kind, &b);
        p.store(b"p", 1);
    } else {
        put_loose_raw(&ID, &zlib_blocks(&framed(KINDS[kind as usize], &b), 10));
    }
    let r = open();
    fail();
    if choice(2) == 0 {
        read(&r, &ID, &Want::Kind(kind), true);
    } else {
        match r.object_database().read_object(Id::from_bytes(&ID)) {
            Ok(mut o) => {
                let mut v = vec![];
                if o.reader().read_to_end(&mut v).is_ok() {
                    let w = if packed { b.clone() } else { framed(KINDS[kind as usize], &b) };
                    check(eq(&v, &w), "an object read with faults has another content")
                }
            }
            Err(e) => check(!e.is_not_found(), "an existing object was reported as not found because of a fault"),
        }
    }
    faults(0, 0);
    check(read(&r, &ID, &Want::Kind(kind), true), "an object cannot be read after a fault that has passed");
    cover("read");
}

/// an error anywhere while a reference is read or followed: its target or an error other than not found
pub fn error_refs() {
    mkrepo();
    put_loose(&ID, b"blob", b"x");
    put(b".git/HEAD", b"ref: refs/heads/a\n");
    put(b".git/refs/heads/a", &[&hex(&ID)[..], b"\n"].concat());
    let r = open();
    let db = r.reference_database();
    fail();
    let head = choice(2) == 0;
    let f = if head { db.head() } else { db.reference(b"refs/heads/a") };
    match f {
        Ok(f) => {
            match f.target() {
                ReferenceTarget::Symbolic(s) => check(head && eq(s.data(), b"refs/heads/a"), "a reference read with faults names another target"),
                ReferenceTarget::Direct(_) => check(!head, "a reference read with faults names another target"),
            }
            match f.peel(&r) {
                Ok(o) => check(eq(&id_bytes(o.id()), &ID), "a reference read with faults names another object"),
                Err(rusty_git::reference::Error::ReferenceNotFound) => check(false, "an existing reference was reported as not found because of a fault"),
                Err(rusty_git::reference::Error::DereferencingFailed(e)) => check(!e.is_not_found(), "an existing object was reported as not found because of a fault"),
                Err(_) => (),
            }
            cover("read")
        }
        Err(rusty_git::reference::Error::ReferenceNotFound) => check(false, "an existing reference was reported as not found because of a fault"),
        Err(_) => cover("error"),
    }
    faults(0, 0);
    check(db.head().map_or(false, |f| f.peel(&r).is_ok()), "a reference cannot be read after a fault that has passed");
}

/// an error anywhere while the references are listed: all of them or an error
pub fn error_list() {
    mkrepo();
    mkdir(b".git/refs/heads/d");
    for n in [&b"heads/a"[..], b"heads/d/b", b"tags/t"].iter() {
        put(&[b".git/refs/", *n].concat(), b"x")
    }
    let r = open();
    let db = r.reference_database();
    fail();
    match choice(2) {
        0 => match db.reference_names() {
            Ok(v) => check(v.len() == 3, "a listing with an I/O error was returned as complete"),
            Err(_) => cover("error"),
        },
        _ => match db.head_reference_names() {
            Ok(v) => check(v.len() == 2, "a listing with an I/O error was returned as complete"),
            Err(_) => cover("error"),
        },
    }
    faults(0, 0);
    check(db.reference_names().map_or(false, |v| v.len() == 3), "references cannot be listed after a fault that has passed");
    cover("listed");
}

/// an error while a repository is opened: an error, not a missing repository
pub fn error_open() {
    mkrepo();
    put_loose(&ID, b"blob", b"x");
    fail();
    match Repository::open(atp(b"")) {
        Ok(r) => {
            faults(0, 0);
            read(&r, &ID, &Want::Blob(b"x"), false);
            cover("opened")
        }
        Err(rusty_git::repository::OpenError::NotFound(_)) => check(false, "an existing repository was reported as not found because of a fault"),
        Err(_) => cover("error"),
    }
}
