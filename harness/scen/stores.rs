//! C14: which store an object is found in
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;

const X: [u8; 20] = [0x5a; 20];

fn filler(k: u8) -> [u8; 20] {
    fake_id(k, 0x11)
}
/// a pack that holds the given blobs between two others
fn pack_of(ids: &[([u8; 20], &[u8])], k: u8) -> Pack {
    let mut p = Pack::new();
    p.whole(filler(2 * k), BLOB, &[k; 9]);
    for (id, b) in ids {
        p.whole(*id, BLOB, b);
    }
    p.whole(filler(2 * k + 1), BLOB, b"z");
    p
}
fn found(r: &Repository, id: &[u8; 20], want: &[u8]) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => check(eq(b.data(), want), "an object has another content than its store holds"),
        Got::Obj(_) => check(false, "a blob was returned as an object of another type"),
        Got::NotFound => check(false, "an object that a store holds was reported as not found"),
        Got::Err => check(false, "an object that a store holds was refused"),
    }
}
fn missing(r: &Repository, id: &[u8; 20]) {
    match look(r, id) {
        Got::NotFound => (),
        Got::Obj(_) => check(false, "an object was returned for an id that no store holds"),
        Got::Err => check(false, "an id that no store holds gave another error than not found"),
    }
}
/// marks the database as refreshed just now, or not at all, or long ago
fn history(r: &Repository) {
    match choice(3) {
        0 => (),
        1 => missing(r, &fake_id(0xee, 0xee)),
        _ => {
            missing(r, &fake_id(0xee, 0xee));
            time_advance(5000)
        }
    }
}

/// an object in any subset of two packs and the loose store, in either listing order: found exactly when the subset
/// is not empty; twice; one byte of another id asked for is arbitrary
pub fn combinations() {
    let x = any(2);
    mkrepo();
    let mut any_store = false;
    for k in 0..2u8 {
        let has = choice(2) == 1;
        any_store |= has;
        if has {
            pack_of(&[(X, &x)], k).store(&[b'a' + k], 1 + k as u32)
        } else if choice(2) == 1 {
            pack_of(&[], k).store(&[b'a' + k], 1 + k as u32)
        }
    }
    if choice(2) == 1 {
        put_loose(&X, b"blob", &x);
        any_store = true
    }
    readdir_reversed(choice(2) == 1);
    let r = open();
    for _ in 0..2 {
        if any_store {
            found(&r, &X, &x);
            cover("found")
        } else {
            missing(&r, &X);
            cover("not found")
        }
    }
    let mut other = X;
    other[choice(2) * 19] = any_u8();
    assume(other[0] == 0x5a || other[0] > 3);
    assume(other != X);
    missing(&r, &other);
}

/// ids that differ in one byte (any position), one of them in a pack, one loose, one nowhere
pub fn siblings() {
    let x = any(2);
    mkrepo();
    let at = choice(20);
    let (mut a, mut b, mut c) = (X, X, X);
    a[at] = 0x59;
    b[at] = 0x5b;
    c[at] = [0x58, 0x5a, 0x5c][choice(3)];
    pack_of(&[(a, &x[..1])], 0).store(b"a", 2);
    put_loose(&b, b"blob", &x[1..]);
    let r = open();
    for _ in 0..3 {
        match choice(3) {
            0 => found(&r, &a, &x[..1]),
            1 => found(&r, &b, &x[1..]),
            _ => missing(&r, &c),
        }
    }
    cover("three");
}

/// a loose object is packed (pack, index, then the loose file removed) at any moments during a lookup, by a database
/// that is new, was just used or was used long ago
pub fn packed_meanwhile() {
    let x = any(1);
    mkrepo();
    put_loose(&X, b"blob", &x);
    if choice(2) == 1 {
        pack_of(&[], 0).store(b"a", 2)
    }
    let r = open();
    history(&r);
    let p = pack_of(&[(X, &x)], 1);
    env_put(&pack_path(b"n", b"pack"), &p.finish());
    env_put(&pack_path(b"n", b"idx"), &p.idx(2));
    env_remove(&loose_path(&X));
    readdir_reversed(choice(2) == 1);
    env_on(true);
    found(&r, &X, &x);
    env_on(false);
    found(&r, &X, &x);
    cover("found");
}

/// a pack is replaced by a new one (new pack, its index, old index and pack removed) at any moments during a lookup
pub fn repacked_meanwhile() {
    let x = any(1);
    mkrepo();
    let old = pack_of(&[(X, &x)], 0);
    old.store(b"m", 2);
    let r = open();
    match choice(3) {
        0 => (),
        1 => missing(&r, &fake_id(0xee, 0xee)),
        _ => found(&r, &X, &x),
    }
    let p = pack_of(&[(X, &x), (fake_id(0x77, 1), b"more")], 1);
    // sorted in front of or behind the old name
    let name = [&b"a"[..], b"z"][choice(2)];
    env_put(&pack_path(name, b"pack"), &p.finish());
    env_put(&pack_path(name, b"idx"), &p.idx(2));
    env_remove(&pack_path(b"m", b"idx"));
    env_remove(&pack_path(b"m", b"pack"));
    readdir_reversed(choice(2) == 1);
    env_on(true);
    found(&r, &X, &x);
    env_on(false);
    found(&r, &X, &x);
    cover("found");
}

/// a packed object is unpacked (loose file written, pack removed) at any moments during a lookup
pub fn unpacked_meanwhile() {
    let x = any(1);
    mkrepo();
    pack_of(&[(X, &x)], 0).store(b"m", 2);
    mkdir(&loose_dir(&X));
    let r = open();
    match choice(3) {
        0 => (),
        1 => missing(&r, &fake_id(0xee, 0xee)),
        _ => found(&r, &X, &x),
    }
    env_put(&loose_path(&X), &zlib(&framed(b"blob", &x)));
    env_remove(&pack_path(b"m", b"idx"));
    env_remove(&pack_path(b"m", b"pack"));
    env_on(true);
    found(&r, &X, &x);
    env_on(false);
    found(&r, &X, &x);
    cover("found");
}

/// up to three (deep: four) objects added one after the other, each loose or in a new pack, 0, 1, 2 or 5 seconds after
/// the last lookup; after each, all objects so far are found and the next is not
pub fn added_later() {
    let n = by(3, 4);
    let x = any(4);
    mkrepo();
    let id = |k: usize| fake_id(0x80 + k as u8, 5);
    let r = open();
    match choice(3) {
        0 => (),
        1 => missing(&r, &id(0)),
        _ => {
            pack_of(&[], 9).store(b"old", 2);
            found(&r, &filler(18), &[9; 9])
        }
    }
    for k in 0..n {
        let b = &x[k..k + 1];
        time_advance([0, 1000, 2000, 5000][choice(4)]);
        if choice(2) == 0 {
            put_loose(&id(k), b"blob", b)
        } else {
            pack_of(&[(id(k), b)], k as u8).store(&[b'p', b'0' + k as u8], 2)
        }
        for j in (0..=k).rev() {
            found(&r, &id(j), &x[j..j + 1])
        }
        missing(&r, &id(k + 1));
    }
    cover("all found");
}

/// a loose object removed is not found any more; a pack removed before it was opened neither; what remains in another
/// store is
pub fn removed() {
    let x = any(1);
    mkrepo();
    put_loose(&X, b"blob", &x);
    let also = choice(2) == 1;
    if also {
        pack_of(&[(X, &x)], 0).store(b"a", 2)
    }
    let gone = fake_id(0x99, 9);
    pack_of(&[(gone, b"gone")], 1).store(b"g", 2);
    let r = open();
    if choice(2) == 1 {
        // the folder is read before the pack is removed only when nothing else answers
        if !also {
            found(&r, &X, &x)
        }
        remove(&loose_path(&X));
    } else {
        remove(&loose_path(&X));
        remove(&pack_path(b"g", b"idx"));
        if choice(2) == 1 {
            remove(&pack_path(b"g", b"pack"))
        }
        missing(&r, &gone);
    }
    time_advance([0, 5000][choice(2)]);
    if also {
        found(&r, &X, &x);
        cover("elsewhere")
    } else {
        missing(&r, &X);
        cover("gone")
    }
}

/// any two of: an index without its pack, a pack without its index, temporary files, other kinds of files beside packs,
/// a subfolder; listed before or after the pack that holds the object
pub fn odd_files() {
    let x = any(1);
    mkrepo();
    pack_of(&[(X, &x)], 0).store(b"m", 2);
    let lost = fake_id(0x33, 3);
    let p = pack_of(&[(lost, b"lost")], 1);
    for _ in 0..2 {
        let before = choice(2) == 0;
        let n: &[u8] = if before { b"a" } else { b"z" };
        let path = |s: &[u8]| [b".git/objects/pack/", s].concat();
        match choice(7) {
            0 => put(&pack_path(n, b"idx"), &p.idx(2)),
            1 => put(&pack_path(n, b"pack"), &p.finish()),
            2 => put(&path(&[n, b"tmp_pack_x1"].concat()), b"PACK\0\0"),
            3 => put(&path(&[n, b"tmp_idx_x1"].concat()), b""),
            4 => put(&pack_path(n, b"keep"), b""),
            5 => put(&pack_path(n, b"rev"), b"RIDX"),
            _ => {
                let s = path(&[n, b"sub"].concat());
                if !exists(&s) {
                    mkdir(&s)
                }
            }
        }
    }
    // both halves by chance: then it is a pack like any other
    let whole = |n: &[u8]| exists(&pack_path(n, b"idx")) && exists(&pack_path(n, b"pack"));
    let has = whole(b"a") || whole(b"z");
    readdir_reversed(choice(2) == 1);
    let r = open();
    if choice(2) == 0 {
        missing(&r, &fake_id(0xee, 0xee))
    }
    if has {
        found(&r, &lost, b"lost");
        cover("complete")
    } else {
        missing(&r, &lost);
        cover("incomplete")
    }
    found(&r, &X, &x);
}

/// no objects folder, no pack folder, no folder of the id's first byte: not found, and found once it exists
pub fn no_folders() {
    let x = any(1);
    mkdir(b".git");
    let level = choice(4);
    if level > 0 {
        mkdir(b".git/objects")
    }
    if level > 1 {
        mkdir(b".git/objects/pack")
    }
    if level > 2 {
        mkdir(&loose_dir(&X))
    }
    let r = open();
    for _ in 0..choice(3) {
        missing(&r, &X)
    }
    for (l, d) in [(1, &b".git/objects"[..]), (2, b".git/objects/pack")].iter() {
        if level < *l && !(*l == 2 && choice(2) == 0) {
            mkdir(d)
        }
    }
    time_advance([0, 5000][choice(2)]);
    if exists(b".git/objects/pack") && choice(2) == 0 {
        pack_of(&[(X, &x)], 0).store(b"a", 2);
        cover("pack")
    } else {
        put_loose(&X, b"blob", &x);
        cover("loose")
    }
    found(&r, &X, &x);
    missing(&r, &fake_id(0xee, 0xee));
}

/// 20 (deep: 60) packs of three objects: any object of any of them is found, one before and one after
pub fn many_packs() {
    let n = by(20, 60);
    mkrepo();
    let x = any(1);
    for k in 0..n {
        let mut p = Pack::new();
        for j in 0..3 {
            p.whole(fake_id((k * 3 + j) as u8, 0x21), BLOB, &[x[0], k as u8, j as u8]);
        }
        p.store(&[b'a' + (k / 26) as u8, b'a' + (k % 26) as u8], 1 + (k % 2) as u32)
    }
    readdir_reversed(choice(2) == 1);
    let r = open();
    let k = choice(n * 3);
    let want = |k: usize| vec![x[0], (k / 3) as u8, (k % 3) as u8];
    found(&r, &fake_id(k as u8, 0x21), &want(k));
    let k2 = (k * 7 + 5) % (n * 3);
    found(&r, &fake_id(k2 as u8, 0x21), &want(k2));
    missing(&r, &fake_id(k as u8, 0x22));
    cover("found");
}

/// packs of any name except `.` and `..`: up to 1 (deep: 2) arbitrary bytes, alone or behind `pack-`, `pack-a.`, `tmp_`,
/// `.` or 200 letters, in front of `.idx` and `.pack`, beside an ordinary pack; found with all objects
pub fn pack_names() {
    let x = any(1);
    mkrepo();
    pack_of(&[(fake_id(0x33, 3), b"m")], 0).store(b"m", 2);
    let long = [b'x'; 200];
    let lead: &[u8] = [&b""[..], b"pack-", b"pack-a.", b"tmp_", b".", &long][choice(6)];
    let n = [lead, &any(choice(by(2, 3)))].concat();
    for c in n.iter() {
        assume(*c != 0 && *c != b'/')
    }
    // the path functions of std read `..` and `.` before the extension as folders
    assume(n.len() > 0 && n != b"pack-m" && n != b"." && n != b"..");
    let p = pack_of(&[(X, &x)], 1);
    let path = |e: &[u8]| [b".git/objects/pack/", &n[..], e].concat();
    put(&path(b".pack"), &p.finish());
    put(&path(b".idx"), &p.idx(2));
    readdir_reversed(choice(2) == 1);
    let r = open();
    found(&r, &X, &x);
    found(&r, &fake_id(0x33, 3), b"m");
    missing(&r, &fake_id(0xee, 0xee));
    cover("any name");
}

/// 12 (deep: 30) packs and as many loose objects that appear one after the other, at once or 5 seconds after the last
/// lookup: each is found, with any one of those before (first, middle or last), and the next is not
pub fn added_one_by_one() {
    let n = by(12, 30);
    let x = any(1);
    mkrepo();
    let id = |k: usize| fake_id(0x40 + 3 * k as u8, 5);
    let pause = [0, 5000][choice(2)];
    let shift = choice(3);
    let r = open();
    for k in 0..2 * n {
        time_advance(pause);
        let b = if k == n { x[0] } else { k as u8 };
        let body = |k: usize| if k == n { x.to_vec() } else { vec![k as u8] };
        if (k + shift) % 3 == 0 {
            put_loose(&id(k), b"blob", &[b])
        } else {
            pack_of(&[(id(k), &[b])], k as u8).store(&[b'p', b'0' + k as u8], 2)
        }
        found(&r, &id(k), &body(k));
        for j in [0, k / 2, k.saturating_sub(1)] {
            found(&r, &id(j), &body(j))
        }
        missing(&r, &id(k + 1));
    }
    cover("all found");
}

/// two packs whose names have an arbitrary byte and any of seven (deep: an arbitrary one), at the same place or not, in
/// front of `.idx` and `.pack`, and a third that has none: found with all objects
pub fn two_pack_names() {
    mkrepo();
    let (a, b) = (any_u8(), if deep() { any_u8() } else { [b'a', b'A', b'.', b' ', b'\n', 0x80, 0xff][choice(7)] });
    for c in [a, b].iter() {
        assume(*c != 0 && *c != b'/')
    }
    let (p, q) = match choice(4) {
        0 => (vec![b'p', a], vec![b'p', b]),
        1 => (vec![a, b'p'], vec![b, b'p']),
        2 => (vec![b'p', a, b'q'], vec![b'p', b, b'q']),
        _ => (vec![b'p', a], vec![b'p', b'.', b]),
    };
    assume(!eq(&p, &q));
    for (k, n) in [&p, &q].iter().enumerate() {
        let s = pack_of(&[(fake_id(0x50 + k as u8, 1), &[k as u8])], k as u8);
        let path = |e: &[u8]| [b".git/objects/pack/", &n[..], e].concat();
        put(&path(b".pack"), &s.finish());
        put(&path(b".idx"), &s.idx(2));
    }
    pack_of(&[(fake_id(0x33, 3), b"m")], 2).store(b"other", 2);
    readdir_reversed(choice(2) == 1);
    let r = open();
    for k in 0..2 {
        found(&r, &fake_id(0x50 + k, 1), &[k])
    }
    found(&r, &fake_id(0x33, 3), b"m");
    cover("all found");
}

/// ids with a meaning elsewhere (all zero, all ones, git's empty blob and empty tree, ids whose bytes spell a header, ids
/// with an arbitrary last byte), each held by a pack, the loose store, both, or none, asked for twice before and after
/// another
pub fn special_ids() {
    let mut id = [
        [0u8; 20],
        [0xff; 20],
        *b"\xe6\x9d\xe2\x9b\xb2\xd1\xd6\x43\x4b\x8b\x29\xae\x77\x5a\xd8\xc2\xe4\x8c\x53\x91",
        *b"\x4b\x82\x5d\xc6\x42\xcb\x6e\xb9\xa0\x60\xe5\x4b\xf8\xd6\x92\x88\xfb\xee\x49\x04",
        *b"\xfftOc\0\0\0\x02PACK\0\0\0\x02ref:",
        *b"/../../../../../etc/",
    ][choice(6)];
    if choice(2) == 1 {
        id[19] = any_u8()
    }
    let x = any(1);
    mkrepo();
    let k = choice(4);
    if k & 1 != 0 {
        let mut p = Pack::new();
        p.whole(fake_id(9, 9), BLOB, b"n");
        p.whole(id, BLOB, &x);
        p.whole(fake_id(0xc0, 9), BLOB, b"m");
        p.store(b"s", 1 + choice(2) as u32)
    }
    if k & 2 != 0 {
        put_loose(&id, b"blob", &x)
    }
    let r = open();
    for _ in 0..2 {
        if k == 0 {
            missing(&r, &id)
        } else {
            found(&r, &id, &x)
        }
        if k & 1 != 0 {
            found(&r, &fake_id(9, 9), b"n")
        }
    }
    cover(if k == 0 { "not found" } else { "found" });
}

/// in repositories in folders of 24 (deep: 31) names, opened by eight spellings of the path: packed, loose and absent objects,
/// and one packed after the first look
pub fn places() {
    let x = any(1);
    mkrepo();
    let y = fake_id(0x12, 0x34);
    pack_of(&[(X, &x)], 1).store(b"a", 2);
    put_loose(&y, b"blob", &x);
    let (place, r) = moved();
    found(&r, &X, &x);
    found(&r, &y, &x);
    let z = fake_id(0x56, 0x78);
    missing(&r, &z);
    time_advance(5000);
    let mut p = Pack::new();
    p.whole(z, BLOB, &x);
    put(&[&place[..], b"/", &pack_path(b"b", b"pack")].concat(), &p.finish());
    put(&[&place[..], b"/", &pack_path(b"b", b"idx")].concat(), &p.idx(1));
    found(&r, &z, &x);
    found(&r, &X, &x);
    cover("found");
}
