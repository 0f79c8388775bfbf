//! C26: readers and parsed objects do not depend on what happens after they were obtained
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::repository::Repository;
use std::io::Read;

fn idn(k: usize) -> [u8; 20] {
    fake_id(0x30 + 4 * k as u8, 0x53)
}
const N: usize = 7;
/// 0 small loose, 1 empty loose, 2 whole in a pack, 3 delta by distance, 4 delta by id on it, 5 70000 bytes loose,
/// 6 40000 bytes in a pack
fn objects() -> Vec<Vec<u8>> {
    mkrepo();
    let x = any(3);
    let b = vec![
        x[..].to_vec(),
        vec![],
        vec![x[0], b'p', b'q', b'r', x[1]],
        vec![b'p', b'q', x[2], x[1]],
        vec![x[2], x[1], b'e', b'n', b'd'],
        big(70000, 2),
        big(40000, 2),
    ];
    for k in [0, 1, 5].iter() {
        put_loose(&idn(*k), b"blob", &b[*k])
    }
    let mut p = Pack::new();
    let o = p.whole(idn(2), BLOB, &b[2]);
    p.ofs(idn(3), o, &delta(5, 4, &[copy_op(1, 2), insert_op(&x[2..]), copy_op(4, 1)]));
    p.refd(idn(4), &idn(3), &delta(4, 5, &[copy_op(2, 2), insert_op(b"end")]));
    p.whole(idn(6), BLOB, &b[6]);
    p.store(b"p", 2);
    b
}
type Source = Box<dyn FnMut(usize) -> Option<Vec<u8>>>;
/// a reader as a function from a buffer size to what one read gives; None: an error
fn source(r: &Repository, k: usize) -> Source {
    match r.object_database().read_object(Id::from_bytes(&idn(k))) {
        Ok(mut o) => Box::new(move |n| {
            let mut v = vec![0xa5; n];
            match o.reader().read(&mut v) {
                Ok(m) => {
                    check(m <= n, "a read returned more than its buffer holds");
                    v.truncate(m);
                    Some(v)
                }
                Err(_) => None,
            }
        }),
        Err(_) => {
            check(false, "a valid object could not be opened for reading");
            Box::new(|_| None)
        }
    }
}
/// one read; true at the end
fn take(s: &mut Source, n: usize, got: &mut Vec<u8>) -> bool {
    match s(n) {
        Some(v) => {
            got.extend_from_slice(&v);
            n > 0 && v.is_empty()
        }
        None => {
            check(false, "reading a valid object failed");
            true
        }
    }
}
fn rest(s: &mut Source, n: usize, got: &mut Vec<u8>) {
    while !take(s, n, got) {}
}
/// the content, with the header of the loose format or without
fn whole(got: &[u8], body: &[u8]) {
    let head = framed(b"blob", body).len() - body.len();
    if got.len() == body.len() {
        check(eq(got, body), "a reader yields other bytes than the object's")
    } else {
        check(got.len() == head + body.len(), "a reader yields more or fewer bytes than the object's");
        check(eq(got, &framed(b"blob", body)), "a reader yields other bytes than the object's")
    }
}

/// any of 7 objects (loose, packed, deltas, empty, long), read with buffers of one size (1, 2, 7, 4095, 8193, 70001) or
/// of sizes that change with every read, empty buffers among them; the end stays the end
pub fn any_sizes() {
    let b = objects();
    let k = choice(N);
    let long = b[k].len() > 100;
    let sizes: &[usize] = match (long, choice(4)) {
        (false, 0) => &[1],
        (false, 1) => &[2, 0, 1],
        (false, 2) => &[7],
        (false, _) => &[0, 3, 1, 0, 0, 70001],
        (true, 0) => &[4095],
        (true, 1) => &[8193, 0, 1],
        (true, 2) => &[70001],
        (true, _) => &[1, 5, 0, 32768, 8192, 16384],
    };
    let r = open();
    let mut s = source(&r, k);
    let mut got = vec![];
    let mut i = 0;
    while !take(&mut s, sizes[i % sizes.len()], &mut got) {
        i += 1
    }
    let n = got.len();
    for m in [1, 0, 9].iter() {
        take(&mut s, *m, &mut got);
    }
    check(got.len() == n, "a reader goes on after its end");
    whole(&got, &b[k]);
    cover(if long { "long" } else { "short" });
}

/// two readers of any two of 7 objects (or of one), opened before either is read, read in turns of any order for 4 (deep:
/// 6) reads of 1 or 9000 bytes, then to their ends
pub fn side_by_side() {
    let b = objects();
    let k = [choice(N), choice(N)];
    let r = open();
    let mut s = [source(&r, k[0]), source(&r, k[1])];
    let mut got = [vec![], vec![]];
    let n = [1, 9000][choice(2)];
    for _ in 0..by(4, 6) {
        let j = choice(2);
        take(&mut s[j], n, &mut got[j]);
    }
    for j in 0..2 {
        rest(&mut s[j], 10000, &mut got[j])
    }
    for j in 0..2 {
        whole(&got[j], &b[k[j]])
    }
    cover(if k[0] == k[1] { "one object" } else { "two objects" });
}

/// a reader of any of 7 objects is opened, read for 0, 1 or 5 bytes, and then: every object is read, the folder of packs is
/// listed again, the object's file or pack is removed or replaced by another, the object or another is written, the
/// database is closed; the rest is what it was
pub fn meanwhile() {
    let b = objects();
    let k = choice(N);
    let r = open();
    let mut s = source(&r, k);
    let mut got = vec![];
    for _ in 0..[0, 1, 5][choice(3)] {
        take(&mut s, 1, &mut got);
    }
    let mut r = Some(r);
    let db = r.as_ref().unwrap();
    let packed = exists(&loose_path(&idn(k))) == false;
    match choice(7) {
        0 => {
            for j in 0..N {
                look(db, &idn(j));
            }
        }
        1 => {
            time_advance(5000);
            let mut p = Pack::new();
            p.whole(fake_id(1, 1), BLOB, b"new");
            p.store(b"new", 2);
            look(db, &fake_id(1, 1));
        }
        2 => {
            if packed {
                remove(&pack_path(b"p", b"idx"));
                remove(&pack_path(b"p", b"pack"))
            } else {
                remove(&loose_path(&idn(k)))
            }
        }
        3 => {
            // another file under its name
            let to = if packed { pack_path(b"p", b"pack") } else { loose_path(&idn(k)) };
            put(b".git/other", &zlib(b"blob 5\0other"));
            rename(b".git/other", &to)
        }
        4 => {
            let _ = db.object_database().write_object(&framed(b"blob", &b[k]));
        }
        5 => {
            let _ = db.object_database().write_object(b"blob 1\0z");
        }
        _ => drop(r.take()),
    }
    rest(&mut s, 10000, &mut got);
    whole(&got, &b[k]);
    cover(if packed { "packed" } else { "loose" });
}

/// parsed objects of each type, loose or packed, and clones of them, after the database is closed and its files are gone
/// or have other content: every accessor gives what it gave, again and again
pub fn parsed_stay() {
    mkrepo();
    let x = any(3);
    for c in x.iter() {
        assume(*c >= b'a' && *c <= b'z')
    }
    let line = [&b"N"[..], &x[..1], b" <e", &x[1..2], b"> 12 +0100"].concat();
    let t = hex(&idn(0));
    let text: Vec<(u8, &[u8], Vec<u8>)> = vec![
        (COMMIT, b"commit", [b"tree ", &t[..], b"\nparent ", &t, b"\nauthor ", &line, b"\ncommitter ", &line, b"\nencoding u", &x[2..], b"\n\nm", &x[2..]].concat()),
        (TREE, b"tree", [b"100644 f", &x[..1], b"\0", &idn(0)[..]].concat()),
        (BLOB, b"blob", x.clone()),
        (TAG, b"tag", [b"object ", &t[..], b"\ntype blob\ntag t", &x[..1], b"\ntagger ", &line, b"\n\nm", &x[2..]].concat()),
    ];
    let packed = choice(2) == 1;
    let mut p = Pack::new();
    for (k, (kind, name, b)) in text.iter().enumerate() {
        if packed {
            p.whole(idn(k), *kind, b);
        } else {
            put_loose(&idn(k), name, b)
        }
    }
    p.store(b"p", 2);
    let k = choice(4);
    let r = open();
    let o = match r.object_database().parse_object(Id::from_bytes(&idn(k))) {
        Ok(o) => o,
        Err(_) => return check(false, "a valid object was refused"),
    };
    let c = o.clone();
    for _ in 0..2 {
        same(o.data(), &x);
    }
    match choice(3) {
        0 => {
            for j in 0..4 {
                look(&r, &idn(j));
            }
            time_advance(5000);
            look(&r, &idn(5));
        }
        1 => drop(r),
        _ => {
            if packed {
                put(&pack_path(b"p", b"pack"), b"nothing")
            } else {
                put(&loose_path(&idn(k)), b"nothing")
            }
            drop(r)
        }
    }
    for _ in 0..2 {
        same(o.data(), &x);
    }
    drop(o);
    same(c.data(), &x);
    check(eq(&id_bytes(c.id()), &idn(k)), "the object returned carries another id than the one asked for");
    cover("same");
}
fn same(d: &ObjectData, x: &[u8]) {
    let name = |s: &[u8]| check(eq(s, &[b'N', x[0]]), "the name changed");
    let mail = |s: &[u8]| check(eq(s, &[b'e', x[1]]), "the e-mail changed");
    match d {
        ObjectData::Commit(c) => {
            check(eq(&id_bytes(&c.tree()), &idn(0)), "the tree of a commit changed");
            check(c.parents().len() == 1 && c.parents().all(|p| eq(&id_bytes(&p), &idn(0))), "the parents of a commit changed");
            name(c.author().name());
            mail(c.committer().email());
            check(c.encoding().map_or(false, |e| eq(e, &[b'u', x[2]])), "the encoding of a commit changed");
            check(eq(c.message(), &[b'm', x[2]]), "the message of a commit changed")
        }
        ObjectData::Tree(t) => {
            check(t.entries().count() == 1, "the entries of a tree changed");
            for e in t.entries() {
                check(e.mode() == 0o100644 && eq(e.filename(), &[b'f', x[0]]) && eq(&id_bytes(&e.id()), &idn(0)), "an entry of a tree changed")
            }
        }
        ObjectData::Blob(b) => check(eq(b.data(), x), "a blob changed"),
        ObjectData::Tag(t) => {
            check(eq(&id_bytes(&t.object()), &idn(0)), "the object of a tag changed");
            check(eq(t.tag(), &[b't', x[0]]), "the name of a tag changed");
            if let Some(s) = t.tagger() {
                name(s.name());
                mail(s.email())
            }
            check(t.message().map_or(false, |m| eq(m, &[b'm', x[2]])), "the message of a tag changed")
        }
    }
}

/// two threads, each with a reader of any of 7 objects of one database, opened in the thread or before it, at the same
/// time, 1 (deep: 2) forced switches
pub fn two_threads() {
    let b = objects();
    let k = [choice(N), choice(N)];
    let before = choice(2) == 1;
    let r = std::sync::Arc::new(open());
    let jobs: Vec<Box<dyn FnOnce()>> = (0..2)
        .map(|j| -> Box<dyn FnOnce()> {
            let (r, k, b) = (r.clone(), k[j], b[k[j]].clone());
            let s = if before { Some(source(&r, k)) } else { None };
            Box::new(move || {
                let mut s = s.unwrap_or_else(|| source(&r, k));
                let mut got = vec![];
                take(&mut s, 3, &mut got);
                rest(&mut s, 30000, &mut got);
                whole(&got, &b)
            })
        })
        .collect();
    threads(by(1, 2) as u32, jobs);
    cover(if before { "opened before" } else { "opened in the thread" });
}
