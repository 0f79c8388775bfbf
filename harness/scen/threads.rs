//! C21: several threads reading through one database
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;
use std::sync::Arc;

fn exact(r: &Repository, id: &[u8; 20], want: &[u8]) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(b.data().len() == want.len(), "a thread got an object of another length than a single reader");
            check(eq(b.data(), want), "a thread got another content than a single reader")
        }
        Got::Obj(_) => check(false, "a thread got an object of another type than a single reader"),
        Got::NotFound => check(false, "a thread was told that an existing object is not found"),
        Got::Err => check(false, "a thread was refused an object that a single reader gets"),
    }
}
fn missing(r: &Repository, id: &[u8; 20]) {
    check(matches!(look(r, id), Got::NotFound), "a thread was not told that a missing object is not found")
}
fn refused(r: &Repository, id: &[u8; 20]) {
    check(matches!(look(r, id), Got::Err), "a thread was not refused a malformed object")
}
type Job = Box<dyn FnOnce()>;
fn job(r: &Arc<Repository>, f: impl FnOnce(&Repository) + 'static) -> Job {
    let r = r.clone();
    Box::new(move || f(&r))
}

fn idn(k: usize) -> [u8; 20] {
    fake_id(0x20 + 0x10 * k as u8, 0x44)
}
/// a pack with a whole object, a delta on it, a delta on that by id, another whole one, and a malformed delta (4);
/// id 5 is loose, id 6 nowhere
fn family(x: &[u8]) -> Vec<Vec<u8>> {
    mkrepo();
    let mut p = Pack::new();
    let mut w = vec![vec![x[0], b'-', b'-', x[0]]];
    let o = p.whole(idn(0), BLOB, &w[0]);
    p.ofs(idn(1), o, &delta(4, 5, &[copy_op(0, 4), insert_op(&x[1..2])]));
    w.push([&w[0][..], &x[1..2]].concat());
    p.refd(idn(2), &idn(1), &delta(5, 4, &[copy_op(1, 3), insert_op(&x[2..3])]));
    w.push([&w[1][1..4], &x[2..3]].concat());
    w.push([&[b'w'; 300][..], &x[..1]].concat());
    p.whole(idn(3), BLOB, &w[3]);
    p.refd(idn(4), &idn(0), &delta(9, 1, &[copy_op(0, 1)]));
    w.push(vec![]);
    p.store(b"f", 2);
    put_loose(&idn(5), b"blob", &x[1..]);
    w.push(x[1..].to_vec());
    w
}
fn read_one(r: &Repository, k: usize, w: &[Vec<u8>]) {
    match k {
        4 => refused(r, &idn(4)),
        6 => missing(r, &idn(6)),
        _ => exact(r, &idn(k), &w[k]),
    }
}

/// two threads each read any one of: a whole object, a delta, a chain, another object, a malformed delta, a loose object,
/// a missing one; from a fresh database or one that has read any of three before; 2 (deep: 3) forced switches at any system calls
pub fn pairs() {
    let w = Arc::new(family(&any(3)));
    let r = Arc::new(open());
    let before = choice(3);
    if before > 0 {
        read_one(&r, [0, 2][before - 1], &w)
    }
    let (a, b) = (choice(7), choice(7));
    let (w1, w2) = (w.clone(), w.clone());
    threads(by(2, 3) as u32, vec![job(&r, move |r| read_one(r, a, &w1)), job(&r, move |r| read_one(r, b, &w2))]);
    read_one(&r, a, &w);
    read_one(&r, b, &w);
    cover("both");
}

/// two threads each read two objects of the pack (chains in either order), 2 (deep: 3) forced switches
pub fn two_each() {
    let w = Arc::new(family(&any(3)));
    let r = Arc::new(open());
    let orders = [[0usize, 2], [2, 0], [2, 1], [3, 2], [1, 3]];
    let (a, b) = (orders[choice(5)], orders[choice(5)]);
    let (w1, w2) = (w.clone(), w.clone());
    let run = |o: [usize; 2], w: Arc<Vec<Vec<u8>>>| {
        move |r: &Repository| {
            for k in o.iter() {
                read_one(r, *k, &w)
            }
        }
    };
    threads(by(2, 3) as u32, vec![job(&r, run(a, w1)), job(&r, run(b, w2))]);
    for k in 0..7 {
        read_one(&r, k, &w)
    }
    cover("both");
}

/// three threads, 1 (deep: 2) forced switches
pub fn three() {
    let w = Arc::new(family(&any(3)));
    let r = Arc::new(open());
    let sets = [[2usize, 2, 2], [0, 1, 2], [2, 4, 3], [5, 2, 6], [6, 6, 2], [1, 2, 5]];
    let s = sets[choice(6)];
    let jobs = s
        .iter()
        .map(|k| {
            let (k, w) = (*k, w.clone());
            job(&r, move |r| read_one(r, k, &w))
        })
        .collect();
    threads(by(1, 2) as u32, jobs);
    for k in s.iter() {
        read_one(&r, *k, &w)
    }
    cover("all");
}

/// a pack was added after the last look at the folder (now or 5 seconds ago): threads that read its object, an older one, a
/// missing one or a loose one; 2 (deep: 3) forced switches
pub fn new_pack() {
    let w = Arc::new(family(&any(3)));
    let r = Arc::new(open());
    missing(&r, &idn(6));
    time_advance([0, 5000][choice(2)]);
    let mut p = Pack::new();
    p.whole(idn(7), BLOB, b"new");
    p.store(b"n", 2);
    let (a, b) = (choice(4), choice(4));
    let f = |k: usize, w: Arc<Vec<Vec<u8>>>| {
        move |r: &Repository| match k {
            0 => exact(r, &idn(7), b"new"),
            1 => exact(r, &idn(2), &w[2]),
            2 => missing(r, &idn(6)),
            _ => exact(r, &idn(5), &w[5]),
        }
    };
    let (w1, w2) = (w.clone(), w.clone());
    threads(by(2, 3) as u32, vec![job(&r, f(a, w1)), job(&r, f(b, w2))]);
    exact(&r, &idn(7), b"new");
    cover("both");
}

/// two packs and a loose object under a fresh database: threads that read one from each; 2 (deep: 3) forced switches
pub fn two_packs() {
    mkrepo();
    let x = any(2);
    for k in 0..2 {
        let mut p = Pack::new();
        p.whole(idn(k), BLOB, &[x[0], k as u8]);
        p.store(&[b'a' + k as u8], 1 + k as u32)
    }
    put_loose(&idn(2), b"blob", &[x[0], 2]);
    let r = Arc::new(open());
    let (a, b) = (choice(3), choice(3));
    let f = |k: usize| {
        let want = vec![x[0], k as u8];
        move |r: &Repository| exact(r, &idn(k), &want)
    };
    threads(by(2, 3) as u32, vec![job(&r, f(a)), job(&r, f(b))]);
    for k in 0..3 {
        exact(&r, &idn(k), &[x[0], k as u8])
    }
    cover("both");
}

/// a loose object is packed meanwhile (pack, index, loose file removed) while two threads look for it; 1 (deep: 2) forced switches
pub fn packed_meanwhile() {
    mkrepo();
    let x = any(1);
    put_loose(&idn(0), b"blob", &x);
    let r = Arc::new(open());
    if choice(2) == 1 {
        missing(&r, &idn(6))
    }
    let mut p = Pack::new();
    p.whole(idn(0), BLOB, &x);
    env_put(&pack_path(b"n", b"pack"), &p.finish());
    env_put(&pack_path(b"n", b"idx"), &p.idx(2));
    env_remove(&loose_path(&idn(0)));
    let (x1, x2) = (x.clone(), x.clone());
    env_on(true);
    threads(by(1, 2) as u32, vec![job(&r, move |r| exact(r, &idn(0), &x1)), job(&r, move |r| exact(r, &idn(0), &x2))]);
    env_on(false);
    exact(&r, &idn(0), &x);
    cover("both");
}

/// one I/O error strikes one of two threads: the other gets its object, and both do afterwards; 1 (deep: 2) forced switches
pub fn one_fails() {
    let w = Arc::new(family(&any(3)));
    let r = Arc::new(open());
    let before = choice(2);
    if before > 0 {
        read_one(&r, 0, &w)
    }
    let fails = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let ks = [choice(3), choice(3)];
    let jobs = ks
        .iter()
        .map(|k| {
            let (k, w, fails) = (*k + 1, w.clone(), fails.clone());
            job(&r, move |r| match look(r, &idn(k)) {
                Got::Obj(ObjectData::Blob(b)) => check(eq(b.data(), &w[k]), "a thread got another content than a single reader"),
                Got::Obj(_) => check(false, "a thread got an object of another type than a single reader"),
                Got::NotFound => check(false, "a thread was told that an existing object is not found"),
                Got::Err => {
                    fails.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            })
        })
        .collect();
    faults(READ_ERR | OPEN_ERR, 1);
    threads(by(1, 2) as u32, jobs);
    faults(0, 0);
    check(fails.load(std::sync::atomic::Ordering::SeqCst) <= 1, "a thread was refused an object because of another's I/O error");
    for k in ks.iter() {
        read_one(&r, *k + 1, &w)
    }
    cover("both");
}

/// commits, tags and trees parsed by two threads at the same time (with what they compute once), loose or packed
pub fn kinds() {
    mkrepo();
    let x = any_u8();
    let texts: [(u8, Vec<u8>); 3] = [
        (COMMIT, [&b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\nm"[..], &[x]].concat()),
        (TAG, [&b"object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\ntagger T <t@u> 3 +0200\n\nm"[..], &[x]].concat()),
        (TREE, [&b"100644 n\0"[..], &[0x99; 19], &[x]].concat()),
    ];
    let packed = choice(2) == 1;
    let mut p = Pack::new();
    for (k, b) in texts.iter() {
        if packed {
            p.whole(idn(*k as usize), *k, b);
        } else {
            put_loose(&idn(*k as usize), KINDS[*k as usize], b)
        }
    }
    if packed {
        p.store(b"k", 2)
    }
    let r = Arc::new(open());
    let f = |k: u8| {
        move |r: &Repository| match look(r, &idn(k as usize)) {
            Got::Obj(ObjectData::Commit(c)) => check(k == COMMIT && eq(c.message(), &[b'm', x]) && eq(c.author().name(), b"A"), "a thread got another content than a single reader"),
            Got::Obj(ObjectData::Tag(t)) => check(k == TAG && eq(t.message().unwrap(), &[b'm', x]) && eq(t.tagger().unwrap().email(), b"t@u"), "a thread got another content than a single reader"),
            Got::Obj(ObjectData::Tree(t)) => check(k == TREE && t.entries().count() == 1, "a thread got another content than a single reader"),
            _ => check(false, "a thread was refused an object that a single reader gets"),
        }
    };
    let (a, b) = ([COMMIT, TAG, TREE][choice(3)], [COMMIT, TAG, TREE][choice(3)]);
    threads(by(1, 2) as u32, vec![job(&r, f(a)), job(&r, f(b))]);
    cover("both");
}

/// references read, peeled and listed by two threads; 1 (deep: 2) forced switches
pub fn references() {
    let w = Arc::new(family(&any(3)));
    put(b".git/HEAD", b"ref: refs/heads/a\n");
    put(b".git/refs/heads/a", &hex(&idn(2)));
    put(b".git/refs/tags/t", &[&hex(&idn(3))[..], b" refs/heads/a"].concat());
    let r = Arc::new(open());
    let f = |k: usize, w: Arc<Vec<Vec<u8>>>| {
        move |r: &Repository| {
            let db = r.reference_database();
            let (f, j) = match k {
                0 => (db.head(), 2),
                1 => (db.reference(b"refs/tags/t"), 3),
                _ => {
                    check(db.reference_names().map_or(false, |v| v.len() == 2), "a thread got another listing than a single reader");
                    return;
                }
            };
            match f.and_then(|f| f.peel(r)) {
                Ok(o) => match o.data() {
                    ObjectData::Blob(b) => check(eq(b.data(), &w[j]), "a thread got another content than a single reader"),
                    _ => check(false, "a thread got an object of another type than a single reader"),
                },
                Err(_) => check(false, "a thread was refused an object that a single reader gets"),
            }
        }
    };
    let (a, b) = (choice(3), choice(3));
    let (w1, w2) = (w.clone(), w.clone());
    threads(by(1, 2) as u32, vec![job(&r, f(a, w1)), job(&r, f(b, w2))]);
    cover("both");
}
