//! C23: what stays open and allocated after an operation
use super::kit::*;
use super::readonly::{act, furnish, OPS};
use super::rt::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::repository::Repository;
use std::sync::Arc;

/// open files, bytes allocated
fn held() -> (u64, u64) {
    (open_files(), heap_live())
}
fn no_more(now: (u64, u64), then: (u64, u64), files: &str, memory: &str) {
    check(now.0 <= then.0, files);
    check(now.1 <= then.1, memory)
}
const FILES: &str = "an operation done again leaves more files open than before";
const MEMORY: &str = "an operation done again leaves more memory allocated than before";
const CLOSED_FILES: &str = "a database that was closed leaves files open";
const CLOSED_MEMORY: &str = "a database that was closed leaves memory allocated";

/// `op` on a database again and again, and on new databases; what is initialised once per process is not counted
fn steady(op: &dyn Fn(&Repository)) {
    let o = open();
    op(&o);
    drop(o);
    let none = held();
    for _ in 0..2 {
        let r = open();
        op(&r);
        op(&r);
        let once = held();
        for _ in 0..3 {
            op(&r);
            no_more(held(), once, FILES, MEMORY)
        }
        drop(r);
        no_more(held(), none, CLOSED_FILES, CLOSED_MEMORY)
    }
}

fn idn(k: usize) -> [u8; 20] {
    fake_id(0x20 + 8 * k as u8, 0x47)
}
const N: usize = 16;
/// packs: blob, delta, delta by id, blob of 3000 bytes, malformed delta, delta on a missing base, tree, malformed tree;
/// loose: blob, commit, tag, malformed header, wrong length, not compressed, blob of 70000 bytes; and one nowhere
fn objects(x: &[u8]) {
    mkrepo();
    let mut p = Pack::new();
    let o = p.whole(idn(0), BLOB, &[x[0], b'-', b'-', b'-']);
    p.ofs(idn(1), o, &delta(4, 5, &[copy_op(0, 4), insert_op(&x[1..2])]));
    p.refd(idn(2), &idn(1), &delta(5, 4, &[copy_op(1, 3), insert_op(&x[..1])]));
    p.whole(idn(3), BLOB, &[7; 3000]);
    p.refd(idn(4), &idn(0), &delta(9, 1, &[copy_op(0, 1)]));
    p.store(b"p", 2);
    let mut q = Pack::new();
    q.refd(idn(5), &fake_id(0xdd, 9), &delta(9, 1, &[copy_op(0, 1)]));
    q.whole(idn(6), TREE, &[b"100644 f\0", &idn(0)[..], b"40000 d\0", &idn(1)].concat());
    q.whole(idn(7), TREE, b"100644 f\0short");
    q.store(b"q", 1);
    put_loose(&idn(8), b"blob", &x[..]);
    let line = b"A U Thor <a@b> 12 +0100";
    put_loose(&idn(9), b"commit", &[b"tree ", &hex(&idn(0))[..], b"\nauthor ", line, b"\ncommitter ", line, b"\n\nm"].concat());
    put_loose(&idn(10), b"tag", &[b"object ", &hex(&idn(0))[..], b"\ntype blob\ntag t\ntagger ", line, b"\n\nm"].concat());
    put_loose_raw(&idn(11), &zlib(b"blub 1\0x"));
    put_loose_raw(&idn(12), &zlib(b"blob 7\0x"));
    put_loose_raw(&idn(13), b"nothing");
    put_loose(&idn(14), b"blob", &[9; 70000]);
}
fn read(r: &Repository, k: usize) {
    if let Ok(o) = r.object_database().parse_object(Id::from_bytes(&idn(k))) {
        match o.data() {
            ObjectData::Commit(c) => {
                c.author().name().len();
                c.committer().email().len();
            }
            ObjectData::Tag(t) => {
                t.tagger().map(|s| s.name().len());
            }
            ObjectData::Tree(t) => {
                t.entries().count();
            }
            ObjectData::Blob(_) => (),
        }
    }
}

/// one or two objects of any of 16 kinds (packed, deltas, loose; whole or malformed; none), read again and again, at
/// once or with 5 seconds in between (so that the folder of packs is listed again)
pub fn reads() {
    objects(&any(2));
    let (a, b) = (choice(N), choice(N + 1));
    let pause = choice(2) == 1;
    steady(&|r| {
        read(r, a);
        if pause {
            time_advance(5000)
        }
        if b < N {
            read(r, b)
        }
    });
    cover(if pause { "later" } else { "at once" });
}

/// the read operations but the one whose id is arbitrary each time
fn fixed(k: usize) -> usize {
    k + (k >= 3) as usize
}

/// each of 14 read operations (objects, references, listings, peeling, opening), on a repository that is empty, complete,
/// full of leftovers, or damaged
pub fn operations() {
    furnish(choice(4));
    let op = fixed(choice(OPS - 1));
    steady(&|r| act(r, op));
    cover("steady");
}

/// reference files of any 2 (deep: 3) bytes in front of, or behind, nothing, a name, an id; and loops, dangling and long
/// chains: read and peeled again and again
pub fn references() {
    mkrepo();
    put_loose(&idn(0), b"blob", b"b");
    let x = any(choice(by(3, 4)));
    let t = [&b""[..], b"ref: refs/heads/a", b"ref: refs/heads/none", b"ref: HEAD", &hex(&idn(0)), &hex(&idn(1))][choice(6)].to_vec();
    let text = if choice(2) == 0 { [&t[..], &x].concat() } else { [&x, &t[..]].concat() };
    put(b".git/HEAD", &text);
    put(b".git/refs/heads/a", &hex(&idn(0)));
    steady(&|r| {
        if let Ok(h) = r.reference_database().head() {
            if h.peel(r).is_ok() {
                cover("peeled")
            }
        }
    });
    cover("steady");
}

/// one call fails, is split or interrupted anywhere in an operation (any read operation, or any of 16 objects), on a new
/// database or one that did it before; once more without faults, and all is as if nothing had happened
pub fn after_faults() {
    let objs = choice(2) == 1;
    if objs {
        objects(&any(2))
    } else {
        furnish(1)
    }
    let k = if objs { choice(N) } else { fixed(choice(OPS - 1)) };
    let op = |r: &Repository| if objs { read(r, k) } else { act(r, k) };
    // warmed up, with a failure too
    let warm = |fail: bool| {
        let r = open();
        op(&r);
        if fail {
            read(&r, 15);
            faults(0, 0);
        }
    };
    warm(true);
    warm(false);
    let none = held();
    let usual = {
        let r = open();
        for _ in 0..3 {
            op(&r);
        }
        held()
    };
    let r = open();
    let before = choice(2) == 1;
    if before {
        op(&r)
    }
    faults(OPEN_ERR | READ_ERR | EINTR | SHORT_READ, 1);
    op(&r);
    faults(0, 0);
    op(&r);
    let now = held();
    check(now.0 <= usual.0, "a failed operation leaves files open");
    check(now.1 <= usual.1, "a failed operation leaves memory allocated");
    drop(r);
    check(open_files() <= none.0, CLOSED_FILES);
    check(heap_live() <= none.1, CLOSED_MEMORY);
    cover(if before { "used before" } else { "new" });
}

/// objects written: the same again and again, or always another; with up to one failing or short call in one of the
/// writes; bodies of 0, 3 or 70000 bytes
pub fn writes_again() {
    mkrepo();
    let n = [0usize, 3, 70000][choice(3)];
    let other = choice(2) == 1;
    let k = std::cell::Cell::new(0u8);
    let op = |r: &Repository| {
        let mut b = vec![b'w'; n];
        if n > 0 && other {
            k.set(k.get() + 1);
            b[0] = k.get()
        }
        r.object_database().write_object(&b).is_ok()
    };
    let r = open();
    op(&r);
    op(&r);
    let once = held();
    let at = choice(3);
    for i in 0..3 {
        if at == i {
            faults(WRITE_ERR | OPEN_ERR | SHORT_WRITE | EINTR, 1);
        }
        let ok = op(&r);
        faults(0, 0);
        check(open_files() <= once.0, "a write leaves files open");
        check(heap_live() <= once.1, "a write leaves memory allocated");
        cover(if ok { "written" } else { "failed" })
    }
}

/// two threads read any of 16 objects each through one database that is new: no more is held afterwards than if one
/// thread had read both; 1 (deep: 2) forced switches
pub fn two_threads() {
    objects(b"xy");
    let ks = [[0, 1, 2, 3, 4, 6, 8, 15][choice(8)], [0, 1, 2, 8][choice(4)]];
    let run = |preempt: u32, together: bool| {
        let r = Arc::new(open());
        let jobs = |k: usize| -> Box<dyn FnOnce()> {
            let r = r.clone();
            Box::new(move || read(&r, k))
        };
        if together {
            threads(preempt, vec![jobs(ks[0]), jobs(ks[1])])
        } else {
            threads(0, vec![jobs(ks[0])]);
            threads(0, vec![jobs(ks[1])])
        }
        r
    };
    drop(run(0, false));
    let none = open_files();
    let r = run(0, false);
    let usual = open_files();
    drop(r);
    let r = run(by(1, 2) as u32, true);
    check(open_files() <= usual, "threads that read at the same time leave more files open than one that reads both");
    check(Arc::strong_count(&r) == 1, "threads done");
    drop(r);
    check(open_files() <= none, CLOSED_FILES);
    cover("both");
}

/// one of 16 objects, or of 14 read operations, 40 (deep: 300) times
pub fn many_times() {
    let op = choice(N + OPS - 1);
    if op < N {
        objects(&any(2))
    } else {
        furnish(1)
    }
    let pause = [0, 3000][choice(2)];
    let r = open();
    let go = |r: &Repository| {
        time_advance(pause);
        if op < N {
            read(r, op)
        } else {
            act(r, fixed(op - N))
        }
    };
    go(&r);
    go(&r);
    let once = held();
    for _ in 0..by(40, 300) {
        go(&r)
    }
    no_more(held(), once, FILES, MEMORY);
    cover("steady");
}

/// packs and indexes that do not fit, eight kinds, alone or beside a whole pack: looked up 12 (deep: 100) times, at once or
/// later, and on new databases
pub fn broken_pairs() {
    mkrepo();
    let mut p = Pack::new();
    p.whole(idn(0), BLOB, b"one");
    p.whole(idn(1), BLOB, b"two");
    let (mut pk, mut ix) = (p.finish(), p.idx(1 + choice(2) as u32));
    let last = ix.len() - 30;
    match choice(8) {
        // the index of another pack
        0 => ix[last] ^= 1,
        1 => pk[11] = 3,
        2 => pk[0] = b'Q',
        3 => pk[7] = 9,
        4 => ix.truncate(last),
        5 => pk.truncate(11),
        6 => ix = vec![],
        _ => {
            let at = if ix[0] == 0xff { 8 } else { 0 } + 1020;
            ix[at] ^= 1
        }
    }
    put(&pack_path(b"p", b"pack"), &pk);
    put(&pack_path(b"p", b"idx"), &ix);
    if choice(2) == 1 {
        let mut q = Pack::new();
        q.whole(idn(3), BLOB, b"three");
        q.store(b"q", 2)
    }
    let k = [0, 3, 4][choice(3)];
    let pause = [0, 5000][choice(2)];
    let go = |r: &Repository| {
        for _ in 0..by(12, 100) {
            read(r, k);
            time_advance(pause)
        }
    };
    let r = open();
    go(&r);
    let once = held();
    go(&r);
    no_more(held(), once, FILES, MEMORY);
    drop(r);
    let r = open();
    go(&r);
    drop(r);
    let none = held();
    for _ in 0..2 {
        let r = open();
        go(&r);
        drop(r)
    }
    no_more(held(), none, CLOSED_FILES, CLOSED_MEMORY);
    cover("steady");
}
