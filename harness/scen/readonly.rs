//! C22: reading leaves the repository alone; opening wants a `.git` directory
use super::kit::*;
use super::rt::*;
use rusty_git::object::Id;
use rusty_git::repository::Repository;

const X: [u8; 20] = [0x5a; 20];
const P: [u8; 20] = [0x61; 20];
const D: [u8; 20] = [0x62; 20];

/// every name below `rel` with its content
fn snapshot(rel: &[u8], out: &mut Vec<(Vec<u8>, Option<Vec<u8>>)>) {
    for n in list(rel) {
        let p = if rel.is_empty() { n } else { [rel, b"/", &n].concat() };
        let g = get(&p, 1200);
        let dir = g.is_none();
        out.push((p.clone(), g));
        if dir {
            snapshot(&p, out)
        }
    }
}
fn all() -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
    let mut v = vec![];
    snapshot(b"", &mut v);
    v
}
fn unchanged(before: &[(Vec<u8>, Option<Vec<u8>>)]) {
    let now = all();
    check(writes() == 0, "[C22] reading changed the file system");
    check(now.len() == before.len(), "[C22] reading added or removed files");
    for (a, b) in now.iter().zip(before) {
        check(a.0 == b.0, "[C22] reading renamed a file");
        match (&a.1, &b.1) {
            (Some(x), Some(y)) => check(x.len() == y.len() && eq(x, y), "[C22] reading changed a file"),
            (None, None) => (),
            _ => check(false, "[C22] reading replaced a file"),
        }
    }
}
/// a loose commit, a pack with a blob and a delta, HEAD, a branch, a tag, and what interrupted programs leave behind
pub fn furnish(how: usize) {
    if how == 0 {
        mkdir(b".git");
        return;
    }
    mkrepo();
    let mut p = Pack::new();
    let o = p.whole(P, BLOB, b"base");
    p.ofs(D, o, &delta(4, 2, &[copy_op(1, 2)]));
    put_loose(&X, b"blob", &any(2));
    p.store(b"p", 2);
    put(b".git/HEAD", b"ref: refs/heads/m\n");
    put(b".git/refs/heads/m", &[&hex(&X)[..], b"\n"].concat());
    put(b".git/refs/tags/t", &[&hex(&D)[..], b"\n"].concat());
    if how == 2 {
        put(b".git/HEAD.lock", b"x");
        put(b".git/refs/heads/m.lock", b"y");
        put(b".git/objects/5a/tmp_obj_1", b"half");
        put(b".git/objects/pack/tmp_pack_1", b"PACK");
        put(b".git/objects/pack/q.idx", b"");
        put(b".git/objects/pack/r.pack", b"PACK");
        put(b".git/objects/pack/p.keep", b"");
        put(b".git/gc.pid", b"1");
        put(b".git/refs/tags/t.lock", b"");
        put(b".git/packed-refs.lock", b"z");
        put(b".git/objects/pack/p.pack.tmp", b"PACK");
        put(b".git/objects/pack/p.idx.lock", b"");
    }
    if how == 3 {
        // damaged: what is read is refused
        put(b".git/objects/5a/5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a", b"\x78\x01junk");
        put(b".git/objects/pack/pack-p.pack", b"PACK");
        put(b".git/refs/heads/m", b"\n");
        put(b".git/HEAD", b"");
    }
}
pub const OPS: usize = 15;
pub fn act(r: &Repository, op: usize) {
    let o = r.object_database();
    let f = r.reference_database();
    match op {
        0 => drop(o.parse_object(Id::from_bytes(&X))),
        1 => drop(o.parse_object(Id::from_bytes(&P))),
        2 => drop(o.parse_object(Id::from_bytes(&D))),
        3 => drop(o.parse_object(Id::from_bytes(&[&any(1)[..], &X[1..]].concat()))),
        4 => drop(o.parse_object(Id::from_bytes(&fake_id(0xee, 1)))),
        5 => drop(o.read_object(Id::from_bytes(&X))),
        6 => drop(f.head()),
        7 => {
            if let Ok(h) = f.head() {
                let _ = h.peel(r);
            }
        }
        8 => drop(f.reference(b"refs/tags/t").map(|t| t.peel(r).is_ok())),
        9 => drop(f.reference(b"refs/heads/none")),
        10 => drop(f.reference_names()),
        11 => drop(f.head_reference_names()),
        12 => drop(f.tag_reference_names()),
        13 => drop(f.remote_reference_names()),
        _ => drop(Repository::open(atp(b""))),
    }
}

/// `.git` is a folder (empty or not), an empty file, a file that names another folder, missing, a link to nothing, a link
/// to a file; or the working folder is missing, or a file: opening succeeds exactly for the folder
pub fn open_kinds() {
    let k = choice(10);
    let dir = k < 2;
    match k {
        0 => mkdir(b".git"),
        1 => furnish(1),
        2 => put(b".git", b""),
        3 => {
            mkdir(b"real");
            mkdir(b"real/objects");
            put(b".git", b"gitdir: real\n")
        }
        4 => (),
        5 => symlink(b".git", b"nowhere"),
        6 => {
            put(b"f", b"x");
            symlink(b".git", b"f")
        }
        7 => put(b".git", &any(3)),
        // the working folder itself
        8 => put(b"w", b"x"),
        _ => (),
    }
    let path = match k {
        8 | 9 => atp(b"w"),
        _ => match choice(3) {
            0 => atp(b""),
            1 => atp(b"."),
            _ => atp(b"./"),
        },
    };
    let before = all();
    match Repository::open(path) {
        Ok(r) => {
            check(dir, "[C22] a path without a .git directory was opened");
            // and what it returned reads that directory
            if k == 1 {
                check(matches!(look(&r, &P), Got::Obj(_)), "[C22] the repository opened does not read its objects");
            }
            cover("opened")
        }
        Err(_) => {
            check(!dir, "[C22] a repository that has a .git directory was not opened");
            cover("refused")
        }
    }
    unchanged(&before)
}

/// opening while any call fails: an error or a repository, nothing created
pub fn open_faults() {
    furnish(choice(2));
    let before = all();
    faults(OPEN_ERR | READ_ERR | EINTR, 2);
    let r = Repository::open(atp(b""));
    faults(0, 0);
    if r.is_ok() {
        cover("opened")
    } else {
        cover("refused")
    }
    unchanged(&before)
}

/// each of 15 read operations (one of them for ids with any first byte) on a repository that is empty, complete, full of leftovers
/// of interrupted programs, or damaged
pub fn each_read() {
    furnish(choice(4));
    let before = all();
    let r = open();
    act(&r, choice(OPS));
    unchanged(&before);
    cover("ended")
}

/// the same with one (deep: two) failing, split or interrupted call anywhere
pub fn each_read_faults() {
    furnish(1 + choice(by(2, 3)));
    let before = all();
    let r = open();
    let op = choice(OPS);
    faults(OPEN_ERR | READ_ERR | EINTR | SHORT_READ, by(1, 2) as u32);
    act(&r, op);
    faults(0, 0);
    unchanged(&before);
    cover("ended")
}

/// any two (deep: three) read operations one after the other, at once or after a pause
pub fn sequences() {
    furnish(1 + choice(3));
    let before = all();
    let r = open();
    for _ in 0..by(2, 3) {
        act(&r, choice(OPS));
        if choice(2) == 1 {
            time_advance(60_000)
        }
    }
    unchanged(&before);
    cover("ended")
}

/// any two read operations at the same time on two threads, one forced switch at any call
pub fn two_threads() {
    furnish(1);
    let before = all();
    let r = open();
    let (a, b) = (choice(OPS), choice(OPS));
    let r: &'static Repository = Box::leak(Box::new(r));
    threads(1, vec![Box::new(move || act(r, a)), Box::new(move || act(r, b))]);
    unchanged(&before);
    cover("ended")
}

/// the complete repository, or one full of leftovers, in which an object lies in a pack and the loose store; any one of its
/// files (or a folder) is missing, empty or has three arbitrary bytes: each of 15 read operations, twice
pub fn without() {
    const WHAT: [&[u8]; 9] = [
        b"HEAD",
        b"refs/heads/m",
        b"refs/tags/t",
        b"objects/pack/p.pack",
        b"objects/pack/p.idx",
        b"objects/5a/5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a",
        b"objects/61/61616161616161616161616161616161616161",
        b"refs/heads",
        b"objects/pack",
    ];
    furnish(1 + choice(2));
    put_loose(&P, b"blob", b"base");
    let k = choice(WHAT.len());
    let f = [b".git/", &WHAT[k][..]].concat();
    let how = choice(3);
    let op = choice(OPS);
    match how {
        _ if k >= 7 => {
            assume(how == 0);
            rename(&f, &[&f[..], b".old"].concat())
        }
        0 => remove(&f),
        1 => {
            remove(&f);
            put(&f, b"")
        }
        _ => {
            remove(&f);
            put(&f, &any(by(1, 3)))
        }
    }
    let before = all();
    let r = open();
    act(&r, op);
    act(&r, op);
    unchanged(&before);
    cover("ended")
}
