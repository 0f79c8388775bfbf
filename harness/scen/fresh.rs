//! C27: references while other programs change them
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::reference::{Direct, Error, Reference, ReferenceTarget, Symbolic};
use rusty_git::repository::Repository;
use std::io::Read;

fn idn(k: usize) -> [u8; 20] {
    fake_id(0x40 + 4 * k as u8, 0x35)
}
/// 0 absent, 1 and 2 ids, 3 and 4 other references, 5 malformed
fn text(k: usize) -> Vec<u8> {
    match k {
        1 | 2 => [&hex(&idn(k))[..], b"\n"].concat(),
        3 => b"ref: refs/heads/b\n".to_vec(),
        4 => b"ref: refs/heads/some/longer/name\n".to_vec(),
        _ => b"nothing\n".to_vec(),
    }
}
const STATES: usize = 6;
const OTHER: usize = 99;
fn state(r: Result<Reference, Error>) -> usize {
    match r {
        Err(Error::ReferenceNotFound) => 0,
        Err(Error::InvalidReference(_)) => 5,
        Err(_) => OTHER,
        Ok(x) => match x.target() {
            ReferenceTarget::Direct(d) => {
                for k in 1..3 {
                    if Direct::from_bytes(&hex(&idn(k))).map_or(false, |w| w == *d) {
                        return k;
                    }
                }
                OTHER
            }
            ReferenceTarget::Symbolic(s) => {
                for k in 3..5 {
                    let t = text(k);
                    if Symbolic::from_bytes(&t[5..t.len() - 1], None).map_or(false, |w| w == *s) {
                        return k;
                    }
                }
                OTHER
            }
        },
    }
}
const A: &[u8] = b".git/refs/heads/a";
const HEAD: &[u8] = b".git/HEAD";
const TEMP: &[u8] = b".git/new.lock";
/// as git does: a new file is renamed over the old one
fn set(path: &[u8], k: usize) {
    if k == 0 {
        if exists(path) {
            remove(path)
        }
    } else {
        put(TEMP, &text(k));
        rename(TEMP, path)
    }
}
/// the same by another program, at any moments; the temporary file gets a name of its own
fn env_set(path: &[u8], k: usize, n: u8) {
    let t = [b".git/new.", &[b'0' + n][..]].concat();
    if k == 0 {
        env_remove(path)
    } else {
        put(&t, &text(k));
        env_rename(&t, path)
    }
}
/// one of the ways to look a reference up
fn lookup(r: &Repository, way: usize, name: &[u8]) -> usize {
    let d = r.reference_database();
    match way {
        0 if name == b"HEAD" => state(d.head()),
        0 | 1 => state(d.reference(name)),
        2 => state(d.parse_reference(name)),
        _ => match d.read_reference_file(name) {
            Ok(mut f) => {
                let mut v = vec![];
                match f.read_to_end(&mut v) {
                    Ok(_) => state(Reference::from_bytes(&v)),
                    Err(_) => OTHER,
                }
            }
            Err(e) => state(Err(e)),
        },
    }
}

/// HEAD or a branch set 3 (deep: 4) times to any of two ids, two other references, malformed or deleted, in place or by
/// renaming: one database gives each state as it is, by all four ways, whatever it gave before
pub fn history() {
    mkrepo();
    let r = open();
    let rename = choice(2) == 1;
    let mut now = [0, 0];
    for _ in 0..by(3, 4) {
        let j = choice(2);
        let k = choice(STATES);
        let path = [HEAD, A][j];
        if rename || k == 0 {
            set(path, k)
        } else {
            put(path, &text(k))
        }
        now[j] = k;
        for way in 0..4 {
            check(lookup(&r, way, b"HEAD") == now[0], "a lookup does not give what HEAD holds now");
            check(lookup(&r, way, b"refs/heads/a") == now[1], "a lookup does not give what the reference holds now")
        }
        match r.reference_database().reference_names() {
            Ok(l) => check(l.len() == (now[1] != 0) as usize, "a listing does not give the references there are now"),
            Err(_) => check(false, "a listing failed without any fault"),
        }
    }
    cover("current");
}

/// a repository with nothing but its git directory; then 3 (deep: 4) times HEAD, a branch, a branch in a folder (or one in
/// the folder's place), a tag or a remote's branch is created (with the folders it needs) or deleted (and its empty folders
/// or not): lookups and listings give what there is each time
pub fn folders() {
    mkdir(b".git");
    mkdir(b".git/objects");
    let r = open();
    let names: Vec<&[u8]> = vec![b"HEAD", b"refs/heads/a", b"refs/heads/d/b", b"refs/heads/d", b"refs/tags/t", b"refs/remotes/o/x"];
    let prune = choice(2) == 1;
    let mut there = [false; 6];
    let g = |n: &[u8]| [b".git/", n].concat();
    let all = |there: &[bool; 6]| {
        for (i, n) in names.iter().enumerate() {
            for way in 1..4 {
                let s = lookup(&r, way, n);
                if exists(&g(n)) && !there[i] {
                    // a folder
                    check(s == OTHER || s == 5, "looking a folder up does not give an error")
                } else if i == 2 && there[3] {
                    // below a file: not found, or an error of the file system
                    check(s == 0 || s == OTHER, "looking up what is below a file does not give an error")
                } else {
                    check(s == there[i] as usize, "a lookup does not give what the reference holds now")
                }
            }
        }
        check(lookup(&r, 0, b"HEAD") == there[0] as usize, "a lookup does not give what HEAD holds now");
        let d = r.reference_database();
        let l = [d.head_reference_names(), d.tag_reference_names(), d.remote_reference_names(), d.reference_names()];
        for (j, x) in l.iter().enumerate() {
            match x {
                Ok(x) => {
                    let p = [&b"refs/heads/"[..], b"refs/tags/", b"refs/remotes/", b"refs/"][j];
                    let w: Vec<_> = (0..6).filter(|i| there[*i] && names[*i].starts_with(p)).collect();
                    check(x.len() == w.len() && w.iter().all(|i| x.iter().any(|y| &y[..] == names[*i])), "a listing does not give the references there are now")
                }
                Err(_) => check(false, "a listing failed without any fault"),
            }
        }
    };
    all(&there);
    for _ in 0..by(3, 4) {
        let i = choice(6);
        let n = names[i];
        if there[i] {
            remove(&g(n));
            there[i] = false;
            if prune {
                let mut k = n.len();
                while let Some(j) = n[..k].iter().rposition(|c| *c == b'/') {
                    k = j;
                    if k > 4 && list(&g(&n[..k])).is_empty() {
                        remove(&g(&n[..k]))
                    }
                }
            }
        } else {
            if i == 2 && there[3] {
                remove(&g(names[3]));
                there[3] = false
            }
            if i == 3 && exists(&g(names[3])) {
                remove(&g(names[3]));
                there[2] = false
            }
            for k in 1..n.len() {
                if n[k] == b'/' && !exists(&g(&n[..k])) {
                    mkdir(&g(&n[..k]))
                }
            }
            put(&g(n), &text(1));
            there[i] = true
        }
        all(&there)
    }
    cover("current");
}

/// a reference in any of 6 states is replaced by any other (or deleted, or created) at any moment of a lookup, by each of
/// four ways, on a database that looked it up before or not: the old or the new state; afterwards the new one
pub fn replaced() {
    mkrepo();
    let head = choice(2) == 1;
    let (path, name): (&[u8], &[u8]) = if head { (HEAD, b"HEAD") } else { (A, b"refs/heads/a") };
    let (a, b) = (choice(STATES), choice(STATES));
    if a == b && a == 0 {
        return;
    }
    set(path, a);
    let r = open();
    if choice(2) == 1 {
        check(lookup(&r, 1, name) == a, "a lookup does not give what the reference holds now")
    }
    env_set(path, b, 0);
    let way = choice(4);
    env_on(true);
    let got = lookup(&r, way, name);
    env_finish();
    check(got == a || got == b, "a lookup while a reference is replaced gives neither its old nor its new target");
    cover(if got == a { "old" } else { "new" });
    check(lookup(&r, way, name) == b, "a lookup after a reference was replaced does not give its new target");
}

/// 0, 1, 2: the object's number; 3: not found
fn peeled(r: Result<rusty_git::object::Object, Error>, x: &[u8]) -> usize {
    match r {
        Ok(o) => match o.data() {
            ObjectData::Blob(b) => {
                for k in 0..3 {
                    if eq(&id_bytes(o.id()), &idn(k)) {
                        check(eq(b.data(), &[x[0], k as u8]), "peeling gives another content than the object's");
                        return k;
                    }
                }
                OTHER
            }
            _ => OTHER,
        },
        Err(Error::ReferenceNotFound) => 3,
        Err(_) => OTHER,
    }
}
fn blobs(x: &[u8]) {
    mkrepo();
    for k in 0..3 {
        put_loose(&idn(k), b"blob", &[x[0], k as u8])
    }
}

/// HEAD names branch a or b, each of which holds one of three ids; two of these are changed by other programs, one after
/// the other, at any moments while HEAD is peeled: the object is one that HEAD named at one moment and a branch held at
/// that or a later one
pub fn peeled_meanwhile() {
    let x = any(1);
    blobs(&x);
    let branch = |k: usize| -> &[u8] { [&b"refs/heads/a"[..], b"refs/heads/b"][k] };
    let to = |k: usize| [b"ref: ", branch(k), b"\n"].concat();
    let id = |k: usize| [&hex(&idn(k))[..], b"\n"].concat();
    let git = |n: &[u8]| [b".git/", n].concat();
    put(HEAD, &to(0));
    put(&git(branch(0)), &id(0));
    put(&git(branch(1)), &id(1));
    // which branch HEAD names; what each branch holds
    let mut s = vec![(0usize, [0usize, 1])];
    for n in 0..2u8 {
        let mut t = s[s.len() - 1];
        let (path, text) = match choice(3) {
            0 => {
                t.0 = 1 - t.0;
                (HEAD.to_vec(), to(t.0))
            }
            j => {
                t.1[j - 1] = 2;
                (git(branch(j - 1)), id(2))
            }
        };
        let temp = [b".git/new.", &[b'0' + n][..]].concat();
        put(&temp, &text);
        env_rename(&temp, &path);
        s.push(t)
    }
    let r = open();
    let used = choice(2) == 1;
    if used {
        check(peeled(r.reference_database().head().and_then(|h| h.peel(&r)), &x) == 0, "peeling does not give what HEAD holds now")
    }
    env_on(true);
    let got = peeled(r.reference_database().head().and_then(|h| h.peel(&r)), &x);
    env_finish();
    let mut ok = false;
    for i in 0..s.len() {
        for j in i..s.len() {
            ok |= s[j].1[s[i].0] == got
        }
    }
    check(ok, "peeling while references change gives an object that none of them named");
    let last = s[s.len() - 1];
    check(peeled(r.reference_database().head().and_then(|h| h.peel(&r)), &x) == last.1[last.0], "peeling after references changed does not give the new object");
    cover("peeled");
}

/// another program writes a new object, loose or in a pack, then points a branch (that HEAD names) to it, all at any
/// moments while HEAD is peeled, on a database that looked for packs before or not: the old or the new object, no error
pub fn new_object() {
    let x = any(1);
    mkrepo();
    put_loose(&idn(0), b"blob", &[x[0], 0]);
    put(HEAD, b"ref: refs/heads/a\n");
    put(A, &hex(&idn(0)));
    let new = framed(b"blob", &[x[0], 1]);
    match choice(2) {
        0 => {
            put(b".git/objects/tmp_obj_1", &zlib(&new));
            env_mkdir(&loose_dir(&idn(1)));
            env_rename(b".git/objects/tmp_obj_1", &loose_path(&idn(1)))
        }
        _ => {
            let mut p = Pack::new();
            p.whole(idn(1), BLOB, &[x[0], 1]);
            env_put(&pack_path(b"n", b"pack"), &p.finish());
            put(b".git/objects/pack/tmp_idx_1", &p.idx(2));
            env_rename(b".git/objects/pack/tmp_idx_1", &pack_path(b"n", b"idx"))
        }
    }
    put(b".git/new.0", &hex(&idn(1)));
    env_rename(b".git/new.0", A);
    let r = open();
    if choice(2) == 1 {
        look(&r, &idn(2));
    }
    env_on(true);
    let got = peeled(r.reference_database().head().and_then(|h| h.peel(&r)), &x);
    check(got == 0 || got == 1, "peeling while a new object is committed gives neither the old nor the new object");
    env_finish();
    check(peeled(r.reference_database().head().and_then(|h| h.peel(&r)), &x) == 1, "peeling after a new object was committed does not give it");
    cover(if got == 0 { "old" } else { "new" });
}

/// other programs create, delete and rename branches (2 changes of 5 kinds, in folders that are there or new) at any
/// moments of a listing of the branches or of all references: what was not touched is listed once, what was touched at
/// most once, nothing else; the next listing gives exactly what there is
pub fn listed() {
    mkrepo();
    mkdir(b".git/refs/heads/d");
    let start: Vec<&[u8]> = vec![b"refs/heads/a", b"refs/heads/d/b", b"refs/heads/k", b"refs/tags/t"];
    for n in start.iter() {
        put(&[b".git/", *n].concat(), &hex(&idn(0)))
    }
    let mut now: Vec<Vec<u8>> = start.iter().map(|n| n.to_vec()).collect();
    let mut touched: Vec<Vec<u8>> = vec![];
    let g = |n: &[u8]| [b".git/", n].concat();
    let t = hex(&idn(1));
    let first = choice(5);
    let second = choice(5);
    for (i, c) in [first, second].iter().enumerate() {
        if i == 1 && first == second {
            continue;
        }
        let (gone, new): (&[u8], &[u8]) = match c {
            0 => (b"", b"refs/heads/n"),
            1 => (b"refs/heads/a", b""),
            2 => (b"refs/heads/d/b", b"refs/heads/d/z"),
            3 => {
                env_mkdir(b".git/refs/heads/new");
                (b"", b"refs/heads/new/x")
            }
            _ => (b"", b"refs/heads/d/c"),
        };
        if !gone.is_empty() {
            now.retain(|n| &n[..] != gone);
            touched.push(gone.to_vec());
            if new.is_empty() {
                env_remove(&g(gone))
            } else {
                env_rename(&g(gone), &g(new))
            }
        } else {
            env_put(&g(new), &t)
        }
        if !new.is_empty() {
            now.push(new.to_vec());
            touched.push(new.to_vec())
        }
    }
    readdir_reversed(choice(2) == 1);
    let r = open();
    let all = choice(2) == 1;
    let names = |r: &Repository| {
        let d = r.reference_database();
        match if all { d.reference_names() } else { d.head_reference_names() } {
            Ok(l) => l,
            Err(_) => {
                check(false, "a listing fails while references change");
                vec![]
            }
        }
    };
    let mine = |n: &[u8]| all || n.starts_with(b"refs/heads/");
    env_on(true);
    let l = names(&r);
    env_finish();
    for n in start.iter() {
        if mine(n) && touched.iter().all(|t| &t[..] != *n) {
            check(l.iter().filter(|x| &x[..] == *n).count() == 1, "a reference nobody touched is not listed exactly once while others change")
        }
    }
    for n in l.iter() {
        check(start.iter().any(|s| *s == &n[..]) || now.contains(n), "a listing has a name that never was a reference");
        check(l.iter().filter(|x| *x == n).count() == 1, "a reference is listed twice")
    }
    let l = names(&r);
    let want: Vec<_> = now.iter().filter(|n| mine(n)).collect();
    check(l.len() == want.len() && want.iter().all(|n| l.contains(n)), "a listing after references changed does not give what there is");
    cover(if all { "all" } else { "branches" });
}
