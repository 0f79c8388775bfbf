//! C24: what an error says
use super::kit::*;
use super::rt::*;
use rusty_git::object::{Id, ObjectData, ParseIdError, ReadObjectError, ShortId};
use rusty_git::reference::{Error, Reference};
use rusty_git::repository::{OpenError, Repository};

/// asks for the message and the causes of an error; there may not be endlessly many
fn told(e: &dyn std::error::Error) -> Vec<u8> {
    let text = e.to_string().into_bytes();
    check(!text.is_empty(), "an error has no message");
    let mut s = e.source();
    let mut n = 0;
    while let Some(c) = s {
        check(!c.to_string().is_empty(), "the cause of an error has no message");
        n += 1;
        check(n < 20, "the causes of an error go on without end");
        s = c.source()
    }
    text
}
/// the error of reading `id` says so
fn about(e: &ReadObjectError, id: &[u8; 20], missing: bool) {
    check(!e.is_ambiguous(), "a whole id was called ambiguous");
    check(e.is_not_found() == missing, if missing { "an id that no store holds was not reported as not found" } else { "an object that exists but cannot be read was reported as not found" });
    check(e.id() == ShortId::from(Id::from_bytes(id)), "an error names another id than the one asked for");
    let h = hex(id);
    check(eq(e.id().to_hex().as_bytes(), &h), "an error names another id than the one asked for");
    let text = told(e);
    let mut found = false;
    for k in 0..text.len().max(39) - 39 {
        found |= eq(&text[k..k + 40], &h)
    }
    check(found, "the message of an error does not name the id asked for");
}

const ID: [u8; 20] = [0x9c; 20];
const OTHER: [u8; 20] = [0x31; 20];
const BAD: usize = 15;
/// makes ID an object that cannot be read, for one of 15 reasons
fn damaged(why: usize, x: u8) {
    let mut p = Pack::new();
    let o = p.whole(OTHER, BLOB, b"base");
    match why {
        0 => put_loose_raw(&ID, &zlib(&[b"blob 2", &[x][..], b"ab"].concat())),
        1 => put_loose_raw(&ID, &zlib(&[b"blob ", &[x][..], b"\0ab"].concat())),
        2 => put_loose_raw(&ID, b""),
        3 => put_loose_raw(&ID, &[x, b'j', b'u', b'n', b'k']),
        4 => {
            p.refd(ID, &fake_id(0xdd, x), &delta(4, 4, &[copy_op(0, 4)]));
        }
        5 => {
            p.ofs(ID, o, &delta(4, 9, &[copy_op(0, 4), insert_op(&[x])]));
        }
        6 => {
            p.refd(fake_id(1, 1), &OTHER, &delta(3, 4, &[copy_op(0, 4)]));
            p.refd(ID, &fake_id(1, 1), &delta(4, 1, &[insert_op(&[x])]));
        }
        7 => {
            p.whole(ID, TREE, &[&[x][..], b"100644 f"].concat());
        }
        8 => put_loose(&ID, b"tree", &[&[x][..], b"100644 f"].concat()),
        9 => put_loose(&ID, b"commit", &[b"tree ", &hex(&OTHER)[..39], &[x][..], b"\nauthor "].concat()),
        10 => put_loose(&ID, b"tag", &[b"object ", &hex(&OTHER)[..], b"\ntype ", &[x]].concat()),
        // an object type that does not exist
        11 => {
            p.whole(ID, 5, &[x]);
        }
        // a delta on itself
        12 => {
            p.refd(ID, &ID, &delta(1, 1, &[insert_op(&[x])]));
        }
        // the loose object is a folder
        13 => {
            if !exists(&loose_dir(&ID)) {
                mkdir(&loose_dir(&ID))
            }
            mkdir(&loose_path(&ID))
        }
        // the index points behind the pack
        _ => p.ents.push((ID, 1 << 20)),
    }
    if choice(2) == 1 {
        put_loose(&OTHER, b"blob", b"base")
    }
    p.store(b"e", 2);
}

/// an object that cannot be read for one of 15 reasons (one byte of what is wrong is arbitrary), beside others that can;
/// any one byte of the id asked for is arbitrary
pub fn reading() {
    mkrepo();
    damaged(choice(BAD), any_u8());
    let r = open();
    for _ in 0..2 {
        match r.object_database().parse_object(Id::from_bytes(&ID)) {
            Err(e) => {
                about(&e, &ID, false);
                cover("unreadable")
            }
            Ok(o) => {
                check(eq(&id_bytes(o.id()), &ID), "an object was returned under another id");
                note("readable after all")
            }
        }
    }
    let mut other = ID;
    other[[0, 1, 10, 19][choice(4)]] = any_u8();
    if other == ID {
        return;
    }
    match r.object_database().parse_object(Id::from_bytes(&other)) {
        Err(e) => {
            about(&e, &other, true);
            cover("missing")
        }
        Ok(_) => check(false, "an object was returned for an id that no store holds"),
    }
    check(matches!(look(&r, &OTHER), Got::Obj(ObjectData::Blob(_))), "another object cannot be read");
}

/// the same through `read_object`, and with one (deep: two) failing calls anywhere; of an object that cannot be read, one
/// that can (packed or loose), and a missing one
pub fn faulty() {
    mkrepo();
    let why = choice(BAD + 3);
    if why < BAD {
        damaged(why, b'!')
    } else if why == BAD {
        put_loose(&ID, b"blob", b"x")
    } else if why == BAD + 1 {
        let mut p = Pack::new();
        let o = p.whole(OTHER, BLOB, b"base");
        p.ofs(ID, o, &delta(4, 4, &[copy_op(0, 4)]));
        p.store(b"e", 2)
    }
    let missing = why == BAD + 2;
    let r = open();
    let raw = choice(2) == 1;
    faults(OPEN_ERR | READ_ERR, by(1, 2) as u32);
    let e = if raw { r.object_database().read_object(Id::from_bytes(&ID)).err() } else { r.object_database().parse_object(Id::from_bytes(&ID)).err() };
    faults(0, 0);
    if let Some(e) = e {
        about(&e, &ID, missing && e.is_not_found());
        cover("error")
    } else {
        check(!missing, "an object was returned for an id that no store holds");
        cover("read")
    }
}

fn kind(e: &Error) -> usize {
    told(e);
    match e {
        Error::ReferenceNotFound => 1,
        Error::InvalidReference(_) => 2,
        Error::DereferencingFailed(_) => 3,
        Error::Io(_) => 4,
        _ => 5,
    }
}

/// looking up references by a name with 2 (deep: 3) arbitrary bytes: `not found` exactly for names inside the git directory that no file
/// has; a malformed file is called invalid
pub fn looking_up() {
    mkrepo();
    put(b".git/HEAD", b"ref: refs/heads/ab\n");
    let bad = [&b""[..], b"# x", b"short", b"ref: ", b"ffffffffffffffffffffffffffffffffffffffffff"][choice(5)];
    put(b".git/refs/heads/ab", bad);
    put(b".git/refs/heads/ok", &hex(&ID));
    let x = any(by(2, 3));
    for c in x.iter() {
        assume(*c != 0 && *c != b'/' && *c != b'.')
    }
    let r = open();
    let name = [b"refs/heads/", &x[..]].concat();
    match r.reference_database().reference(&name) {
        Ok(_) => {
            check(eq(&x, b"ok"), "a malformed or missing reference was returned");
            cover("found")
        }
        Err(e) => {
            check(x != b"ok", "a reference that exists was refused");
            if x == b"ab" {
                check(kind(&e) == 2, "a malformed reference file was not called invalid");
                cover("invalid")
            } else {
                check(kind(&e) == 1, "a missing reference was not reported as not found");
                cover("missing")
            }
        }
    }
}

/// peeling: to a missing object (any one byte of its id is arbitrary), an object that cannot be read for one of 15 reasons,
/// a missing reference, a malformed one, a loop; at once, or through one or two symbolic references
pub fn peeling() {
    mkrepo();
    let k = choice(5);
    let mut id = ID;
    match k {
        0 => {
            id[[0, 1, 19][choice(3)]] = any_u8();
            put(b".git/refs/heads/x", &hex(&id))
        }
        1 => {
            damaged(choice(BAD), b'?');
            put(b".git/refs/heads/x", &hex(&id))
        }
        2 => (),
        3 => put(b".git/refs/heads/x", &[&any(1)[..], b"short"].concat()),
        _ => put(b".git/refs/heads/x", [&b"ref: refs/heads/x"[..], b"ref: HEAD", b"ref: refs/heads/y"][choice(3)]),
    }
    put(b".git/refs/heads/y", b"ref: refs/heads/x");
    put(b".git/HEAD", [&b"ref: refs/heads/x"[..], b"ref: refs/heads/y"][choice(2)]);
    let r = open();
    let f = match choice(3) {
        0 => r.reference_database().head(),
        1 => r.reference_database().reference(b"refs/heads/y"),
        _ => Reference::from_bytes(b"ref: HEAD"),
    };
    let f = match f {
        Ok(f) => f,
        Err(_) => {
            check(false, "a symbolic reference cannot be read");
            return;
        }
    };
    match f.peel(&r) {
        Ok(_) => {
            check(k == 1, "a chain of references that does not end in an object gave one");
            note("readable after all")
        }
        Err(e) => {
            let n = kind(&e);
            match k {
                0 | 1 => {
                    check(n == 3, "a reference to an object that cannot be read gave another error");
                    if let Error::DereferencingFailed(e) = &e {
                        about(e, &id, k == 0)
                    }
                    cover("object")
                }
                2 => {
                    check(n == 1, "a chain that ends in a missing reference was not reported as not found");
                    cover("dangling")
                }
                3 => {
                    check(n == 2, "a chain that ends in a malformed reference was not called invalid");
                    cover("malformed")
                }
                _ => {
                    check(n == 5, "a loop of references was reported as something else");
                    cover("loop")
                }
            }
        }
    }
}

/// one failing call anywhere in looking up, peeling or listing references that all exist: never called missing, invalid or a loop
pub fn reference_faults() {
    mkrepo();
    put_loose(&ID, b"blob", b"x");
    put(b".git/HEAD", b"ref: refs/heads/a\n");
    put(b".git/refs/heads/a", &hex(&ID));
    let r = open();
    let db = r.reference_database();
    let k = choice(4);
    faults(OPEN_ERR | READ_ERR, by(1, 2) as u32);
    let e = match k {
        0 => db.head().err(),
        1 => db.reference(b"refs/heads/a").err(),
        2 => db.head().and_then(|f| f.peel(&r)).err(),
        _ => db.reference_names().err(),
    };
    faults(0, 0);
    if let Some(e) = e {
        let n = kind(&e);
        check(n != 1, "a reference that exists was called missing");
        check(n != 5, "an I/O error was called a loop or an invalid name");
        match &e {
            Error::DereferencingFailed(e) => about(e, &ID, false),
            Error::InvalidReference(_) => {
                // an error of the reader, with its cause
                let mut s = std::error::Error::source(&e);
                let mut io = false;
                while let Some(c) = s {
                    io |= c.is::<std::io::Error>();
                    s = c.source()
                }
                check(io, "an I/O error was called an invalid reference")
            }
            _ => (),
        }
        cover("error")
    } else {
        cover("done")
    }
}

/// ids of 0 to 44 characters (whole or short), in which one at any of 5 places is arbitrary: too short, too long, or not hexadecimal
pub fn id_texts() {
    let n = [0usize, 1, 3, 4, 5, 39, 40, 41, 42, 44][choice(10)];
    let mut t = vec![b'a'; n];
    let mut valid = true;
    if n > 0 {
        let c = any_u8();
        t[[0, 1, 2, n / 2, n - 1][choice(5)].min(n - 1)] = c;
        valid = (c >= b'0' && c <= b'9') | (c >= b'a' && c <= b'f') | (c >= b'A' && c <= b'F')
    }
    if let Err(e) = Id::from_hex(&t) {
        told(&e);
        check(!(n == 40 && valid), "a whole id was refused");
        cover("id")
    } else {
        check(n == 40 && valid, "a malformed id was accepted")
    }
    match ShortId::from_hex(&t) {
        Ok(_) => check(n >= 4 && n <= 40 && n % 2 == 0 && valid, "a malformed short id was accepted"),
        Err(e) => {
            told(&e);
            match e {
                ParseIdError::TooShort => check(n < 4, "a short id was called too short"),
                ParseIdError::TooLong => check(n > 40, "a short id was called too long"),
                _ => {
                    check(n >= 4 && n <= 40, "a short id of a wrong length was called something else");
                    check(!valid || n % 2 == 1, "a short id was called not hexadecimal")
                }
            }
            cover("short id")
        }
    }
}

/// opening what is not a repository, under any name of 2 (deep: 3) arbitrary bytes: the error names the path; with a failing call too
pub fn opening() {
    let x = any(by(2, 3));
    for c in x.iter() {
        assume(*c != 0 && *c != b'/' && *c != b'.')
    }
    let some = choice(3);
    if some > 0 {
        mkdir(b"ab")
    }
    if some > 1 {
        put(b"ab/.git", b"gitdir: elsewhere")
    }
    let p = atp(&x);
    let e = match Repository::open(p.clone()) {
        Ok(_) => {
            check(false, "something else was opened as a repository");
            return;
        }
        Err(e) => e,
    };
    told(&e);
    match e {
        OpenError::NotFound(q) => {
            check(eq(std::os::unix::ffi::OsStrExt::as_bytes(q.as_os_str()), std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())), "an error names another path than the one asked for");
            cover("named")
        }
        _ => check(false, "a missing repository was not reported as not found"),
    }
    mkdir(b"re");
    mkdir(b"re/.git");
    faults(OPEN_ERR, 1);
    let r = Repository::open(atp(b"re"));
    faults(0, 0);
    if let Err(e) = r {
        check(!matches!(e, OpenError::NotFound(_)), "a repository that exists was reported as not found because of an I/O error");
        told(&e);
        cover("failed")
    }
}
