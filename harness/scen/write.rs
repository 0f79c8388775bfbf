//! C01, C02: writing loose objects
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::Id;
use rusty_git::repository::Repository;
use std::io::Read;

/// None: not found; Some(Err): an error
pub fn raw_read(r: &Repository, id: &[u8; 20]) -> Option<Result<Vec<u8>, ()>> {
    match r.object_database().read_object(Id::from_bytes(id)) {
        Ok(mut o) => {
            let mut v = vec![];
            Some(match o.reader().read_to_end(&mut v) {
                Ok(_) => Ok(v),
                Err(_) => Err(()),
            })
        }
        Err(e) => {
            if e.is_not_found() {
                None
            } else {
                Some(Err(()))
            }
        }
    }
}
fn write_ok(r: &Repository, body: &[u8]) -> [u8; 20] {
    let want = digest(body);
    match r.object_database().write_object(body) {
        Ok(id) => check(eq(&id_bytes(&id), &want), "the id returned by a write is not the SHA-1 of the bytes"),
        Err(_) => check(false, "writing an object failed without any fault"),
    }
    want
}
fn must_read(r: &Repository, id: &[u8; 20], body: &[u8]) {
    match raw_read(r, id) {
        Some(Ok(v)) => {
            check(eq(&v, body), "the bytes read back differ from the bytes written");
            if v.len() <= 64 {
                observe(&v)
            }
        }
        Some(Err(())) => check(false, "reading a written object failed"),
        None => check(false, "a written object was not found"),
    }
}
fn dir_state(id: &[u8; 20], k: usize) {
    if k == 1 {
        mkdir(&loose_dir(id))
    }
    if k == 2 {
        // a neighbour in the same folder
        let mut other = *id;
        other[19] ^= 1;
        put_loose(&other, b"blob", b"neighbour");
    }
}

/// every byte string of 0 to 4 (deep: 10) bytes; folder new, existing, or holding another object;
/// read back through the same and through a new repository; written once or twice
pub fn round_trip() {
    mkrepo();
    let n = choice(by(5, 11));
    let body = any(n);
    let id = digest(&body);
    dir_state(&id, choice(3));
    let r = open();
    write_ok(&r, &body);
    check(exists(&loose_path(&id)), "a written object is not at its place in the loose store");
    must_read(&r, &id, &body);
    if choice(2) == 1 {
        write_ok(&r, &body);
        must_read(&r, &id, &body);
        cover("written twice");
    }
    must_read(&open(), &id, &body);
    cover("read back");
}

/// framed objects parse back: any blob of up to 4 bytes written as a whole object
pub fn parse_back() {
    mkrepo();
    let body = any(choice(by(5, 9)));
    let obj = framed(b"blob", &body);
    let r = open();
    let id = write_ok(&r, &obj);
    super::loose::expect_blob(&r, &id, &body);
    cover("parsed");
}

/// two different byte strings of 2 bytes each, written in both orders, stay distinct
pub fn two_objects() {
    mkrepo();
    let a = any(choice(3));
    let b = any(choice(3));
    assume(!eq(&a, &b));
    let r = open();
    let ia = write_ok(&r, &a);
    let ib = write_ok(&r, &b);
    must_read(&r, &ia, &a);
    must_read(&r, &ib, &b);
    cover("both read");
}

/// ids with every shape of first byte (00, 01, 0f, 10, 7f, 80, f0, ff, leading zero nibbles): one message for each
pub fn id_shapes() {
    mkrepo();
    let want: &[u8] = &[0x00, 0x01, 0x09, 0x0a, 0x0f, 0x10, 0x7f, 0x80, 0x90, 0xa0, 0xf0, 0xff];
    let w = want[choice(want.len())];
    let second = choice(2) == 1;
    let mut i = 0;
    let body = loop {
        let b = [b"message ".to_vec(), dec(i)].concat();
        let d = digest(&b);
        // also the byte after the folder name, where a missing leading zero would show
        if if second { d[1] == w && d[19] != 0 } else { d[0] == w } {
            break b;
        }
        i += 1;
    };
    let r = open();
    let id = write_ok(&r, &body);
    check(exists(&loose_path(&id)), "a written object is not at its place in the loose store");
    must_read(&r, &id, &body);
    cover("read back");
}

/// sizes around the compressor's and the reader's buffers; three symbolic bytes
pub fn sizes() {
    mkrepo();
    const Q: &[usize] = &[31, 32, 33, 999, 4096, 8192, 32767, 32768, 32769, 65535, 65536, 70000];
    const T: &[usize] = &[16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 999, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 31743, 32000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 98304, 131072, 200000];
    let n = if deep() { T[choice(T.len())] } else { Q[choice(Q.len())] };
    let body = big(n, 3);
    let r = open();
    let id = write_ok(&r, &body);
    must_read(&r, &id, &body);
    must_read(&open(), &id, &body);
    cover("read back");
}

/// a history of 3 (deep: 5) writes, each of one of two byte strings of up to 3 bytes, with reads in between
pub fn history() {
    mkrepo();
    let a = any(3);
    let b = any(2);
    let r = open();
    let mut wrote = [false; 2];
    let ids = [digest(&a), digest(&b)];
    for _ in 0..by(3, 5) {
        let k = choice(2);
        let body = if k == 0 { &a } else { &b };
        write_ok(&r, body);
        wrote[k] = true;
        for j in 0..2 {
            if wrote[j] {
                must_read(&r, &ids[j], if j == 0 { &a } else { &b })
            } else {
                check(raw_read(&r, &ids[j]).is_none(), "an object never written was found")
            }
        }
    }
    cover("history");
}

/// an object of 0 to 3 bytes written (and read or not), then its file or its folder removed by another program, or moved
/// into a pack; written again through the same database or a new one, it is there again
pub fn lost() {
    mkrepo();
    let text = any(choice(4));
    let body = framed(b"blob", &text);
    let id = digest(&body);
    let r = open();
    write_ok(&r, &body);
    if choice(2) == 1 {
        super::loose::expect_blob(&r, &id, &text)
    }
    match choice(3) {
        0 => remove(&loose_path(&id)),
        1 => {
            remove(&loose_path(&id));
            remove(&loose_dir(&id))
        }
        _ => {
            let mut p = Pack::new();
            p.whole(id, BLOB, &text);
            p.store(b"p", 2);
            remove(&loose_path(&id));
            if choice(2) == 1 {
                super::loose::expect_blob(&r, &id, &text)
            }
            if choice(2) == 1 {
                // and the pack goes as well
                remove(&pack_path(b"p", b"idx"));
                remove(&pack_path(b"p", b"pack"));
                time_advance(5000);
            }
            cover("packed")
        }
    }
    let n = open();
    let w = if choice(2) == 1 { &n } else { &r };
    if choice(2) == 1 {
        look(w, &id);
    }
    write_ok(w, &body);
    for x in [&r, &n, &open()].iter() {
        super::loose::expect_blob(x, &id, &text)
    }
    cover("written again");
}

/// two repositories in one process: an object of 0 to 3 bytes is written to the first, then the second; what was written to
/// one only is not in the other
pub fn two_repositories() {
    mkrepo();
    mkdir(b"one");
    rename(b".git", b"one/.git");
    mkrepo();
    let body = framed(b"blob", &any(choice(4)));
    let other = framed(b"blob", b"only one");
    let id = digest(&body);
    let (a, b) = match (Repository::open(atp(b"one")), Repository::open(atp(b""))) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return check(false, "opening a repository that has a .git directory failed"),
    };
    let (a, b) = if choice(2) == 1 { (a, b) } else { (b, a) };
    write_ok(&a, &body);
    write_ok(&a, &other);
    check(raw_read(&b, &id).is_none(), "an object written to another repository was found");
    write_ok(&b, &body);
    must_read(&a, &id, &body);
    must_read(&b, &id, &body);
    must_read(&a, &digest(&other), &other);
    check(raw_read(&b, &digest(&other)).is_none(), "an object written to another repository was found");
    cover("both");
}

// ---- C02 -----------------------------------------------------------------------------------------

fn body_for(k: usize) -> Vec<u8> {
    match k {
        0 => any(3),
        // several write calls
        1 => big(70000, 5),
        _ => vec![],
    }
}
/// absent or complete
fn absent_or_exact(r: &Repository, id: &[u8; 20], body: &[u8]) {
    match raw_read(r, id) {
        None => cover("absent"),
        Some(Ok(v)) => {
            check(eq(&v, body), "a partially written object was read");
            cover("complete");
        }
        Some(Err(())) => check(false, "a partially written object is visible to readers"),
    }
}
fn neighbour(id: &[u8; 20]) -> [u8; 20] {
    let mut other = *id;
    other[19] ^= 1;
    other
}

/// cut off at any system call that changes the file system, body of 0, 3 or 70000 bytes, folder new, existing or
/// holding another object; then a reader, a repeated write, and a reader again
pub fn crash() {
    mkrepo();
    let body = body_for(choice(3));
    let id = digest(&body);
    let k = choice(3);
    dir_state(&id, k);
    let r = open();
    faults(SHORT_WRITE, by(0, 1) as u32);
    let mut ok = false;
    let cut = crash_at_any_point(|| ok = r.object_database().write_object(&body).is_ok());
    faults(0, 0);
    let r2 = open();
    if !cut {
        check(ok, "writing an object failed without any fault");
        must_read(&r2, &id, &body);
        cover("ran to its end");
    } else {
        cover("cut off");
        absent_or_exact(&r2, &id, &body);
    }
    let again = if choice(2) == 0 { &r } else { &r2 };
    if again.object_database().write_object(&body).is_ok() {
        must_read(&r2, &id, &body);
        cover("written again");
    }
    if k == 2 {
        check(matches!(look(&r2, &neighbour(&id)), Got::Obj(_)), "a write that was cut off damaged another object");
    }
}

/// cut off, repeated and cut off again, repeated once more; body of 3 or 70000 bytes
pub fn crash_twice() {
    mkrepo();
    let body = body_for(choice(2));
    let id = digest(&body);
    let r = open();
    for _ in 0..2 {
        let mut ok = false;
        let cut = crash_at_any_point(|| ok = r.object_database().write_object(&body).is_ok());
        if !cut && ok {
            must_read(&open(), &id, &body);
            cover("written");
        } else {
            absent_or_exact(&open(), &id, &body);
        }
    }
    let r = open();
    if r.object_database().write_object(&body).is_ok() {
        must_read(&r, &id, &body);
        cover("written at last");
    }
}

/// one (deep: two) of: an I/O error or full disk at any write, an error opening, creating or renaming, short writes,
/// interrupts; body of 0, 3 or 70000 bytes; then a reader, a repeated write without faults, and a reader
pub fn faulty() {
    mkrepo();
    let body = body_for(choice(3));
    let id = digest(&body);
    let k = choice(2) * 2;
    dir_state(&id, k);
    let r = open();
    faults(WRITE_ERR | OPEN_ERR | SHORT_WRITE | EINTR, by(1, 2) as u32);
    let res = r.object_database().write_object(&body);
    faults(0, 0);
    match res {
        Ok(w) => {
            check(eq(&id_bytes(&w), &id), "the id returned by a write is not the SHA-1 of the bytes");
            match raw_read(&r, &id) {
                Some(Ok(v)) => check(eq(&v, &body), "a write reported success but the object differs"),
                _ => check(false, "a write reported success but the object cannot be read"),
            }
            cover("success reported");
        }
        Err(_) => {
            absent_or_exact(&r, &id, &body);
            cover("failure reported");
        }
    }
    let r2 = if choice(2) == 0 { open() } else { r };
    if r2.object_database().write_object(&body).is_ok() {
        must_read(&r2, &id, &body);
        cover("written again");
    }
    if k == 2 {
        check(matches!(look(&r2, &neighbour(&id)), Got::Obj(_)), "a failed write damaged another object");
    }
}

/// the object exists already: a repeated write, cut off anywhere or with one fault, leaves it as it was
pub fn rewrite() {
    mkrepo();
    let body = any(3);
    let id = digest(&body);
    let r = open();
    write_ok(&r, &body);
    if choice(2) == 0 {
        crash_at_any_point(|| {
            let _ = r.object_database().write_object(&body);
        });
        cover("crash");
    } else {
        faults(WRITE_ERR | OPEN_ERR | SHORT_WRITE | EINTR, by(1, 2) as u32);
        let _ = r.object_database().write_object(&body);
        faults(0, 0);
        cover("fault");
    }
    must_read(&open(), &id, &body);
}

/// a writer and a reader of the same object at the same time, 2 (deep: 3) forced switches at any system call;
/// body of 3 or 70000 bytes
pub fn reader_during_write() {
    mkrepo();
    let body = body_for(choice(2));
    let id = digest(&body);
    let r = std::sync::Arc::new(open());
    let (r1, r2, b1, b2) = (r.clone(), r.clone(), body.clone(), body.clone());
    threads(
        by(2, 3) as u32,
        vec![
            Box::new(move || check(r1.object_database().write_object(&b1).is_ok(), "writing an object failed without any fault")),
            Box::new(move || absent_or_exact(&r2, &id, &b2)),
        ],
    );
    must_read(&r, &id, &body);
    cover("both done");
}

/// two writers of the same bytes (or of two objects, in the same folder or not) at the same time, 2 (deep: 3) forced
/// switches; each succeeds and has its object readable right then
pub fn two_writers() {
    mkrepo();
    let k = choice(5);
    let body = if k == 4 { b"abc".to_vec() } else { body_for(k & 1) };
    let id = digest(&body);
    let other = match k {
        0 | 1 => body.clone(),
        2 | 3 => b"other".to_vec(),
        _ => {
            // another content whose id is in the same folder
            let mut i = 0;
            loop {
                let t = [b"m".to_vec(), dec(i)].concat();
                if digest(&t)[0] == id[0] {
                    break t;
                }
                i += 1
            }
        }
    };
    let ido = digest(&other);
    let r = std::sync::Arc::new(open());
    let (r1, r2, b1, b2) = (r.clone(), r.clone(), body.clone(), other.clone());
    threads(
        by(2, 3) as u32,
        vec![
            Box::new(move || {
                check(r1.object_database().write_object(&b1).is_ok(), "writing an object failed because another is written");
                must_read(&r1, &id, &b1);
                cover("first succeeded")
            }),
            Box::new(move || {
                check(r2.object_database().write_object(&b2).is_ok(), "writing an object failed because another is written");
                must_read(&r2, &ido, &b2);
                cover("second succeeded")
            }),
        ],
    );
    absent_or_exact(&r, &id, &body);
    absent_or_exact(&r, &ido, &other);
}

/// another program removes the empty folder, writes the same object or one beside it, or removes an old copy and its folder,
/// at any calls of the write; body of 3 or 70000 bytes. A write that reports success has the object readable unless it was
/// removed; nobody's writing makes it fail; nothing incomplete is seen; a repeated write brings the object
pub fn meanwhile() {
    mkrepo();
    let body = body_for(choice(2));
    let id = digest(&body);
    let (dir, path) = (loose_dir(&id), loose_path(&id));
    put(b".git/new", &zlib(&body));
    let k = choice(5);
    let beside = neighbour(&id);
    let put_beside = || {
        put(b".git/new2", &zlib(&framed(b"blob", b"neighbour")));
        env_mkdir_if(&dir);
        env_rename_if(b".git/new2", &loose_path(&beside))
    };
    match k {
        0 => {
            mkdir(&dir);
            env_rmdir(&dir)
        }
        1 => {
            env_mkdir_if(&dir);
            env_rename_if(b".git/new", &path)
        }
        2 => put_beside(),
        3 => {
            mkdir(&dir);
            env_rmdir(&dir);
            env_mkdir_if(&dir);
            env_rename_if(b".git/new", &path)
        }
        _ => {
            mkdir(&dir);
            rename(b".git/new", &path);
            env_remove(&path);
            env_rmdir(&dir)
        }
    }
    let r = open();
    env_on(true);
    let ok = r.object_database().write_object(&body).is_ok();
    env_on(false);
    if k < 4 && ok {
        must_read(&r, &id, &body)
    }
    env_finish();
    if k == 1 || k == 2 {
        check(ok, "writing an object failed because another program writes one")
    }
    if k < 4 && ok {
        must_read(&r, &id, &body)
    } else {
        absent_or_exact(&r, &id, &body)
    }
    if k == 2 {
        check(matches!(look(&r, &beside), Got::Obj(_)), "a write damaged another object");
    }
    cover(if ok { "written" } else { "failed" });
    write_ok(&r, &body);
    must_read(&open(), &id, &body);
}

/// objects of 100 000 to 1 048 577 (deep: 3 000 000) bytes, three of them arbitrary, written and read back, then written
/// again
pub fn large() {
    mkrepo();
    let n = [100_000usize, 131_072, 200_000, 262_144, 500_000, 1_048_576, 1_048_577, 3_000_000][choice(by(7, 8))];
    let body = big(n, 3);
    let r = open();
    let id = write_ok(&r, &body);
    must_read(&r, &id, &body);
    check(write_ok(&r, &body) == id, "the same bytes were given another id");
    must_read(&open(), &id, &body);
    cover("read back");
}

/// objects of 255 to 131 073 (deep: 1 048 577) bytes around all powers of two, with an arbitrary last byte
pub fn edge_sizes() {
    mkrepo();
    let n = edge_size(8, by(17, 20));
    let mut body = vec![7; n];
    body[n - 1] = any_u8();
    let r = open();
    let id = write_ok(&r, &body);
    must_read(&r, &id, &body);
    cover("read back");
}

/// texts that mean something to git or to editors, with an arbitrary byte in front or behind, and two of them one after
/// the other
pub fn words() {
    mkrepo();
    let b = word();
    let r = open();
    let id = write_ok(&r, &b);
    must_read(&r, &id, &b);
    must_read(&open(), &id, &b);
    cover("read back");
}

/// in repositories in folders of 24 (deep: 31) names, opened by eight spellings of the path: a write is read back, by the
/// writer and by who opens the folder by its full name
pub fn places() {
    let b = any(2);
    mkrepo();
    let (place, r) = moved();
    let id = write_ok(&r, &b);
    must_read(&r, &id, &b);
    match Repository::open(atp(&place)) {
        Ok(r) => must_read(&r, &id, &b),
        Err(_) => check(false, "opening a repository that has a .git directory failed"),
    }
    cover("read back");
}
