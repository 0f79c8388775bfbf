//! C25: what a write changes besides the object's own file
use super::kit::*;
use super::loose::big;
use super::readonly::furnish;
use super::rt::*;

type Files = Vec<(Vec<u8>, Option<Vec<u8>>)>;
fn below(rel: &[u8], out: &mut Files) {
    for n in list(rel) {
        // links to the folder of the repository
        if n == b"link.idx" || n == b"refs-link" {
            continue;
        }
        let p = if rel.is_empty() { n } else { [rel, b"/", &n].concat() };
        let g = get(&p, 1200);
        let dir = g.is_none();
        out.push((p.clone(), g));
        if dir {
            below(&p, out)
        }
    }
}
fn files() -> Files {
    let mut v = vec![];
    below(b"", &mut v);
    v
}
/// all that was there is there, as it was; what is new is one of `allowed`, or lies in the folder of objects if the write
/// was `cut` off
fn only(before: &Files, allowed: &[Vec<u8>], cut: bool) {
    let now = files();
    for (p, g) in before {
        match (g, now.iter().find(|x| x.0 == *p).map(|x| &x.1)) {
            (_, None) => check(false, "a write removed a file that is not its own"),
            (Some(x), Some(Some(y))) => check(x.len() == y.len() && eq(x, y), "a write changed a file that is not its own"),
            (None, Some(None)) => (),
            _ => check(false, "a write replaced a file that is not its own"),
        }
    }
    for (p, _) in now.iter() {
        if before.iter().all(|x| x.0 != *p) && !allowed.contains(p) {
            check(cut && p.starts_with(b".git/objects/"), "a write left a file that is not its own")
        }
    }
}
fn place(id: &[u8; 20]) -> Vec<Vec<u8>> {
    vec![loose_dir(id), loose_path(id)]
}
fn body(k: usize) -> Vec<u8> {
    match k {
        0 => any(2),
        1 => big(70000, 1),
        _ => vec![],
    }
}
/// an object in the same folder, and one that differs only in the last digits
fn neighbours(id: &[u8; 20]) {
    let mut a = *id;
    a[19] ^= 1;
    put_loose(&a, b"blob", b"neighbour");
    a[1] ^= 0x80;
    put_loose(&a, b"blob", b"other");
    let d = loose_dir(id);
    for n in [&b"tmp_obj_9_9"[..], b"tmp_obj_x", b"zz", b".keep", &hex(id)[2..39]].iter() {
        put(&[&d[..], b"/", n].concat(), b"left")
    }
    put(&[&d[..], b"/empty"].concat(), b"");
    mkdir(&[&d[..], b"/folder"].concat());
    put(&[&loose_path(id)[..], b".tmp"].concat(), b"left");
    put(&[&loose_path(id)[..], b".lock"].concat(), b"left");
}

/// an object of 0, 2 or 70000 bytes, or two, written once or twice to a repository that is complete, full of leftovers or
/// damaged, with or without neighbours in its folder: files besides the objects' own are as before
pub fn beside() {
    furnish(1 + choice(3));
    let b = body(choice(3));
    let id = digest(&b);
    if choice(2) == 1 {
        neighbours(&id)
    }
    let before = files();
    let r = open();
    let w = r.object_database();
    check(w.write_object(&b).is_ok(), "writing an object failed without any fault");
    only(&before, &place(&id), false);
    match choice(3) {
        0 => (),
        1 => {
            check(w.write_object(&b).is_ok(), "writing an object again failed without any fault");
            cover("again")
        }
        _ => {
            // and then the first is not the second's own
            let mid = files();
            check(w.write_object(b"other").is_ok(), "writing an object failed without any fault");
            only(&mid, &place(&digest(b"other")), false);
            return cover("another");
        }
    }
    only(&before, &place(&id), false);
    cover("written");
}

/// what should be the object's folder is a file or a link to a file or to another folder, the object's own path is a folder,
/// or there is no folder of objects; object of 0, 2 or 70000 bytes, written twice: whatever a write reports, nothing but the
/// object's own file changes
pub fn in_the_way() {
    mkrepo();
    let b = body(choice(3));
    let id = digest(&b);
    let (d, p) = (loose_dir(&id), loose_path(&id));
    let k = choice(6);
    let mut own = place(&id);
    match k {
        0 => put(&d, b"a file"),
        1 => put(&d, b""),
        2 => {
            put(b".git/elsewhere", b"a file");
            symlink(&d, b"../elsewhere")
        }
        3 => {
            mkdir(b".git/elsewhere");
            put(b".git/elsewhere/x", b"a file");
            symlink(&d, b"../elsewhere");
            own.push([b".git/elsewhere/", &hex(&id)[2..]].concat())
        }
        4 => {
            mkdir(&d);
            mkdir(&p);
            put(&[&p[..], b"/x"].concat(), b"a file")
        }
        _ => remove(b".git/objects"),
    }
    let before = files();
    let r = open();
    let mut ok = false;
    for _ in 0..2 {
        ok = r.object_database().write_object(&b).is_ok();
        only(&before, &own, false)
    }
    check(!ok || (k != 0 && k != 1 && k != 2), "a write reports success although the object's folder is a file");
    cover(if ok { "written" } else { "refused" });
}

/// the object is in a pack, or in the loose store, already: nothing but the loose file changes, and it reads as before
pub fn known_object() {
    mkrepo();
    let b = framed(b"blob", b"known");
    let id = digest(&b);
    let loose = choice(3);
    let mut p = Pack::new();
    p.whole(fake_id(1, 1), BLOB, b"first");
    p.whole(id, BLOB, b"known");
    if loose != 1 {
        p.store(b"p", 1 + choice(2) as u32)
    }
    if loose > 0 {
        put_loose(&id, b"blob", b"known")
    }
    let before = files();
    let r = open();
    if choice(2) == 1 {
        look(&r, &id);
    }
    check(r.object_database().write_object(&b).is_ok(), "writing an object failed without any fault");
    only(&before, &place(&id), false);
    for r in [&r, &open()].iter() {
        super::loose::expect_blob(r, &id, b"known")
    }
    cover("known");
}

/// one call of the write fails, is short or interrupted, anywhere; object of 0, 2 or 70000 bytes, known or not, with
/// neighbours: nothing but the object's own file is left, and all else is as before
pub fn failing() {
    mkrepo();
    let b = body(choice(3));
    let id = digest(&b);
    match choice(3) {
        0 => (),
        1 => neighbours(&id),
        _ => {
            neighbours(&id);
            put_loose_raw(&id, &zlib(&b))
        }
    }
    let before = files();
    let r = open();
    faults(WRITE_ERR | OPEN_ERR | SHORT_WRITE | EINTR, 1);
    let ok = r.object_database().write_object(&b).is_ok();
    faults(0, 0);
    only(&before, &place(&id), false);
    cover(if ok { "written" } else { "failed" });
}

/// the write is cut off at any call, or a repeated write after it; object of 0, 2 or 70000 bytes, known or not, with
/// neighbours: what was there is as before, and what is new lies in the folder of objects
pub fn cut_off() {
    furnish(1 + choice(2));
    let b = body(choice(3));
    let id = digest(&b);
    neighbours(&id);
    if choice(2) == 1 {
        put_loose_raw(&id, &zlib(&b))
    }
    let before = files();
    let r = open();
    let cut = crash_at_any_point(|| {
        let _ = r.object_database().write_object(&b);
    });
    only(&before, &place(&id), cut);
    if cut {
        cover("cut off");
        let left = files();
        let r = open();
        let ok = r.object_database().write_object(&b).is_ok();
        // leftovers of the write that was cut off may go, nothing else
        only(&before, &place(&id), true);
        let now = files();
        check(now.len() <= left.len() + 2, "a repeated write left a file that is not its own");
        cover(if ok { "written again" } else { "refused" })
    } else {
        cover("ran to its end")
    }
}

/// two threads write the same object, two objects of one folder, or two of different folders, at the same time, 2 (deep:
/// 3) forced switches: the objects' own files are all that is new
pub fn two_writers() {
    mkrepo();
    let (a, b) = match choice(3) {
        0 => (b"same".to_vec(), b"same".to_vec()),
        1 => {
            // two contents whose ids share the folder
            let mut seen: Vec<([u8; 20], Vec<u8>)> = vec![];
            let mut i = 0;
            loop {
                let t = [b"m".to_vec(), dec(i)].concat();
                let d = digest(&t);
                if let Some(x) = seen.iter().find(|x| x.0[0] == d[0]) {
                    break (x.1.clone(), t);
                }
                seen.push((d, t));
                i += 1
            }
        }
        _ => (b"one".to_vec(), b"two".to_vec()),
    };
    let (ia, ib) = (digest(&a), digest(&b));
    neighbours(&ia);
    let before = files();
    let r = std::sync::Arc::new(open());
    let job = |x: &Vec<u8>| -> Box<dyn FnOnce()> {
        let (r, x) = (r.clone(), x.clone());
        Box::new(move || {
            let _ = r.object_database().write_object(&x);
        })
    };
    threads(by(2, 3) as u32, vec![job(&a), job(&b)]);
    only(&before, &[place(&ia), place(&ib)].concat(), false);
    cover("both");
}

/// in repositories in folders of 24 (deep: 31) names, opened by eight spellings of the path: a write makes the object's own
/// file there, and nothing else
pub fn places() {
    let b = any(2);
    let id = digest(&b);
    mkrepo();
    put(b".git/HEAD", b"ref: refs/heads/m");
    let (place, r) = moved();
    let before = files();
    check(r.object_database().write_object(&b).is_ok(), "writing an object failed without any fault");
    let there = |p: Vec<u8>| [&place[..], b"/", &p].concat();
    check(exists(&there(loose_path(&id))), "a written object has no file in its own repository");
    only(&before, &[there(loose_dir(&id)), there(loose_path(&id))], false);
    cover("written");
}
