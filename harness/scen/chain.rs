//! C12: chains of deltas
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;

fn idk(k: usize) -> [u8; 20] {
    let mut id = [0x6b; 20];
    id[0] = (k * 37) as u8;
    id[1] = (k >> 3) as u8;
    id[19] = k as u8;
    id
}
fn blob(r: &Repository, id: &[u8; 20], want: &[u8]) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(b.data().len() == want.len(), "an object stored as a chain of deltas has another length");
            check(eq(b.data(), want), "an object stored as a chain of deltas has another content")
        }
        Got::Obj(_) => check(false, "an object stored as a chain of deltas has another type than its base"),
        Got::NotFound => check(false, "an object stored as a delta was reported as not found"),
        Got::Err => check(false, "an object stored as a well-formed chain of deltas was refused"),
    }
}
fn error(r: &Repository, id: &[u8; 20]) {
    match look(r, id) {
        Got::Err => cover("refused"),
        Got::NotFound => check(false, "an object whose chain of deltas is broken was reported as not found"),
        Got::Obj(_) => check(false, "an object was returned for a chain of deltas that never reaches a base"),
    }
}
/// keeps the first `keep` bytes of a base of `n` bytes, then adds x
fn edit(n: usize, keep: usize, x: u8) -> Vec<u8> {
    let mut ops = vec![];
    if keep > 0 {
        ops.push(copy_op(0, keep as u64))
    }
    ops.push(insert_op(&[x]));
    delta(n as u64, keep as u64 + 1, &ops)
}

/// chains of 1 to 3 (deep: 5) deltas, every mixture of distances and ids, bases in front of or (ids) behind their
/// deltas; every byte added by a delta arbitrary, the base 2 arbitrary bytes; read from either end
pub fn shapes() {
    let d = 1 + choice(by(3, 5));
    let base = any(2);
    let backwards = choice(2) == 1;
    let mut p = Pack::new();
    let mut want = vec![base.clone()];
    let mut deltas = vec![];
    for k in 1..=d {
        let x = any_u8();
        let prev = want[k - 1].clone();
        // drop a byte now and then, so that order matters
        let keep = if k % 2 == 0 { prev.len() - 1 } else { prev.len() };
        deltas.push(edit(prev.len(), keep, x));
        want.push([&prev[..keep], &[x]].concat());
    }
    if backwards {
        for k in (1..=d).rev() {
            p.refd(idk(k), &idk(k - 1), &deltas[k - 1]);
        }
        p.whole(idk(0), BLOB, &base);
    } else {
        let mut at = p.whole(idk(0), BLOB, &base);
        for k in 1..=d {
            at = if choice(2) == 0 { p.ofs(idk(k), at, &deltas[k - 1]) } else { p.refd(idk(k), &idk(k - 1), &deltas[k - 1]) };
        }
    }
    mkrepo();
    p.store(b"c", 1 + choice(2) as u32);
    let r = open();
    if choice(2) == 0 {
        for k in 0..=d {
            blob(&r, &idk(k), &want[k])
        }
    } else {
        for k in (0..=d).rev() {
            blob(&r, &idk(k), &want[k])
        }
    }
    cover(if backwards { "base behind" } else { "base in front" });
}

/// the type of a chain is its base's: commits, trees and tags through one or two deltas
pub fn types() {
    let kind = [COMMIT, TREE, TAG, BLOB][choice(4)];
    let base: Vec<u8> = match kind {
        COMMIT => b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\nm".to_vec(),
        TREE => [&b"100644 n\0"[..], &[0x99; 20], b"40000 d\0", &[0x77; 19]].concat(),
        TAG => b"object 0123456789abcdef0123456789abcdef01234567\ntype commit\ntag v\n\nm".to_vec(),
        _ => b"x".to_vec(),
    };
    let x = any_u8();
    let mut p = Pack::new();
    let o = p.whole(idk(0), kind, &base);
    let d = 1 + choice(2);
    let o = p.ofs(idk(1), o, &edit(base.len(), base.len() - (d - 1), x));
    if d == 2 {
        p.ofs(idk(2), o, &edit(base.len(), base.len(), x));
    }
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    match look(&r, &idk(d)) {
        Got::Obj(o) => {
            check(kind_of(&o) == kind, "an object stored as a chain of deltas has another type than its base");
            match o {
                ObjectData::Commit(c) => check(c.message().len() == 3 - d || c.message().len() == 2, "an object stored as a chain of deltas has another content"),
                ObjectData::Tree(t) => check(t.entries().count() == 2, "an object stored as a chain of deltas has another content"),
                _ => (),
            }
            cover("typed");
        }
        _ => check(false, "an object stored as a well-formed chain of deltas was refused"),
    }
}

/// a family of six objects (a base, a chain of three on it, two more deltas on the base and the middle) and a broken
/// delta: any three reads, every result as if alone
pub fn orders() {
    let x = any(6);
    let mut w: Vec<Vec<u8>> = vec![vec![x[0], b'-', x[0]]];
    let mut p = Pack::new();
    let o0 = p.whole(idk(0), BLOB, &w[0]);
    let o1 = p.ofs(idk(1), o0, &edit(3, 3, x[1]));
    w.push([&w[0][..], &[x[1]]].concat());
    p.ofs(idk(2), o1, &edit(4, 2, x[2]));
    w.push([&w[1][..2], &[x[2]]].concat());
    p.refd(idk(3), &idk(2), &edit(3, 3, x[3]));
    w.push([&w[2][..], &[x[3]]].concat());
    p.refd(idk(4), &idk(0), &edit(3, 1, x[4]));
    w.push([&w[0][..1], &[x[4]]].concat());
    p.refd(idk(5), &idk(1), &edit(4, 0, x[5]));
    w.push(vec![x[5]]);
    // says its base has 9 bytes
    p.refd(idk(6), &idk(1), &edit(9, 0, b'!'));
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    for _ in 0..3 {
        let k = choice(7);
        if k == 6 {
            error(&r, &idk(6))
        } else {
            blob(&r, &idk(k), &w[k])
        }
    }
    cover("three reads");
}

/// chains of 16, 17, 33, 51, 70 and 260 (deep: also 1025 and 4100) deltas, by distance, by id, or alternating
pub fn deep_chains() {
    let d = [16usize, 17, 33, 51, 70, 260, 1025, 4100][choice(by(6, 8))];
    let how = choice(3);
    let x = any_u8();
    let mut p = Pack::new();
    let mut at = p.whole(idk(0), BLOB, b"b");
    let mut w = b"b".to_vec();
    let id = |k: usize| {
        let mut i = idk(k);
        i[2] = (k >> 8) as u8;
        i[3] = k as u8;
        i
    };
    let mut half = vec![];
    for k in 1..=d {
        let c = if k == d / 2 || k == d { x } else { k as u8 };
        let e = edit(w.len(), w.len(), c);
        at = if how == 0 || (how == 2 && k % 2 == 0) { p.ofs(id(k), at, &e) } else { p.refd(id(k), &(if k == 1 { idk(0) } else { id(k - 1) }), &e) };
        w.push(c);
        if k == d / 2 {
            half = w.clone()
        }
    }
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    if choice(2) == 1 {
        blob(&r, &id(d / 2), &half)
    }
    blob(&r, &id(d), &w);
    blob(&r, &id(d / 2), &half);
    cover("deep");
}

/// distances at every boundary of their encoding: 1, 2, 3 and 4 bytes
pub fn distances() {
    let dist = [20u64, 126, 127, 128, 129, 255, 256, 16383, 16384, 16510, 16511, 16512, 16513, 100_000, 2_113_663, 2_113_664, 2_113_665][choice(17)];
    let x = any(2);
    mkrepo();
    let mut p = Pack::new();
    let o = p.whole(idk(0), BLOB, &x[..1]);
    // bytes between the entries that belong to none
    let to = o + dist;
    let mut e = entry_header(OFS, edit(1, 1, x[1]).len() as u64);
    e.extend_from_slice(&ofs_encode(dist));
    e.extend_from_slice(&zlib(&edit(1, 1, x[1])));
    let mut head = p.bytes.clone();
    head[11] = 2;
    let sum = [0x3d; 20];
    put(&pack_path(b"c", b"pack"), &head);
    put_at(&pack_path(b"c", b"pack"), to, &[&e[..], &sum[..]].concat());
    put(&pack_path(b"c", b"idx"), &idx(2, &[(idk(0), o), (idk(1), to)], &sum, &[]));
    let r = open();
    blob(&r, &idk(1), &x);
    blob(&r, &idk(0), &x[..1]);
    cover("read");
}

/// a distance of one or two arbitrary bytes, from a delta that lies 150 bytes into the pack behind two possible bases
pub fn distance_any() {
    let x = any_u8();
    let mut p = Pack::new();
    let a = p.whole(idk(0), BLOB, b"A");
    let b = p.whole(idk(1), BLOB, b"B");
    while p.bytes.len() < 150 {
        p.bytes.push(0)
    }
    let n = 1 + choice(2);
    let d = any(n);
    for i in 0..n {
        assume((d[i] >= 0x80) == (i + 1 < n))
    }
    let here = p.here();
    let z = edit(1, 1, x);
    let mut e = entry_header(OFS, z.len() as u64);
    e.extend_from_slice(&d);
    e.extend_from_slice(&zlib(&z));
    p.raw(idk(2), &e);
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    let is = |base: u64| eq(&d, &ofs_encode(here - base));
    match look(&r, &idk(2)) {
        Got::Obj(ObjectData::Blob(o)) => {
            let ok = (is(a) && eq(o.data(), &[b'A', x])) || (is(b) && eq(o.data(), &[b'B', x]));
            check(ok, "a delta was applied to something else than the entry at its distance");
            cover("applied");
        }
        Got::Obj(_) => check(false, "an object stored as a delta has another type than its base"),
        Got::NotFound => check(false, "an object stored as a delta was reported as not found"),
        Got::Err => {
            check(!is(a) && !is(b), "an object stored as a well-formed delta was refused");
            cover("refused");
        }
    }
}

/// chains that never reach a base: themselves (by id or distance 0), cycles of 2 to 4 entered from inside or outside,
/// unknown ids, distances to and beyond the start of the pack; a good chain is read before or after
pub fn broken() {
    let mut p = Pack::new();
    let o = p.whole(idk(0), BLOB, b"base");
    p.ofs(idk(1), o, &edit(4, 4, b'1'));
    let e = edit(5, 5, b'x');
    let bad = match choice(8) {
        0 => {
            p.refd(idk(2), &idk(2), &e);
            2
        }
        1 => {
            let h = p.here();
            p.ofs(idk(2), h, &e);
            2
        }
        2 => {
            let n = 2 + choice(3);
            for k in 0..n {
                p.refd(idk(2 + k), &idk(2 + (k + 1) % n), &e);
            }
            2 + choice(n)
        }
        3 => {
            // enters a cycle from outside, by distance
            p.refd(idk(2), &idk(3), &e);
            let h = p.refd(idk(3), &idk(2), &e);
            p.ofs(idk(4), h, &e);
            4
        }
        4 => {
            let mut u = idk(9);
            u[5] = any_u8();
            assume(u[5] != 0);
            p.refd(idk(2), &u, &e);
            2
        }
        5 => {
            // to the header of the pack
            let to = [0u64, 1, 11][choice(3)];
            p.ofs(idk(2), to, &e);
            2
        }
        6 => {
            let far = [1u64, 2, 100, 1 << 20, 1 << 40][choice(5)];
            let mut x = entry_header(OFS, e.len() as u64);
            x.extend_from_slice(&ofs_encode(p.here() + far));
            x.extend_from_slice(&zlib(&e));
            p.raw(idk(2), &x);
            2
        }
        _ => {
            // a chain on a broken delta
            let h = p.refd(idk(2), &idk(9), &e);
            p.ofs(idk(3), h, &e);
            3
        }
    };
    mkrepo();
    p.store(b"c", 1 + choice(2) as u32);
    let r = open();
    if choice(2) == 1 {
        blob(&r, &idk(1), b"base1")
    }
    error(&r, &idk(bad));
    blob(&r, &idk(1), b"base1");
    error(&r, &idk(bad));
}

/// distances of 9 to 12 bytes (around and beyond 64 bits), last byte arbitrary
pub fn distance_huge() {
    let n = 9 + choice(4);
    let fill = [0x80u8, 0xff, 0x81][choice(3)];
    let mut d = vec![fill; n - 1];
    let l = any_u8();
    assume(l < 0x80);
    d.push(l);
    let mut p = Pack::new();
    p.whole(idk(0), BLOB, b"base");
    let e = edit(4, 4, b'x');
    let mut x = entry_header(OFS, e.len() as u64);
    x.extend_from_slice(&d);
    x.extend_from_slice(&zlib(&e));
    p.raw(idk(1), &x);
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    error(&r, &idk(1));
}

/// 40 (deep: 300) bases of 3 bytes, each with two deltas on it by distance or by id and one on the first of these; all
/// read, by kind or by family, in either order, then all again; one arbitrary byte in any of six families
pub fn many() {
    let n = by(40, 300);
    let at = [0, 1, n / 4, n / 2, n - 2, n - 1][choice(6)];
    let x = any_u8();
    let by_id = choice(2) == 1;
    let id = |f: usize, k: usize| {
        let mut id = [0x6b; 20];
        id[0] = (f * 37) as u8;
        id[1] = (f >> 3) as u8;
        id[2] = k as u8;
        id[19] = f as u8;
        id
    };
    let mut p = Pack::new();
    let mut want: Vec<[Vec<u8>; 4]> = vec![];
    for f in 0..n {
        let b = vec![f as u8, (f >> 8) as u8, if f == at { x } else { b'-' }];
        let w = [b.clone(), [&b[..], b"1"].concat(), [&b[1..], b"2"].concat(), [&b[..], b"3"].concat()];
        let o = p.whole(id(f, 0), BLOB, &b);
        let one = delta(3, 4, &[copy_op(0, 3), insert_op(b"1")]);
        let two = delta(3, 3, &[copy_op(1, 2), insert_op(b"2")]);
        let three = delta(4, 4, &[copy_op(0, 3), insert_op(b"3")]);
        if by_id {
            p.refd(id(f, 1), &id(f, 0), &one);
            p.refd(id(f, 2), &id(f, 0), &two);
            p.refd(id(f, 3), &id(f, 1), &three);
        } else {
            let q = p.ofs(id(f, 1), o, &one);
            p.ofs(id(f, 2), o, &two);
            p.ofs(id(f, 3), q, &three);
        }
        want.push(w)
    }
    mkrepo();
    p.store(b"c", 2);
    let r = open();
    let (by_kind, last_first) = (choice(2) == 1, choice(2) == 1);
    for round in 0..2 {
        for i in 0..4 * n {
            let i = if last_first != (round == 1) { 4 * n - 1 - i } else { i };
            let (f, k) = if by_kind { (i % n, i / n) } else { (i / 4, i % 4) };
            blob(&r, &id(f, k), &want[f][k])
        }
    }
    cover("all");
}
