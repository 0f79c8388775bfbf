//! C09: pack indexes
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;

fn lt(a: &[u8; 20], b: &[u8; 20]) -> bool {
    for i in 0..20 {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
/// content of the object with number k
fn body(k: usize) -> Vec<u8> {
    vec![b'#', k as u8, (k >> 8) as u8]
}
/// a pack of blobs, object k under ids[k]; `order`: in which order they lie in the pack
fn pack_of(ids: &[[u8; 20]], backwards: bool) -> Pack {
    let mut p = Pack::new();
    for i in 0..ids.len() {
        let k = if backwards { ids.len() - 1 - i } else { i };
        p.whole(ids[k], BLOB, &body(k));
    }
    p
}
fn expect(r: &Repository, id: &[u8; 20], want: Option<usize>) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => match want {
            Some(k) => check(eq(b.data(), &body(k)), "the index led to another object than the one recorded for the id"),
            None => check(false, "an object was returned for an id that no index lists"),
        },
        Got::Obj(_) => check(false, "a blob was returned as an object of another type"),
        Got::NotFound => check(want.is_none(), "an id that the index lists was reported as not found"),
        Got::Err => check(false, "looking up an id in a well-formed index failed"),
    }
}
fn find(ids: &[[u8; 20]], q: &[u8; 20]) -> Option<usize> {
    (0..ids.len()).find(|k| eq(&ids[*k], q))
}
fn seen(w: Option<usize>) {
    cover(if w.is_some() { "listed" } else { "not listed" })
}

/// up to 2 (deep: 3) ids whose first bytes are any of 256 values (the second: equal, next, or last), asked for an id
/// whose first and one later byte are arbitrary; both versions
pub fn first_byte() {
    let v = 1 + choice(2) as u32;
    let f = choice(256) as u8;
    let n = choice(by(3, 4));
    let mut ids = vec![];
    for k in 0..n {
        let mut id = [0x40u8; 20];
        id[0] = if k == 0 { f } else { [f, f.wrapping_add(1), 255][choice(3)] };
        id[7] = 3 * k as u8 + 1;
        ids.push(id)
    }
    mkrepo();
    let p = pack_of(&ids, true);
    p.store(b"a", v);
    let mut q = [0x40u8; 20];
    q[0] = any_u8();
    q[7] = any_u8();
    let r = open();
    let w = find(&ids, &q);
    expect(&r, &q, w);
    seen(w);
}

/// 3 ids in one bucket that differ in one arbitrary byte (any position but the first), asked for an id with an
/// arbitrary byte there and an arbitrary last byte
pub fn any_ids() {
    let v = 1 + choice(2) as u32;
    let i = 1 + choice(19);
    let mut ids = vec![[0x21u8; 20]; 3];
    for id in ids.iter_mut() {
        id[i] = any_u8()
    }
    assume(ids[0][i] < ids[1][i]);
    assume(ids[1][i] < ids[2][i]);
    mkrepo();
    let back = choice(2) == 1;
    let p = pack_of(&ids, back);
    put(&pack_path(b"a", b"pack"), &p.finish());
    let mut e = p.ents.clone();
    if back {
        e.reverse()
    }
    put(&pack_path(b"a", b"idx"), &idx_sorted(v, &e, &p.sum(), &[]));
    let mut q = [0x21u8; 20];
    q[i] = any_u8();
    q[19] = any_u8();
    let r = open();
    let w = find(&ids, &q);
    expect(&r, &q, w);
    seen(w);
}

/// `n` ids, sorted; the pattern says how they share their first bytes
fn table(n: usize, pattern: usize) -> Vec<[u8; 20]> {
    let mut ids = vec![];
    for k in 0..n {
        let mut id = [0x10u8; 20];
        match pattern {
            // all in one bucket, differing at the end
            0 => {
                id[18] = (k >> 7) as u8;
                id[19] = (k << 1) as u8
            }
            // spread over the buckets
            1 => {
                id[0] = (k * 256 / n) as u8;
                id[1] = (k * 7) as u8;
                id[2] = (k >> 8) as u8;
                id[3] = k as u8
            }
            // first and last bucket
            _ => {
                id[0] = if k < n / 2 { 0 } else { 255 };
                id[10] = (k >> 7) as u8;
                id[11] = (k << 1) as u8
            }
        }
        ids.push(id)
    }
    let mut sorted: Vec<[u8; 20]> = vec![];
    for id in ids {
        let mut i = sorted.len();
        while i > 0 && lt(&id, &sorted[i - 1]) {
            i -= 1
        }
        sorted.insert(i, id)
    }
    sorted
}
fn many_ents(ids: &[[u8; 20]]) -> Pack {
    let mut p = Pack::new();
    p.bytes.reserve(ids.len() * 20);
    for (k, id) in ids.iter().enumerate() {
        p.whole(*id, BLOB, &body(k));
    }
    p
}

/// tables of 1 to 300 (deep: 1000) entries in three distributions; asked for an id that starts like any one of six
/// entries and ends in an arbitrary byte
pub fn large_tables() {
    let v = 1 + choice(2) as u32;
    let n = if deep() { [1, 2, 7, 255, 256, 257, 300, 1000][choice(8)] } else { [1, 2, 7, 256, 300][choice(5)] };
    let ids = table(n, choice(3));
    mkrepo();
    let p = many_ents(&ids);
    put(&pack_path(b"a", b"pack"), &p.finish());
    put(&pack_path(b"a", b"idx"), &idx_sorted(v, &p.ents, &p.sum(), &[]));
    let k = [0, n / 4, n / 2, n * 3 / 4, n - 1, 1 % n][choice(6)];
    let mut q = ids[k];
    let at = [0, 3, 11, 19][choice(4)];
    q[at] = any_u8();
    let r = open();
    let w = find(&ids, &q);
    expect(&r, &q, w);
    seen(w);
}

/// every entry of a table of 40 (deep: 300) entries is found, one after the other through the same database
pub fn all_entries() {
    let v = 1 + choice(2) as u32;
    let ids = table(by(40, 300), choice(3));
    mkrepo();
    let p = many_ents(&ids);
    put(&pack_path(b"a", b"pack"), &p.finish());
    put(&pack_path(b"a", b"idx"), &idx_sorted(v, &p.ents, &p.sum(), &[]));
    let r = open();
    for (k, id) in ids.iter().enumerate() {
        expect(&r, id, Some(k))
    }
    cover("all");
}

/// offsets in the 64-bit table: every proper subset of 4 entries, the table in id order or reversed; asked for an
/// id that ends in an arbitrary byte
pub fn wide_offsets() {
    let mut ids = vec![[0x66u8; 20]; 4];
    for (k, id) in ids.iter_mut().enumerate() {
        id[0] = [0x05, 0x66, 0x66, 0xf0][k];
        id[19] = 10 * k as u8
    }
    let set = choice(15);
    let wide: Vec<usize> = (0..4).filter(|k| set >> k & 1 == 1).collect();
    mkrepo();
    let p = pack_of(&ids, true);
    let mut x = idx(2, &p.ents, &p.sum(), &wide);
    if choice(2) == 1 && wide.len() > 1 {
        // the same offsets in another order of the table
        let small = 8 + 1024 + 4 * 24;
        let big = small + 16;
        let old = x.clone();
        let m = wide.len();
        for (j, k) in wide.iter().enumerate() {
            x[small + 4 * k + 3] = (m - 1 - j) as u8;
            x[big + 8 * (m - 1 - j)..big + 8 * (m - j)].copy_from_slice(&old[big + 8 * j..big + 8 * j + 8]);
        }
        cover("reordered");
    }
    put(&pack_path(b"a", b"pack"), &p.finish());
    put(&pack_path(b"a", b"idx"), &x);
    let mut q = ids[choice(4)];
    q[19] = any_u8();
    let r = open();
    let w = find(&ids, &q);
    expect(&r, &q, w);
    seen(w);
}

/// objects at offsets around 2^31, 2^32 and beyond: 31-bit and 64-bit offsets, and the 32-bit offsets of version 1
pub fn far_offsets() {
    let v = 1 + choice(2) as u32;
    let off = [0x7fff_fff0u64, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ff00, 0xffff_ffff, 0x1_0000_0000, 0x1_4000_0007, 0x12_3456_789a][choice(9)];
    assume(v == 2 || off <= 0xffff_ffff);
    let far = fake_id(0x77, 0x01);
    let near = [fake_id(0x12, 0x02), fake_id(0x88, 0x03)][choice(2)];
    let mut p = Pack::new();
    let o = p.whole(near, BLOB, &body(1));
    let mut e = entry_header(BLOB, 3);
    e.extend_from_slice(&zlib(&body(2)));
    let mut head = p.bytes.clone();
    head[11] = 2;
    mkrepo();
    let sum = [0x5cu8; 20];
    put(&pack_path(b"a", b"pack"), &head);
    put_at(&pack_path(b"a", b"pack"), off, &[&e[..], &sum[..]].concat());
    put(&pack_path(b"a", b"idx"), &idx(v, &[(near, o), (far, off)], &sum, &[]));
    let r = open();
    if choice(2) == 0 {
        expect(&r, &near, Some(1));
    }
    expect(&r, &far, Some(2));
    expect(&r, &near, Some(1));
    cover("far");
}

/// two and three packs whose ids interleave: each id is answered from the pack that lists it
pub fn several_packs() {
    let n = 2 + choice(2);
    let mut ids = vec![];
    for k in 0..6 {
        let mut id = [0x31u8; 20];
        id[0] = [0x31, 0x31, 0x30, 0x31, 0xff, 0x00][k];
        id[19] = 7 * k as u8;
        ids.push(id)
    }
    mkrepo();
    readdir_reversed(choice(2) == 1);
    for j in 0..n {
        let mut p = Pack::new();
        for k in 0..6 {
            if k % n == j {
                p.whole(ids[k], BLOB, &body(k));
            }
        }
        p.store(&[b'a' + j as u8], 1 + (j as u32 + choice(2) as u32) % 2)
    }
    let mut q = ids[choice(6)];
    let at = [0, 19][choice(2)];
    q[at] = any_u8();
    let r = open();
    let w = find(&ids, &q);
    expect(&r, &q, w);
    seen(w);
}

/// tables of 65 535 to 66 000 (deep: to 140 000) entries in one bucket, spread, or in two: asked for one of five of them,
/// or an id between two, with an arbitrary last byte
pub fn huge_tables() {
    let n = [65_535usize, 65_536, 65_537, 66_000, 140_000][choice(by(4, 5))];
    let shape = choice(3);
    let id = |k: usize| {
        let mut id = [0x10u8; 20];
        id[0] = match shape {
            0 => 0x10,
            1 => (k * 256 / n) as u8,
            _ => 255 * (k >= n / 2) as u8,
        };
        id[5] = (k >> 16) as u8;
        id[6] = (k >> 8) as u8;
        id[7] = k as u8;
        id
    };
    mkrepo();
    let k = [0, 1, n / 3, 65_534, n - 1][choice(5)];
    let mut p = Pack::new();
    let at = p.whole(id(k), BLOB, &body(1));
    let other = p.whole(id(n), BLOB, &body(2));
    p.ents.clear();
    p.ents.reserve(n);
    for i in 0..n {
        p.ents.push((id(i), if i == k { at } else { other }))
    }
    let mut pack = p.finish();
    pack[8..12].copy_from_slice(&(n as u32).to_be_bytes());
    let l = pack.len() - 20;
    let sum = trailer(&pack[..l]);
    pack[l..].copy_from_slice(&sum);
    put(&pack_path(b"a", b"pack"), &pack);
    put(&pack_path(b"a", b"idx"), &idx_sorted(1 + choice(2) as u32, &p.ents, &sum, &[]));
    let mut q = id(k);
    q[19] = any_u8();
    let r = open();
    let there = q[19] == 0x10;
    expect(&r, &q, if there { Some(1) } else { None });
    seen(if there { Some(1) } else { None });
}

/// two objects that are 2^k apart in a pack, for k = 8, 12, 16, 24, 30, 31, 32, 33, 36, 40, 48, in either order of reading,
/// twice: each has its own content; whole or as a delta on a third
pub fn apart() {
    let d = 1u64 << [8, 12, 16, 24, 30, 31, 32, 33, 36, 40, 48][choice(by(10, 11))];
    let (a, b, c) = (fake_id(0x12, 2), fake_id(0x77, 1), fake_id(0x88, 3));
    let mut p = Pack::new();
    let o = p.whole(c, BLOB, b"base");
    let at = p.here();
    let entry = |k: usize, at: u64| {
        if choice(2) == 0 {
            [entry_header(BLOB, 3), zlib(&body(k))].concat()
        } else {
            let x = delta(4, 3, &[insert_op(&body(k))]);
            [entry_header(6, x.len() as u64), ofs_encode(at - o), zlib(&x)].concat()
        }
    };
    let (x, y) = (entry(1, at), entry(2, at + d));
    let mut head = p.bytes.clone();
    head[11] = 3;
    mkrepo();
    let sum = [0x5cu8; 20];
    put(&pack_path(b"a", b"pack"), &head);
    put_at(&pack_path(b"a", b"pack"), at, &x);
    put_at(&pack_path(b"a", b"pack"), at + d, &[&y[..], &sum[..]].concat());
    put(&pack_path(b"a", b"idx"), &idx(2, &[(a, at), (b, at + d), (c, o)], &sum, &[]));
    let r = open();
    for k in if choice(2) == 0 { [1, 2, 1] } else { [2, 1, 2] } {
        expect(&r, if k == 1 { &a } else { &b }, Some(k))
    }
    cover("apart");
}
