//! C15: corrupt repository data
//!
//! Panics, aborts, endless loops, stack overflows, memory errors and allocations above 1 GiB are violations in every
//! scenario; here nothing else is asked of the result, except that it does not take memory out of proportion.
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::{Id, ObjectData};
use rusty_git::repository::Repository;

const ID: [u8; 20] = [0xa7; 20];
const BASE: [u8; 20] = [0x17; 20];

/// A damaged stream may pass in the symbolic build, where checksums are constant, and not in the real one: what was
/// read is not compared in replays.
fn sink(b: &[u8]) {
    std::hint::black_box(b);
}
/// reads an object and everything it offers
fn touch(r: &Repository, id: &[u8; 20]) -> bool {
    match r.object_database().parse_object(Id::from_bytes(id)) {
        Err(e) => {
            e.is_not_found();
            e.is_ambiguous();
            cover("refused");
            false
        }
        Ok(o) => {
            let sig = |s: rusty_git::object::Signature| {
                sink(&[s.name().len() as u8, s.email().len() as u8, s.timestamp().map_or(0, |t| t.len() as u8), s.timezone().map_or(0, |t| t.len() as u8)]);
            };
            match o.data() {
                ObjectData::Blob(b) => sink(&[b.data().len() as u8]),
                ObjectData::Tree(t) => {
                    for e in t.entries() {
                        sink(&[e.filename().len() as u8]);
                        e.mode();
                        e.id();
                    }
                }
                ObjectData::Commit(c) => {
                    c.tree();
                    for p in c.parents() {
                        sink(&[(p == Id::from_bytes(&BASE)) as u8])
                    }
                    sig(c.author());
                    sig(c.committer());
                    sink(&[c.encoding().map_or(0, |e| e.len() as u8), c.message().len() as u8]);
                }
                ObjectData::Tag(t) => {
                    t.object();
                    sink(&[t.tag().len() as u8, t.message().map_or(0, |m| m.len() as u8)]);
                    t.kind();
                    t.tagger().map(sig);
                }
            }
            cover("read");
            true
        }
    }
}
/// runs f; it may not take more than this much memory at once
fn within<R>(limit: u64, f: impl FnOnce() -> R) -> R {
    let before = heap_reset();
    let x = f();
    check(heap_peak() - before <= limit, "reading damaged data took memory out of proportion to the data present");
    x
}
const MB: u64 = 1 << 20;

// ---- compressed data -----------------------------------------------------------------------------

/// a loose object whose deflate data is 1 to 2 (deep: 3) arbitrary bytes and nothing else
pub fn deflate() {
    mkrepo();
    let mut z = vec![0x78, 0x01];
    z.extend_from_slice(&any(1 + choice(by(2, 3))));
    put_loose_raw(&ID, &z);
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// a good stream of three blocks with one arbitrary byte in place of any of its first 24 (deep: all) bytes, cut off
/// anywhere or whole; the object loose or packed
pub fn deflate_damaged() {
    mkrepo();
    let packed = choice(2) == 1;
    let mut z = if packed { zlib_blocks(b"hello world!", 5) } else { zlib_blocks(b"blob 12\0hello world!", 8) };
    match choice(3) {
        0 => {
            let n = choice(z.len());
            z.truncate(n)
        }
        _ => {
            let i = choice(by(24, 64));
            assume(i < z.len());
            z[i] = any_u8()
        }
    }
    if packed {
        let mut e = entry_header(BLOB, 12);
        e.extend_from_slice(&z);
        let mut p = Pack::new();
        p.raw(ID, &e);
        p.store(b"p", 2)
    } else {
        put_loose_raw(&ID, &z)
    }
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// the zlib header's two bytes arbitrary
pub fn zlib_header() {
    mkrepo();
    let mut z = zlib(b"blob 5\0hello");
    let h = any(2);
    z[0] = h[0];
    z[1] = h[1];
    put_loose_raw(&ID, &z);
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// fixed and dynamic Huffman blocks with an arbitrary byte in place of any of the first 11 (deep: all)
pub fn huffman() {
    mkrepo();
    let fixed: &[u8] = &[0x78, 0xda, 0x4b, 0xca, 0xc9, 0x4f, 0x52, 0x30, 0x63, 0x48, 0x04, 0x03, 0x00];
    let dynamic: &[u8] = &[
        0x78, 0xda, 0x05, 0xc1, 0xb9, 0x0d, 0x00, 0x20, 0x10, 0x04, 0x31, 0x4a, 0xa1, 0x06, 0x92, 0xab, 0x67, 0x9f, 0xc9, 0x90, 0xe8, 0x3f, 0xc3, 0xf6, 0x7d, 0xde, 0x67, 0x56, 0x83, 0xd2,
        0x36, 0x02, 0x55, 0x89, 0x4b, 0x8a, 0x0c, 0x1f,
    ];
    let (z, text) = if choice(2) == 0 { (fixed, &b"blob 6\0aaaaaa"[..]) } else { (dynamic, &b"blob 27\0dceacdddcaeeadaccbdecdeabee"[..]) };
    let mut z = z.to_vec();
    let i = 2 + choice(by(9, 36));
    assume(i < z.len());
    z[i] = any_u8();
    z.extend_from_slice(&adler(text).to_be_bytes());
    put_loose_raw(&ID, &z);
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// data that expands to megabytes behind a small declared length, an endless header, or an endless kind word; loose,
/// packed, or as delta commands
pub fn bombs() {
    let n = 3_000_000;
    mkrepo();
    match choice(6) {
        0 => put_loose_raw(&ID, &zlib_run_after(b"blob 5\0", b'a', n)),
        1 => put_loose_raw(&ID, &zlib_run_after(b"blob ", b'1', n)),
        2 => put_loose_raw(&ID, &zlib_run(b'x', n)),
        3 => put_loose_raw(&ID, &zlib_run_after(b"tree 20\0", 0, n)),
        k => {
            let mut p = Pack::new();
            if k == 4 {
                let mut e = entry_header(BLOB, 5);
                e.extend_from_slice(&zlib_run(b'a', n));
                p.raw(ID, &e);
            } else {
                let o = p.whole(BASE, BLOB, b"base");
                let mut e = entry_header(OFS, 5);
                e.extend_from_slice(&ofs_encode(p.here() - o));
                e.extend_from_slice(&zlib_run(b'a', n));
                p.raw(ID, &e);
            }
            p.store(b"p", 2)
        }
    }
    let r = open();
    check(!within(MB, || touch(&r, &ID)), "data beyond the declared length was accepted");
}

// ---- declared sizes ------------------------------------------------------------------------------

/// declared lengths of 2^20 to beyond 2^64 over a few bytes of data, in loose headers of every kind, pack entries of
/// every type, delta base and result sizes
pub fn lengths() {
    mkrepo();
    let sizes: [&[u8]; 9] = [b"1048577", b"1073741824", b"2147483648", b"4294967295", b"4294967296", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616"];
    let vals = [1u64 << 20, 1 << 30, 1 << 31, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 20];
    let k = choice(9);
    match choice(4) {
        0 => {
            let kind = KINDS[1 + choice(4)];
            put_loose_raw(&ID, &zlib(&[kind, b" ", sizes[k], b"\0hello"].concat()))
        }
        1 => {
            let mut p = Pack::new();
            let o = p.whole(BASE, BLOB, b"base");
            let kind = [COMMIT, TREE, BLOB, TAG, OFS, REF][choice(6)];
            let mut e = entry_header(kind, vals[k]);
            if kind == OFS {
                e.extend_from_slice(&ofs_encode(p.here() - o))
            }
            if kind == REF {
                e.extend_from_slice(&BASE)
            }
            e.extend_from_slice(&zlib(b"hello"));
            p.raw(ID, &e);
            p.store(b"p", 2)
        }
        j => {
            let d = if j == 2 { delta(vals[k], 4, &[copy_op(0, 4)]) } else { delta(4, vals[k], &[copy_op(0, 4)]) };
            let mut p = Pack::new();
            let o = p.whole(BASE, BLOB, b"base");
            p.ofs(ID, o, &d);
            p.store(b"p", 2)
        }
    }
    let r = open();
    check(!within(MB, || touch(&r, &ID)), "data shorter than its declared length was accepted");
}

// ---- object bodies -------------------------------------------------------------------------------

/// bodies of 0 to 2 (deep: 4) arbitrary bytes for every kind, loose or packed
pub fn bodies() {
    mkrepo();
    let kind = 1 + choice(4) as u8;
    let b = any(choice(by(3, 5)));
    if choice(2) == 0 {
        put_loose(&ID, KINDS[kind as usize], &b)
    } else {
        let mut p = Pack::new();
        p.whole(ID, kind, &b);
        p.store(b"p", 2)
    }
    let r = open();
    touch(&r, &ID);
}

const COMMIT_TEXT: &[u8] = b"tree 0123456789abcdef0123456789abcdef01234567\nparent 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\nencoding e\nx y\n\nm\n";
const TAG_TEXT: &[u8] = b"object 0123456789abcdef0123456789abcdef01234567\ntype tree\ntag v\ntagger T <t@u> 3 -0200\n\nm\n";
const TREE_TEXT: &[u8] = b"100644 a\0aaaaaaaaaaaaaaaaaaaa40000 bc\0bbbbbbbbbbbbbbbbbbbb";

/// a commit, tag or tree with one arbitrary byte in place of any byte, cut off anywhere, or with any line dropped
pub fn texts() {
    mkrepo();
    let k = choice(3);
    let (kind, full) = [(COMMIT, COMMIT_TEXT), (TAG, TAG_TEXT), (TREE, TREE_TEXT)][k];
    let mut b = full.to_vec();
    match choice(3) {
        0 => b.truncate(choice(full.len() + 1)),
        1 => {
            let i = choice(full.len());
            b[i] = any_u8()
        }
        _ => {
            let lines: Vec<&[u8]> = full.split(|c| *c == b'\n').collect();
            let i = choice(10);
            assume(i < lines.len() && k < 2);
            b.clear();
            for (j, l) in lines.iter().enumerate() {
                if i != j {
                    b.extend_from_slice(l);
                    b.push(b'\n')
                }
            }
        }
    }
    put_loose(&ID, KINDS[kind as usize], &b);
    let r = open();
    touch(&r, &ID);
}

/// identity lines of five fixed shapes with two arbitrary bytes at any one place
pub fn signatures() {
    mkrepo();
    let shape: &[u8] = [&b"A <b> 1 +2"[..], b"A", b"<>", b" <> ", b"A <b> 99999999999999999999 -99999"][choice(5)];
    let i = choice(34);
    assume(i <= shape.len());
    let s = [&shape[..i], &any(by(1, 2)), &shape[i..]].concat();
    let b = if choice(2) == 0 {
        [b"tree 0123456789abcdef0123456789abcdef01234567\nauthor ", &s[..], b"\ncommitter C <c@d> 2 +0100\n\nm"].concat()
    } else {
        [b"object 0123456789abcdef0123456789abcdef01234567\ntype tree\ntag v\ntagger ", &s[..], b"\n\nm"].concat()
    };
    put_loose(&ID, if b[0] == b't' { b"commit" } else { b"tag" }, &b);
    let r = open();
    touch(&r, &ID);
}

// ---- packs and indexes ---------------------------------------------------------------------------

fn good_pack() -> Pack {
    let mut p = Pack::new();
    let o = p.whole(BASE, BLOB, b"base");
    p.ofs(ID, o, &delta(4, 6, &[copy_op(0, 4), insert_op(b"xy")]));
    p.refd(fake_id(0xf0, 2), &ID, &delta(6, 3, &[copy_op(3, 3)]));
    p
}

/// a pack of three entries with one arbitrary byte in place of any byte, cut off anywhere, or with bytes added; objects
/// read in either order
pub fn pack_bytes() {
    mkrepo();
    let p = good_pack();
    let mut f = p.finish();
    let n = f.len();
    match choice(3) {
        0 => f.truncate(choice(n)),
        1 => {
            let i = choice(n);
            f[i] = any_u8()
        }
        _ => f.extend_from_slice(&any(choice(3)))
    }
    put(&pack_path(b"p", b"pack"), &f);
    put(&pack_path(b"p", b"idx"), &p.idx(2));
    let r = open();
    let ids = [BASE, ID, fake_id(0xf0, 2)];
    let back = choice(2) == 1;
    within(MB, || {
        for k in 0..3 {
            touch(&r, &ids[if back { 2 - k } else { k }]);
        }
    });
}

/// a pack entry whose first byte is arbitrary in front of good compressed data; or of each type, followed by one
/// arbitrary byte and one of 0, 0x7f, 0x80, 0xff or none
pub fn pack_entry() {
    mkrepo();
    let mut p = Pack::new();
    p.whole(BASE, BLOB, b"base");
    let mut e = vec![];
    if choice(2) == 0 {
        e.push(any_u8())
    } else {
        e.push((choice(8) as u8) << 4 | [0x80, 0][choice(2)] | [4, 0xf][choice(2)]);
        e.push(any_u8())
    }
    let k = choice(5);
    if k < 4 {
        e.push([0, 0x7f, 0x80, 0xff][k])
    }
    e.extend_from_slice(&zlib(&delta(4, 4, &[copy_op(0, 4)])));
    p.raw(ID, &e);
    p.store(b"p", 2);
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// indexes of either version with one arbitrary byte in any of the fan-out's first, middle and last entries or in any
/// place behind it, or cut off or lengthened there
pub fn index_bytes() {
    mkrepo();
    let v = 1 + choice(2) as u32;
    let p = good_pack();
    let wide: &[usize] = if choice(2) == 0 { &[] } else { &[1] };
    let mut f = idx(v, &p.ents, &p.sum(), wide);
    let n = f.len();
    let head = if v == 2 { 8 } else { 0 };
    match choice(4) {
        0 => f.truncate(n - choice(160)),
        1 => f.truncate([0, 1, 4, 8, 12, 600, 1024, 1032][choice(8)]),
        2 => f.extend_from_slice(&[0xff; 16][..choice(17)]),
        _ => {
            let k = choice(160 + 20);
            let i = if k < 4 { k } else if k < 20 { head + [0, 0x17, 0xa7, 0xff][(k - 4) / 4] * 4 + k % 4 } else { n - 1 - (k - 20) };
            f[i] = any_u8()
        }
    }
    put(&pack_path(b"p", b"pack"), &p.finish());
    put(&pack_path(b"p", b"idx"), &f);
    let r = open();
    within(MB, || {
        touch(&r, &ID);
        touch(&r, &fake_id(0xf0, 2));
        touch(&r, &fake_id(0xff, 9));
    });
}

/// fan-out tables that claim 2^16 to 2^32-1 objects (from any of four first bytes on) over a short or long file, with
/// the pack claiming the same
pub fn index_counts() {
    mkrepo();
    let v = 1 + choice(2) as u32;
    let n = [0x10000u32, 0x0555_5555, 0x0924_9249, 0x0aaa_aaab, 0x1000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff][choice(8)];
    let from = [0usize, 1, 0xa7, 0xff][choice(4)];
    let mut f = vec![];
    if v == 2 {
        f.extend_from_slice(b"\xfftOc\0\0\0\x02")
    }
    for b in 0..256 {
        f.extend_from_slice(&(if b >= from { n } else { 0 }).to_be_bytes())
    }
    f.extend_from_slice(&big([40usize, 64, 2000][choice(3)], 1));
    let p = good_pack();
    let mut pk = p.finish();
    pk[8..12].copy_from_slice(&n.to_be_bytes());
    put(&pack_path(b"p", b"pack"), &pk);
    put(&pack_path(b"p", b"idx"), &f);
    let r = open();
    check(
        within(MB, || {
            let a = matches!(look(&r, &ID), Got::Obj(_));
            let b = matches!(look(&r, &fake_id(0xff, 9)), Got::Obj(_));
            !a && !b
        }),
        "an object was returned from an index shorter than its tables",
    );
    cover("refused");
}

/// entries at every offset of the pack and around its end, at 2^31, 2^32, 2^63 and 2^64 and up to 2 bytes below, found
/// through either index version
pub fn index_offsets() {
    mkrepo();
    let p = good_pack();
    let n = p.finish().len();
    let k = choice(n + 12 + 12);
    let (v, off) = if k < n + 12 {
        (1 + choice(2) as u32, k as u64)
    } else {
        let k = k - n - 12;
        (2, [1u64 << 31, 1 << 32, 1 << 63, 0][k / 3].wrapping_sub((k % 3) as u64))
    };
    let mut e = p.ents.clone();
    e[1].1 = off;
    put(&pack_path(b"p", b"pack"), &p.finish());
    put(&pack_path(b"p", b"idx"), &idx(v, &e, &p.sum(), &[]));
    let r = open();
    within(MB, || {
        touch(&r, &ID);
        touch(&r, &fake_id(0xf0, 2));
    });
}

/// a fan-out whose entries around an id's first byte are arbitrary small numbers (0 to 5 for 3 objects), not
/// necessarily in order
pub fn fan_out() {
    mkrepo();
    let p = good_pack();
    let v = 1 + choice(2) as u32;
    let mut f = p.idx(v);
    let head = if v == 2 { 8 } else { 0 };
    let b = [0x17usize, 0xa7, 0xf0][choice(3)];
    let (lo, hi) = (choice(6) as u8, choice(6) as u8);
    f[head + (b - 1) * 4 + 3] = lo;
    f[head + b * 4 + 3] = hi;
    put(&pack_path(b"p", b"pack"), &p.finish());
    put(&pack_path(b"p", b"idx"), &f);
    let r = open();
    for id in [BASE, ID, fake_id(0xf0, 2), fake_id(0xef, 1), fake_id(0x16, 1), fake_id(0xa6, 1)].iter() {
        touch(&r, id);
    }
}

/// deltas that copy 16 MiB or 65536 bytes 1000 times from a base of 4 bytes, or declare what they do not produce
pub fn delta_bombs() {
    mkrepo();
    let op = [copy_op(0, 0xff_ffff), copy_op(0, 0x10000), copy_op(0xffff_ffff, 1), copy_op(4, 1), copy_op(0xffff_ffff, 0xff_ffff), vec![0xff; 8]][choice(6)].clone();
    let n = [1, 1000][choice(2)];
    let total = [4u64, 0xff_ffff, 0xff_ffff * 1000, 1 << 40][choice(4)];
    let mut ops = vec![];
    if choice(2) == 1 {
        ops.push(copy_op(0, 4))
    }
    for _ in 0..n {
        ops.push(op.clone())
    }
    let mut p = Pack::new();
    let o = p.whole(BASE, BLOB, b"base");
    p.ofs(ID, o, &delta(4, total, &ops));
    p.store(b"p", 2);
    let r = open();
    check(!within(MB, || touch(&r, &ID)), "an invalid delta was applied");
}

/// delta instructions of 1 to 2 (deep: 3) arbitrary bytes behind a good one
pub fn delta_bytes() {
    mkrepo();
    let mut d = delta(4, 4, &[copy_op(0, 2)]);
    let at = choice(3);
    let x = any(1 + choice(by(2, 3)));
    if at == 2 {
        d.extend_from_slice(&x)
    } else {
        for (i, b) in x.iter().enumerate() {
            d[at + i] = *b
        }
    }
    let mut p = Pack::new();
    let o = p.whole(BASE, BLOB, b"base");
    p.ofs(ID, o, &d);
    p.store(b"p", 2);
    let r = open();
    within(MB, || touch(&r, &ID));
}

/// chains that lead back to themselves after 1 to 40 steps, among up to 40 entries, or 2000 (deep: 5000) deltas long;
/// by distance or id; the requested entry inside or outside the cycle
pub fn chains() {
    let mut p = Pack::new();
    let e = delta(1, 1, &[copy_op(0, 1)]);
    let id = |k: usize| {
        let mut i = fake_id((k >> 8) as u8, 7);
        i[1] = k as u8;
        i
    };
    let last;
    if choice(2) == 0 {
        let n = 1 + choice(40);
        for k in 0..n {
            p.refd(id(k), &id((k + 1) % n), &e);
        }
        let h = p.here();
        p.refd(id(n), &id(choice(2) * (n - 1)), &e);
        p.ofs(id(n + 1), h, &e);
        last = [0, n, n + 1][choice(3)];
    } else {
        let n = by(2000, 5000);
        let mut o = p.whole(id(0), BLOB, b"x");
        for k in 1..=n {
            o = p.ofs(id(k), o, &e);
        }
        last = n;
    }
    mkrepo();
    p.store(b"p", 2);
    let r = open();
    within(4 * MB, || touch(&r, &id(last)));
    touch(&r, &id(0));
}

// ---- references ----------------------------------------------------------------------------------

/// a reference file of 0 to 3 (deep: 4) arbitrary bytes, read by name, as HEAD, peeled
pub fn ref_bytes() {
    mkrepo();
    let b = any(choice(by(4, 5)));
    let head = choice(2) == 0;
    put(if head { b".git/HEAD" } else { b".git/refs/heads/x" }, &b);
    let r = open();
    let db = r.reference_database();
    let f = if head { db.head() } else { db.reference(b"refs/heads/x") };
    match f {
        Ok(f) => {
            f.name();
            let _ = f.peel(&r);
        }
        Err(_) => cover("refused"),
    }
}

/// good reference files with one arbitrary byte anywhere, or cut off anywhere, peeled
pub fn ref_damaged() {
    mkrepo();
    let full: &[u8] = [&b"ref: refs/heads/y\n"[..], b"a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7\n", b"# c\n\na7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7a7 refs/t\n"][choice(3)];
    let mut b = full.to_vec();
    let i = choice(52);
    assume(i < b.len());
    if choice(2) == 0 {
        b.truncate(i)
    } else {
        b[i] = any_u8()
    }
    put(b".git/refs/heads/x", &b);
    put(b".git/refs/heads/y", b"ref: refs/heads/x");
    put_loose(&ID, b"blob", b"x");
    let r = open();
    match r.reference_database().reference(b"refs/heads/x") {
        Ok(f) => {
            f.name();
            match f.peel(&r) {
                Ok(_) => cover("peeled"),
                Err(_) => cover("not peeled"),
            }
        }
        Err(_) => cover("refused"),
    }
}

/// reference files of 70 000 (deep: 1 000 000) bytes: comments, blanks, one long name, one long id, NULs
pub fn ref_long() {
    mkrepo();
    let n = by(70_000, 1_000_000);
    let b = match choice(6) {
        0 => vec![b'\n'; n],
        1 => vec![b'#'; n],
        2 => [&b"ref: "[..], &vec![b'a'; n]].concat(),
        3 => vec![b'a'; n],
        4 => vec![0; n],
        _ => b"# x\n".repeat(n / 4),
    };
    put(b".git/refs/heads/x", &b);
    let r = open();
    within(8 * n as u64 + MB, || match r.reference_database().reference(b"refs/heads/x") {
        Ok(f) => {
            check(f.peel(&r).is_err(), "a reference to nothing was peeled");
            cover("read")
        }
        Err(_) => cover("refused"),
    });
}

/// loops of symbolic references of length 1 to 4 (deep: 40), and chains of 500 (deep: 3000)
pub fn ref_loops() {
    mkrepo();
    let name = |k: usize| [&b"refs/heads/"[..], &dec(k as u64)].concat();
    let n = if choice(2) == 0 { 1 + choice(by(4, 40)) } else { by(500, 3000) };
    for k in 0..n {
        let next = if n >= 500 { k + 1 } else { (k + 1) % n };
        put(&[&b".git/"[..], &name(k)].concat(), &[&b"ref: "[..], &name(next)].concat())
    }
    let r = open();
    match r.reference_database().reference(&name(0)) {
        Ok(f) => check(f.peel(&r).is_err(), "a reference that never reaches an object was peeled"),
        Err(_) => check(false, "a well-formed reference was refused"),
    }
    cover("ended");
}

// ---- wrong kinds of files ------------------------------------------------------------------------

/// a folder, an empty file, a link to itself or a dangling link where a loose object, pack, index, HEAD, a reference or
/// a folder of them belongs
pub fn wrong_files() {
    for d in [&b".git"[..], b".git/objects", b".git/refs"].iter() {
        mkdir(d)
    }
    let what = choice(7);
    let target: Vec<u8> = match what {
        0 => {
            mkdir(&loose_dir(&ID));
            loose_path(&ID)
        }
        1 => loose_dir(&ID),
        2 => {
            mkdir(b".git/objects/pack");
            put(&pack_path(b"p", b"pack"), &good_pack().finish());
            pack_path(b"p", b"idx")
        }
        3 => {
            mkdir(b".git/objects/pack");
            put(&pack_path(b"p", b"idx"), &good_pack().idx(2));
            pack_path(b"p", b"pack")
        }
        4 => b".git/objects/pack".to_vec(),
        5 => b".git/HEAD".to_vec(),
        _ => b".git/refs/heads".to_vec(),
    };
    match choice(4) {
        0 => mkdir(&target),
        1 => put(&target, b""),
        2 => symlink(&target, target.rsplit(|c| *c == b'/').next().unwrap()),
        _ => symlink(&target, b"nowhere"),
    }
    let r = open();
    if what < 5 {
        check(!touch(&r, &ID), "an object was returned that no store holds");
    }
    let db = r.reference_database();
    check(db.head().is_err(), "a HEAD was returned that is no file");
    let _ = db.reference_names();
    let _ = db.head_reference_names();
    check(db.reference(b"refs/heads").is_err(), "a reference was returned that is no file");
    cover("ended");
}

/// reference folders nested 100 (deep: 300) deep, and a link to a parent folder
pub fn deep_folders() {
    mkrepo();
    let n = by(100, 300);
    let mut d = b".git/refs/heads".to_vec();
    for _ in 0..n {
        d.extend_from_slice(b"/d");
        mkdir(&d)
    }
    put(&[&d[..], b"/leaf"].concat(), b"x");
    if choice(2) == 1 {
        symlink(b".git/refs/heads/d/up", b"..")
    }
    let r = open();
    match r.reference_database().head_reference_names() {
        Ok(v) => check(v.len() >= 1 && v.len() <= 2, "listing nested folders gave other names"),
        Err(_) => note("refused"),
    }
    cover("ended");
}

/// what was read, or the error, is printed: a commit, tag, tree or blob, a malformed one, or a reference file, with one
/// arbitrary byte at any of 12 places, or cut off there
pub fn printed() {
    mkrepo();
    let k = choice(6);
    let text: &[u8] = [COMMIT_TEXT, TAG_TEXT, TREE_TEXT, b"blob of \xf0\x9f\x98\x80 and \xff\0\n", b"ref: refs/heads/\xc3\xa9 b\n", b"# c\n0123456789abcdef0123456789abcdef01234567 refs/x\n"][k];
    let mut b = text.to_vec();
    let i = choice(12) * (text.len() - 1) / 11;
    match choice(3) {
        0 => b.truncate(i),
        1 => b[i] = any_u8(),
        _ => (),
    }
    use std::fmt::Write;
    struct N(usize);
    impl Write for N {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut n = N(0);
    fn chain(n: &mut N, e: &dyn std::error::Error) {
        let mut e = Some(e);
        while let Some(x) = e {
            write!(n, "{} {:?}", x, x).ok();
            e = x.source()
        }
    }
    if k < 4 {
        put_loose(&ID, [&b"commit"[..], b"tag", b"tree", b"blob"][k], &b);
        let r = open();
        match r.object_database().parse_object(Id::from_bytes(&ID)) {
            Ok(o) => {
                write!(n, "{:?} {:#?} {} {:?}", o.data(), o.data(), o.id(), o.id()).ok();
                match o.data() {
                    ObjectData::Commit(c) => write!(n, "{:?} {:?}", c.author(), c.parents().collect::<Vec<_>>()).ok(),
                    ObjectData::Tag(t) => write!(n, "{:?} {:?}", t.tagger(), t.kind()).ok(),
                    ObjectData::Tree(t) => write!(n, "{:?}", t.entries().next()).ok(),
                    ObjectData::Blob(b) => write!(n, "{:?} {}", b.data(), b.data()).ok(),
                };
                cover("object")
            }
            Err(e) => {
                chain(&mut n, &e);
                cover("object error")
            }
        }
    } else {
        put(b".git/refs/heads/x", &b);
        let r = open();
        match r.reference_database().reference(b"refs/heads/x") {
            Ok(f) => {
                write!(n, "{:?} {:?} {:?} {:#?}", f, f.target(), f.name(), r.reference_database()).ok();
                if let Err(e) = f.peel(&r) {
                    chain(&mut n, &e)
                }
                cover("reference")
            }
            Err(e) => {
                chain(&mut n, &e);
                cover("reference error")
            }
        }
    }
    check(n.0 > 0, "something that was read, or an error, prints as nothing");
}
