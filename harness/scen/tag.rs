//! C06: annotated tags
use super::commit::{hex_line, line_end, same_sig, starts, Sig};
use super::kit::*;
use super::rt::*;
use rusty_git::object::{ObjectData, ObjectKind, Tag};

struct Fields {
    object: Vec<u8>,
    kind: u8,
    tag: (usize, usize),
    tagger: Option<(usize, usize)>,
    message: Option<usize>,
}
fn reference(b: &[u8]) -> Option<Fields> {
    if !starts(b, 0, b"object ") {
        return None;
    }
    let (object, mut i) = hex_line(b, 7)?;
    if !starts(b, i, b"type ") {
        return None;
    }
    let e = line_end(b, i)?;
    let mut kind = 0;
    for k in [COMMIT, TREE, BLOB, TAG] {
        if eq(&b[i + 5..e], KINDS[k as usize]) {
            kind = k
        }
    }
    if kind == 0 {
        return None;
    }
    i = e + 1;
    if !starts(b, i, b"tag ") {
        return None;
    }
    let tag = (i + 4, line_end(b, i)?);
    i = tag.1 + 1;
    let mut tagger = None;
    if starts(b, i, b"tagger ") {
        let e = line_end(b, i)?;
        tagger = Some((i + 7, e));
        i = e + 1
    }
    let message = loop {
        if i < b.len() && b[i] == b'\n' {
            break Some(i + 1);
        }
        match line_end(b, i) {
            Some(e) => i = e + 1,
            None => break None,
        }
    };
    Some(Fields { object, kind, tag, tagger, message })
}
const TAGGER: &[u8] = b"Tag Ger <tag@ger.org> 1234567890 +0000";
fn same(t: &Tag, b: &[u8], f: &Fields) {
    check(eq(&id_bytes(&t.object()), &f.object), "the target id is not the recorded one");
    let k = match t.kind() {
        ObjectKind::Commit => COMMIT,
        ObjectKind::Tree => TREE,
        ObjectKind::Blob => BLOB,
        ObjectKind::Tag => TAG,
        _ => 0,
    };
    check(k == f.kind, "the target type is not the recorded one");
    check(eq(t.tag(), &b[f.tag.0..f.tag.1]), "the tag name is not the recorded one");
    match (t.message(), f.message) {
        (Some(m), Some(i)) => check(eq(m, &b[i..]), "the message is not the recorded one"),
        (None, None) => (),
        _ => check(false, "the message was lost or invented"),
    }
    match (t.tagger(), f.tagger) {
        (Some(s), Some((x, y))) => {
            if eq(&b[x..y], TAGGER) {
                same_sig(&s, &Sig { name: b"Tag Ger", email: b"tag@ger.org", time: Some(b"1234567890"), zone: Some(b"+0000") })
            }
        }
        (None, None) => (),
        _ => check(false, "the tagger was lost or invented"),
    }
}
fn against_reference(b: &[u8]) {
    mkrepo();
    let id = fake_id(0xe0, 0x10);
    put_loose(&id, b"tag", b);
    let r = open();
    match look(&r, &id) {
        Got::Obj(ObjectData::Tag(t)) => match reference(b) {
            Some(f) => {
                same(&t, b, &f);
                cover("tag")
            }
            None => check(false, "a malformed tag was accepted"),
        },
        Got::Obj(_) => check(false, "a tag was returned as an object of another type"),
        Got::NotFound => check(false, "an existing tag was reported as not found"),
        Got::Err => match reference(b) {
            Some(f) => check(!f.tagger.map_or(true, |t| eq(&b[t.0..t.1], TAGGER)), "a well-formed tag was refused"),
            None => cover("refused"),
        },
    }
}
fn text(kind: &[u8], name: &[u8], tagger: usize, rest: &[u8]) -> Vec<u8> {
    let mut v = [b"object 00ff10a0b1c2d3e4f5061728394a5b6c7d8e9fA0\ntype ", kind, b"\ntag ", name, b"\n"].concat();
    if tagger == 1 {
        v.extend_from_slice(&[b"tagger ", TAGGER, b"\n"].concat())
    }
    v.extend_from_slice(rest);
    v
}
const REST: &[&[u8]] = &[b"\n", b"\n\n", b"\nmessage\n", b"\ntagger X <y> 1 +0000\n\nm", b"", b"gpgsig x\n y\n \n z\n\nsigned message\n", b"other x\n"];

/// the four target types, any name of up to 3 bytes, with and without tagger, seven endings
pub fn fields() {
    let k = 1 + choice(4);
    let name = any(choice(by(3, 4)));
    for c in name.iter() {
        assume(*c != b'\n')
    }
    let b = text(KINDS[k], &name, choice(2), REST[choice(REST.len())]);
    check(reference(&b).is_some(), "fixture");
    against_reference(&b);
}

/// any message of up to 3 (deep: 5) bytes
pub fn message() {
    let m = any(choice(by(4, 6)));
    let t = choice(2);
    against_reference(&text(b"commit", b"v1.0", t, &[b"\n", &m[..]].concat()));
}

/// any target type of up to 2 (deep: 3) bytes, and the known ones with one arbitrary byte
pub fn kinds() {
    let k = if choice(2) == 0 {
        any(choice(by(3, 4)))
    } else {
        let mut k = [&b"commit"[..], b"tree", b"blob", b"tag", b"commit ", b"tags", b"ofs-delta"][choice(7)].to_vec();
        let i = choice(k.len());
        k[i] = any_u8();
        k
    };
    against_reference(&text(&k, b"n", 1, b"\nm"));
}

/// one arbitrary byte at every position
pub fn one_byte() {
    let mut b = text(b"blob", b"v1", 1, b"\nmsg\n");
    let i = choice(b.len());
    b[i] = any_u8();
    against_reference(&b);
}

/// cut anywhere, with up to one (deep: two) arbitrary bytes behind the cut
pub fn cut() {
    let full = text(b"tree", b"name", 1, b"\nmessage\n");
    let n = choice(full.len() + 1);
    let mut b = full[..n].to_vec();
    b.extend_from_slice(&any(choice(by(2, 3))));
    against_reference(&b);
}

/// any line left out, doubled, or exchanged with the next
pub fn lines() {
    let full = text(b"tag", b"name", 1, b"\nm1\n\nm2\n");
    let mut ls: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < full.len() {
        let e = line_end(&full, i).unwrap();
        ls.push(full[i..e + 1].to_vec());
        i = e + 1
    }
    let k = choice(ls.len() - 1);
    match choice(3) {
        0 => {
            ls.remove(k);
        }
        1 => ls.swap(k, k + 1),
        _ => {
            let l = ls[k].clone();
            ls.insert(k, l)
        }
    }
    against_reference(&ls.concat());
}

/// a long message
pub fn big() {
    let m = super::loose::big([100usize, 8192, 70000][choice(3)], 9);
    against_reference(&text(b"commit", b"v1", choice(2), &[b"\n", &m[..]].concat()));
}

/// texts that mean something to git or to editors, with an arbitrary byte in front or behind, as the message of a tag with
/// or without tagger; and those of one line as the tag's name
pub fn words() {
    let w = word();
    match choice(2) {
        0 => against_reference(&text(KINDS[1 + choice(2) * 2], b"v1.0", choice(2), &[b"\n", &w[..]].concat())),
        _ => {
            for c in w.iter() {
                assume(*c != b'\n')
            }
            against_reference(&text(b"commit", &w, choice(2), b"\nm\n"))
        }
    }
}

/// names of tags with a meaning elsewhere, and one arbitrary byte at their ends
pub fn names() {
    let n = [
        &b"v1.0"[..], b"HEAD", b"refs/tags/v1", b"a/b/c", b"-x", b".hidden", b"x.lock", b"..", b"@", b"@{0}", b"a b", b" a", b"a ", b"a\r", b"\xc3\xa9", b"\xe9", b"\"q\"", b"a:b", b"a^{}", b"v1^0", b"0123456789012345678901234567890123456789",
    ];
    let mut n = n[choice(n.len())].to_vec();
    match choice(3) {
        0 => (),
        1 => n.push(any_u8()),
        _ => n.insert(0, any_u8()),
    }
    assume(!n.contains(&b'\n'));
    against_reference(&text(b"commit", &n, choice(2), b"\nm\n"));
}

/// names of about 2^16 bytes (deep: and 150 000) in front of the tagger and the message; an arbitrary byte in each end of
/// the name and in the message
pub fn far() {
    let mut n = vec![b'n'; [65_400usize, 65_440, 65_535, 65_536, 65_537, 150_000][choice(by(5, 6))]];
    let l = n.len();
    let m = match choice(3) {
        0 => {
            n[l - 1] = any_u8();
            b'm'
        }
        1 => {
            n[0] = any_u8();
            b'm'
        }
        _ => any_u8(),
    };
    assume(n[0] != b'\n' && n[l - 1] != b'\n');
    against_reference(&text(KINDS[choice(2)], &n, choice(2), &[b'\n', m, b'\n']));
}
