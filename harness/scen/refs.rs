//! C17 to C20: references
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;
use rusty_git::reference::{Direct, Error, Reference, ReferenceTarget};
use rusty_git::repository::Repository;

const HEXID: &[u8] = b"0123456789abcdefABCDEF99887766554433abcd";
fn id_of_hex(h: &[u8]) -> [u8; 20] {
    let d = |c: u8| {
        if c >= b'a' {
            c - b'a' + 10
        } else if c >= b'A' {
            c - b'A' + 10
        } else {
            c - b'0'
        }
    };
    let mut v = [0; 20];
    for i in 0..20 {
        v[i] = d(h[2 * i]) << 4 | d(h[2 * i + 1])
    }
    v
}

// ---- C17: parsing --------------------------------------------------------------------------------

#[derive(Clone)]
enum Want {
    Symbolic(Vec<u8>),
    Direct(Vec<u8>),
    Peeled(Vec<u8>, Vec<u8>),
    Error,
    /// the property says nothing
    Open,
}
fn space(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == 0x0c || c == b'\r'
}
fn hexdigit(c: u8) -> bool {
    (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')
}
fn is_id(h: &[u8]) -> bool {
    h.len() == 40 && h.iter().all(|c| hexdigit(*c))
}
/// what a reference file means
fn reference(b: &[u8]) -> Want {
    let mut i = 0;
    while i < b.len() {
        let mut e = i;
        while e < b.len() && b[e] != b'\n' {
            e += 1
        }
        let line = &b[i..e];
        if !(line.is_empty() || line[0] == b'#' || line[0] == b' ') {
            let mut n = line.len();
            while n > 0 && space(line[n - 1]) {
                n -= 1
            }
            let line = &line[..n];
            if line.len() >= 4 && eq(&line[..4], b"ref:") {
                if line.len() == 4 {
                    return Want::Error;
                }
                // other spacing behind the colon
                if line[4] != b' ' || space(line[5]) {
                    return Want::Open;
                }
                return Want::Symbolic(line[5..].to_vec());
            }
            if is_id(line) {
                return Want::Direct(line.to_vec());
            }
            if line.len() > 41 && line[40] == b' ' && is_id(&line[..40]) {
                if space(line[41]) {
                    return Want::Open;
                }
                return Want::Peeled(line[..40].to_vec(), line[41..].to_vec());
            }
            return Want::Error;
        }
        i = e + 1
    }
    Want::Error
}
fn judge(got: Result<Reference, Error>, want: &Want) {
    match (&got, want) {
        (_, Want::Open) => cover("open"),
        (Err(_), Want::Error) => cover("refused"),
        (Ok(_), Want::Error) => check(false, "a malformed reference was accepted"),
        (Err(_), _) => check(false, "a well-formed reference was refused"),
        (Ok(r), Want::Symbolic(n)) => match r.target() {
            ReferenceTarget::Symbolic(s) => {
                check(eq(s.data(), n), "a symbolic reference names another reference");
                cover("symbolic")
            }
            _ => check(false, "a symbolic reference was returned as a direct one"),
        },
        (Ok(r), Want::Direct(h)) => match (r.target(), Direct::from_bytes(h)) {
            (ReferenceTarget::Direct(d), Ok(w)) => {
                check(*d == w, "a direct reference names another object");
                check(r.name().is_none(), "a direct reference has a name");
                cover("direct")
            }
            _ => check(false, "a direct reference was returned as a symbolic one"),
        },
        (Ok(r), Want::Peeled(_, n)) => match r.target() {
            ReferenceTarget::Symbolic(s) => {
                check(eq(s.data(), n), "a reference with an id and a name has another name");
                cover("peeled")
            }
            _ => check(false, "a reference with an id and a name was returned as a direct one"),
        },
    }
}
fn parse_both(b: &[u8]) {
    let want = reference(b);
    judge(Reference::from_bytes(b), &want);
}

/// 0 to 6 (deep: 9) arbitrary bytes
pub fn parse_any() {
    let b = any(choice(by(7, 10)));
    parse_both(&b);
}

/// a prefix (nothing, parts of `ref: `, an id, an id and a space, comments, blanks), 1 to 2 (deep: 3) arbitrary bytes, a
/// suffix (nothing, a newline, white space, another line)
pub fn parse_around() {
    let pre: Vec<u8> = match choice(10) {
        0 => b"ref: ".to_vec(),
        1 => b"ref:".to_vec(),
        2 => b"ref".to_vec(),
        3 => HEXID.to_vec(),
        4 => [HEXID, b" "].concat(),
        5 => b"# c\n".to_vec(),
        6 => b"\n".to_vec(),
        7 => b" x\n".to_vec(),
        8 => HEXID[..39].to_vec(),
        _ => b"ref: refs/heads/".to_vec(),
    };
    let suf: &[u8] = [&b""[..], b"\n", b" \t\r\n", b"\nref: junk\n", b"z"][choice(5)];
    let b = [&pre[..], &any(1 + choice(by(2, 3))), suf].concat();
    parse_both(&b);
}

/// one (deep: two) arbitrary digit of a direct reference at any place, alone, with a newline or behind a comment
pub fn parse_id() {
    let mut h = HEXID.to_vec();
    let i = choice(40);
    h[i] = any_u8();
    if deep() {
        h[(i + 7) % 40] = any_u8()
    }
    let b = match choice(4) {
        0 => h,
        1 => [&h[..], b"\n"].concat(),
        2 => [b"#x\n\n", &h[..], b" \n"].concat(),
        _ => [&h[..], b" refs/heads/m\n"].concat(),
    };
    parse_both(&b);
}

/// up to three lines to skip (blank, comments, space-led) before each kind of reference, four kinds of ends; by bytes, by
/// reader, from a file by name and as HEAD; names with spaces, slashes, unicode and arbitrary bytes inside
pub fn parse_lines() {
    let mut b = vec![];
    for _ in 0..choice(4) {
        b.extend_from_slice([&b"\n"[..], b"# pack-refs with: peeled\n", b" x\n", b"#\n", b" \n", b"#ref: a\n"][choice(6)])
    }
    let names: [&[u8]; 5] = [b"refs/heads/main", b"a b", b"\xc3\xa9\xff/\xc2\xa0", b"x\xc2\x85", b"ref: y"];
    let x = any_u8();
    assume(x != b'\n' && x != b'\r');
    let name = [&names[choice(5)][..], &[x], b"e"].concat();
    let kind = choice(4);
    match kind {
        0 => b.extend_from_slice(&[b"ref: ", &name[..]].concat()),
        1 => b.extend_from_slice(HEXID),
        2 => b.extend_from_slice(&[HEXID, b" ", &name[..]].concat()),
        _ => b.extend_from_slice(b"nonsense"),
    }
    b.extend_from_slice([&b""[..], b"\n", b"  \n", b"\r\n\n"][choice(4)]);
    let want = match kind {
        0 => Want::Symbolic(name),
        1 => Want::Direct(HEXID.to_vec()),
        2 => Want::Peeled(HEXID.to_vec(), name),
        _ => Want::Error,
    };
    match choice(4) {
        0 => judge(Reference::from_bytes(&b), &want),
        1 => judge(Reference::from_reader(&b[..]), &want),
        k => {
            mkrepo();
            put(if k == 2 { b".git/HEAD" } else { b".git/refs/heads/x" }, &b);
            let r = open();
            let db = r.reference_database();
            judge(if k == 2 { db.head() } else { db.reference(b"refs/heads/x") }, &want);
            if k == 3 {
                judge(db.parse_reference(b"refs/heads/x"), &want)
            }
        }
    }
}

/// names and comments of 100 to 70 000 bytes, around the sizes of buffers, with an arbitrary byte inside; alone or behind
/// comments of 0 to 8180 bytes
pub fn parse_long() {
    let n = [100usize, 255, 256, 1000, 4000, 4090, 4096, 8180, 8191, 8192, 8193, 70_000][choice(12)];
    let mut long = vec![b'n'; n];
    let at = [0, n / 2, n - 1][choice(3)];
    let x = any_u8();
    assume(!space(x));
    long[at] = x;
    let (b, want) = match choice(3) {
        0 => ([b"ref: ", &long[..], b"\n"].concat(), Want::Symbolic(long)),
        1 => ([b"#", &long[..], b"\n", HEXID].concat(), Want::Direct(HEXID.to_vec())),
        _ => ([HEXID, b" ", &long[..]].concat(), Want::Peeled(HEXID.to_vec(), long)),
    };
    let before = [0usize, 60, 4090, 8180][choice(4)];
    let b = if before == 0 { b } else { [b"# ", &vec![b'c'; before - 3][..], b"\n", &b].concat() };
    mkrepo();
    put(b".git/HEAD", &b);
    judge(open().reference_database().head(), &want);
    cover("long");
}

/// `ID NAME` peels to the object of that id whether or not NAME exists, and a direct reference to its own; the other
/// ids stored lead elsewhere
pub fn parse_peel() {
    let mut h = HEXID.to_vec();
    let i = [0usize, 1, 2, 17, 38, 39][choice(6)];
    h[i] = b"0123456789abcdef"[choice(16)];
    mkrepo();
    let x = any_u8();
    put_loose(&id_of_hex(&h), b"blob", &[x]);
    let mut o = h.clone();
    o[20] = b'0';
    put_loose(&id_of_hex(&o), b"blob", b"other");
    let named = choice(2) == 1;
    if named {
        put(b".git/refs/heads/m", &o)
    }
    put(b".git/refs/heads/x", &if choice(2) == 0 { [&h[..], b" refs/heads/m\n"].concat() } else { h.clone() });
    let r = open();
    match r.reference_database().reference(b"refs/heads/x").and_then(|f| f.peel(&r)) {
        Ok(ob) => {
            check(eq(&id_bytes(ob.id()), &id_of_hex(&h)), "a reference peels to another object than its id");
            match ob.data() {
                ObjectData::Blob(b) => check(eq(b.data(), &[x]), "a reference peels to another object than its id"),
                _ => check(false, "a reference peels to another object than its id"),
            }
        }
        Err(_) => check(false, "a reference with the id of an existing object cannot be peeled"),
    }
    cover("peeled");
}

// ---- C18: names ----------------------------------------------------------------------------------

/// a git directory with files of short names, and the same outside of it
fn short_names() {
    mkrepo();
    mkdir(b"b");
    mkdir(b".git/b");
    mkdir(b".git/b/b");
    for n in NAMES.iter() {
        put(&[b".git/", *n].concat(), &[b"ref: in-", *n].concat())
    }
    for n in [&b"a"[..], b"b/a", b"..a", b"config"].iter() {
        put(n, b"ref: outside")
    }
}
const NAMES: [&[u8]; 8] = [b"a", b".a", b"..a", b"a..", b"...", b"b/a", b"b/..a", b"b/b/a"];
fn parts(name: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    for j in 0..=name.len() {
        if j == name.len() || name[j] == b'/' {
            v.push(&name[i..j]);
            i = j + 1
        }
    }
    v
}
fn up(name: &[u8]) -> bool {
    parts(name).iter().any(|p| p.len() == 2 && eq(p, b".."))
}
fn look_name(r: &Repository, name: &[u8]) {
    let db = r.reference_database();
    let got = if choice(2) == 0 { db.reference(name) } else { db.parse_reference(name) };
    check(escapes() == 0, "looking up a reference opened a file outside of the git directory");
    if name.first() == Some(&b'/') || up(name) {
        check(got.is_err(), "a reference name that leaves the git directory was accepted");
        cover("leaves");
        return;
    }
    for n in NAMES.iter() {
        if eq(name, n) {
            match &got {
                Ok(f) => match f.target() {
                    ReferenceTarget::Symbolic(s) => check(eq(s.data(), &[b"in-", *n].concat()), "a reference name opened another file"),
                    _ => check(false, "a reference name opened another file"),
                },
                Err(_) => check(false, "an existing reference was not found by its name"),
            }
            cover("exact");
            return;
        }
    }
    cover("other");
}

/// any name of 0 to 6 (deep: 7) arbitrary bytes, with files of eight short names inside and others outside
pub fn names_any() {
    short_names();
    let r = open();
    jail(b".git");
    look_name(&r, &any(choice(by(7, 8))));
}

/// names of four parts out of eight kinds, separated by one or two slashes, absolute or not
pub fn names_parts() {
    short_names();
    let r = open();
    jail(b".git");
    let kinds: [&[u8]; 8] = [b"..", b".", b"b", b"a", b"...", b"", b"..a", b"refs"];
    let mut n = vec![];
    if choice(2) == 1 {
        n.extend_from_slice(&at(b"b"));
        n.push(b'/')
    }
    for i in 0..by(3, 4) {
        if i > 0 {
            n.push(b'/')
        }
        n.extend_from_slice(kinds[choice(8)])
    }
    look_name(&r, &n);
}

/// a good name with one arbitrary byte in place of any byte, or put in anywhere
pub fn names_damaged() {
    mkrepo();
    mkdir(b".git/refs/heads/d");
    put(b".git/refs/heads/d/x", b"ref: in");
    put(b"x", b"ref: outside");
    let good = b"refs/heads/d/x".to_vec();
    let mut n = good.clone();
    let i = choice(15);
    let b = any_u8();
    if choice(2) == 0 {
        n.insert(i, b)
    } else {
        assume(i < 14);
        n[i] = b
    }
    let r = open();
    jail(b".git");
    let got = r.reference_database().reference(&n);
    check(escapes() == 0, "looking up a reference opened a file outside of the git directory");
    if eq(&n, &good) {
        check(got.is_ok(), "an existing reference was not found by its name");
        cover("good")
    } else {
        // a doubled slash may be ignored
        check(got.is_err() || parts(&n).iter().any(|p| p.is_empty()), "a reference was found under another name");
        cover("other")
    }
}

/// a symbolic reference in HEAD or a branch to a name of up to 4 (deep: 5) arbitrary bytes, or of parts; followed
pub fn names_followed() {
    short_names();
    let n = if choice(2) == 0 {
        any(1 + choice(by(4, 5)))
    } else {
        let kinds: [&[u8]; 6] = [b"..", b".", b"b", b"a", b"", b"..a"];
        [kinds[choice(6)], b"/", kinds[choice(6)], b"/", kinds[choice(6)]].concat()
    };
    let form = choice(2);
    let head = choice(2) == 0;
    let file = if form == 0 { [b"ref: ", &n[..], b"\n"].concat() } else { [&b"ref: refs/heads/y"[..]].concat() };
    put(if head { b".git/HEAD" } else { b".git/refs/heads/x" }, &file);
    if form == 1 {
        put(b".git/refs/heads/y", &[b"ref: ", &n[..], b"\n"].concat());
    }
    let r = open();
    jail(b".git");
    let db = r.reference_database();
    if let Ok(f) = if head { db.head() } else { db.reference(b"refs/heads/x") } {
        check(f.peel(&r).is_err(), "a symbolic reference that leads to no object was peeled");
        cover("followed")
    }
    check(escapes() == 0, "following a reference opened a file outside of the git directory");
}

/// every name of a listing, and other spellings of ordinary names: unicode, spaces, backslashes, control characters, 200 bytes
pub fn names_ordinary() {
    mkrepo();
    let n: &[u8] = [&b"refs/heads/a b"[..], b"refs/heads/\xc3\xa9", b"refs/heads/\xff\xfe", b"refs/heads/a\\b", b"refs/heads/\x01", b"HEAD", b"ORIG_HEAD", b"refs/heads/...", b"refs/heads/a..b", b"refs/heads/-", b"refs/heads/C:x", b"refs/heads/~", b"refs/heads/$HOME"][choice(13)];
    let long = [&b"refs/heads/"[..], &[b'l'; 200]].concat();
    let n = if choice(2) == 0 { n } else { &long };
    let x = any_u8();
    assume(!space(x));
    put(&[b".git/", n].concat(), &[b"ref: t", &[x][..]].concat());
    let r = open();
    jail(b".git");
    match r.reference_database().reference(n) {
        Ok(f) => match f.target() {
            ReferenceTarget::Symbolic(s) => check(eq(s.data(), &[b't', x]), "a reference name opened another file"),
            _ => check(false, "a reference name opened another file"),
        },
        Err(_) => check(false, "an existing reference was not found by its name"),
    }
    check(escapes() == 0, "looking up a reference opened a file outside of the git directory");
    let mut other = n.to_vec();
    let k = other.len() - 1;
    other[k] ^= 0x01;
    assume(other[k] != b'/' && other[k] != 0);
    check(matches!(r.reference_database().reference(&other), Err(Error::ReferenceNotFound)), "a reference that does not exist was not reported as not found");
    cover("opened");
}

// ---- C19: peeling --------------------------------------------------------------------------------

const NODE: [&[u8]; 4] = [b"HEAD", b"refs/heads/a", b"refs/heads/b", b"refs/tags/c"];
const OBJ: [[u8; 20]; 2] = [[0x31; 20], [0x32; 20]];
const GONE: [u8; 20] = [0x39; 20];

/// where a node leads: another node, an object, or nowhere
#[derive(Clone, Copy)]
enum To {
    Node(usize),
    Peeled(usize),
    Obj(usize),
    Missing,
    Invalid,
    Absent,
    Dangling,
}
fn file(t: To) -> Option<Vec<u8>> {
    Some(match t {
        To::Node(k) => [b"ref: ", NODE[k], b"\n"].concat(),
        To::Peeled(k) => [&hex(&OBJ[k])[..], b" refs/heads/nowhere\n"].concat(),
        To::Obj(k) => [&hex(&OBJ[k])[..], b"\n"].concat(),
        To::Missing => [&hex(&GONE)[..], b"\n"].concat(),
        To::Invalid => b"zzz\n".to_vec(),
        To::Absent => return None,
        To::Dangling => b"ref: refs/heads/nowhere\n".to_vec(),
    })
}
fn follow(g: &[To], start: usize) -> Option<usize> {
    let mut k = start;
    for _ in 0..=g.len() {
        match g[k] {
            To::Node(n) => k = n,
            To::Peeled(o) | To::Obj(o) => return Some(o),
            _ => return None,
        }
    }
    None
}
fn judge_peel(r: &Repository, name: &[u8], want: Option<&[u8; 20]>) {
    let db = r.reference_database();
    let f = if eq(name, b"HEAD") { db.head() } else { db.reference(name) };
    match (f.and_then(|f| f.peel(r)), want) {
        (Ok(o), Some(id)) => {
            check(eq(&id_bytes(o.id()), id), "peeling a reference gave another object");
            cover("peeled")
        }
        (Ok(_), None) => check(false, "a reference that leads to no object was peeled"),
        (Err(_), Some(_)) => check(false, "a reference that leads to an object cannot be peeled"),
        (Err(_), None) => cover("error"),
    }
}

/// every graph of three (deep: four) references: each leads to any of them, to one of two objects (directly or with
/// a peeled id), to a missing object, to a missing reference, is malformed or absent; peeled from any one, then the next
pub fn peel_graphs() {
    mkrepo();
    for k in 0..2 {
        put_loose(&OBJ[k], b"blob", &[k as u8])
    }
    let n = by(3, 4);
    let mut g = vec![];
    for k in 0..n {
        let c = choice(n + 7);
        let t = if c < n {
            To::Node(c)
        } else {
            [To::Peeled(0), To::Peeled(1), To::Obj(0), To::Obj(1), To::Missing, To::Invalid, [To::Absent, To::Dangling][k & 1]][c - n]
        };
        if let Some(f) = file(t) {
            put(&[b".git/", NODE[k]].concat(), &f)
        }
        g.push(t)
    }
    let r = open();
    let s = choice(n);
    judge_peel(&r, NODE[s], follow(&g, s).map(|o| &OBJ[o]));
    let s = (s + 1) % n;
    judge_peel(&r, NODE[s], follow(&g, s).map(|o| &OBJ[o]));
}

/// chains of 1 to 12, 20, 33, 64, 100 and 200 (deep: 2000) symbolic references that end in an object, a missing object, a missing reference,
/// or lead back to their start, middle or last
pub fn peel_chains() {
    mkrepo();
    put_loose(&OBJ[0], b"blob", b"x");
    let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 33, 64, 100, 200, 2000][choice(by(17, 18))];
    let name = |k: usize| [&b"refs/heads/n"[..], &dec(k as u64)].concat();
    for k in 0..n {
        put(&[&b".git/"[..], &name(k)].concat(), &[&b"ref: "[..], &name(k + 1), b"\n"].concat())
    }
    let end = choice(7);
    let last = [&b".git/"[..], &name(n)].concat();
    match end {
        0 => put(&last, &hex(&OBJ[0])),
        1 => put(&last, &[&hex(&OBJ[0])[..], b" ", &name(0)].concat()),
        2 => put(&last, &hex(&GONE)),
        3 => (),
        4 => put(&last, &[b"ref: ", &name(0)[..]].concat()),
        5 => put(&last, &[b"ref: ", &name(n / 2)[..]].concat()),
        _ => put(&last, &[b"ref: ", &name(n)[..]].concat()),
    }
    let r = open();
    judge_peel(&r, &name(0), if end < 2 { Some(&OBJ[0]) } else { None });
    cover("ended");
}

/// the object may be of any kind, loose or packed, and malformed; a tag is returned itself
pub fn peel_kinds() {
    mkrepo();
    let kind = 1 + choice(4) as u8;
    let b: Vec<u8> = match kind {
        COMMIT => b"tree 0123456789abcdef0123456789abcdef01234567\nauthor A <a@b> 1 +0000\ncommitter C <c@d> 2 +0100\n\nm".to_vec(),
        TREE => [&b"100644 n\0"[..], &[0x99; 20]].concat(),
        TAG => [&b"object "[..], &hex(&OBJ[1]), b"\ntype blob\ntag v\n\nm"].concat(),
        _ => b"x".to_vec(),
    };
    put_loose(&OBJ[1], b"blob", b"target");
    let bad = choice(2) == 1 && kind != BLOB;
    let b = if bad { b[..3].to_vec() } else { b };
    if choice(2) == 0 {
        put_loose(&OBJ[0], KINDS[kind as usize], &b)
    } else {
        let mut p = Pack::new();
        p.whole(OBJ[0], kind, &b);
        p.store(b"p", 2)
    }
    put(b".git/HEAD", b"ref: refs/tags/t\n");
    put(b".git/refs/tags/t", &[&hex(&OBJ[0])[..], b"\n"].concat());
    let r = open();
    match r.reference_database().head().and_then(|f| f.target().peel(&r)) {
        Ok(o) => {
            check(!bad, "a malformed object was returned");
            check(eq(&id_bytes(o.id()), &OBJ[0]) && kind_of(o.data()) == kind, "peeling a reference gave another object");
            cover("peeled")
        }
        Err(_) => {
            check(bad, "a reference that leads to an object cannot be peeled");
            cover("error")
        }
    }
}

/// loops through other spellings of the names on them
pub fn peel_spellings() {
    mkrepo();
    let s: [&[u8]; 4] = [b"refs/heads/a", b"refs/heads/./a", b"./refs/heads/a", b"refs//heads/a"];
    put(b".git/refs/heads/a", &[b"ref: ", s[choice(4)], b"\n"].concat());
    put(b".git/HEAD", &[b"ref: ", s[choice(4)], b"\n"].concat());
    let r = open();
    judge_peel(&r, b"HEAD", None);
    cover("ended");
}

/// a reference is rewritten between two peelings: each gives what the files say at the time
pub fn peel_again() {
    mkrepo();
    for k in 0..2 {
        put_loose(&OBJ[k], b"blob", &[k as u8])
    }
    let r = open();
    put(b".git/HEAD", b"ref: refs/heads/a");
    for _ in 0..3 {
        let t = [To::Obj(0), To::Obj(1), To::Node(0), To::Missing, To::Dangling, To::Peeled(1)][choice(6)];
        put(b".git/refs/heads/a", &file(t).unwrap());
        judge_peel(&r, b"HEAD", match t {
            To::Obj(k) | To::Peeled(k) => Some(&OBJ[k]),
            _ => None,
        });
    }
    cover("three");
}

// ---- C20: listing --------------------------------------------------------------------------------

fn sorted(mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    v.sort();
    v
}
fn same(got: Result<Vec<Vec<u8>>, Error>, want: &[Vec<u8>]) {
    match got {
        Ok(v) => {
            let (a, b) = (sorted(v), sorted(want.to_vec()));
            check(a.len() == b.len(), "a listing has another number of names than there are files");
            for i in 0..a.len() {
                check(eq(&a[i], &b[i]), "a listing has another name than there are files")
            }
        }
        Err(_) => check(false, "listing references failed without any fault"),
    }
}
fn judge_listing(want: &[Vec<u8>]) {
    let r = open();
    let db = r.reference_database();
    let of = |p: &[u8]| want.iter().filter(|n| n.starts_with(p)).cloned().collect::<Vec<_>>();
    match choice(4) {
        0 => same(db.head_reference_names(), &of(b"refs/heads/")),
        1 => same(db.tag_reference_names(), &of(b"refs/tags/")),
        2 => same(db.remote_reference_names(), &of(b"refs/remotes/")),
        _ => {
            same(db.reference_names(), want);
            for n in want {
                check(db.read_reference_file(n).is_ok(), "a listed reference cannot be looked up");
                check(!matches!(db.reference(n), Err(Error::ReferenceNotFound)), "a listed reference cannot be looked up")
            }
        }
    }
    cover("listed");
}

/// any subset of eight files at depths one to four under the three folders, each folder absent, empty or there; listed in either
/// order; the files are symbolic references, empty, malformed, or hold an id; other files outside of the three folders
pub fn list_layouts() {
    let text: &[u8] = [&b"ref: t"[..], b"", b"x", HEXID][choice(4)];
    for d in [&b".git"[..], b".git/objects", b".git/refs"].iter() {
        mkdir(d)
    }
    put(b".git/HEAD", b"ref: refs/heads/a");
    put(b".git/refs-not", b"ref: x");
    let files: [&[u8]; 8] = [b"refs/heads/a", b"refs/heads/d/a", b"refs/heads/d/e/f/a", b"refs/heads/d/e/b", b"refs/tags/a", b"refs/tags/v/1.0", b"refs/remotes/origin/HEAD", b"refs/remotes/origin/d/a"];
    let mut want = vec![];
    for f in files.iter() {
        if choice(2) == 1 {
            for (i, c) in f.iter().enumerate() {
                if *c == b'/' {
                    let d = [b".git/", &f[..i]].concat();
                    if !exists(&d) {
                        mkdir(&d)
                    }
                }
            }
            put(&[b".git/", *f].concat(), text);
            want.push(f.to_vec())
        }
    }
    if choice(2) == 1 {
        for d in [&b".git/refs/heads"[..], b".git/refs/tags", b".git/refs/remotes", b".git/refs/heads/empty"].iter() {
            if !exists(d) {
                mkdir(d)
            }
        }
    }
    readdir_reversed(choice(2) == 1);
    judge_listing(&want);
}

/// two files whose names contain one arbitrary byte each (first, inside, last), in a folder that has one too
pub fn list_names() {
    mkrepo();
    let mut want = vec![];
    let x = any_u8();
    assume(x != 0 && x != b'/');
    let shape = choice(4);
    let n = match shape {
        0 => vec![x],
        1 => vec![b'm', x, b'n'],
        2 => vec![b'm', b'.', x],
        _ => vec![x, b'm'],
    };
    assume(!eq(&n, b"."));
    let under = choice(2) == 1;
    let d: Vec<u8> = if under { [&b"refs/tags/"[..], &n].concat() } else { b"refs/tags".to_vec() };
    if under {
        mkdir(&[b".git/", &d[..]].concat())
    }
    for k in [&n[..], b"plain"].iter() {
        let f = [&d[..], b"/", k].concat();
        put(&[b".git/", &f[..]].concat(), b"ref: t");
        want.push(f)
    }
    judge_listing(&want);
}

/// names that need care: backslashes, spaces, dots, colons, control characters, unicode and bytes that are not, 200 bytes,
/// names equal to the folders'
pub fn list_special() {
    mkrepo();
    let all: [&[u8]; 16] = [b"a\\b", b"a b", b".hidden", b"...", b"a.lock", b"c:", b"\x01\x7f", b"\xc3\xa9", b"\xff\xfe", b"refs", b"heads", b"HEAD", b"\\", b"*", b"e\xcc\x81", b"-"];
    let folder: &[u8] = [&b"refs/heads"[..], b"refs/tags", b"refs/remotes"][choice(3)];
    let (i, j) = (choice(16), choice(17));
    let mut want = vec![];
    let mut f = [folder, b"/"].concat();
    if j < 16 {
        f.extend_from_slice(all[j]);
        mkdir(&[b".git/", &f[..]].concat());
        f.push(b'/')
    }
    f.extend_from_slice(all[i]);
    put(&[b".git/", &f[..]].concat(), b"ref: t");
    want.push(f);
    judge_listing(&want);
}

/// 300 (deep: 2000) files in one folder and the same nested in folders of ten; 30 folders deep
pub fn list_many() {
    mkrepo();
    let mut want = vec![];
    match choice(3) {
        0 => {
            for k in 0..by(300, 2000) {
                want.push([&b"refs/tags/v"[..], &dec(k as u64)].concat())
            }
        }
        1 => {
            for k in 0..by(30, 200) {
                let d = [&b"refs/remotes/"[..], &dec(k as u64)].concat();
                mkdir(&[b".git/", &d[..]].concat());
                for j in 0..10 {
                    want.push([&d[..], b"/", &dec(j)].concat())
                }
            }
        }
        _ => {
            let mut d = b"refs/heads".to_vec();
            for _ in 0..30 {
                want.push([&d[..], b"/f"].concat());
                d.extend_from_slice(b"/d");
                mkdir(&[b".git/", &d[..]].concat());
            }
        }
    }
    for f in want.iter() {
        put(&[b".git/", &f[..]].concat(), b"ref: t")
    }
    judge_listing(&want);
}

/// one of the three folders, or `refs` itself, is not a folder: a file, a symbolic link to itself, to a file, to nothing, or to
/// another folder. What cannot be listed is an error, what does not exist contributes nothing
pub fn list_not_folders() {
    mkrepo();
    put(b".git/refs/heads/a", b"ref: t");
    put(b".git/refs/tags/b", b"ref: t");
    mkdir(b".git/other");
    put(b".git/other/x", b"ref: t");
    put(b".git/file", b"ref: t");
    let which = choice(4);
    let p: &[u8] = [&b".git/refs/heads"[..], b".git/refs/tags", b".git/refs/remotes", b".git/refs"][which];
    rename(p, b".git/saved");
    let kind = choice(5);
    match kind {
        0 => put(p, b"ref: t"),
        1 => symlink(p, p.rsplit(|c| *c == b'/').next().unwrap()),
        2 => symlink(p, [&b"../file"[..], b"file"][which / 3]),
        3 => symlink(p, b"nothing"),
        _ => symlink(p, [&b"../other"[..], b"saved"][which / 3]),
    }
    let r = open();
    let db = r.reference_database();
    let mut all = vec![];
    let mut broken = false;
    for k in 0..3 {
        let got = match k {
            0 => db.head_reference_names(),
            1 => db.tag_reference_names(),
            _ => db.remote_reference_names(),
        };
        let hit = which == k || which == 3;
        if hit && kind < 3 {
            broken = true;
            check(got.is_err(), "listing a folder that cannot be listed is not an error");
            continue;
        }
        let mut want: Vec<Vec<u8>> = vec![];
        if !hit || which == 3 && kind == 4 {
            want.extend([&b"refs/heads/a"[..], b"refs/tags/b", b""][k..k + 1].iter().filter(|n| n.len() > 0).map(|n| n.to_vec()))
        } else if kind == 4 {
            want.push([[&b"refs/heads"[..], b"refs/tags", b"refs/remotes"][k], b"/x"].concat())
        }
        same(got, &want);
        all.extend(want);
    }
    if broken {
        check(db.reference_names().is_err(), "listing all references is not an error although one folder cannot be listed")
    } else {
        same(db.reference_names(), &all)
    }
    cover("all");
}

/// an error anywhere while any of the four listings is made (opening a folder, reading its entries): all names or an error
pub fn list_faults() {
    mkrepo();
    mkdir(b".git/refs/heads/d");
    mkdir(b".git/refs/remotes/o");
    let all: [&[u8]; 6] = [b"refs/heads/a", b"refs/heads/d/b", b"refs/heads/z", b"refs/tags/t", b"refs/remotes/o/m", b"refs/remotes/x"];
    for n in all.iter() {
        put(&[b".git/", *n].concat(), b"ref: t")
    }
    readdir_reversed(choice(2) == 1);
    let r = open();
    let db = r.reference_database();
    faults(READ_ERR | OPEN_ERR, by(1, 2) as u32);
    let (got, n) = match choice(4) {
        0 => (db.head_reference_names(), 3),
        1 => (db.tag_reference_names(), 1),
        2 => (db.remote_reference_names(), 2),
        _ => (db.reference_names(), 6),
    };
    faults(0, 0);
    match got {
        Ok(v) => {
            check(v.len() == n, "an I/O error while listing was dropped");
            cover("all")
        }
        Err(_) => cover("error"),
    }
    same(db.reference_names(), &all.iter().map(|n| n.to_vec()).collect::<Vec<_>>());
}

/// files appear and disappear between listings: each listing gives the files there are
pub fn list_again() {
    mkrepo();
    let r = open();
    let db = r.reference_database();
    let names: [&[u8]; 3] = [b"refs/heads/a", b"refs/heads/d/b", b"refs/tags/c"];
    mkdir(b".git/refs/heads/d");
    for _ in 0..3 {
        let mut want = vec![];
        for n in names.iter() {
            let p = [b".git/", *n].concat();
            let on = choice(2) == 1;
            if on {
                put(&p, b"ref: t");
                want.push(n.to_vec())
            } else if exists(&p) {
                remove(&p)
            }
        }
        same(db.reference_names(), &want);
    }
    cover("three");
}

/// texts found in reference files and their neighbours (FETCH_HEAD, packed-refs, reflogs, CR LF, NUL, other spacings, names
/// with a meaning, the zero id, SHA-256 ids), with an arbitrary byte in front, behind or nowhere; by bytes, by reader and
/// from a file
pub fn parse_words() {
    const W: &[&[u8]] = &[
        b"ref: refs/heads/main\r\n", b"ref: refs/heads/main\0", b"ref: HEAD", b"ref: refs/heads/.invalid\n", b"ref: ../x\n", b"ref: /etc/x\n", b"ref: refs/heads/a b\n", b"ref: # x\n", b"ref: @\n", b"ref: ref: x\n", b"REF: x\n",
        b"ref : x\n", b"ref= x\n", b"ref\n", b"gitdir: ../x\n", b"\xef\xbb\xbfref: x\n",
        b"0000000000000000000000000000000000000000\n", b"ffffffffffffffffffffffffffffffffffffffff\n",
        b"0123456789012345678901234567890123456789\t\tbranch 'main' of x\n", b"0123456789012345678901234567890123456789\tnot-for-merge\tbranch 'b' of x\n",
        b"# pack-refs with: peeled fully-peeled sorted \n0123456789012345678901234567890123456789 refs/heads/main\n", b"^0123456789012345678901234567890123456789\n",
        b"0123456789012345678901234567890123456789 0123456789012345678901234567890123456788 A <a@b> 1 +0000\tcommit: x\n",
        b"0123456789012345678901234567890123456789\r\n", b"0123456789012345678901234567890123456789\0", b"0123456789012345678901234567890123456789\nref: x\n", b"ref: x\n0123456789012345678901234567890123456789\n",
        b"0123456789012345678901234567890123456789012345678901234567890123\n", b"012345678901234567890123456789012345678\n", b"01234567890123456789012345678901234567890\n", b"0x23456789012345678901234567890123456789\n",
        b"", b"\n\n", b"HEAD", b"refs/heads/main", b"garbage\n", b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\n",
    ];
    let mut b = W[choice(W.len())].to_vec();
    match choice(3) {
        0 => (),
        1 => b.push(any_u8()),
        _ => b.insert(0, any_u8()),
    }
    let want = reference(&b);
    match choice(3) {
        0 => judge(Reference::from_bytes(&b), &want),
        1 => judge(Reference::from_reader(&b[..]), &want),
        _ => {
            mkrepo();
            put(b".git/refs/heads/x", &b);
            let r = open();
            judge(r.reference_database().reference(b"refs/heads/x"), &want)
        }
    }
}

/// the names git uses for itself and those beside them, all present at once, each with its own content: every one opens
/// its own file, and without that file it is not found; shorter names are not completed
pub fn names_known() {
    mkrepo();
    let n: [&[u8]; 20] = [
        b"HEAD", b"FETCH_HEAD", b"ORIG_HEAD", b"MERGE_HEAD", b"CHERRY_PICK_HEAD", b"REBASE_HEAD", b"BISECT_HEAD", b"AUTO_MERGE", b"refs/stash", b"refs/notes/commits", b"refs/bisect/bad", b"refs/remotes/origin/HEAD", b"refs/remotes/origin/m",
        b"refs/heads/m", b"refs/tags/m", b"m", b"@", b"refs/m", b"head", b"packed-refs",
    ];
    for d in [&b".git/refs/notes"[..], b".git/refs/bisect", b".git/refs/remotes/origin"] {
        mkdir(d)
    }
    let i = choice(20);
    let x = any_u8();
    assume(!space(x));
    let there = choice(2) == 1;
    for (k, f) in n.iter().enumerate() {
        if k != i {
            put(&[b".git/", *f].concat(), &[b"ref: in-", *f].concat())
        } else if there {
            put(&[b".git/", *f].concat(), &[&b"ref: x"[..], &[x]].concat())
        }
    }
    let r = open();
    let got = if i == 0 && choice(2) == 1 { r.reference_database().head() } else { r.reference_database().reference(n[i]) };
    match got {
        Ok(f) => match f.target() {
            ReferenceTarget::Symbolic(s) => {
                check(there && eq(s.data(), &[b'x', x]), "a reference name opened another file");
                cover("found")
            }
            _ => check(false, "a reference name opened another file"),
        },
        Err(e) => {
            check(!there, "an existing reference was not found by its name");
            check(matches!(e, Error::ReferenceNotFound), "a reference that does not exist was not reported as not found");
            cover("not found")
        }
    }
}

/// lines that say nothing, 0 to 40 (deep: 3000) of them, in front of a reference or nothing: comments, empty, indented
pub fn parse_far() {
    const T: &[usize] = &[41, 60, 64, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 3000];
    let k = choice(by(34, 34 + T.len()));
    let n = if k < 32 { k } else if k == 32 { 40 } else if k == 33 { 600 } else { T[k - 34] };
    let shape = choice(4);
    let mut b = vec![];
    for i in 0..n {
        b.extend_from_slice([&b"# comment\n"[..], b"\n", b" ref: no\n", b"#\n"][if shape == 3 { i % 3 } else { shape }])
    }
    match choice(3) {
        0 => {
            b.extend_from_slice(b"ref: refs/heads/x");
            b.push(any_u8())
        }
        1 => b.extend_from_slice(HEXID),
        _ => b.push(any_u8()),
    }
    let want = reference(&b);
    match choice(2) {
        0 => judge(Reference::from_bytes(&b), &want),
        _ => judge(Reference::from_reader(&b[..]), &want),
    }
}

fn some_references(x: u8) {
    mkrepo();
    mkdir(b".git/refs/heads/d");
    mkdir(b".git/refs/remotes/o");
    put(b".git/HEAD", b"ref: refs/heads/d/b");
    put(b".git/refs/heads/a", HEXID);
    put(b".git/refs/heads/d/b", b"ref: refs/tags/t");
    put(b".git/refs/tags/t", &[b"ref: n"[..].to_vec(), vec![x]].concat());
    put(b".git/refs/remotes/o/m", HEXID);
}

/// in repositories in folders of 24 (deep: 31) names, opened by eight spellings of the path: all references are listed
pub fn list_places() {
    some_references(b'x');
    let (_, r) = moved();
    let db = r.reference_database();
    let all = [b"refs/heads/a".to_vec(), b"refs/heads/d/b".to_vec(), b"refs/tags/t".to_vec(), b"refs/remotes/o/m".to_vec()];
    same(db.head_reference_names(), &all[..2]);
    same(db.tag_reference_names(), &all[2..3]);
    same(db.remote_reference_names(), &all[3..]);
    same(db.reference_names(), &all);
    cover("listed");
}

/// in repositories in folders of 24 (deep: 31) names, opened by eight spellings of the path: names open their files and no others
pub fn names_places() {
    let x = any_u8();
    assume(!space(x));
    some_references(x);
    put(b"outside", b"ref: outside");
    let (place, r) = moved();
    let db = r.reference_database();
    let of = |n: &[u8]| match db.reference(n) {
        Ok(f) => match f.target() {
            ReferenceTarget::Symbolic(s) => Some(s.data().to_vec()),
            _ => Some(vec![]),
        },
        Err(_) => None,
    };
    let is = |n: &[u8], w: &[u8]| match of(n) {
        Some(t) => check(eq(&t, w), "a reference name opened another file"),
        None => check(false, "an existing reference was not found by its name"),
    };
    is(b"HEAD", b"refs/heads/d/b");
    is(b"refs/heads/d/b", b"refs/tags/t");
    is(b"refs/tags/t", &[b'n', x]);
    is(b"refs/heads/a", b"");
    for n in [&b"refs/heads/b"[..], b"heads/a", b"a", b"../outside", b"refs/../../outside", b"../.git/HEAD", &[b"/".to_vec(), place.clone(), b"/.git/HEAD".to_vec()].concat()[..], &[at(&place), b"/.git/HEAD".to_vec()].concat()[..], &[at(b"outside")].concat()[..]] {
        check(of(n).is_none(), "a name that is none of a reference opened a file")
    }
    match db.head() {
        Ok(f) => match f.target() {
            ReferenceTarget::Symbolic(s) => check(eq(s.data(), b"refs/heads/d/b"), "HEAD opened another file"),
            _ => check(false, "HEAD opened another file"),
        },
        Err(_) => check(false, "HEAD was not found"),
    }
    cover("found");
}
