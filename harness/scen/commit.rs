//! C05: commit objects
use super::kit::*;
use super::rt::*;
use rusty_git::object::{Commit, ObjectData, Signature};
use rusty_git::repository::Repository;

/// What a commit's bytes say, by an independent reading. Positions into the bytes.
pub struct Fields {
    pub tree: Vec<u8>,
    pub parents: Vec<Vec<u8>>,
    pub author: (usize, usize),
    pub committer: (usize, usize),
    pub encoding: Option<(usize, usize)>,
    pub message: usize,
}
pub fn line_end(b: &[u8], from: usize) -> Option<usize> {
    (from..b.len()).find(|i| b[*i] == b'\n')
}
pub fn starts(b: &[u8], at: usize, p: &[u8]) -> bool {
    b.len() >= at + p.len() && eq(&b[at..at + p.len()], p)
}
fn nibble(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
/// 40 hex digits and a newline at `at`: the id and the position behind
pub fn hex_line(b: &[u8], at: usize) -> Option<(Vec<u8>, usize)> {
    if b.len() < at + 41 || b[at + 40] != b'\n' {
        return None;
    }
    let mut id = vec![];
    for i in 0..20 {
        id.push(nibble(b[at + 2 * i])? << 4 | nibble(b[at + 2 * i + 1])?)
    }
    Some((id, at + 41))
}
pub fn reference(b: &[u8]) -> Option<Fields> {
    if !starts(b, 0, b"tree ") {
        return None;
    }
    let (tree, mut i) = hex_line(b, 5)?;
    let mut parents = vec![];
    while starts(b, i, b"parent ") {
        let (p, j) = hex_line(b, i + 7)?;
        parents.push(p);
        i = j
    }
    if !starts(b, i, b"author ") {
        return None;
    }
    let author = (i + 7, line_end(b, i)?);
    i = author.1 + 1;
    if !starts(b, i, b"committer ") {
        return None;
    }
    let committer = (i + 10, line_end(b, i)?);
    i = committer.1 + 1;
    let mut encoding = None;
    loop {
        if i < b.len() && b[i] == b'\n' {
            return Some(Fields { tree, parents, author, committer, encoding, message: i + 1 });
        }
        let e = line_end(b, i)?;
        if starts(b, i, b"encoding ") {
            encoding = Some((i + 9, e))
        }
        i = e + 1
    }
}
pub struct Sig<'a> {
    pub name: &'a [u8],
    pub email: &'a [u8],
    pub time: Option<&'a [u8]>,
    pub zone: Option<&'a [u8]>,
}
pub fn same_sig(s: &Signature, w: &Sig) {
    check(eq(s.name(), w.name), "an identity has another name than recorded");
    check(eq(s.email(), w.email), "an identity has another e-mail than recorded");
    match (s.timestamp(), w.time) {
        (Some(a), Some(b)) => check(eq(a, b), "an identity has another time than recorded"),
        (None, None) => (),
        _ => check(false, "the time of an identity was lost or invented"),
    }
    match (s.timezone(), w.zone) {
        (Some(a), Some(b)) => check(eq(a, b), "an identity has another zone than recorded"),
        (None, None) => (),
        _ => check(false, "the zone of an identity was lost or invented"),
    }
}
fn store(body: &[u8]) -> ([u8; 20], Repository) {
    mkrepo();
    let id = fake_id(0x31, 0x09);
    put_loose(&id, b"commit", body);
    (id, open())
}
fn same(c: &Commit, b: &[u8], f: &Fields) {
    check(eq(&id_bytes(&c.tree()), &f.tree), "the tree id is not the recorded one");
    check(c.parents().len() == f.parents.len(), "the number of parents is not the recorded one");
    for (p, w) in c.parents().zip(f.parents.iter()) {
        check(eq(&id_bytes(&p), w), "a parent id is not the recorded one")
    }
    match (c.encoding(), f.encoding) {
        (None, None) => (),
        (Some(e), Some((x, y))) => check(eq(e, &b[x..y]), "the encoding is not the recorded one"),
        _ => check(false, "the encoding was lost or invented"),
    }
    check(eq(c.message(), &b[f.message..]), "the message is not the recorded one");
}
const AUTHOR: &[u8] = b"Ann Author <ann@example.org> 1596907199 +0100";
const COMMITTER: &[u8] = b"Cy <c@d.e> 1700000001 -0730";
fn idents(c: &Commit) {
    same_sig(&c.author(), &Sig { name: b"Ann Author", email: b"ann@example.org", time: Some(b"1596907199"), zone: Some(b"+0100") });
    same_sig(&c.committer(), &Sig { name: b"Cy", email: b"c@d.e", time: Some(b"1700000001"), zone: Some(b"-0730") });
}
/// the two identities are those of the fixture
fn plain(b: &[u8], f: &Fields) -> bool {
    eq(&b[f.author.0..f.author.1], AUTHOR) && eq(&b[f.committer.0..f.committer.1], COMMITTER)
}
fn against_reference(body: &[u8]) {
    let (id, r) = store(body);
    match look(&r, &id) {
        Got::Obj(ObjectData::Commit(c)) => match reference(body) {
            Some(f) => {
                same(&c, body, &f);
                if plain(body, &f) {
                    idents(&c)
                }
                cover("commit")
            }
            None => check(false, "a malformed commit was accepted"),
        },
        Got::Obj(_) => check(false, "a commit was returned as an object of another type"),
        Got::NotFound => check(false, "an existing commit was reported as not found"),
        Got::Err => match reference(body) {
            Some(f) => check(!plain(body, &f), "a well-formed commit was refused"),
            None => cover("refused"),
        },
    }
}
const TREE_HEX: &[u8] = b"0123456789abcdefABCDEF0000000000000000ff";
const PARENT_HEX: &[u8] = b"ffeeddccbbaa99887766554433221100deadbeef";

fn text(parents: usize, extra: &[u8], message: &[u8]) -> Vec<u8> {
    let mut v = [b"tree ", TREE_HEX, b"\n"].concat();
    for i in 0..parents {
        let mut h = PARENT_HEX.to_vec();
        h[3] = b"0123456789abcdef"[i % 16];
        h[38] = b"0123456789abcdef"[i / 16 % 16];
        v.extend_from_slice(&[b"parent ", &h[..], b"\n"].concat())
    }
    v.extend_from_slice(&[b"author ", AUTHOR, b"\ncommitter ", COMMITTER, b"\n", extra, b"\n", message].concat());
    v
}
const EXTRA: &[&[u8]] = &[
    b"",
    b"encoding ISO-8859-1\n",
    b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEzBAABCAAdFiEE\n =abcd\n -----END PGP SIGNATURE-----\n",
    b"encoding latin1\ngpgsig a\n encoding no\n b\nHG:extra x\n",
    b"mergetag object 0123456789012345678901234567890123456789\n type commit\n tag v1\n tagger A <a@b> 1 +0000\n \n parent x\n",
    b"encoding \n",
    b"author-note x\nencodingx y\nencoding\n",
];

/// 0 to 3 (deep: 33) parents, six sets of other header lines, a message of up to 3 arbitrary bytes
pub fn fields() {
    let p = if deep() { [0, 1, 2, 3, 5, 16, 33][choice(7)] } else { choice(4) };
    let m = any(choice(by(3, 4)));
    let b = text(p, EXTRA[choice(EXTRA.len())], &m);
    let (id, r) = store(&b);
    match look(&r, &id) {
        Got::Obj(ObjectData::Commit(c)) => {
            let f = reference(&b).unwrap();
            check(f.parents.len() == p, "fixture");
            same(&c, &b, &f);
            idents(&c);
            let d = c.clone();
            check(eq(d.message(), &m), "the message is not the recorded one");
            cover("commit");
        }
        _ => check(false, "a well-formed commit was refused"),
    }
}

/// one arbitrary byte at every position of a commit with a parent and other headers (in an identity: any byte but a
/// newline; its parts are C07's)
pub fn one_byte() {
    let mut b = text(1, EXTRA[3], b"\nmsg\n");
    let i = choice(b.len());
    b[i] = any_u8();
    against_reference(&b);
}

/// deep only beyond the first: two arbitrary bytes at neighbouring positions of the header lines
pub fn two_bytes() {
    let mut b = text(1, b"encoding x\n", b"m");
    let step = by(7, 1);
    let i = choice(b.len() / step) * step;
    let j = (i + 1).min(b.len() - 1);
    b[i] = any_u8();
    b[j] = any_u8();
    against_reference(&b);
}

/// cut anywhere, with one arbitrary byte (deep: two) behind the cut
pub fn cut() {
    let full = text(2, EXTRA[1], b"message\n");
    let n = choice(full.len() + 1);
    let mut b = full[..n].to_vec();
    b.extend_from_slice(&any(choice(by(2, 3))));
    against_reference(&b);
}

/// any line left out, doubled, or exchanged with the next
pub fn lines() {
    let full = text(2, b"encoding x\nother y\n", b"m1\n\nm2\n");
    let mut ls: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < full.len() {
        let e = line_end(&full, i).unwrap();
        ls.push(full[i..e + 1].to_vec());
        i = e + 1
    }
    let k = choice(ls.len() - 1);
    match choice(3) {
        0 => {
            ls.remove(k);
        }
        1 => ls.swap(k, k + 1),
        _ => {
            let l = ls[k].clone();
            // a second author line is not git's format; what it means is left open
            assume(!l.starts_with(b"author "));
            ls.insert(k, l)
        }
    }
    against_reference(&ls.concat());
}

/// any other header line of up to 4 (deep: 6) bytes, and any encoding of up to 3
pub fn other_headers() {
    let mut x = vec![];
    if choice(2) == 0 {
        x.extend_from_slice(&any(choice(by(5, 7))));
    } else {
        x.extend_from_slice(b"encoding ");
        x.extend_from_slice(&any(choice(by(4, 5))));
    }
    x.push(b'\n');
    against_reference(&text(1, &x, b"msg"));
}

/// hex digits: two arbitrary bytes in the tree and a parent id
pub fn ids() {
    let mut b = text(1, b"", b"m");
    let (i, j) = (5 + [0, 1, 20, 39][choice(4)], 46 + 7 + [0, 7, 38, 39][choice(4)]);
    b[i] = any_u8();
    b[j] = any_u8();
    against_reference(&b);
}

/// long messages and many parents: sizes around the buffers
pub fn big() {
    let n = [100usize, 4096, 8192, 70000][choice(by(3, 4))];
    let m = super::loose::big(n, 9);
    let b = text([0, 40][choice(2)], EXTRA[2], &m);
    against_reference(&b);
}

/// texts that mean something to git or to editors (signatures, trailers, header lines, other objects' bytes, byte order
/// marks, NUL, CR LF ...), with an arbitrary byte in front or behind, as the message, with any other header lines; and those
/// of one line as an encoding or another header line
pub fn words() {
    let w = word();
    match choice(2) {
        0 => against_reference(&text(choice(2), EXTRA[[2, 0, 1, 4][choice(by(2, 4))]], &w)),
        _ => {
            for c in w.iter() {
                assume(*c != b'\n')
            }
            let head: &[u8] = [&b"encoding "[..], b"note ", b"gpgsig "][choice(3)];
            against_reference(&text(1, &[head, &w[..], b"\n"].concat(), b"m"))
        }
    }
}

/// headers of about 2^16 bytes (deep: and 150 000) in front of what follows them: many parents, a long signature, a long
/// encoding, a long header line; an arbitrary byte in the message
pub fn far() {
    let n = [65_300usize, 65_534, 65_535, 65_536, 65_537, 66_000, 150_000][choice(by(6, 7))];
    let m = [b'm', any_u8(), b'\n'];
    let b = match choice(4) {
        0 => text(n / 48, EXTRA[choice(2)], &m),
        k => {
            let len = n - text(1, b"", b"").len();
            let mut x = match k {
                1 => b"encoding ".to_vec(),
                2 => b"note ".to_vec(),
                _ => b"gpgsig x\n".to_vec(),
            };
            while x.len() < len - 1 {
                x.extend_from_slice(if k == 3 { b" 0123456789012345678901234567890123456789012345678901234567890123\n" } else { b"0123456789" })
            }
            x.truncate(len - 2);
            x.extend_from_slice(b"=\n");
            text(1, &x, &m)
        }
    };
    against_reference(&b);
}
