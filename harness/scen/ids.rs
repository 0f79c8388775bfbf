//! C08: object ids
use super::kit::*;
use super::rt::*;
use rusty_git::object::{Id, ParseIdError, ShortId};
use std::cmp::Ordering;
use std::str::FromStr;

fn nibble(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
/// the bytes that hex text spells
fn spelled(h: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    for c in h.chunks(2) {
        let (a, b) = (nibble(c[0])?, nibble(c[1])?);
        v.push(a << 4 | b)
    }
    Some(v)
}
const TEXT: &[u8] = b"0123456789abcdefABCDEF99887766554433221100ffee";

fn id_of(v: &[u8]) -> Id {
    Id::from_bytes(v)
}
fn full_against_reference(h: &[u8]) {
    let want = if h.len() == 40 { spelled(h) } else { None };
    match (Id::from_hex(h), &want) {
        (Ok(id), Some(w)) => {
            check(id == id_of(w), "parsing hex gave other bytes than it spells");
            let back = id.to_hex();
            check(back.len() == 40, "an id was not printed as 40 digits");
            check(eq(&unhex(back.as_bytes()), w), "an id was printed as another id");
            cover("parsed");
        }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "text that is not 40 hex digits was accepted as an id"),
        (Err(_), Some(_)) => check(false, "40 hex digits were refused"),
    }
}

/// any id: to hex (text form, Display, Debug) and back
pub fn there_and_back() {
    // nibbles of every value at three places; the others concrete
    let mut b = [0u8; 20];
    for i in 0..20 {
        b[i] = (i * 29 + 7) as u8
    }
    for i in [0usize, 9, 19].iter() {
        b[*i] = any_u8()
    }
    let id = id_of(&b);
    let h = id.to_hex();
    check(h.len() == 40, "an id was not printed as 40 digits");
    for (i, c) in h.bytes().enumerate() {
        let n = if i % 2 == 0 { b[i / 2] >> 4 } else { b[i / 2] & 15 };
        check(c == if n < 10 { b'0' + n } else { b'a' + n - 10 }, "an id is not printed as its lower-case hex digits")
    }
    match Id::from_hex(h.as_bytes()) {
        Ok(x) => check(x == id, "an id did not survive being printed and parsed"),
        Err(_) => check(false, "a printed id was refused"),
    }
    let s = ShortId::from(id);
    check(s.to_hex() == h, "the abbreviated form of a full id prints differently");
    match ShortId::from_hex(h.as_bytes()) {
        Ok(x) => check(x == s, "an abbreviated id did not survive being printed and parsed"),
        Err(_) => check(false, "a printed id was refused"),
    }
    cover("back");
}

/// the string forms: Display, Debug and FromStr agree with the hex forms
pub fn strings() {
    let mut b = [0xabu8; 20];
    b[choice(20)] = [0u8, 1, 0x0f, 0x10, 0x9a, 0xff][choice(6)];
    let id = id_of(&b);
    let s = ShortId::from(id);
    let h = id.to_hex();
    check(eq(h.as_bytes(), &hex(&b)), "an id is not printed as its lower-case hex digits");
    check(format!("{}", id) == h && format!("{:?}", id) == h, "an id prints differently in its string forms");
    check(format!("{}", s) == h && format!("{:?}", s) == h, "an abbreviated id prints differently in its string forms");
    check(Id::from_str(&h).ok() == Some(id), "an id did not survive being printed and parsed");
    check(ShortId::from_str(&h).ok() == Some(s), "an abbreviated id did not survive being printed and parsed");
    cover("back");
}

/// 40 characters of which any two (deep: three) are arbitrary bytes
pub fn parse_full() {
    let mut h = TEXT[..40].to_vec();
    let i = choice(40);
    h[i] = any_u8();
    let j = [0, 1, 20, 38, 39][choice(5)];
    h[j] = any_u8();
    if deep() {
        let k = choice(40);
        h[k] = any_u8()
    }
    full_against_reference(&h);
}

/// every length from 0 to 46, concrete digits
pub fn lengths() {
    let n = choice(47);
    let h = &TEXT[..n];
    full_against_reference(h);
    match ShortId::from_hex(h) {
        Ok(s) => {
            check(n >= 4 && n <= 40 && n % 2 == 0, "an abbreviated id of a wrong length was accepted");
            check(eq(s.to_hex().as_bytes(), &hex(&spelled(h).unwrap())), "an abbreviated id prints other digits than it was parsed from");
            cover("short");
        }
        Err(e) => {
            check(n < 4 || n > 40 || n % 2 != 0, "an abbreviated id was refused");
            match e {
                ParseIdError::TooShort => check(n < 4, "an abbreviated id was called too short"),
                ParseIdError::TooLong => check(n > 40, "an abbreviated id was called too long"),
                _ => check(n % 2 == 1, "an abbreviated id was refused"),
            }
            cover("refused short");
        }
    }
}

/// abbreviated ids of 4 to 40 characters of which one (deep: two) is an arbitrary byte; short ones wholly arbitrary
pub fn parse_short() {
    let n = 4 + choice(37);
    let mut h = TEXT[..n].to_vec();
    if n == 4 {
        h = any(4)
    } else {
        let i = choice(n);
        h[i] = any_u8();
        if deep() {
            let j = choice(n);
            h[j] = any_u8()
        }
    }
    let want = if n % 2 == 0 { spelled(&h) } else { None };
    match (ShortId::from_hex(&h), want) {
        (Ok(s), Some(w)) => {
            check(eq(&unhex(s.to_hex().as_bytes()), &w), "parsing an abbreviated id gave other bytes than it spells");
            cover("parsed");
        }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => check(false, "text that is not an even number of hex digits was accepted as an abbreviated id"),
        (Err(_), Some(_)) => check(false, "a well-formed abbreviated id was refused"),
    }
}
fn ordering(a: &[u8], b: &[u8]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

/// two ids with arbitrary bytes at two common positions each: order, equality and hashing follow the bytes
pub fn order() {
    let (mut a, mut b) = ([0x55u8; 20], [0x55u8; 20]);
    let (i, j) = (choice(20), [0, 10, 19][choice(3)]);
    a[i] = any_u8();
    b[i] = any_u8();
    a[j] = any_u8();
    b[j] = any_u8();
    let (x, y) = (id_of(&a), id_of(&b));
    let w = ordering(&a, &b);
    check(x.cmp(&y) == w, "ids are not ordered as their bytes");
    check(x.partial_cmp(&y) == Some(w), "ids are not ordered as their bytes");
    check((x == y) == (w == Ordering::Equal), "equality of ids is not equality of their bytes");
    cover("compared");
}

/// an abbreviated id of every length, one byte of it taking values at and around the bounds (deep: every value),
/// against a full id with arbitrary bytes there, at the end of the prefix and right behind it
pub fn prefix() {
    let n = 2 + choice(19);
    let mut a = [0x77u8; 20];
    let mut p = [0x77u8; 20];
    let i = choice(n);
    a[i] = any_u8();
    p[i] = if deep() { choice(256) as u8 } else { [0u8, 0x76, 0x77, 0x7f, 0x80, 0xff][choice(6)] };
    a[n - 1] = any_u8();
    if n < 20 {
        a[n] = any_u8()
    }
    let full = id_of(&a);
    let h = hex(&p[..n]);
    let s = match ShortId::from_hex(&h) {
        Ok(s) => s,
        Err(_) => {
            check(false, "a well-formed abbreviated id was refused");
            return;
        }
    };
    let w = ordering(&p[..n], &a);
    check(s.cmp_id(&full) == w, "an abbreviated id does not compare with a full id as its bytes do");
    check(full.cmp_short(&s) == w.reverse(), "a full id does not compare with an abbreviated id as its bytes do");
    if n == 20 {
        check((ShortId::from(full) == s) == (w == Ordering::Equal), "equality of ids is not equality of their bytes")
    }
    cover("compared");
}

/// id of content: from_hash is the SHA-1
pub fn hashes() {
    let k = choice(6);
    let b: &[u8] = [&b""[..], b"blob 0\0", b"abc", b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", b"The quick brown fox jumps over the lazy dog", b"a"][k];
    let w: &[u8] = [
        &b"da39a3ee5e6b4b0d3255bfef95601890afd80709"[..],
        b"e69de29bb2d1d6434b8b29ae775ad8c2e48c5391",
        b"a9993e364706816aba3e25717850c26c9cd0d89d",
        b"84983e441c3bd26ebaae4aa1f95129e5e54670f1",
        b"2fd4e1c67a2d28fced849ee1bb76e7391b93eb12",
        b"86f7e437faa5a7fce15d1ddcb9eaeaea377667b8",
    ][k];
    check(eq(Id::from_hash(b).to_hex().as_bytes(), w), "the id of a content is not its SHA-1");
    cover("hashed");
}
