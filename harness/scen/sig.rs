//! C07: identity lines
use super::commit::{same_sig, Sig};
use super::kit::*;
use super::rt::*;
use rusty_git::object::{ObjectData, Signature};

/// what git trims from the ends of names and e-mails
fn crud(c: u8) -> bool {
    c <= 32 || c == b'.' || c == b',' || c == b':' || c == b';' || c == b'<' || c == b'>' || c == b'"' || c == b'\\' || c == b'\''
}
/// `n` bytes that git would leave as they are in a name or an e-mail
fn part(n: usize) -> Vec<u8> {
    let v = any(n);
    for (i, c) in v.iter().enumerate() {
        assume(*c != b'<');
        assume(*c != b'>');
        assume(*c != b'\n');
        if i == 0 || i == n - 1 {
            assume(!crud(*c))
        }
    }
    v
}
/// a commit (author or committer) or a tag whose identity line is `line`
fn with_line(place: usize, line: &[u8]) -> ([u8; 20], usize) {
    mkrepo();
    let id = fake_id(0x5a, 0x5b);
    let other = b"O <o@o> 5 +0000";
    let t: &[u8] = b"0123456789012345678901234567890123456789";
    if place < 2 {
        let (a, c) = if place == 0 { (line, &other[..]) } else { (&other[..], line) };
        put_loose(&id, b"commit", &[b"tree ", t, b"\nauthor ", a, b"\ncommitter ", c, b"\n\nm"].concat())
    } else {
        put_loose(&id, b"tag", &[b"object ", t, b"\ntype blob\ntag t\ntagger ", line, b"\n\nm"].concat())
    }
    (id, place)
}
fn read<F: FnOnce(&Signature)>((id, place): ([u8; 20], usize), f: F) {
    let r = open();
    match look(&r, &id) {
        Got::Obj(ObjectData::Commit(c)) => f(&if place == 0 { c.author() } else { c.committer() }),
        Got::Obj(ObjectData::Tag(t)) => match t.tagger() {
            Some(s) => f(&s),
            None => check(false, "the tagger was lost"),
        },
        _ => check(false, "a well-formed identity was refused"),
    }
}
fn line(name: &[u8], email: &[u8], time: Option<&[u8]>, zone: Option<&[u8]>) -> Vec<u8> {
    let mut v = [name, b" <", email, b">"].concat();
    if let Some(t) = time {
        v.push(b' ');
        v.extend_from_slice(t);
        if let Some(z) = zone {
            v.push(b' ');
            v.extend_from_slice(z)
        }
    }
    v
}
fn exactly(place: usize, name: &[u8], email: &[u8], time: Option<&[u8]>, zone: Option<&[u8]>) {
    let zone = if time.is_some() { zone } else { None };
    read(with_line(place, &line(name, email, time, zone)), |s| same_sig(s, &Sig { name, email, time, zone }))
}

/// any name of up to 3 bytes (deep: 4) git would write: no angle bracket or newline, not starting or ending with
/// trimmed characters; as author, committer or tagger
pub fn name() {
    let place = choice(3);
    let n = part(choice(by(4, 5)));
    exactly(place, &n, b"a@b.c", Some(b"1596907199"), Some(b"+0100"));
    cover("read");
}

/// any e-mail of up to 3 bytes (deep: 4)
pub fn email() {
    let place = choice(3);
    let e = part(choice(by(4, 5)));
    exactly(place, b"A U Thor", &e, Some(b"1596907199"), Some(b"+0100"));
    cover("read");
}

/// any name and e-mail of 1 (deep: 2) bytes together, with date and zone, date only, or neither
pub fn both() {
    let n = part(by(1, 2));
    let e = part(1);
    let (t, z): (Option<&[u8]>, Option<&[u8]>) = [(Some(&b"7"[..]), Some(&b"-0730"[..])), (Some(b"1596907199"), None), (None, None)][choice(3)];
    exactly(0, &n, &e, t, z);
    cover("read");
}

/// longer parts with one arbitrary byte anywhere inside
pub fn inside() {
    let mut n = b"Jos\xe9 d'Arc, Jr 3rd".to_vec();
    let mut e = b"first.last+tag@h-1.example".to_vec();
    let b = any_u8();
    assume(b != b'<' && b != b'>' && b != b'\n');
    if choice(2) == 0 {
        let i = choice(n.len());
        assume((i > 0 && i + 1 < n.len()) || !crud(b));
        n[i] = b
    } else {
        let i = choice(e.len());
        assume((i > 0 && i + 1 < e.len()) || !crud(b));
        e[i] = b
    }
    exactly(choice(2) * 2, &n, &e, Some(b"1"), Some(b"+0000"));
    cover("read");
}

/// dates of 1 to 4, 10 to 12, 19 and 20 arbitrary digits; zones with either sign and 4 arbitrary digits
pub fn dates() {
    let digits = |n: usize| {
        let d = any(n);
        for c in d.iter() {
            assume(*c >= b'0' && *c <= b'9')
        }
        d
    };
    let t = digits([1, 2, 3, 4, 10, 11, 12, 19, 20][choice(9)]);
    let mut z = vec![[b'+', b'-'][choice(2)]];
    z.extend_from_slice(&digits(4));
    let k = choice(3);
    exactly(choice(3), b"N", b"e", if k < 2 { Some(&t) } else { None }, if k < 1 { Some(&z) } else { None });
    cover(["date and zone", "date", "neither"][k]);
}

/// lines that have no `<EMAIL>`: up to 2 bytes (deep: 4) without `<`, or without `>`, in front of, instead of and
/// behind the text of an ordinary line
pub fn no_email() {
    let x = any(choice(by(3, 5)));
    let no = [b'<', b'>'][choice(2)];
    for c in x.iter() {
        assume(*c != no);
        assume(*c != b'\n')
    }
    let rest: &[u8] = [&b""[..], b"A U Thor a@b 12 +0000", if no == b'<' { b" a@b> 12 +0000" } else { b" <a@b 12 +0000" }][choice(3)];
    let l = if choice(2) == 0 { [&x[..], rest].concat() } else { [rest, &x[..]].concat() };
    let (id, _) = with_line(choice(3), &l);
    let r = open();
    check(matches!(look(&r, &id), Got::Err), "an identity line without an e-mail part was accepted");
    cover("refused");
}

/// any line of up to 3 (deep: 5) bytes, or with any 2 (deep: 3) bytes in front of, inside or behind an ordinary text:
/// refused unless it has a `<` and a `>` behind it; if accepted, its parts can be asked for
pub fn any_line() {
    let x = any(choice(by(4, 6)));
    for c in x.iter() {
        assume(*c != b'\n')
    }
    let l = if choice(2) == 0 {
        x
    } else {
        assume(x.len() <= by(2, 3));
        let text = [&b"A >a@b< 12 +0000"[..], b"A U a@b> 1 <", b"A <a@b 12"][choice(3)];
        let at = choice(by(3, text.len() + 1));
        let at = if deep() { at } else { at * text.len() / 2 };
        [&text[..at], &x[..], &text[at..]].concat()
    };
    let mut open_at = false;
    let mut pair = false;
    for c in l.iter() {
        if *c == b'<' {
            open_at = true
        } else if *c == b'>' {
            pair |= open_at
        }
    }
    let place = choice(3);
    let (id, _) = with_line(place, &l);
    let r = open();
    let use_all = |s: &Signature| {
        check(pair, "an identity line without an e-mail part was accepted");
        let n = s.name().len() + s.email().len() + s.timestamp().map_or(0, |t| t.len()) + s.timezone().map_or(0, |t| t.len());
        check(n <= l.len(), "an identity line has more parts than bytes");
    };
    match look(&r, &id) {
        Got::Obj(ObjectData::Commit(c)) => use_all(&if place == 0 { c.author() } else { c.committer() }),
        Got::Obj(ObjectData::Tag(t)) => match t.tagger() {
            Some(s) => use_all(&s),
            None => check(false, "the tagger was lost"),
        },
        Got::Err => {
            if !pair {
                cover("refused")
            }
        }
        _ => check(false, "an identity line changed what the object is"),
    }
}

/// an ordinary line cut at every byte: accepted only with the closing bracket, and then with the parts it has
pub fn cut() {
    let full = b"Ann Author <ann@x.y> 1596907199 +0100";
    let n = choice(full.len() + 1);
    let (id, place) = with_line(choice(3), &full[..n]);
    if n < 20 {
        let r = open();
        check(matches!(look(&r, &id), Got::Err), "an identity line without an e-mail part was accepted");
        cover("refused");
    } else if n == 20 || n == 21 {
        read((id, place), |s| same_sig(s, &Sig { name: b"Ann Author", email: b"ann@x.y", time: None, zone: None }));
        cover("no date")
    } else if n <= 33 {
        let t = &full[21..n.min(31)];
        read((id, place), |s| same_sig(s, &Sig { name: b"Ann Author", email: b"ann@x.y", time: Some(t), zone: None }));
        cover("no zone")
    } else {
        let (t, z) = (&full[21..31], &full[32..n]);
        read((id, place), |s| same_sig(s, &Sig { name: b"Ann Author", email: b"ann@x.y", time: Some(t), zone: Some(z) }));
        cover("zone")
    }
}

/// names and e-mails of 100, 255 to 257, 1000 or 9000 bytes with one arbitrary byte at a fourth of their length
pub fn long() {
    let n = [100usize, 255, 256, 257, 1000, 9000][choice(6)];
    let mut p = vec![b'n'; n];
    p[n / 4] = any_u8();
    assume(p[n / 4] != b'<' && p[n / 4] != b'>' && p[n / 4] != b'\n');
    let place = choice(3);
    if choice(2) == 0 {
        exactly(place, &p, b"e@f", Some(b"1596907199"), Some(b"+0100"))
    } else {
        exactly(place, b"N", &p, Some(b"1596907199"), Some(b"+0100"))
    }
    cover("read");
}

/// names, e-mails, dates and zones seen in real histories, in all pairs of a name and an e-mail, with an arbitrary byte
/// inside the name; as author, committer or tagger in turn (deep: each)
pub fn words() {
    const N: &[&[u8]] = &[
        b"A", b"(no author)", b"dependabot[bot]", b"A \"Nick\" B", b"O'Neil", b"A, B", b"A. B. C", b"a@b.c", b"Jos\xc3\xa9", b"Jos\xe9", b"\xe5\x90\x8d", b"=?UTF-8?q?Jos=C3=A9?=", b"A  B", b"A\tB", b"A\0B", b"-", b"12 +0000", b"(x)", b"root", b"author A", b"tagger B", b"A\r B", b"1", b"A + B",
    ];
    const E: &[&[u8]] = &[
        b"a@b.c", b"a", b"", b"a b@c", b"a@b@c", b"(none)", b"1+x@users.noreply.github.com", b"root@h.(none)", b"a@b -0100 7", b"caf\xc3\xa9@x", b"\xe9@x", b"mailto:a@b", b"12 +0000",
    ];
    let (i, j) = (choice(N.len()), choice(E.len()));
    let place = if deep() { choice(3) } else { (i + j) % 3 };
    let mut n = N[i].to_vec();
    let e = E[j];
    if n.len() > 2 && choice(2) == 1 {
        let i = n.len() / 2;
        n[i] = any_u8();
        assume(n[i] != b'<' && n[i] != b'>' && n[i] != b'\n')
    }
    exactly(place, &n, e, Some(b"1596907199"), Some(b"+0100"));
    cover("read");
}

/// dates and zones seen in real histories and around the limits of integers
pub fn odd_dates() {
    const T: &[&[u8]] = &[b"0", b"00", b"007", b"1", b"999999999", b"1000000000", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999999"];
    const Z: &[&[u8]] = &[b"+0000", b"-0000", b"+1400", b"-1200", b"+1500", b"+9999", b"-9999", b"+0545", b"+0060", b"+00", b"-7", b"+051800", b"+123456789", b"+2147483648"];
    let (i, j) = (choice(T.len()), choice(Z.len() + 1));
    let place = if deep() { choice(3) } else { (i + j) % 3 };
    exactly(place, b"N", b"e@f", Some(T[i]), if j == Z.len() { None } else { Some(Z[j]) });
    cover("read");
}

/// dates of every number of digits from 1 to 26 (deep: 70), with an arbitrary first and last digit; zones of 1 to 12 digits
pub fn digit_counts() {
    let run = |n: usize| {
        let mut d: Vec<u8> = (0..n).map(|i| b'0' + (i * 7 % 10) as u8).collect();
        d[0] = any_u8();
        d[n - 1] = any_u8();
        assume(d[0] >= b'0' && d[0] <= b'9' && d[n - 1] >= b'0' && d[n - 1] <= b'9');
        d
    };
    let t = run(1 + choice(by(26, 70)));
    let z = match choice(3) {
        0 => None,
        1 => Some(b"-0330".to_vec()),
        _ => Some([&[[b'+', b'-'][choice(2)]][..], &run([4, 1, 2, 3, 5, 6, 9, 12][choice(8)])].concat()),
    };
    exactly(if deep() { choice(3) } else { t.len() % 3 }, b"N", b"e@f", Some(&t), z.as_deref());
    cover("read");
}
