//! C04: tree objects
use super::kit::*;
use super::rt::*;
use rusty_git::object::{ObjectData, Tree};

/// (mode, name, id) of each entry
pub type Entries = Vec<(u16, Vec<u8>, Vec<u8>)>;

/// Independent reading of a tree body. Err: not a tree. Ok(_, strange): well-formed; `strange` if a mode has
/// leading zeros, which git never writes.
fn reference(b: &[u8]) -> Result<(Entries, bool), ()> {
    let mut out = vec![];
    let mut strange = false;
    let mut i = 0;
    while i < b.len() {
        let mut mode = 0u32;
        let start = i;
        loop {
            if i == b.len() {
                return Err(());
            }
            let c = b[i];
            i += 1;
            if c == b' ' {
                break;
            }
            if c < b'0' || c > b'7' {
                return Err(());
            }
            mode = mode * 8 + (c - b'0') as u32;
            if mode > 0xffff {
                return Err(());
            }
        }
        if i - start == 1 {
            return Err(());
        }
        if i - start > 2 && b[start] == b'0' {
            strange = true
        }
        let name = i;
        loop {
            if i == b.len() {
                return Err(());
            }
            if b[i] == 0 {
                break;
            }
            i += 1;
        }
        if b.len() - (i + 1) < 20 {
            return Err(());
        }
        out.push((mode as u16, b[name..i].to_vec(), b[i + 1..i + 21].to_vec()));
        i += 21;
    }
    Ok((out, strange))
}
fn same(t: &Tree, want: &Entries) {
    check(t.entries().len() == want.len(), "the tree has a different number of entries than its data");
    let mut n = 0;
    for (e, (mode, name, id)) in t.entries().zip(want.iter()) {
        check(e.mode() == *mode, "a tree entry has another mode than recorded");
        check(eq(e.filename(), name), "a tree entry has another name than recorded");
        check(eq(&id_bytes(&e.id()), id), "a tree entry has another id than recorded");
        n += 1;
    }
    check(n == want.len(), "the tree yields fewer entries than it claims");
}
fn store(body: &[u8]) -> ([u8; 20], rusty_git::repository::Repository) {
    mkrepo();
    let id = fake_id(0x77, 0x01);
    put_loose(&id, b"tree", body);
    (id, open())
}
fn against_reference(body: &[u8]) {
    let (id, r) = store(body);
    match look(&r, &id) {
        Got::Obj(ObjectData::Tree(t)) => match reference(body) {
            Ok((w, _)) => {
                same(&t, &w);
                cover("tree")
            }
            Err(()) => check(false, "a malformed tree was accepted"),
        },
        Got::Obj(_) => check(false, "a tree was returned as an object of another type"),
        Got::NotFound => check(false, "an existing tree was reported as not found"),
        Got::Err => match reference(body) {
            Ok((_, strange)) => check(strange, "a well-formed tree was refused"),
            Err(()) => cover("refused"),
        },
    }
}

/// 0 to 6 (deep: 8) arbitrary bytes followed by 20 concrete ones, or by an id and a second entry
pub fn raw() {
    let n = choice(by(7, 9));
    let mut b = any(n);
    if choice(2) == 0 {
        b.extend_from_slice(b"abcdefghijklmnopqrst");
    } else {
        b.extend_from_slice(b"\0 0\x001 x\0bcdefghijkl");
        b.extend_from_slice(b"7 y\0ABCDEFGHIJKLMNOPQRST");
    }
    against_reference(&b);
}

/// one entry: any name of up to 3 bytes, any id; second entry behind it
pub fn name_and_id() {
    let name = any(choice(by(4, 5)));
    let id = any(20);
    let mut b = b"100644 ".to_vec();
    b.extend_from_slice(&name);
    b.push(0);
    b.extend_from_slice(&id);
    let first = b.len();
    b.extend_from_slice(b"40000 dir\0ABCDEFGHIJKLMNOPQRST");
    for i in 0..name.len() {
        assume(name[i] != 0)
    }
    let (tid, r) = store(&b);
    match look(&r, &tid) {
        Got::Obj(ObjectData::Tree(t)) => {
            same(&t, &vec![(0o100644, name, b[first - 20..first].to_vec()), (0o40000, b"dir".to_vec(), b"ABCDEFGHIJKLMNOPQRST".to_vec())]);
            cover("tree");
        }
        _ => check(false, "a well-formed tree was refused"),
    }
}

/// modes of 1 to 7 digits: all those git writes, the 16-bit limit and one past it, with any byte at any place
pub fn modes() {
    const M: &[&[u8]] = &[b"40000", b"040000", b"100644", b"100755", b"120000", b"160000", b"100664", b"0", b"7", b"177777", b"200000", b"777777", b"1000000", b"1100644", b"4000000000"];
    let mut m = M[choice(M.len())].to_vec();
    let i = choice(m.len() + 1);
    if i < m.len() {
        m[i] = any_u8()
    }
    m.extend_from_slice(b" a\0ABCDEFGHIJKLMNOPQRST");
    against_reference(&m);
}

/// every mode that fits 16 bits, as six (deep: any number up to six) symbolic octal digits
pub fn mode_values() {
    let n = if deep() { 1 + choice(6) } else { 6 };
    let d = any(n);
    let mut v = 0u32;
    for i in 0..n {
        assume(d[i] >= b'0' && d[i] <= b'7');
        v = v << 3 | (d[i] - b'0') as u32
    }
    let mut b = d.clone();
    b.extend_from_slice(b" a\0ABCDEFGHIJKLMNOPQRST");
    let (id, r) = store(&b);
    match look(&r, &id) {
        Got::Obj(ObjectData::Tree(t)) => {
            check(t.entries().len() == 1, "the tree has a different number of entries than its data");
            check(t.entries().next().unwrap().mode() as u32 == v, "a tree entry has another mode than recorded");
            cover("mode");
        }
        _ => {
            check(v > 0xffff || d[0] == b'0' && n > 1, "a well-formed tree was refused");
            cover("too wide");
        }
    }
}

/// 0 to 300 (deep: 2000) entries with names of many lengths, one name byte and one id byte symbolic
pub fn many() {
    const Q: &[usize] = &[0, 1, 2, 3, 10, 139, 300];
    const T: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 10, 33, 139, 140, 141, 300, 1000, 2000];
    let n = if deep() { T[choice(T.len())] } else { Q[choice(Q.len())] };
    let mut want: Entries = vec![];
    let mut b = vec![];
    for i in 0..n {
        let mut name = dec(i as u64 * 7919);
        while name.len() < [1, 5, 30, 255, 4][i % 5] {
            name.push(b'a' + (i % 26) as u8)
        }
        let mut id = vec![(i * 37) as u8; 20];
        id[3] = i as u8;
        if i == n / 2 {
            name[0] = any_u8();
            assume(name[0] != 0);
            id[19] = any_u8();
        }
        let mode = [0o100644, 0o40000, 0o120000, 0o160000, 0o100755][i % 5];
        b.extend_from_slice([&b"100644"[..], b"40000", b"120000", b"160000", b"100755"][i % 5]);
        b.push(b' ');
        b.extend_from_slice(&name);
        b.push(0);
        b.extend_from_slice(&id);
        want.push((mode, name, id));
    }
    let (id, r) = store(&b);
    match look(&r, &id) {
        Got::Obj(ObjectData::Tree(t)) => {
            same(&t, &want);
            let c = t.clone();
            same(&c, &want);
            cover("tree");
        }
        _ => check(false, "a well-formed tree was refused"),
    }
}

/// three entries, cut anywhere, with 0 to 2 arbitrary bytes after the cut
pub fn cut() {
    let full = b"100644 a\0ABCDEFGHIJKLMNOPQRST40000 dir\0abcdefghij\0 lmnopqrst120000 l\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
    let mut b = full[..choice(full.len() + 1)].to_vec();
    b.extend_from_slice(&any(choice(by(2, 3))));
    against_reference(&b);
}

/// the same entry twice, entries out of git's order, and names with any bytes: nothing is reordered or dropped
pub fn order() {
    let k = any_u8();
    assume(k != 0);
    let mut b = vec![];
    let mut want: Entries = vec![];
    for i in 0..3usize {
        let name = match choice(3) {
            0 => b"b".to_vec(),
            1 => vec![k],
            _ => b"b/".to_vec(),
        };
        let id = vec![i as u8; 20];
        b.extend_from_slice(b"40000 ");
        b.extend_from_slice(&name);
        b.push(0);
        b.extend_from_slice(&id);
        want.push((0o40000, name, id));
    }
    let (id, r) = store(&b);
    match look(&r, &id) {
        Got::Obj(ObjectData::Tree(t)) => {
            same(&t, &want);
            cover("tree")
        }
        _ => check(false, "a well-formed tree was refused"),
    }
}

/// names with a meaning elsewhere, with an arbitrary byte in front, behind or nowhere; ids that are all zero, all ones,
/// those of git's empty blob and empty tree, and a digest; all modes git writes; as first, middle or last entry
pub fn words() {
    const N: &[&[u8]] = &[
        b"", b".", b"..", b".git", b".GIT", b".git ", b"git~1", b".gitmodules", b".gitattributes", b"HEAD", b"a/b", b"/", b"a\\b", b"C:", b"CON", b"nul.txt", b"x.lock", b"-f", b"--", b"*", b"?", b"a b", b" ", b"a\nb",
        b"\r", b"\xc3\xa9", b"e\xcc\x81", b"\xe9", b"\xff\xfe", b"100644 a", b"\x7f\x01", b"\"q\"", b"\xe2\x80\x8d.git", b"0123456789012345678901234567890123456789",
    ];
    let ids = [
        [0u8; 20],
        [0xff; 20],
        *b"\xe6\x9d\xe2\x9b\xb2\xd1\xd6\x43\x4b\x8b\x29\xae\x77\x5a\xd8\xc2\xe4\x8c\x53\x91",
        *b"\x4b\x82\x5d\xc6\x42\xcb\x6e\xb9\xa0\x60\xe5\x4b\xf8\xd6\x92\x88\xfb\xee\x49\x04",
        *b"100644 a\0 100644 b\0 ",
    ];
    let m = [&b"100644"[..], b"100755", b"40000", b"120000", b"160000"][choice(5)];
    let mut n = N[choice(N.len())].to_vec();
    match choice(3) {
        0 => (),
        1 => n.push(any_u8()),
        _ => n.insert(0, any_u8()),
    }
    assume(!n.contains(&0));
    let e = [m, b" ", &n[..], b"\0", &ids[choice(5)][..]].concat();
    let other = |k: u8| [&b"100644 o"[..], &[k, 0][..], &[k; 20][..]].concat();
    let at = choice(3);
    let mut b = vec![];
    for i in 0..3 {
        b.extend_from_slice(&if i == at { e.clone() } else { other(b'0' + i as u8) })
    }
    against_reference(&b);
}

/// trees of 65 500 to 65 600 bytes and more, in many entries or with one long name: the entries behind those bytes, with
/// an arbitrary byte in a name and in an id
pub fn far() {
    let n = [65_480usize, 65_535, 65_536, 65_537, 65_600, 140_000][choice(by(5, 6))];
    let mut want: Entries = vec![];
    let mut b = vec![];
    let mut add = |mode: u16, m: &[u8], name: Vec<u8>, id: Vec<u8>| {
        b.extend_from_slice(&[m, b" ", &name[..], b"\0", &id[..]].concat());
        want.push((mode, name, id));
        b.len()
    };
    let rest = if choice(2) == 0 {
        let mut at = 0;
        let mut k = 0u64;
        while at + 320 < n {
            let mut name = dec(k);
            name.resize(200, b'-');
            at = add(0o100644, b"100644", name, vec![k as u8; 20]);
            k += 1
        }
        n - at
    } else {
        n
    };
    // ends `n` bytes into the tree
    add(0o40000, b"40000", vec![b'l'; rest - 27], vec![7; 20]);
    let mut name = b"name".to_vec();
    name[2] = any_u8();
    assume(name[2] != 0);
    let mut id = vec![0xabu8; 20];
    id[[0, 19][choice(2)]] = any_u8();
    add(0o120000, b"120000", name, id);
    add(0o100755, b"100755", b"z".to_vec(), vec![0; 20]);
    let (id, r) = store(&b);
    match look(&r, &id) {
        Got::Obj(ObjectData::Tree(t)) => {
            same(&t, &want);
            cover("tree")
        }
        _ => check(false, "a well-formed tree was refused"),
    }
}
