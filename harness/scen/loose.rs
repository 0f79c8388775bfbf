//! C03: loose objects
use super::kit::*;
use super::rt::*;
use rusty_git::object::ObjectData;

/// A body of `n` bytes, mostly concrete, with symbolic bytes at its ends and middle
pub fn big(n: usize, salt: u8) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    for i in 0..n {
        v.push((i as u32).wrapping_mul(31).wrapping_add(i as u32 >> 8).wrapping_add(salt as u32) as u8)
    }
    if n > 0 {
        v[0] = any_u8();
        v[n / 2] = any_u8();
        v[n - 1] = any_u8();
    }
    v
}
pub fn expect_blob(r: &rusty_git::repository::Repository, id: &[u8; 20], body: &[u8]) {
    match look(r, id) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(eq(b.data(), body), "blob content differs from the stored content");
            if body.len() <= 64 {
                observe(b.data())
            }
            cover("blob returned");
        }
        Got::Obj(_) => check(false, "a stored blob was returned as an object of another type"),
        Got::NotFound => check(false, "a well-formed stored blob was reported as not found"),
        Got::Err => check(false, "a well-formed stored blob was refused"),
    }
}

/// every small blob
pub fn read_ok() {
    mkrepo();
    let n = choice(by(6, 12));
    let body = any(n);
    let id = fake_id(0x12, 0x34);
    put_loose(&id, b"blob", &body);
    let r = open();
    expect_blob(&r, &id, &body);
}

/// sizes around every internal buffer boundary, and deflate blocks of several sizes
pub fn read_big() {
    mkrepo();
    const Q: &[usize] = &[9, 10, 19, 20, 21, 22, 28, 29, 99, 100, 255, 256, 999, 1000, 4095, 4096, 8191, 8192, 32768, 65535, 65536, 65537, 70000];
    const T: &[usize] = &[9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 26, 27, 28, 29, 30, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 4095, 4096, 4097, 8180, 8191, 8192, 8193, 9999, 10000, 16384, 32767, 32768, 32769, 65528, 65535, 65536, 65537, 70000, 99999, 100000, 131071, 131072, 131073, 200000];
    let sizes = if deep() { T } else { Q };
    let n = sizes[choice(sizes.len())];
    let block = [65535, 1000, 7][choice(if n > 30000 { 2 } else { 3 })];
    let body = big(n, 1);
    let id = fake_id(0, 0xff);
    put_loose_raw(&id, &zlib_blocks(&framed(b"blob", &body), block));
    let r = open();
    expect_blob(&r, &id, &body);
}

/// content that compresses to almost nothing
pub fn read_run() {
    mkrepo();
    let n = [300, 5000, 40000, 100000][choice(by(3, 4))];
    let byte = [0u8, b'a', 0xff][choice(3)];
    // header and content in one compressed stream: a literal header, then the run
    let file = zlib_run_after(&[b"blob ".to_vec(), dec(n as u64), vec![0]].concat(), byte, n);
    let id = fake_id(0xff, 0);
    put_loose_raw(&id, &file);
    let r = open();
    expect_blob(&r, &id, &vec![byte; n]);
}

/// arbitrary bytes in place of header and body
pub fn header_any() {
    mkrepo();
    let n = choice(by(8, 9));
    let raw = any(n);
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &zlib(&raw));
    let r = open();
    match look(&r, &id) {
        Got::Obj(d) => {
            let k = KINDS[kind_of(&d) as usize];
            check(raw.len() >= k.len() + 3, "an object shorter than its header was returned");
            check(eq(&raw[..k.len()], k) && raw[k.len()] == b' ', "the object type is not the recorded one");
            cover("object returned");
        }
        Got::NotFound => check(false, "an existing loose object was reported as not found"),
        Got::Err => cover("refused"),
    }
}

/// the kind word: any 3 to 6 bytes in front of a well-formed rest
pub fn kind_any() {
    mkrepo();
    let n = 3 + choice(4);
    let mut word = b"commit".to_vec();
    word.truncate(n);
    if n < 5 {
        word = any(n)
    } else {
        let (a, b) = (choice(n), choice(n));
        assume(a < b);
        word[a] = any_u8();
        word[b] = any_u8();
    }
    let text = b"tree 0123456789012345678901234567890123456789\nauthor A <B> 1 +0000\ncommitter C <D> 1 +0000\n\nm".to_vec();
    let tag = b"object 0123456789012345678901234567890123456789\ntype blob\ntag x\n\nm".to_vec();
    let body = match choice(3) {
        0 => vec![],
        1 => text,
        _ => tag,
    };
    let id = fake_id(0x12, 0x34);
    put_loose(&id, &word, &body);
    let r = open();
    match look(&r, &id) {
        Got::Obj(d) => {
            check(eq(&word, KINDS[kind_of(&d) as usize]), "the object type is not the recorded one");
            cover("object returned");
        }
        Got::NotFound => check(false, "an existing loose object was reported as not found"),
        Got::Err => {
            if eq(&word, b"blob") || (eq(&word, b"tree") && body.is_empty()) {
                check(false, "a well-formed object was refused")
            }
            cover("refused")
        }
    }
}

/// the recorded length: any bytes up to 4 characters against bodies of 0 to 12 bytes
pub fn length_any() {
    mkrepo();
    let k = choice(by(4, 5));
    let mut len = any(k);
    for i in 0..k {
        if len[i] >= b'0' && len[i] <= b'9' {
            concrete_bytes(&mut len[i..i + 1])
        }
    }
    let m = [0usize, 1, 2, 7, 12, 100][choice(6)];
    let body = vec![b'x'; m];
    let raw = [b"blob ".to_vec(), len.clone(), vec![0], body.clone()].concat();
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &zlib(&raw));
    let r = open();
    // what the header says, by an independent reading: the text before the first NUL
    let used = len.iter().position(|c| *c == 0).unwrap_or(k);
    let actual = if used == k { m } else { k - used + m };
    let text = &len[..used];
    let mut strip = 0;
    while strip + 1 < used && text[strip] == b'0' {
        strip += 1
    }
    match look(&r, &id) {
        Got::Obj(ObjectData::Blob(b)) => {
            check(eq(&text[strip..], &dec(actual as u64)), "an object was returned whose recorded length differs from its content");
            check(b.data().len() == actual, "the content returned is not the stored content");
            cover("object returned");
        }
        Got::Obj(_) => check(false, "the object type is not the recorded one"),
        Got::NotFound => check(false, "an existing loose object was reported as not found"),
        Got::Err => {
            check(!eq(text, &dec(actual as u64)), "a well-formed object was refused");
            cover("refused");
        }
    }
}

/// long digit strings: 17 to 22 digits with symbolic digits never match a short body
pub fn length_huge() {
    mkrepo();
    let k = 17 + choice(6);
    let mut len = [b"18446744073709551616000"[..k].to_vec()].concat();
    let ends = choice(2) * (k - 1);
    for i in [0, if deep() { choice(k) } else { ends }] {
        let d = any_u8();
        assume(d >= b'0' && d <= b'9');
        len[i] = concrete(d as u64) as u8;
    }
    assume(len[0] != b'0');
    let m = choice(by(1, 4));
    let raw = [b"blob ".to_vec(), len, vec![0], vec![b'x'; m]].concat();
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &zlib(&raw));
    let r = open();
    heap_reset();
    let base = heap_peak();
    match look(&r, &id) {
        Got::Err => cover("refused"),
        _ => check(false, "an object far shorter than its recorded length was not refused"),
    }
    check(heap_peak() - base < 4 << 20, "memory was allocated for a length that the data does not have");
}

/// lengths that agree with the content in their low 8 to 64 bits only: the content's length and 1 to 3 times 2^8 to
/// 2^64, the first or last (deep: any) digit replaced by any other
pub fn length_wide() {
    mkrepo();
    let m = [0usize, 3, 300][choice(3)];
    let wide = m as u128 + ((1 + choice(3)) as u128) * (1u128 << [8, 16, 24, 31, 32, 33, 48, 63, 64][choice(9)]);
    let mut len = dec128(wide);
    let i = choice(by(2, len.len()));
    let i = if deep() { i } else { i * (len.len() - 1) };
    let d = any_u8();
    assume(d >= b'0' && d <= b'9');
    len[i] = concrete(d as u64) as u8;
    assume(len != dec(m as u64));
    let raw = [b"blob ".to_vec(), len, vec![0], vec![b'x'; m]].concat();
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &zlib(&raw));
    let r = open();
    match look(&r, &id) {
        Got::Err => cover("refused"),
        _ => check(false, "an object was returned whose recorded length differs from its content"),
    }
}

/// content longer or shorter than recorded, for sizes around buffer boundaries
pub fn length_off() {
    mkrepo();
    let n = [0usize, 1, 20, 27, 28, 29, 100, 8192, 65536, 66000][choice(10)];
    let body = big(n, 2);
    let delta = choice(5) as isize - 2;
    let m = n as isize + delta;
    assume(m >= 0 && delta != 0);
    let raw = [b"blob ".to_vec(), dec(m as u64), vec![0], body].concat();
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &zlib_blocks(&raw, [65535, 100][choice(2)]));
    let r = open();
    match look(&r, &id) {
        Got::Err => cover("refused"),
        _ => check(false, "an object whose recorded length differs from its content was not refused"),
    }
}

/// a loose file cut off anywhere
pub fn truncated() {
    mkrepo();
    let body = any(4);
    let file = zlib_blocks(&framed(b"blob", &body), 5);
    // everything before the checksum: cutting only the checksum loses no content
    let cut = choice(file.len() - 4);
    let id = fake_id(0x12, 0x34);
    put_loose_raw(&id, &file[..cut]);
    let r = open();
    match look(&r, &id) {
        Got::Err => cover("refused"),
        _ => check(false, "a truncated object was not refused"),
    }
}

/// loose objects of 100 000 to 1 048 577 (deep: 5 000 000) bytes, three of them arbitrary, or one highly compressed run; a
/// recorded length that is one more or less is refused
pub fn large() {
    mkrepo();
    let n = [100_000usize, 131_072, 200_000, 262_144, 1_048_576, 1_048_577, 5_000_000][choice(by(6, 7))];
    let said = n + choice(3) - 1;
    let id = fake_id(3, 0x33);
    let body = if choice(2) == 1 {
        put_loose_raw(&id, &zlib_run_after(&[b"blob ".to_vec(), dec(said as u64), vec![0]].concat(), 7, n));
        vec![7; n]
    } else {
        let b = big(n, 1);
        put_loose_raw(&id, &zlib(&[b"blob ".to_vec(), dec(said as u64), vec![0], b.clone()].concat()));
        b
    };
    let r = open();
    if said == n {
        expect_blob(&r, &id, &body)
    } else {
        match look(&r, &id) {
            Got::Err => cover("refused"),
            _ => check(false, "an object whose length is not the recorded one was not refused"),
        }
    }
}

/// content of 255 to 131 073 (deep: 1 048 577) bytes around all powers of two, counted with its header or without, whose
/// recorded length is right or one off
pub fn edge_sizes() {
    mkrepo();
    let mut n = edge_size(8, by(17, 20));
    if choice(2) == 1 {
        n -= 6 + dec(n as u64).len()
    }
    let said = n + choice(3) - 1;
    let mut body = vec![7; n];
    body[n - 1] = any_u8();
    let id = fake_id(0x44, 0x44);
    put_loose_raw(&id, &zlib(&[b"blob ".to_vec(), dec(said as u64), vec![0], body.clone()].concat()));
    let r = open();
    if said == n {
        expect_blob(&r, &id, &body)
    } else {
        match look(&r, &id) {
            Got::Err => cover("refused"),
            _ => check(false, "an object whose length is not the recorded one was not refused"),
        }
    }
}

/// texts that mean something to git or to editors, with an arbitrary byte in front or behind, as blobs
pub fn words() {
    let b = word();
    mkrepo();
    let id = fake_id(0xab, 0xcd);
    put_loose(&id, b"blob", &b);
    expect_blob(&open(), &id, &b);
}
