//! C11: deltas
use super::kit::*;
use super::loose::big;
use super::rt::*;
use rusty_git::object::ObjectData;

const BASE: [u8; 20] = [0x11; 20];
const ID: [u8; 20] = [0xc3; 20];

/// size field of a delta: value and bytes used; None: cut short or more than 64 bits
fn size(d: &[u8], at: usize) -> Option<(u64, usize)> {
    let (mut v, mut i, mut shift) = (0u64, at, 0);
    loop {
        if i >= d.len() || shift > 63 {
            return None;
        }
        let b = d[i];
        if shift == 63 && b & 0x7e != 0 {
            return None;
        }
        v |= ((b & 0x7f) as u64) << shift;
        i += 1;
        shift += 7;
        if b < 0x80 {
            return Some((v, i));
        }
    }
}
/// what a delta makes of a base, by git's format document
pub fn reference(base: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    let (bl, i) = size(d, 0)?;
    let (rl, mut i) = size(d, i)?;
    if bl != base.len() as u64 {
        return None;
    }
    let mut out: Vec<u8> = vec![];
    while i < d.len() {
        let op = d[i];
        i += 1;
        if op == 0 {
            return None;
        }
        if op < 0x80 {
            let n = concrete(op as u64) as usize;
            if i + n > d.len() {
                return None;
            }
            out.extend_from_slice(&d[i..i + n]);
            i += n
        } else {
            let mut v = [0u64; 7];
            for k in 0..7 {
                if op >> k & 1 == 1 {
                    if i >= d.len() {
                        return None;
                    }
                    v[k] = d[i] as u64;
                    i += 1
                }
            }
            let off = v[0] | v[1] << 8 | v[2] << 16 | v[3] << 24;
            let mut len = v[4] | v[5] << 8 | v[6] << 16;
            if len == 0 {
                len = 0x10000
            }
            if off > base.len() as u64 || len > base.len() as u64 - off {
                return None;
            }
            let (o, l) = (concrete(off) as usize, concrete(len) as usize);
            out.extend_from_slice(&base[o..o + l]);
        }
    }
    if out.len() as u64 == rl {
        Some(out)
    } else {
        None
    }
}
/// a pack with the base and one delta against it (by distance or by id)
fn store(base: &[u8], d: &[u8], by_id: bool) {
    mkrepo();
    let mut p = Pack::new();
    let o = p.whole(BASE, BLOB, base);
    if by_id {
        p.refd(ID, &BASE, d);
    } else {
        p.ofs(ID, o, d);
    }
    p.store(b"d", 2)
}
fn outcome(want: Option<Vec<u8>>) {
    let r = open();
    match look(&r, &ID) {
        Got::Obj(ObjectData::Blob(b)) => match want {
            Some(w) => {
                check(b.data().len() == w.len(), "applying a delta gave another length than the delta encodes");
                check(eq(b.data(), &w), "applying a delta gave other bytes than the delta encodes");
                cover("applied");
            }
            None => check(false, "an invalid delta was applied"),
        },
        Got::Obj(_) => check(false, "a delta of a blob was returned as an object of another type"),
        Got::NotFound => check(false, "an existing object was reported as not found"),
        Got::Err => {
            check(want.is_none(), "a valid delta was refused");
            cover("refused");
        }
    }
}
fn against_reference(base: &[u8], d: &[u8]) {
    store(base, d, false);
    outcome(reference(base, d))
}

/// base of 4 arbitrary bytes; any result size and up to 4 (deep: 5) arbitrary instruction bytes
pub fn raw() {
    let base = any(4);
    let mut d = vec![4];
    d.extend_from_slice(&any(1 + choice(by(5, 6))));
    against_reference(&base, &d);
}

/// the first two size bytes and one instruction byte arbitrary in front of a valid instruction
pub fn raw_sizes() {
    let base = b"0123456789".to_vec();
    let mut d = any(choice(by(4, 5)));
    d.extend_from_slice(&copy_op(0, 3));
    against_reference(&base, &d);
}

/// every copy opcode, each operand byte from two sets of values that make it valid or invalid, over a base of
/// 140 000 bytes; alone, or between two insertions
pub fn copy_opcodes() {
    let base = big(140_000, 7);
    let op = 0x80 | choice(128) as u8;
    let vals = [[3u8, 1, 1, 0, 5, 1, 1], [0, 0, 2, 0, 0, 0, 0], [255, 255, 0, 1, 255, 255, 0]][choice(3)];
    let mut cmd = vec![op];
    for k in 0..7 {
        if op >> k & 1 == 1 {
            cmd.push(vals[k])
        }
    }
    let wrap = choice(2) == 1;
    let ops = if wrap { vec![insert_op(b"<<"), cmd, insert_op(b">")] } else { vec![cmd] };
    // the true result size, when the copy is valid
    let probe = delta(base.len() as u64, 0, &ops);
    let mut n = if wrap { 3 } else { 0 };
    let get = |k: usize| if op >> k & 1 == 1 { vals[k] as u64 } else { 0 };
    let l = get(4) | get(5) << 8 | get(6) << 16;
    n += if l == 0 { 0x10000 } else { l };
    drop(probe);
    against_reference(&base, &delta(base.len() as u64, n, &ops));
}

/// one copy with one arbitrary operand byte (offset or length, low or high byte) and the others from edge values, over a
/// base of 300 bytes (deep: two arbitrary operand bytes)
pub fn copy_operands() {
    let base = big(300, 3);
    let at = choice(4);
    let edge = |k: usize| [[0u8, 5, 43, 44][k], [0, 1][k & 1], [1, 2, 44, 255][k], [0, 1][k & 1]];
    let mut v = [0u8; 4];
    let k = choice(4);
    for i in 0..4 {
        v[i] = if i == at || by(0, 1) == 1 && i == (at + 2) % 4 { any_u8() } else { edge(k)[i] }
    }
    // offset low, offset high, length low, length high
    let n = v[2] as u64 | (v[3] as u64) << 8;
    // a length of zero stands for 65536, more than the base has
    let n = concrete(n);
    assume(n <= 301);
    against_reference(&base, &delta(300, if n == 0 { 0x10000 } else { n }, &[vec![0xb3, v[0], v[1], v[2], v[3]]]));
}

/// insertions of every length, first and last byte arbitrary, one or two
pub fn inserts() {
    let n = 1 + choice(127);
    let mut lit = big(n, 1);
    lit[0] = any_u8();
    lit[n - 1] = any_u8();
    let mut ops = vec![insert_op(&lit)];
    let mut total = n;
    if choice(2) == 1 {
        ops.push(insert_op(&lit[..(n + 1) / 2]));
        total += (n + 1) / 2
    }
    store(b"b", &delta(1, total as u64, &ops), choice(2) == 1);
    let mut w = lit.clone();
    if total > n {
        w.extend_from_slice(&lit[..(n + 1) / 2])
    }
    outcome(Some(w));
}

/// three (deep: four) instructions of any of eight forms over a base of 6 arbitrary bytes, the result size right or
/// one off
pub fn sequences() {
    let base = any(6);
    let lit = any(2);
    let mut ops = vec![];
    let mut n = 0u64;
    for _ in 0..by(3, 4) {
        let (o, l) = match choice(8) {
            0 => (copy_op(0, 6), 6),
            1 => (copy_op(0, 1), 1),
            2 => (copy_op(5, 1), 1),
            3 => (copy_op(2, 3), 3),
            4 => (insert_op(&lit), 2),
            5 => (insert_op(&lit[..1]), 1),
            6 => (copy_op(6, 1), 1),
            _ => (copy_op(3, 4), 4),
        };
        ops.push(o);
        n += l
    }
    let n = [n, n - 1, n + 1][choice(3)];
    against_reference(&base, &delta(6, n, &ops));
}

/// recorded base and result sizes off by -2..2 or by powers of two; bases and results around the groups of the size field
pub fn sizes_off() {
    let bn = [0usize, 1, 127, 128, 300, 16384][choice(6)];
    let base = big(bn, 4);
    let rep = [1usize, 2, 130][choice(3)];
    let mut ops = vec![insert_op(b"q")];
    let mut n = 1u64;
    if bn > 0 {
        for _ in 0..rep {
            ops.push(copy_op(0, bn as u64));
            n += bn as u64
        }
    }
    let d = [0i64, 1, -1, 2, 128, 1 << 14, 1 << 32, 1 << 40][choice(8)];
    let (b, r) = if choice(2) == 0 { (bn as i64 + d, n as i64) } else { (bn as i64, n as i64 + d) };
    assume(b >= 0);
    against_reference(&base, &delta(b as u64, r as u64, &ops));
}

/// size fields of 8 to 12 groups whose last two bytes are arbitrary: values beyond 64 bits
pub fn sizes_huge() {
    let n = 8 + choice(5);
    let mut f = vec![0x83u8];
    for _ in 1..n - 2 {
        f.push(0x80)
    }
    let (a, b) = (any_u8(), any_u8());
    assume(a >= 0x80);
    assume(b < 0x80);
    assume(a != 0x80 || b != 0);
    f.push(a);
    f.push(b);
    let mut d = vec![];
    if choice(2) == 0 {
        d.extend_from_slice(&f);
        d.push(3)
    } else {
        d.push(3);
        d.extend_from_slice(&f)
    }
    d.extend_from_slice(&copy_op(0, 3));
    store(b"abc", &d, false);
    outcome(None);
}

/// a delta cut at every byte, or with one arbitrary byte in place of any of its bytes
pub fn damaged() {
    let base = b"The quick brown fox".to_vec();
    let full = delta(19, 19 + 5 + 8, &[copy_op(4, 11), insert_op(b"hello"), copy_op(0, 0x13), vec![0x80 | 0x10, 2]]);
    let mut d = full.clone();
    if choice(2) == 0 {
        d.truncate(choice(full.len() + 1));
    } else {
        let i = choice(full.len());
        d[i] = any_u8()
    }
    against_reference(&base, &d);
}

/// copies of exactly 65536 bytes (length operand absent or zero), of 65535 and 65537, from a base of 65536 to 65540 bytes
pub fn sixty_four_k() {
    let bn = 65535 + choice(6);
    let base = big(bn, 6);
    let off = choice(3) as u64;
    let (cmd, n) = match choice(4) {
        0 => (copy_op(off, 0x10000), 0x10000u64),
        1 => (copy_op(off, 0xffff), 0xffff),
        2 => (copy_op(off, 0x10001), 0x10001),
        _ => {
            let mut c = copy_op(off, 0x10000);
            c[0] |= 0x70;
            c.extend_from_slice(&[0, 0, 0]);
            (c, 0x10000)
        }
    };
    against_reference(&base, &delta(bn as u64, n, &[cmd]));
}

/// deltas larger than the buffers: 600 (deep: 2000) insertions of 127 bytes with one arbitrary byte, copies between them
pub fn long() {
    let k = [64usize, 520, 600, 2000][choice(by(3, 4))];
    let base = big(1000, 8);
    let x = any_u8();
    let mut ops = vec![];
    let mut w = vec![];
    let mut lit = big(127, 2);
    for i in 0..k {
        lit[0] = i as u8;
        lit[1] = (i >> 8) as u8;
        lit[126] = if i == k / 2 || i == k - 1 { x } else { 0x55 };
        ops.push(insert_op(&lit));
        w.extend_from_slice(&lit);
        if i % 50 == 49 {
            ops.push(copy_op(i as u64 % 900, 100));
            w.extend_from_slice(&base[i % 900..i % 900 + 100])
        }
    }
    store(&base, &delta(1000, w.len() as u64, &ops), choice(2) == 1);
    outcome(Some(w));
}

/// the recorded size of the delta data itself wrong by one or more
pub fn entry_size() {
    let d = delta(4, 6, &[copy_op(0, 4), insert_op(b"zz")]);
    let n = [0u64, 1, d.len() as u64 - 1, d.len() as u64, d.len() as u64 + 1, 1 << 33][choice(6)];
    mkrepo();
    let mut p = Pack::new();
    let o = p.whole(BASE, BLOB, b"abcd");
    let mut e = entry_header(OFS, n);
    e.extend_from_slice(&ofs_encode(p.here() - o));
    e.extend_from_slice(&zlib(&d));
    p.raw(ID, &e);
    p.store(b"d", 2);
    outcome(if n == d.len() as u64 { Some(b"abcdzz".to_vec()) } else { None });
}

/// bases of 100 000 to 1 048 577 (deep: 5 000 000) bytes with three arbitrary ones; the result is all of it, its two halves
/// exchanged, or 20 bytes around any of four places, between two arbitrary bytes
pub fn large() {
    let n = [100_000usize, 200_000, 262_145, 1_048_577, 5_000_000][choice(by(4, 5))];
    let base = big(n, 6);
    let (x, y) = (any_u8(), any_u8());
    let mut ops = vec![insert_op(&[x])];
    let mut w = vec![x];
    let mut take = |mut from: usize, to: usize| {
        while from < to {
            let k = (to - from).min(0xffff);
            ops.push(copy_op(from as u64, k as u64));
            w.extend_from_slice(&base[from..from + k]);
            from += k
        }
    };
    match choice(6) {
        0 => take(0, n),
        1 => {
            take(n / 2, n);
            take(0, n / 2)
        }
        k => {
            let at = [0, 65_530, n / 2 - 10, n - 20][k - 2];
            take(at, at + 20)
        }
    }
    ops.push(insert_op(&[y]));
    w.push(y);
    store(&base, &delta(n as u64, w.len() as u64, &ops), choice(2) == 1);
    outcome(Some(w));
}

/// bases and results of 255 to 131 073 bytes around all powers of two; the base's, the result's or the delta's own
/// recorded size right or one off
pub fn edge_sizes() {
    let n = edge_size(8, 17);
    let base = vec![any_u8(); [n, 5][choice(2)]];
    let mut ops = vec![];
    let mut len = 0;
    if base.len() == n {
        ops.push(copy_op(1, 3));
        len += 3
    } else {
        // as many bytes as asked for, from insertions
        while len < n {
            let k = (n - len).min(127);
            ops.push(insert_op(&[b'i'; 127][..k]));
            len += k
        }
    }
    let (b, r) = match choice(5) {
        0 => (base.len(), len),
        1 => (base.len() - 1, len),
        2 => (base.len() + 1, len),
        3 => (base.len(), len - 1),
        _ => (base.len(), len + 1),
    };
    against_reference(&base, &delta(b as u64, r as u64, &ops));
}
