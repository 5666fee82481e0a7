//! Where windows come from.
use crate::api::*;
use crate::lens::Rng;
use crate::oracle::*;

pub const EDGES: &[u32] = &[
    0x0, 0xA, 0xD, 0x20, 0x30, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0x81, 0x85, 0x9F, 0xA0, 0xA5, 0xAD, 0xB4, 0xCA, 0xDC, 0xDF,
    0xE9, 0xEA, 0xFF, 0x100, 0x11E, 0x130, 0x131, 0x141, 0x178, 0x1A0, 0x1B0, 0x300, 0x301, 0x303, 0x304, 0x308, 0x309,
    0x30C, 0x323, 0x3B1, 0x416, 0x451, 0x490, 0x5B0, 0x5D0, 0x5DC, 0x627, 0x64B, 0x7FF, 0x800, 0xE01, 0xE33, 0x1161, 0x200B,
    0x200C, 0x200D, 0x200E, 0x2014, 0x2018, 0x2028, 0x203E, 0x20AB, 0x20AC, 0x2122, 0x2212, 0x2550, 0x3000, 0x3042, 0x304B,
    0x3099, 0x309A, 0x30AB, 0x30CF, 0x30FC, 0x4ECA, 0xAC00, 0xD7FF, 0xE000, 0xE757, 0xE758, 0xF7FF, 0xF8FF, 0xF900, 0xFDD0,
    0xFE0F, 0xFEFF, 0xFF0D, 0xFF21, 0xFF5E, 0xFF61, 0xFF76, 0xFF9E, 0xFF9F, 0xFFA0, 0xFFF0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000,
    0x1F1E6, 0x1F3FB, 0x1F63A, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0xE0001, 0xFFFFF, 0x100000, 0x10FFFF,
];

pub struct Pool {
    pub valid: Vec<Vec<u8>>,   // single valid units
    pub invalid: Vec<Vec<u8>>, // malformed or cut-off pieces (dec), unencodable characters (enc)
    pub mixed: Vec<Vec<u8>>,   // a small selection of both, for combinations
}

fn utf8(c: u32) -> Vec<u8> {
    let mut v = Vec::new();
    push_char(&mut v, c);
    v
}
pub fn is_scalar(c: u32) -> bool {
    char::from_u32(c).is_some()
}

/// The scalars a unit list is made from.
fn chars_for(o: &Oracle, e: usize) -> Vec<u32> {
    let mut v: Vec<u32> = EDGES.to_vec();
    let s = o.scalars(e);
    if !s.is_empty() {
        let high: Vec<u32> = s.iter().cloned().filter(|&c| c >= 128).collect();
        if let (Some(&a), Some(&b)) = (high.first(), high.last()) {
            v.push(a);
            v.push(b);
            v.push(high[high.len() / 2]);
            if high.len() > 8 {
                v.push(high[high.len() / 3]);
            }
            if let Some(&x) = high.iter().find(|&&c| c > 0xFFFF) {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn pool(o: &Oracle, e: usize, d: Dir) -> Pool {
    let cs = chars_for(o, e);
    let mut valid = Vec::new();
    let mut invalid = Vec::new();
    for &c in &cs {
        match (d, o.enc1(e, c)) {
            (ENC, Some(_)) => valid.push(utf8(c)),
            (ENC, None) => invalid.push(utf8(c)),
            (DEC, Some((b, n))) => valid.push(b[..n].to_vec()),
            _ => {}
        }
    }
    if d == ENC && e == BIG5 {
        for p in o.pairs() {
            let mut v = utf8(p.0);
            v.extend(utf8(p.1));
            valid.push(v);
        }
    }
    if d == DEC {
        match e {
            UTF8 => {
                for b in [
                    &[0x80u8][..], &[0xBF], &[0xC0, 0x80], &[0xC1], &[0xC2], &[0xDF], &[0xE0, 0x80], &[0xE0, 0x9F, 0x80], &[0xE0, 0xA0],
                    &[0xE3], &[0xE3, 0x81], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xED, 0x9F], &[0xF0], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF0, 0x90],
                    &[0xF0, 0x90, 0x80], &[0xF3, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xF4, 0x8F], &[0xF4, 0x8F, 0xBF], &[0xF5], &[0xF5, 0x80, 0x80], &[0xF7],
                    &[0xF8], &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xFC], &[0xFE], &[0xFF], &[0xEF, 0xBB], &[0xE1, 0x80, 0xC2],
                ] {
                    invalid.push(b.to_vec());
                }
            }
            U16BE | U16LE => {
                for u in [0xD800u16, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE3A] {
                    invalid.push(if e == U16BE { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() });
                }
                for b in [0x00u8, 0x41, 0xD8, 0xDC, 0xFF] {
                    invalid.push(vec![b]);
                }
                invalid.push(if e == U16BE { vec![0xD8, 0x3D, 0xDE] } else { vec![0x3D, 0xD8, 0x3A] });
            }
            U32BE | U32LE => {
                for u in [0xD800u32, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x200000, 0x1000000, 0x41000000, 0x80000000, 0xFFFFFFFF, 0x00FFFFFF] {
                    invalid.push(if e == U32BE { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() });
                }
                for b in [&[0u8][..], &[0x41], &[0, 0], &[0, 0, 0], &[0xFF, 0xFF, 0xFF], &[0x41, 0, 0], &[0, 0x11]] {
                    invalid.push(b.to_vec());
                }
            }
            _ => {
                let mut x = Exp::new();
                for b in 128..=255u8 {
                    o.exp(e, DEC, &[b], true, &mut x);
                    if x.stop == Stop::Err {
                        o.exp(e, DEC, &[b], false, &mut x);
                        let lead = x.stop == Stop::Wait;
                        if !lead || matches!(b, 0x81 | 0x85 | 0x87 | 0x88 | 0x8F | 0x9F | 0xA1 | 0xC6 | 0xE0 | 0xFC | 0xFE) {
                            invalid.push(vec![b]);
                        }
                        if lead && matches!(b, 0x81 | 0x85 | 0x87 | 0x88 | 0xA1 | 0xC6 | 0xF9 | 0xFC | 0xFE) {
                            for t in [0x00u8, 0x0A, 0x3C, 0x3F, 0x40, 0x5C, 0x7E, 0x7F, 0x80, 0xA0, 0xA1, 0xFC, 0xFD, 0xFE, 0xFF] {
                                o.exp(e, DEC, &[b, t], true, &mut x);
                                if x.stop == Stop::Err && x.pos() == 0 {
                                    invalid.push(vec![b, t]);
                                }
                            }
                        }
                    }
                }
                if e == BIG5 {
                    for (_, _, b) in o.pairs() {
                        valid.push(b.to_vec());
                    }
                }
            }
        }
    }
    invalid.dedup();
    let mut mixed = Vec::new();
    let pickn = |v: &Vec<Vec<u8>>, n: usize, out: &mut Vec<Vec<u8>>| {
        if v.len() <= n {
            out.extend(v.iter().cloned());
        } else {
            for i in 0..n {
                out.push(v[i * (v.len() - 1) / (n - 1)].clone());
            }
        }
    };
    mixed.push(b"A".to_vec());
    if d == DEC {
        mixed[0] = match e {
            U16BE => vec![0, 65],
            U16LE => vec![65, 0],
            U32BE => vec![0, 0, 0, 65],
            U32LE => vec![65, 0, 0, 0],
            _ => vec![65],
        };
    }
    pickn(&valid, 16, &mut mixed);
    pickn(&invalid, 12, &mut mixed);
    if e == BIG5 {
        let n = valid.len();
        mixed.push(valid[n - 4].clone());
        mixed.push(valid[n - 1].clone());
        if d == ENC {
            for c in [0xCA, 0xEA, 0x304, 0x30C] {
                mixed.push(utf8(c));
            }
        }
    }
    mixed.sort();
    mixed.dedup();
    Pool { valid, invalid, mixed }
}

/// Sequences that mean something elsewhere (signatures, escapes, line ends,
/// mark-up): here each is just the characters it is made of.
pub const SIGNS: &[&[u8]] = &[
    // byte order marks and signatures
    b"\xEF\xBB\xBF", b"\xFE\xFF", b"\xFF\xFE", b"\x00\x00\xFE\xFF", b"\xFF\xFE\x00\x00", b"+/v8", b"+/v8-", b"+/v9", b"\x84\x31\x95\x33",
    b"\x0E\xFE\xFF", b"\xFB\xEE\x28", b"\xDD\x73\x66\x73", b"\xF7\x64\x4C", b"\xEF\xBF\xBD", b"\xEF\xBF\xBF", b"\xC0\x80", b"\xED\xA0\x80",
    b"\xED\xA0\xBD\xED\xB8\x80", b"\xC2\x85", b"\xE2\x80\xA8",
    // ISO 2022, HZ, UTF-7
    b"\x1B$B", b"\x1B$@", b"\x1B(B", b"\x1B(J", b"\x1B(I", b"\x1B(H", b"\x1B$(D", b"\x1B$)C", b"\x1B$)A", b"\x1B%G", b"\x1B%@", b"\x1B.A", b"\x1BN", b"\x1BO",
    b"\x1B[0m", b"\x0E", b"\x0F", b"\x8E", b"\x8F", b"\x8F\xA1\xA1", b"\x9B", b"~{", b"~}", b"~~", b"~\n", b"+AGE-", b"+-",
    // line ends, tabs, ends of file, deletions
    b"\r\n", b"\n\r", b"\r\r\n", b"\r\n\r\n", b"\n\n", b"\r\r", b"\x1A", b"\x04", b"\0\0", b"\0\0\0\0", b"\0\n", b"\t\t", b"  ", b" \n", b"\x08", b"a\x08", b"\x7F\x7F",
    b"\x0B", b"\x0C", b"\x15", b"\x25", b"\x85\n", b"\r\x85",
    // escapes and mark-up
    b"\\", b"\\\\", b"\\n", b"\\0", b"\\u0041", b"\\x41", b"\\N{BULLET}", b"&amp;", b"&#65;", b"&#x41;", b"&lt;", b"%41", b"%u0041", b"%E3%81%93", b"=41", b"=\r\n",
    b"=?UTF-8?B?QQ==?=", b"<?xml", b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>", b"<meta charset=", b"<!--", b"-->", b"]]>", b"</", b"/*", b"*/", b"//", b"#!", b"--", b"''", b"\"\"",
    b"``", b"...", b"??", b"??/", b"??=", b"??\n", b"U+0041", b"\xA0\xA0", b"\xAD", b"a\xAD", b"\xFF\xFF", b"\xFE\xFE",
];
pub const SIGN_CHARS: &[&[u32]] = &[
    &[0xFEFF], &[0xFEFF, 0xFEFF], &[0xFFFE], &[0xFFFD], &[0xFFFD, 0xFFFD], &[0xFFFC], &[0xFFF9, 0x41, 0xFFFA], &[0xE0001, 0xE0065], &[0xE007F],
    &[0x65, 0x301], &[0xE9], &[0x41, 0x30A], &[0x212B], &[0xC5], &[0x6F, 0x302, 0x301], &[0x1EA5], &[0x61, 0x323, 0x302], &[0x304B, 0x3099], &[0x304C],
    &[0x30CF, 0x309A], &[0x30D1], &[0xFF76, 0xFF9E], &[0xFF8A, 0xFF9F], &[0x1100, 0x1161, 0x11A8], &[0xAC01], &[0x3C9, 0x345], &[0x2126], &[0x212A],
    &[0x1F468, 0x200D, 0x1F469, 0x200D, 0x1F467], &[0x2764, 0xFE0F], &[0x1F44D, 0x1F3FD], &[0x1F1EF, 0x1F1F5], &[0x31, 0xFE0F, 0x20E3], &[0x4ECA, 0xE0100],
    &[0x915, 0x94D, 0x937], &[0xE01, 0xE33], &[0xE40, 0xE01], &[0x644, 0x627], &[0xFEFB], &[0x5E9, 0x5C1], &[0x627, 0x653], &[0xFB01], &[0x66, 0x69],
    &[0xDF], &[0x73, 0x73], &[0x1E9E], &[0x130], &[0x69, 0x307], &[0x131], &[0x202A, 0x41, 0x202C], &[0x2066, 0x41, 0x2069], &[0x200F], &[0x200E], &[0x61C],
    &[0x200B], &[0x2060], &[0xAD], &[0xA0], &[0x202F], &[0x2028], &[0x2029], &[0x85], &[0xD, 0x85], &[0x3000, 0x3000], &[0x2014, 0x2014], &[0x2026, 0x2026],
    &[0x2E, 0x2E, 0x2E], &[0xFF0C, 0xFF0E], &[0x3001, 0x3002], &[0x301C], &[0xFF5E], &[0x2016], &[0x2225], &[0x2212], &[0xFF0D], &[0xA2], &[0xFFE0], &[0xA3],
    &[0xFFE1], &[0xAC], &[0xFFE2], &[0xA5], &[0xFFE5], &[0x203E], &[0xFFE3], &[0x5C], &[0xFF3C], &[0x7E], &[0xD7FF, 0xE000], &[0xFDD0, 0xFDEF], &[0x10FFFF, 0x10FFFF],
    &[0xD83D], &[0xEF, 0xBB, 0xBF], &[0xFE, 0xFF], &[0xFF, 0xFE], &[0xE2, 0x20AC, 0x2122], &[0xC3, 0xA9], &[0x3F], &[0x3F, 0x3F], &[0x20, 0x301], &[0x9, 0x300],
];

/// Number i of the signs, as bytes of the encoding (or text).
pub fn sign(o: &Oracle, e: usize, d: Dir, i: usize, v: &mut Vec<u8>) -> bool {
    v.clear();
    if i < SIGNS.len() {
        let s = SIGNS[i];
        if d == ENC {
            // as Latin-1 would read it
            s.iter().for_each(|&b| push_char(v, b as u32));
        } else {
            v.extend_from_slice(s);
        }
        return true;
    }
    let i = i - SIGNS.len();
    if i < SIGN_CHARS.len() {
        for &c in SIGN_CHARS[i] {
            if d == ENC && is_scalar(c) {
                push_char(v, c);
            } else if let (DEC, Some((b, n))) = (d, o.enc1(e, c)) {
                v.extend_from_slice(&b[..n]);
            } else {
                return false;
            }
        }
        return true;
    }
    // the ASCII ones, in the encodings with wide units
    let i = i - SIGN_CHARS.len();
    if e != UTF8 && e < BIG5 && d == DEC && i < SIGNS.len() && SIGNS[i].is_ascii() {
        SIGNS[i].iter().for_each(|&b| ascii_unit(e, d, b, v));
        return true;
    }
    false
}
pub fn signs() -> usize {
    2 * SIGNS.len() + SIGN_CHARS.len()
}

/// A sequence in which every word of `n` letters out of `k` occurs once
/// (a De Bruijn sequence, as numbers of letters).
pub fn de_bruijn(k: usize, n: usize, f: &mut dyn FnMut(usize)) {
    let mut w = vec![0usize; n];
    let mut len = 1;
    let mut first = Vec::new();
    loop {
        // w[..len] is a Lyndon word
        if n % len == 0 {
            for &x in &w[..len] {
                f(x);
                if first.len() < n - 1 {
                    first.push(x);
                }
            }
        }
        for i in len..n {
            w[i] = w[i - len];
        }
        len = n;
        while len > 0 && w[len - 1] == k - 1 {
            len -= 1;
        }
        if len == 0 {
            break;
        }
        w[len - 1] += 1;
    }
    first.into_iter().for_each(f);
}

/// A random scalar, spread over the lengths of its UTF-8 form.
pub fn rand_scalar(r: &mut Rng) -> u32 {
    loop {
        let c = match r.below(6) {
            0 => r.below(0x80),
            1 => r.range(0x80, 0x7FF),
            2 => r.range(0x800, 0xFFFF),
            3 => r.range(0x10000, 0x10FFFF),
            4 => r.range(0x3000, 0x9FFF),
            _ => *r.pick(EDGES) as usize,
        } as u32;
        if is_scalar(c) {
            return c;
        }
    }
}

fn rand_valid(o: &Oracle, e: usize, d: Dir, p: &Pool, r: &mut Rng, v: &mut Vec<u8>) {
    if r.one_in(3) {
        let u = r.pick(&p.valid);
        v.extend_from_slice(u);
        return;
    }
    let s = o.scalars(e);
    let c = if s.is_empty() { rand_scalar(r) } else { *r.pick(s) };
    if d == ENC {
        push_char(v, c);
    } else {
        let (b, n) = o.enc1(e, c).expect("encodable");
        v.extend_from_slice(&b[..n]);
    }
}
fn rand_invalid(o: &Oracle, e: usize, d: Dir, p: &Pool, r: &mut Rng, v: &mut Vec<u8>) {
    if d == ENC {
        for _ in 0..4 {
            let c = if !p.invalid.is_empty() && r.one_in(2) { return v.extend_from_slice(r.pick(&p.invalid)) } else { rand_scalar(r) };
            if o.enc1(e, c).is_none() {
                push_char(v, c);
                return;
            }
        }
        return;
    }
    match r.below(3) {
        0 if !p.invalid.is_empty() => v.extend_from_slice(r.pick(&p.invalid)),
        1 => {
            for _ in 0..r.range(1, 3) {
                v.push(r.next() as u8 | 0x80);
            }
        }
        _ => {
            let mut t = Vec::new();
            rand_valid(o, e, d, p, r, &mut t);
            if t.len() > 1 {
                let n = r.range(1, t.len() - 1);
                t.truncate(n);
            }
            if r.one_in(3) {
                let i = r.below(t.len());
                t[i] = r.next() as u8;
            }
            v.extend_from_slice(&t);
        }
    }
}

pub fn ascii_unit(e: usize, d: Dir, c: u8, v: &mut Vec<u8>) {
    match (d, e) {
        (DEC, U16BE) => v.extend_from_slice(&[0, c]),
        (DEC, U16LE) => v.extend_from_slice(&[c, 0]),
        (DEC, U32BE) => v.extend_from_slice(&[0, 0, 0, c]),
        (DEC, U32LE) => v.extend_from_slice(&[c, 0, 0, 0]),
        _ => v.push(c),
    }
}

/// A random window of about `n` units.
pub fn rand_window(o: &Oracle, e: usize, d: Dir, p: &Pool, r: &mut Rng, n: usize, v: &mut Vec<u8>) {
    v.clear();
    let p_bad = *r.pick(&[0usize, 0, 0, 30, 8, 3]);
    let style = r.below(11);
    // a block of neighbouring characters, as a script has
    let s = o.scalars(e);
    let width = *r.pick(&[3usize, 8, 26, 64, 96]);
    let at = if s.is_empty() { rand_scalar(r) as usize } else { r.below(s.len()) };
    let mut one = Vec::new();
    rand_valid(o, e, d, p, r, &mut one);
    // a handful of letters, of different lengths, over and over
    let few: Vec<Vec<u8>> = if style < 8 {
        vec![]
    } else {
        (0..r.range(2, 5))
            .map(|k| {
                let mut t = Vec::new();
                match if style == 8 { k } else { 9 } {
                    0 => ascii_unit(e, d, (r.next() & 0x7F) as u8, &mut t),
                    1 => t.extend_from_slice(r.pick(&p.mixed)),
                    _ => rand_valid(o, e, d, p, r, &mut t),
                }
                t
            })
            .collect()
    };
    let mut i = 0;
    while i < n {
        if p_bad > 0 && r.one_in(p_bad) {
            // alone, or a whole streak
            let k = if r.one_in(6) { r.range(2, 40).min(n - i) } else { 1 };
            for _ in 0..k {
                rand_invalid(o, e, d, p, r, v);
            }
            i += k;
            continue;
        }
        match style {
            0 => rand_valid(o, e, d, p, r, v),
            1 => {
                // runs of ASCII
                let k = r.range(1, 40).min(n - i);
                for _ in 0..k {
                    ascii_unit(e, d, (r.next() & 0x7F) as u8, v);
                }
                i += k;
                rand_valid(o, e, d, p, r, v);
            }
            2 => v.extend_from_slice(&one),
            3 => {
                if r.one_in(2) {
                    ascii_unit(e, d, (r.next() & 0x7F) as u8, v)
                } else {
                    rand_valid(o, e, d, p, r, v)
                }
            }
            4 => v.extend_from_slice(r.pick(&p.mixed)),
            5 | 6 => {
                let j = at + r.below(width);
                let c = if s.is_empty() { j as u32 } else { s[j % s.len()] };
                if r.one_in(9) {
                    ascii_unit(e, d, (r.next() & 0x7F) as u8, v);
                } else if !is_scalar(c) {
                    rand_valid(o, e, d, p, r, v);
                } else if d == ENC {
                    push_char(v, c);
                } else if let Some((b, n)) = o.enc1(e, c) {
                    v.extend_from_slice(&b[..n]);
                }
            }
            8..=10 => v.extend_from_slice(r.pick(&few)),
            _ => {
                if r.one_in(12) {
                    rand_valid(o, e, d, p, r, v)
                } else {
                    v.extend_from_slice(&one)
                }
            }
        }
        i += 1;
    }
    // cut off
    if r.one_in(4) && v.len() > 1 {
        if d == DEC {
            let k = r.range(1, 3).min(v.len() - 1);
            v.truncate(v.len() - k);
        } else if e == BIG5 {
            push_char(v, if r.one_in(2) { 0xCA } else { 0xEA });
        }
    } else if d == DEC && r.one_in(6) {
        rand_invalid(o, e, d, p, r, v);
    }
    // now and then, noise
    if d == DEC && r.one_in(16) {
        for b in v.iter_mut() {
            if r.one_in(9) {
                *b = r.next() as u8;
            }
        }
    }
}

/// What is written in the sources of a codec (tools/constants.py): pieces to
/// make windows of, and sizes to try.  Hints and no more.
pub struct Hints {
    pub pieces: [Vec<Vec<u8>>; 2], // for decoding, for encoding
    pub sizes: Vec<usize>,
}
pub static HINTS: std::sync::OnceLock<Vec<Hints>> = std::sync::OnceLock::new();
pub fn hints(e: usize) -> Option<&'static Hints> {
    HINTS.get().and_then(|h| h.get(e))
}

pub fn load_hints(o: &Oracle, j: &crate::json::J) {
    let mut all = Vec::new();
    for e in 0..CODECS.len() {
        let (mut numbers, mut strings): (Vec<i64>, Vec<Vec<i64>>) = (vec![], vec![]);
        if let crate::json::J::Obj(v) = j {
            for (m, q) in v {
                // a module of the same name is about that codec, single_byte about 31, any other may be about all
                let named = CODECS.iter().any(|c| c.name == m);
                let mine = if m.starts_with("generated/") {
                    m[10..].chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().starts_with(&CODECS[e].name.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>())
                } else if m == "single_byte" {
                    e > SJIS
                } else {
                    !named || m == CODECS[e].name
                };
                if mine {
                    numbers.extend(q.get("numbers").ints());
                    numbers.extend(q.get("chars").ints());
                    strings.extend(q.get("strings").arr().iter().map(|s| s.ints()));
                }
            }
        }
        numbers.sort();
        numbers.dedup();
        let mut pieces = [vec![], vec![]];
        let mut chars: Vec<u32> = Vec::new();
        for &n in &numbers {
            if n < 0 || n > 0xFFFF_FFFF {
                continue;
            }
            let n = n as u32;
            for c in [n.wrapping_sub(1), n, n.wrapping_add(1)] {
                if is_scalar(c) && c > 4 {
                    chars.push(c);
                }
            }
            let dec = &mut pieces[0];
            let raw = |u: u32, dec: &mut Vec<Vec<u8>>| match e {
                U16BE if u <= 0xFFFF => dec.push((u as u16).to_be_bytes().to_vec()),
                U16LE if u <= 0xFFFF => dec.push((u as u16).to_le_bytes().to_vec()),
                U32BE => dec.push(u.to_be_bytes().to_vec()),
                U32LE => dec.push(u.to_le_bytes().to_vec()),
                _ if u <= 0xFF => dec.push(vec![u as u8]),
                _ if u <= 0xFFFF => dec.push((u as u16).to_be_bytes().to_vec()),
                _ => {}
            };
            if n > 4 {
                for u in [n - 1, n, n.wrapping_add(1)] {
                    raw(u, dec);
                }
            }
        }
        chars.sort();
        chars.dedup();
        for &c in &chars {
            pieces[1].push(utf8(c));
            if let Some((b, n)) = o.enc1(e, c) {
                pieces[0].push(b[..n].to_vec());
            }
        }
        for s in &strings {
            let mut t = vec![];
            let mut ok = true;
            for &c in s {
                ok &= c >= 0 && is_scalar(c as u32);
                if ok {
                    push_char(&mut t, c as u32);
                }
            }
            if ok {
                let mut b = vec![];
                if s.iter().all(|&c| o.enc1(e, c as u32).map(|(x, n)| b.extend_from_slice(&x[..n])).is_some()) {
                    pieces[0].push(b);
                }
                pieces[1].push(t);
            }
            if s.iter().all(|&c| (0..256).contains(&c)) {
                pieces[0].push(s.iter().map(|&c| c as u8).collect());
            }
        }
        for p in pieces.iter_mut() {
            p.sort();
            p.dedup();
        }
        let mut sizes: Vec<usize> = numbers.iter().filter(|&&n| n > 12 && n <= 3_000_000).map(|&n| n as usize).collect();
        sizes.dedup();
        all.push(Hints { pieces, sizes });
    }
    let _ = HINTS.set(all);
}
