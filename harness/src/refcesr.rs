//! Reference CESR codec, written from the specification: a qualified primitive is one bit string,
//! the 6-bit values of its code and size/index characters, zero bits up to the raw value, and the
//! raw value. Its text form reads it six bits at a time, its binary form eight.

pub const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn val(c: u8) -> Option<u8> {
    ALPHABET.iter().position(|x| *x == c).map(|p| p as u8)
}
pub fn num_to_b64(mut n: u64, len: usize) -> String {
    let mut v = vec![b'A'; len];
    for i in (0..len).rev() {
        v[i] = ALPHABET[(n & 63) as usize];
        n >>= 6;
    }
    assert_eq!(n, 0, "number does not fit");
    String::from_utf8(v).unwrap()
}
pub fn b64_to_num(s: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in s {
        n = n.checked_mul(64)? + val(*c)? as u64;
    }
    Some(n)
}
/// Text to binary for whole quadlets.
pub fn text_to_bin(s: &str) -> Vec<u8> {
    assert!(s.len() % 4 == 0);
    let mut out = Vec::with_capacity(s.len() * 3 / 4);
    for q in s.as_bytes().chunks(4) {
        let n = q.iter().fold(0u32, |n, c| n << 6 | val(*c).unwrap() as u32);
        out.extend_from_slice(&n.to_be_bytes()[1..]);
    }
    out
}
pub fn bin_to_text(b: &[u8]) -> String {
    assert!(b.len() % 3 == 0);
    let mut out = String::with_capacity(b.len() * 4 / 3);
    for t in b.chunks(3) {
        let n = (t[0] as u32) << 16 | (t[1] as u32) << 8 | t[2] as u32;
        for k in (0..4).rev() {
            out.push(ALPHABET[(n >> (6 * k) & 63) as usize] as char);
        }
    }
    out
}

/// Text of `prefix` characters, zero bits, and `raw`, `fs` characters in all.
/// None if the raw value does not fit.
pub fn pack(prefix: &str, raw: &[u8], fs: usize) -> Option<String> {
    let total = fs * 6;
    let used = prefix.len() * 6 + raw.len() * 8;
    if total < used {
        return None;
    }
    let mut text: Vec<u8> = vec![0; fs];
    for (i, c) in prefix.bytes().enumerate() {
        text[i] = val(c)?;
    }
    let mut bit = total - raw.len() * 8;
    for b in raw {
        // the eight bits of b from bit position `bit`
        let w = (*b as u16) << 4 >> (bit % 6) as u16; // 12-bit window over two sextets
        text[bit / 6] |= (w >> 6) as u8 & 63;
        if bit / 6 + 1 < fs {
            text[bit / 6 + 1] |= (w & 63) as u8;
        }
        bit += 8;
    }
    Some(text.into_iter().map(|v| ALPHABET[v as usize] as char).collect())
}
/// Inverse of `pack`: the raw value after `plen` characters, if every bit between is zero.
pub fn unpack(text: &[u8], plen: usize, rawlen: usize) -> Option<Vec<u8>> {
    let vals: Option<Vec<u8>> = text.iter().map(|c| val(*c)).collect();
    let vals = vals?;
    let total = vals.len() * 6;
    let start = total.checked_sub(rawlen * 8)?;
    if start < plen * 6 {
        return None;
    }
    let bit = |i: usize| (vals[i / 6] >> (5 - i % 6)) & 1;
    if (plen * 6..start).any(|i| bit(i) != 0) {
        return None;
    }
    Some((0..rawlen).map(|k| (0..8).fold(0u8, |b, j| b << 1 | bit(start + 8 * k + j))).collect())
}

// ---- material -----------------------------------------------------------------------------------

/// (code, raw size) of fixed-size material.
pub const FIXED: &[(&str, usize)] = &[
    ("A", 32), ("B", 32), ("C", 32), ("D", 32), ("E", 32), ("F", 32), ("G", 32), ("H", 32),
    ("I", 32), ("J", 32), ("K", 56), ("L", 56), ("M", 2), ("N", 8), ("O", 32), ("P", 92),
    ("Q", 32), ("0A", 16), ("0B", 64), ("0C", 64), ("0D", 64), ("0E", 64), ("0F", 64), ("0G", 64),
    ("0H", 4), ("0I", 64), ("1AAA", 33), ("1AAB", 33), ("1AAC", 57), ("1AAD", 57), ("1AAE", 39),
    ("1AAF", 3), ("1AAG", 24), ("1AAH", 72), ("1AAI", 33), ("1AAJ", 33), ("2AAA", 2), ("3AAA", 1),
];
/// Code families of variable-size material: last character of the code.
pub const FAMILIES: &[char] = &['A', 'B'];

pub fn fixed_raw_size(code: &str) -> Option<usize> {
    FIXED.iter().find(|(c, _)| *c == code).map(|(_, n)| *n)
}
/// Lead bytes that go before the raw value of a fixed-size code.
fn lead(code: &str) -> usize {
    match code.as_bytes()[0] {
        b'2' | b'5' | b'8' => 1,
        b'3' | b'6' | b'9' => 2,
        _ => 0,
    }
}
pub fn is_small_var(code: &str) -> bool {
    code.len() == 2 && b"456".contains(&code.as_bytes()[0]) && code.ends_with(FAMILIES)
}
pub fn is_large_var(code: &str) -> bool {
    code.len() == 4
        && b"789".contains(&code.as_bytes()[0])
        && &code.as_bytes()[1..3] == b"AA"
        && code.ends_with(FAMILIES)
}
pub fn all_codes() -> Vec<String> {
    let mut v: Vec<String> = FIXED.iter().map(|(c, _)| c.to_string()).collect();
    for f in FAMILIES {
        for s in "456".chars() {
            v.push(format!("{s}{f}"));
        }
        for s in "789".chars() {
            v.push(format!("{s}AA{f}"));
        }
    }
    v
}

#[derive(Debug, Clone, PartialEq)]
pub struct Mat {
    pub code: String,
    pub raw: Vec<u8>,
    pub text: String,
}

/// What building material from `code` and `raw` must give. None: refused.
pub fn mat_build(code: &str, raw: &[u8]) -> Option<Mat> {
    if let Some(n) = fixed_raw_size(code) {
        if raw.len() < n {
            return None;
        }
        let raw = &raw[..n];
        let bits = code.len() * 6 + lead(code) * 8 + n * 8;
        let fs = bits.div_ceil(24) * 4;
        return Some(Mat { code: code.into(), raw: raw.to_vec(), text: pack(code, raw, fs)? });
    }
    let small = is_small_var(code);
    if !small && !is_large_var(code) {
        return None;
    }
    let fam = code.chars().last().unwrap();
    let ls = (3 - raw.len() % 3) % 3;
    let quads = (raw.len() + ls) / 3;
    let (code, soft) = if small && quads <= 4095 {
        (format!("{}{fam}", [4, 5, 6][ls]), 2)
    } else if quads <= 16_777_215 {
        (format!("{}AA{fam}", [7, 8, 9][ls]), 4)
    } else {
        return None;
    };
    let prefix = format!("{code}{}", num_to_b64(quads as u64, soft));
    let fs = prefix.len() + quads * 4;
    Some(Mat { text: pack(&prefix, raw, fs)?, code, raw: raw.to_vec() })
}

/// What reading material from the start of `text` must give. None: refused.
pub fn mat_read(text: &[u8]) -> Option<Mat> {
    let hs = match *text.first()? {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0' | b'4' | b'5' | b'6' => 2,
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => 4,
        _ => return None,
    };
    let code = std::str::from_utf8(text.get(..hs)?).ok()?;
    let (plen, fs, rawlen) = if let Some(n) = fixed_raw_size(code) {
        let fs = (hs * 6 + lead(code) * 8 + n * 8).div_ceil(24) * 4;
        (hs, fs, n)
    } else if is_small_var(code) || is_large_var(code) {
        let plen = 2 * hs;
        let quads = b64_to_num(text.get(hs..plen)?)? as usize;
        let rawlen = (quads * 3).checked_sub(lead(code))?;
        (plen, plen + quads * 4, rawlen)
    } else {
        return None;
    };
    let t = text.get(..fs)?;
    let raw = unpack(t, plen, rawlen)?;
    Some(Mat { code: code.into(), raw, text: String::from_utf8(t.to_vec()).ok()? })
}
/// Same from binary.
pub fn mat_read_bin(b: &[u8]) -> Option<Mat> {
    mat_read(bin_view(b).as_bytes())
}
/// The text view of the whole triplets that `b` starts with.
pub fn bin_view(b: &[u8]) -> String {
    bin_to_text(&b[..b.len() / 3 * 3])
}

// ---- indexed signatures -------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Lists {
    Both,
    Current,
    Test,
}
/// (code, index characters, other-index characters, raw size, lists)
pub const INDEXED: &[(&str, usize, usize, usize, Lists)] = &[
    ("A", 1, 0, 64, Lists::Both),
    ("B", 1, 0, 64, Lists::Current),
    ("C", 1, 0, 64, Lists::Both),
    ("D", 1, 0, 64, Lists::Current),
    ("E", 1, 0, 64, Lists::Both),
    ("F", 1, 0, 64, Lists::Current),
    ("0A", 1, 1, 114, Lists::Both),
    ("0B", 1, 1, 114, Lists::Current),
    ("2A", 2, 2, 64, Lists::Both),
    ("2B", 2, 2, 64, Lists::Current),
    ("2C", 2, 2, 64, Lists::Both),
    ("2D", 2, 2, 64, Lists::Current),
    ("2E", 2, 2, 64, Lists::Both),
    ("2F", 2, 2, 64, Lists::Current),
    ("3A", 3, 3, 114, Lists::Both),
    ("3B", 3, 3, 114, Lists::Current),
    ("0z", 2, 0, usize::MAX, Lists::Test),
    ("1z", 1, 1, 53, Lists::Test),
    ("4z", 3, 3, 53, Lists::Test),
];
#[derive(Debug, Clone, PartialEq)]
pub struct Idx {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    pub text: String,
}
fn idx_fs(code: &str, ms: usize, os: usize, rawlen: usize) -> usize {
    let ls = if code == "1z" || code == "4z" { 1 } else { 0 };
    ((code.len() + ms + os) * 6 + (rawlen + ls) * 8).div_ceil(24) * 4
}
pub fn idx_build(code: &str, raw: &[u8], index: u32, ondex: Option<u32>) -> Option<Idx> {
    let &(_, ms, os, rs, lists) = INDEXED.iter().find(|x| x.0 == code)?;
    let fits = |v: u32, n: usize| (v as u64) < 64u64.pow(n as u32);
    if !fits(index, ms) {
        return None;
    }
    let ondex_text; // value written after the index
    let read; // value reported
    match lists {
        Lists::Current => {
            if ondex.is_some() {
                return None;
            }
            ondex_text = 0;
            read = 0;
        }
        Lists::Both => {
            let o = ondex.unwrap_or(index);
            if os == 0 && o != index || os > 0 && !fits(o, os) {
                return None;
            }
            ondex_text = o;
            read = o;
        }
        Lists::Test => {
            let o = ondex.unwrap_or(0);
            if os > 0 && !fits(o, os) || os == 0 && ondex.is_some_and(|o| o != index) {
                return None;
            }
            ondex_text = o;
            read = o;
        }
    }
    let rs = if rs == usize::MAX { index as usize * 3 } else { rs };
    let raw = raw.get(..rs)?;
    let mut prefix = format!("{code}{}", num_to_b64(index as u64, ms));
    if os > 0 {
        prefix += &num_to_b64(ondex_text as u64, os);
    }
    let fs = idx_fs(code, ms, os, rs);
    Some(Idx { code: code.into(), raw: raw.to_vec(), index, ondex: read, text: pack(&prefix, raw, fs)? })
}
pub fn idx_read(text: &[u8]) -> Option<Idx> {
    let hs = match *text.first()? {
        b'A'..=b'Z' | b'a'..=b'z' => 1,
        b'0'..=b'4' => 2,
        _ => return None,
    };
    let code = std::str::from_utf8(text.get(..hs)?).ok()?;
    let &(_, ms, os, rs, lists) = INDEXED.iter().find(|x| x.0 == code)?;
    let plen = hs + ms + os;
    let index = b64_to_num(text.get(hs..hs + ms)?)? as u32;
    let odx = b64_to_num(text.get(hs + ms..plen)?)? as u32;
    let ondex = match lists {
        Lists::Current => {
            if odx != 0 {
                return None;
            }
            0
        }
        _ if os == 0 => index,
        _ => odx,
    };
    let rs = if rs == usize::MAX { index as usize * 3 } else { rs };
    let t = text.get(..idx_fs(code, ms, os, rs))?;
    let raw = unpack(t, plen, rs)?;
    Some(Idx { code: code.into(), raw, index, ondex, text: String::from_utf8(t.to_vec()).ok()? })
}
pub fn idx_read_bin(b: &[u8]) -> Option<Idx> {
    idx_read(bin_view(b).as_bytes())
}

// ---- counters -----------------------------------------------------------------------------------

/// (code, count characters)
pub const COUNTERS: &[(&str, usize)] = &[
    ("-A", 2), ("-B", 2), ("-C", 2), ("-D", 2), ("-E", 2), ("-F", 2), ("-G", 2), ("-H", 2),
    ("-I", 2), ("-J", 2), ("-K", 2), ("-L", 2), ("-V", 2), ("-0V", 5), ("--AAA", 3),
];
#[derive(Debug, Clone, PartialEq)]
pub struct Cnt {
    pub code: String,
    pub count: u32,
    pub text: String,
}
pub fn cnt_build(code: &str, count: u64) -> Option<Cnt> {
    let &(_, n) = COUNTERS.iter().find(|x| x.0 == code)?;
    if count >= 64u64.pow(n as u32) {
        return None;
    }
    Some(Cnt { code: code.into(), count: count as u32, text: format!("{code}{}", num_to_b64(count, n)) })
}
pub fn cnt_read(text: &[u8]) -> Option<Cnt> {
    let &(code, n) = COUNTERS.iter().find(|(c, _)| text.starts_with(c.as_bytes()))?;
    let t = text.get(..code.len() + n)?;
    let count = b64_to_num(&t[code.len()..])? as u32;
    Some(Cnt { code: code.into(), count, text: String::from_utf8(t.to_vec()).ok()? })
}
pub fn cnt_read_bin(b: &[u8]) -> Option<Cnt> {
    cnt_read(bin_view(b).as_bytes())
}
