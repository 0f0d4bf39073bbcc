//! C01-C07, C29: qualified primitives against the reference codec.
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::{ensure, fail, same};
use keride::cesr::{Counter, Indexer, Matter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn check_mtr(m: &Mtr, want: &r::Mat, what: &str) -> R {
    same!(m.code(), want.code, "{what}: code");
    same!(m.raw(), want.raw, "{what}: raw");
    same!(must(m.full_size(), what)?, want.text.len(), "{what}: full size");
    Ok(())
}

// ---- C01 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Build {
    cr: CodeRaw,
    extra: Hex,
}
fn c01_roundtrip(c: &Build, cx: &mut Cx) -> R {
    let mut raw = c.cr.raw();
    if r::fixed_raw_size(&c.cr.code).is_some() {
        raw.extend_from_slice(&c.extra.0);
    }
    let Some(want) = r::mat_build(&c.cr.code, &raw) else { fail!("generator: no material") };
    cx.hit();
    cx.class(format!("code {}", want.code));
    let m: Mtr = must(Matter::new(Some(&c.cr.code), Some(&raw), None, None, None), "code and raw")?;
    check_mtr(&m, &want, "built")?;
    let text = must(m.qb64(), "qb64 of built")?;
    same!(text, want.text, "text form");
    same!(must(m.qb64b(), "qb64b of built")?, want.text.as_bytes(), "text form as bytes");
    let m2: Mtr = must(Matter::new(None, None, None, Some(&text), None), "own text form")?;
    check_mtr(&m2, &want, "read from text")?;
    same!(must(m2.qb64(), "qb64 of read")?, want.text, "text form again");
    let m3: Mtr = must(Matter::new(None, None, Some(text.as_bytes()), None, None), "own text form as bytes")?;
    check_mtr(&m3, &want, "read from text bytes")?;
    same!(m2, m3, "read from text and from bytes");
    let m4: Mtr = must(Mtr::new_with_code_and_raw(&c.cr.code, &raw), "code and raw directly")?;
    same!(m4, m, "built directly");
    same!(must(Mtr::new_with_qb64(&text), "qb64 directly")?, m2, "read directly");
    same!(must(Mtr::new_with_qb64b(text.as_bytes()), "qb64b directly")?, m2, "read directly from bytes");
    Ok(())
}
fn c01_short(c: &Build, cx: &mut Cx) -> R {
    let Some(n) = r::fixed_raw_size(&c.cr.code) else { return Ok(()) };
    let k = 1 + c.extra.0.len() % n;
    let raw = c.cr.fill.make(n - k);
    cx.hit();
    refuse(<Mtr as Matter>::new(Some(&c.cr.code), Some(&raw), None, None, None), "too short raw material")
}
/// Exhaustive over lengths for every variable code: the size switch.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct VarLen {
    code: String,
    len: usize,
    fill: Fill,
}
fn c01_var(c: &VarLen, cx: &mut Cx) -> R {
    c01_roundtrip(&Build { cr: CodeRaw { code: c.code.clone(), len: c.len, fill: c.fill.clone() }, extra: Hex(vec![]) }, cx)
}
fn var_codes() -> Vec<String> {
    r::all_codes().into_iter().filter(|c| b"456789".contains(&c.as_bytes()[0])).collect()
}
pub fn c01() -> Vec<Sub> {
    let b = || (code_raw(var_len), prop_oneof![6 => vec(any::<u8>(), 0..8), 1 => vec(any::<u8>(), 8..260)].prop_map(Hex)).prop_map(|(cr, extra)| Build { cr, extra }).boxed();
    vec![
        sub("c01_roundtrip", "code x raw value (x extra raw bytes for fixed sizes) built, encoded and read back, compared with the reference codec; every case is non-trivial", 150_000, 3_000_000, b, c01_roundtrip),
        sub("c01_short", "raw material 1..8 bytes short of a fixed-size code; non-trivial when the code is fixed-size", 20_000, 200_000, b, c01_short),
        sub("c01_var", "variable-size material of 0..300 and 12 270..12 300 bytes (the size switch); every case is non-trivial", 40_000, 600_000,
            || (proptest::sample::select(var_codes()), prop_oneof![2 => 0usize..300, 1 => 12_270usize..12_300], fill()).prop_map(|(code, len, fill)| VarLen { code, len, fill }).boxed(), c01_var),
        sub("c01_large", "large-size material up to 70 000 bytes, seldom up to 1.1 MB (thorough: mostly up to 1 MB); every case is non-trivial", 300, 3000,
            large, c01_var),
    ]
}
/// Large-size material, half of it around lengths at which a field of the size grows by a bit.
fn large() -> BoxedStrategy<VarLen> {
    let (top, bits) = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { (1_000_000usize, 18) } else { (70_000, 15) };
    let edge = (12u32..bits, 0usize..12).prop_map(|(b, d)| (1usize << b) * 3 + d - 6);
    (proptest::sample::select(var_codes()), prop_oneof![16 => 12_000..top, 16 => edge, 4 => dict::lens(top), 1 => prop_oneof![1 => top..1_100_000, 1 => (15u32..19, 0usize..12).prop_map(|(b, d)| (1usize << b) * 3 + d - 6)]], fill()).prop_map(|(code, len, fill)| VarLen { code, len, fill }).boxed()
}

// ---- C02 ----------------------------------------------------------------------------------------

fn c02(c: &Build, cx: &mut Cx) -> R {
    let raw = c.cr.raw();
    let Some(want) = r::mat_build(&c.cr.code, &raw) else { fail!("generator: no material") };
    let bin = r::text_to_bin(&want.text);
    cx.hit();
    cx.class(format!("code {}", want.code));
    let m: Mtr = must(Matter::new(Some(&c.cr.code), Some(&raw), None, None, None), "code and raw")?;
    same!(Hex(must(m.qb2(), "qb2 of built")?), Hex(bin.clone()), "binary form");
    let m2: Mtr = must(Matter::new(None, None, None, None, Some(&bin)), "own binary form")?;
    check_mtr(&m2, &want, "read from binary")?;
    same!(must(m2.qb64(), "qb64 of read from binary")?, want.text, "text form of read from binary");
    same!(Hex(must(m2.qb2(), "qb2 of read from binary")?), Hex(bin.clone()), "binary form again");
    let m3: Mtr = must(Matter::new(None, None, None, Some(&want.text), None), "own text form")?;
    same!(m3, m2, "read from text and from binary");
    same!(Hex(must(m3.qb2(), "qb2 of read from text")?), Hex(bin.clone()), "binary form of read from text");
    same!(must(Mtr::new_with_qb2(&bin), "qb2 directly")?, m2, "read directly from binary");
    Ok(())
}
pub fn c02_subs() -> Vec<Sub> {
    let b = |l: fn() -> BoxedStrategy<usize>| move || (code_raw(l), Just(Hex(vec![]))).prop_map(|(cr, extra)| Build { cr, extra }).boxed();
    fn edge() -> BoxedStrategy<usize> {
        prop_oneof![1 => 0usize..200, 1 => 12_270usize..12_300].boxed()
    }
    vec![
        sub("c02_agree", "code x raw value in both domains, compared with the reference codec; every case is non-trivial", 150_000, 3_000_000, b(var_len), c02),
        sub("c02_edge", "same with lengths 0..200 and around the size switch", 30_000, 400_000, b(edge), c02),
        sub("c02_large", "same with large-size material up to 70 000 bytes, seldom up to 1.1 MB (thorough: mostly up to 1 MB), half of it around 3 x a power of two bytes", 400, 3000, large, |c: &VarLen, cx: &mut Cx| {
            c02(&Build { cr: CodeRaw { code: c.code.clone(), len: c.len, fill: c.fill.clone() }, extra: Hex(vec![]) }, cx)
        }),
    ]
}

// ---- C03, C06 -----------------------------------------------------------------------------------

/// Input made from a valid encoding (or noise), edits and trailing bytes.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Base {
    Mat(CodeRaw),
    Idx { code: String, index: u32, ondex: Option<u32>, fill: Fill },
    Cnt { code: String, count: u32 },
    Noise(Hex),
    /// one changed bit between code and raw value of valid material (pad bits, lead bytes)
    Pad { of: Box<Base>, bit: u16 },
}
impl Base {
    /// valid text of this base, and its code length
    pub fn text(&self) -> Vec<u8> {
        match self {
            Base::Mat(cr) => r::mat_build(&cr.code, &cr.raw()).map(|m| m.text).unwrap_or_default().into_bytes(),
            Base::Idx { code, index, ondex, fill } => {
                let mut index = *index;
                let x = r::INDEXED.iter().find(|x| x.0 == code.as_str()).unwrap();
                let rs = if x.3 == usize::MAX {
                    index = if index % 19 == 0 { index / 19 % 4096 } else { index % 60 };
                    index as usize * 3
                } else {
                    x.3
                };
                index %= 64u32.pow(x.1 as u32);
                let ondex = match x.4 {
                    r::Lists::Current => None,
                    _ if x.2 == 0 => None,
                    _ => ondex.map(|o| o % 64u32.pow(x.2 as u32)),
                };
                r::idx_build(code, &fill.make(rs), index, ondex).map(|m| m.text).unwrap_or_default().into_bytes()
            }
            Base::Cnt { code, count } => {
                let n = r::COUNTERS.iter().find(|x| x.0 == code.as_str()).unwrap().1;
                r::cnt_build(code, *count as u64 % 64u64.pow(n as u32)).unwrap().text.into_bytes()
            }
            Base::Noise(h) => h.0.clone(),
            Base::Pad { of, bit } => {
                let mut t = of.text();
                // flip one bit of the 4 characters after the code, where pad bits and lead bytes are
                let hs = match t.first() {
                    Some(b'0') | Some(b'2') | Some(b'3') | Some(b'4'..=b'6') => 2,
                    Some(b'1') | Some(b'7'..=b'9') => 4,
                    _ => 1,
                };
                let plen = match &**of {
                    Base::Mat(_) if matches!(t.first(), Some(b'4'..=b'9')) => hs * 2,
                    Base::Mat(cr) => cr.code.len(),
                    Base::Idx { code, .. } => {
                        let x = r::INDEXED.iter().find(|x| x.0 == code.as_str()).unwrap();
                        code.len() + x.1 + x.2
                    }
                    _ => hs,
                };
                let b = *bit as usize % 24;
                let p = plen + b / 6;
                if p < t.len() {
                    if let Some(v) = r::val(t[p]) {
                        t[p] = r::ALPHABET[(v ^ 1 << (5 - b % 6)) as usize];
                    }
                }
                t
            }
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Input {
    pub base: Base,
    pub edits: Vec<Edit>,
    /// edit the binary form instead of the text form
    pub bin_edits: bool,
    pub tail: Hex,
}
impl Input {
    /// text-domain and binary-domain bytes to feed
    pub fn bytes(&self) -> (Vec<u8>, Vec<u8>) {
        let mut t = self.base.text();
        let mut b = match std::str::from_utf8(&t) {
            Ok(s) if s.len() % 4 == 0 && t.iter().all(|c| r::val(*c).is_some()) => r::text_to_bin(s),
            _ => t.clone(),
        };
        if self.bin_edits {
            apply(&self.edits, &mut b);
        } else {
            apply(&self.edits, &mut t);
            // the changed text as binary as far as it still is one
            let n = t.iter().take_while(|c| r::val(**c).is_some()).count() / 4 * 4;
            if n >= 4 {
                b = r::text_to_bin(std::str::from_utf8(&t[..n]).unwrap());
            }
        }
        t.extend_from_slice(&self.tail.0);
        b.extend_from_slice(&self.tail.0);
        (t, b)
    }
}
pub fn index_val() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => proptest::sample::select(vec![0u32, 1, 2, 3, 62, 63, 64, 65, 127, 128, 255, 256, 4094, 4095, 4096, 4097, 262_142, 262_143, 262_144, 16_777_215, u32::MAX - 1, u32::MAX]),
        2 => 0u32..64,
        2 => 0u32..5000,
        1 => 0u32..300_000,
        1 => any::<u32>(),
        2 => dict::u32s(0, u32::MAX),
    ]
    .boxed()
}
fn idx_base() -> BoxedStrategy<Base> {
    let codes: Vec<String> = r::INDEXED.iter().map(|x| x.0.to_string()).collect();
    (proptest::sample::select(codes), index_val(), proptest::option::of(index_val()), fill())
        .prop_map(|(code, index, ondex, fill)| Base::Idx { code, index, ondex, fill })
        .boxed()
}
fn cnt_base() -> BoxedStrategy<Base> {
    let codes: Vec<String> = r::COUNTERS.iter().map(|x| x.0.to_string()).collect();
    (proptest::sample::select(codes), count_val()).prop_map(|(code, count)| Base::Cnt { code, count }).boxed()
}
fn count_val() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => proptest::sample::select(vec![0u32, 1, 2, 63, 64, 4095, 4096, 262_143, 262_144, 16_777_216, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, u32::MAX]),
        2 => 0u32..5000,
        1 => any::<u32>(),
        2 => dict::u32s(0, u32::MAX),
    ]
    .boxed()
}
fn mat_base() -> BoxedStrategy<Base> {
    code_raw(var_len_light).prop_map(Base::Mat).boxed()
}
pub fn input(base: BoxedStrategy<Base>) -> BoxedStrategy<Input> {
    let base2 = base.clone();
    let b = prop_oneof![
        6 => base.clone(),
        2 => (base2, any::<u16>()).prop_map(|(b, bit)| Base::Pad { of: Box::new(b), bit }),
        1 => noise().prop_map(Base::Noise),
    ];
    (b, prop_oneof![2 => Just(vec![]), 6 => vec(edit(), 1), 2 => vec(edit(), 2..4)], any::<bool>(), trailing())
        .prop_map(|(base, edits, bin_edits, tail)| Input { base, edits, bin_edits, tail })
        .boxed()
}
fn judge<T: std::fmt::Debug, W: std::fmt::Debug>(got: anyhow::Result<T>, want: Option<W>, what: &str, cmp: impl Fn(&T, &W) -> R) -> R {
    match (got, want) {
        (Ok(g), Some(w)) => cmp(&g, &w),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("{what}: accepted as {} though not a canonical encoding", short(&g))),
        (Err(e), Some(w)) => Err(format!("{what}: {} was refused: {e}", short(&w))),
    }
}
fn c03(c: &Input, cx: &mut Cx) -> R {
    let (t, b) = c.bytes();
    let (wt, wb) = (r::mat_read(&t), r::mat_read_bin(&b));
    if !t.is_empty() {
        cx.hit();
    }
    cx.class(if wt.is_some() { "text accepted" } else { "text refused" });
    cx.class(if wb.is_some() { "binary accepted" } else { "binary refused" });
    let cmp = |m: &Mtr, w: &r::Mat| check_mtr(m, w, "accepted");
    judge(<Mtr as Matter>::new(None, None, Some(&t), None, None), wt.clone(), "text bytes", cmp)?;
    if let Ok(s) = std::str::from_utf8(&t) {
        judge(<Mtr as Matter>::new(None, None, None, Some(s), None), wt, "text", cmp)?;
    } else {
        cx.class("text not UTF-8");
    }
    judge(<Mtr as Matter>::new(None, None, None, None, Some(&b)), wb, "binary", cmp)
}
pub fn c03_subs() -> Vec<Sub> {
    vec![sub(
        "c03_canonical",
        "valid encodings with 0..3 edits (characters, bits, truncation, code heads, pad bits), noise, and trailing bytes, in both domains; the reference decoder says accept or refuse; non-trivial unless the input is empty",
        600_000,
        12_000_000,
        || input(prop_oneof![12 => mat_base(), 1 => idx_base(), 1 => cnt_base()].boxed()),
        c03,
    )]
}
fn cmp_idx(m: &Ixr, w: &r::Idx) -> R {
    same!(m.code(), w.code, "code");
    same!(m.raw(), w.raw, "raw");
    same!(m.index(), w.index, "index");
    same!(m.ondex(), w.ondex, "ondex");
    same!(must(m.full_size(), "full size")?, w.text.len(), "full size");
    Ok(())
}
fn c06(c: &Input, cx: &mut Cx) -> R {
    let (t, b) = c.bytes();
    let (wt, wb) = (r::idx_read(&t), r::idx_read_bin(&b));
    if !t.is_empty() {
        cx.hit();
    }
    cx.class(if wt.is_some() { "text accepted" } else { "text refused" });
    cx.class(if wb.is_some() { "binary accepted" } else { "binary refused" });
    let new = |b64: Option<&[u8]>, s: Option<&str>, b2: Option<&[u8]>| <Ixr as Indexer>::new(None, None, None, None, b64, s, b2);
    judge(new(Some(&t), None, None), wt.clone(), "text bytes", cmp_idx)?;
    if let Ok(s) = std::str::from_utf8(&t) {
        judge(new(None, Some(s), None), wt, "text", cmp_idx)?;
    }
    judge(new(None, None, Some(&b)), wb, "binary", cmp_idx)
}
pub fn c06_subs() -> Vec<Sub> {
    vec![sub(
        "c06_canonical",
        "valid indexed signatures with 0..3 edits, noise, and trailing bytes, in both domains; the reference decoder says accept or refuse; non-trivial unless the input is empty",
        600_000,
        12_000_000,
        || input(prop_oneof![12 => idx_base(), 1 => mat_base(), 1 => cnt_base()].boxed()),
        c06,
    )]
}

// ---- C05 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct IdxBuild {
    code: String,
    index: u32,
    ondex: Option<u32>,
    fill: Fill,
    len_delta: i8,
}
fn c05(c: &IdxBuild, cx: &mut Cx) -> R {
    let x = r::INDEXED.iter().find(|x| x.0 == c.code).unwrap();
    let rs = if x.3 == usize::MAX { (c.index.min(5000) as usize) * 3 } else { x.3 };
    let len = (rs as i64 + c.len_delta as i64).max(0) as usize;
    let raw = c.fill.make(len);
    // the variable-size test code takes its size from the index
    let want = if x.3 == usize::MAX && c.index > 4095 { None } else { r::idx_build(&c.code, &raw, c.index, c.ondex) };
    cx.hit();
    cx.class(format!("code {} {}", c.code, if want.is_some() { "accepted" } else { "refused" }));
    let got: anyhow::Result<Ixr> = Indexer::new(Some(c.index), c.ondex, Some(&c.code), Some(&raw), None, None, None);
    let Some(want) = want else { return refuse(got, "index, ondex or raw size outside the code's range") };
    let m = must(got, "valid indexed material")?;
    cmp_idx(&m, &want)?;
    let bin = r::text_to_bin(&want.text);
    same!(must(m.qb64(), "qb64")?, want.text, "text form");
    same!(must(m.qb64b(), "qb64b")?, want.text.as_bytes(), "text form as bytes");
    same!(Hex(must(m.qb2(), "qb2")?), Hex(bin.clone()), "binary form");
    // reading back; the test codes report the other index as written only
    let mut back = want.clone();
    if c.code == "0z" {
        back.ondex = back.index;
    }
    let m2: Ixr = must(Indexer::new(None, None, None, None, None, Some(&want.text), None), "own text")?;
    cmp_idx(&m2, &back)?;
    let m3: Ixr = must(Indexer::new(None, None, None, None, Some(want.text.as_bytes()), None, None), "own text bytes")?;
    same!(m3, m2, "read from bytes");
    let m4: Ixr = must(Indexer::new(None, None, None, None, None, None, Some(&bin)), "own binary")?;
    same!(m4, m2, "read from binary");
    same!(must(m4.qb64(), "qb64 of read from binary")?, want.text, "text of read from binary");
    same!(Hex(must(m2.qb2(), "qb2 of read from text")?), Hex(bin), "binary of read from text");
    same!(must(Ixr::new_with_code_and_raw(&c.code, &raw, c.index, c.ondex), "directly")?, m, "built directly");
    Ok(())
}
/// The typed signature of the same.
fn c05_siger(c: &IdxBuild, cx: &mut Cx) -> R {
    use keride::cesr::Siger;
    let x = r::INDEXED.iter().find(|x| x.0 == c.code).unwrap();
    let ed448 = c.code.starts_with('3') || c.code == "0A" || c.code == "0B" || x.4 == r::Lists::Test;
    let raw = c.fill.make(if x.3 == usize::MAX { 12 } else { x.3 });
    let want = r::idx_build(&c.code, &raw, c.index, c.ondex).filter(|_| !ed448);
    cx.hit();
    let got = Siger::new(None, Some(c.index), c.ondex, Some(&c.code), Some(&raw), None, None, None);
    let Some(want) = want else { return refuse(got, "foreign code, index or ondex") };
    let m = must(got, "valid indexed signature")?;
    let bin = r::text_to_bin(&want.text);
    let cmp = |m: &Siger, what: &str| -> R {
        same!(m.code(), want.code, "{what}: code");
        same!(m.raw(), want.raw, "{what}: raw");
        same!(m.index(), want.index, "{what}: index");
        same!(m.ondex(), want.ondex, "{what}: ondex");
        same!(must(m.qb64(), "qb64")?, want.text, "{what}: text form");
        same!(Hex(must(m.qb2(), "qb2")?), Hex(bin.clone()), "{what}: binary form");
        same!(must(m.full_size(), "full_size")?, want.text.len(), "{what}: full size");
        Ok(())
    };
    cmp(&m, "built")?;
    cmp(&must(Siger::new_with_qb64(&want.text, None), "text")?, "from text")?;
    cmp(&must(Siger::new_with_qb64b(want.text.as_bytes(), None), "text bytes")?, "from text bytes")?;
    cmp(&must(Siger::new_with_qb2(&bin, None), "binary")?, "from binary")?;
    cmp(&must(Siger::new_with_raw(&raw, None, Some(c.index), c.ondex, Some(&c.code)), "raw")?, "from raw")
}
pub fn c05_subs() -> Vec<Sub> {
    let g = |exact: bool| {
        move || {
            let codes: Vec<String> = r::INDEXED.iter().map(|x| x.0.to_string()).collect();
            (proptest::sample::select(codes), index_val(), proptest::option::of(index_val()), any::<bool>(), fill(), prop_oneof![8 => Just(0i8), 1 => -4i8..0, 1 => 1i8..5])
                .prop_map(move |(code, index, ondex, fit, fill, d)| {
                    // half of the cases keep both indices within what the code can carry
                    let x = r::INDEXED.iter().find(|x| x.0 == code.as_str()).unwrap();
                    let (mut index, mut ondex) = (index, ondex);
                    if fit {
                        index %= 64u32.pow(x.1 as u32);
                        ondex = match x.4 {
                            r::Lists::Current => None,
                            _ if x.2 == 0 => ondex.map(|o| if o % 3 == 0 { o } else { index }),
                            _ => ondex.map(|o| o % 64u32.pow(x.2 as u32)),
                        };
                    }
                    IdxBuild { code, index, ondex, fill, len_delta: if exact { 0 } else { d } }
                })
                .boxed()
        }
    };
    vec![
        sub("c05_roundtrip", "indexed code x raw x index x ondex (boundary-biased, half within range) built, encoded in both domains and read back, compared with the reference codec; every case is non-trivial", 250_000, 5_000_000, g(false), c05),
        sub("c05_siger", "same through the typed indexed signature, which also refuses codes of other kinds", 100_000, 2_000_000, g(true), c05_siger),
    ]
}

// ---- C07 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CntBuild {
    code: String,
    count: u64,
    as_b64: Option<String>,
}
fn cmp_cnt(m: &Counter, w: &r::Cnt) -> R {
    same!(m.code(), w.code, "code");
    same!(m.count(), w.count, "count");
    same!(must(m.full_size(), "full size")?, w.text.len(), "full size");
    Ok(())
}
fn c07_build(c: &CntBuild, cx: &mut Cx) -> R {
    cx.hit();
    let (count, got) = match &c.as_b64 {
        Some(s) => (r::b64_to_num(s.as_bytes()).unwrap_or(u64::MAX), Counter::new(None, Some(s), Some(&c.code), None, None, None)),
        None => {
            let n = c.count as u32;
            (n as u64, Counter::new(Some(n), None, Some(&c.code), None, None, None))
        }
    };
    let want = r::cnt_build(&c.code, count);
    cx.class(format!("code {} {}", c.code, if want.is_some() { "accepted" } else { "refused" }));
    let Some(want) = want else { return refuse(got, "count that does not fit") };
    let m = must(got, "valid count")?;
    let bin = r::text_to_bin(&want.text);
    cmp_cnt(&m, &want)?;
    same!(must(m.qb64(), "qb64")?, want.text, "text form");
    same!(must(m.qb64b(), "qb64b")?, want.text.as_bytes(), "text form as bytes");
    same!(Hex(must(m.qb2(), "qb2")?), Hex(bin.clone()), "binary form");
    same!(must(m.count_as_b64(0), "count_as_b64")?, want.text[want.code.len()..], "count as Base64");
    for n in want.text.len() - want.code.len()..9 {
        same!(must(m.count_as_b64(n), "count_as_b64")?, r::num_to_b64(count, n), "count as Base64 of {n} characters");
    }
    for (m, what) in [
        (Counter::new(None, None, None, None, Some(&want.text), None), "text"),
        (Counter::new(None, None, None, Some(want.text.as_bytes()), None, None), "text bytes"),
        (Counter::new(None, None, None, None, None, Some(&bin)), "binary"),
        (Counter::new_with_code_and_count(&c.code, count as u32), "code and count"),
    ] {
        let m = must(m, what)?;
        cmp_cnt(&m, &want).map_err(|e| format!("{what}: {e}"))?;
        same!(must(m.qb64(), what)?, want.text, "{what}: text form");
        same!(Hex(must(m.qb2(), what)?), Hex(bin.clone()), "{what}: binary form");
    }
    Ok(())
}
fn c07_read(c: &Input, cx: &mut Cx) -> R {
    let (t, b) = c.bytes();
    let (wt, wb) = (r::cnt_read(&t), r::cnt_read_bin(&b));
    if !t.is_empty() {
        cx.hit();
    }
    cx.class(if wt.is_some() { "text accepted" } else { "text refused" });
    cx.class(if wb.is_some() { "binary accepted" } else { "binary refused" });
    judge(Counter::new(None, None, None, Some(&t), None, None), wt.clone(), "text bytes", cmp_cnt)?;
    if let Ok(s) = std::str::from_utf8(&t) {
        judge(Counter::new(None, None, None, None, Some(s), None), wt, "text", cmp_cnt)?;
    }
    judge(Counter::new(None, None, None, None, None, Some(&b)), wb, "binary", cmp_cnt)
}
/// Semantic versions as three Base64 digits.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ver(u8, u8, u8);
fn c07_version(c: &Ver, cx: &mut Cx) -> R {
    cx.hit();
    let ok = c.0 < 64 && c.1 < 64 && c.2 < 64;
    let got = Counter::sem_ver_to_b64(c.0, c.1, c.2);
    let got2 = Counter::sem_ver_str_to_b64(&format!("{}.{}.{}", c.0, c.1, c.2));
    if !ok {
        refuse(got, "version part above 63")?;
        return refuse(got2, "version part above 63");
    }
    let want: String = [c.0, c.1, c.2].iter().map(|p| r::ALPHABET[*p as usize] as char).collect();
    same!(must(got, "version")?, want, "version as Base64");
    same!(must(got2, "version text")?, want, "version text as Base64");
    // the version counter carries it
    let k = must(Counter::new(None, Some(&want), Some("--AAA"), None, None, None), "version counter")?;
    same!(must(k.qb64(), "qb64")?, format!("--AAA{want}"), "version counter text");
    Ok(())
}
pub fn c07_subs() -> Vec<Sub> {
    vec![
        sub("c07_build", "counter code x count (integer or Base64 text, boundary-biased, also beyond the limit); every case is non-trivial", 250_000, 4_000_000, || {
            let codes: Vec<String> = r::COUNTERS.iter().map(|x| x.0.to_string()).collect();
            let near = (0u32..6, -2i64..3).prop_map(|(p, d)| (64i64.pow(p) + d).max(0) as u64);
            (proptest::sample::select(codes), prop_oneof![2 => count_val().prop_map(|x| x as u64), 2 => near], proptest::option::of(prop_oneof![3 => b64_string(0..8), 1 => (1usize..6, b64_string(1..4)).prop_map(|(n, s)| "A".repeat(n) + &s)]))
                .prop_map(|(code, count, as_b64)| CntBuild { code, count, as_b64 }).boxed()
        }, c07_build),
        sub("c07_read", "valid counters with 0..3 edits, noise, other primitives, trailing bytes, both domains; the reference decoder says accept or refuse; non-trivial unless empty", 300_000, 6_000_000,
            || input(prop_oneof![10 => cnt_base(), 1 => mat_base(), 1 => idx_base()].boxed()), c07_read),
        sub("c07_version", "semantic versions 0..255 per part", 20_000, 200_000, || (any::<u8>(), 0u8..70, 0u8..70).prop_map(|(a, b, c)| Ver(a % 80, b, c)).boxed(), c07_version),
    ]
}

// ---- C29 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Stream {
    items: Vec<Base>,
    tail: Hex,
}
#[derive(Debug, Clone, PartialEq)]
enum Item {
    M(String, Vec<u8>),
    I(String, Vec<u8>, u32, u32),
    C(String, u32),
}
/// What comes next in a stream of groups: counters announce how many indexed signatures follow;
/// anything else is material.
fn c29(c: &Stream, cx: &mut Cx) -> R {
    // a counter -A announces the run of indexed signatures after it, as in an attachment stream
    let mut items: Vec<Base> = vec![];
    let mut i = 0;
    while i < c.items.len() {
        match &c.items[i] {
            Base::Idx { .. } => {
                let n = c.items[i..].iter().take_while(|b| matches!(b, Base::Idx { .. })).count();
                items.push(Base::Cnt { code: "-A".into(), count: n as u32 });
                items.extend_from_slice(&c.items[i..i + n]);
                i += n;
            }
            b => {
                // only -A announces indexed signatures here
                match b {
                    Base::Cnt { code, count } if code == "-A" => items.push(Base::Cnt { code: "-B".into(), count: *count }),
                    b => items.push(b.clone()),
                }
                i += 1;
            }
        }
    }
    if items.len() > 1 {
        cx.hit();
    }
    let mut text = String::new();
    let mut bin = vec![];
    let mut want = vec![];
    for b in &items {
        let t = b.text();
        let t = std::str::from_utf8(&t).unwrap();
        // the library writes its own encodings into the stream
        match b {
            Base::Mat(cr) => {
                let m: Mtr = must(Matter::new(Some(&cr.code), Some(&cr.raw()), None, None, None), "material")?;
                text += &must(m.qb64(), "qb64")?;
                bin.extend(must(m.qb2(), "qb2")?);
                want.push(Item::M(m.code(), m.raw()));
            }
            Base::Idx { .. } => {
                let w = r::idx_read(t.as_bytes()).unwrap();
                let x = r::INDEXED.iter().find(|x| x.0 == w.code).unwrap();
                let o = if x.4 == r::Lists::Current { None } else { Some(w.ondex) };
                let m: Ixr = must(Indexer::new(Some(w.index), o, Some(&w.code), Some(&w.raw), None, None, None), "indexed")?;
                text += &must(m.qb64(), "qb64")?;
                bin.extend(must(m.qb2(), "qb2")?);
                want.push(Item::I(m.code(), m.raw(), m.index(), m.ondex()));
            }
            Base::Cnt { .. } => {
                let w = r::cnt_read(t.as_bytes()).unwrap();
                let m = must(Counter::new_with_code_and_count(&w.code, w.count), "counter")?;
                text += &must(m.qb64(), "qb64")?;
                bin.extend(must(m.qb2(), "qb2")?);
                want.push(Item::C(m.code(), m.count()));
            }
            _ => {}
        }
    }
    cx.class(format!("{} items", if want.len() > 9 { "10+".to_string() } else { want.len().to_string() }));
    ensure!(text.len() % 4 == 0 && text.bytes().all(|c| r::val(c).is_some()), "text stream is not whole quadlets");
    same!(Hex(bin.clone()), Hex(r::text_to_bin(&text)), "binary stream against decoded text stream");
    let size = text.len();
    let mut tstream = text.into_bytes();
    tstream.extend_from_slice(&c.tail.0);
    bin.extend_from_slice(&c.tail.0);
    for binary in [false, true] {
        let mut at = 0; // in characters of the text domain
        let mut got = vec![];
        let mut indexed = 0u32;
        while at < size {
            let (s, b): (&[u8], &[u8]) = (&tstream[at..], &bin[at / 4 * 3..]);
            // the first character decides: '-' starts a counter
            let first = if binary { r::ALPHABET[(b[0] >> 2) as usize] } else { s[0] };
            let what = if binary { "binary stream" } else { "text stream" };
            if first == b'-' {
                let m = must(if binary { Counter::new_with_qb2(b) } else { Counter::new_with_qb64b(s) }, what)?;
                at += must(m.full_size(), what)?;
                if m.code() == "-A" {
                    indexed = m.count();
                }
                got.push(Item::C(m.code(), m.count()));
                // nothing else takes it
                ensure!((if binary { Mtr::new_with_qb2(b) } else { Mtr::new_with_qb64b(s) }).is_err(), "{what}: counter taken for material");
                ensure!((if binary { Ixr::new_with_qb2(b) } else { Ixr::new_with_qb64b(s) }).is_err(), "{what}: counter taken for indexed material");
            } else {
                ensure!((if binary { Counter::new_with_qb2(b) } else { Counter::new_with_qb64b(s) }).is_err(), "{what}: primitive taken for a counter");
                if indexed > 0 {
                    indexed -= 1;
                    let m = must(if binary { Ixr::new_with_qb2(b) } else { Ixr::new_with_qb64b(s) }, what)?;
                    at += must(m.full_size(), what)?;
                    got.push(Item::I(m.code(), m.raw(), m.index(), m.ondex()));
                } else {
                    let m = must(if binary { Mtr::new_with_qb2(b) } else { Mtr::new_with_qb64b(s) }, what)?;
                    at += must(m.full_size(), what)?;
                    got.push(Item::M(m.code(), m.raw()));
                }
            }
            ensure!(got.len() <= want.len(), "{what}: more primitives than written");
        }
        same!(at, size, "characters consumed ({})", if binary { "binary" } else { "text" });
        same!(got, want, "sequence read back ({})", if binary { "binary" } else { "text" });
    }
    Ok(())
}
pub fn c29_subs() -> Vec<Sub> {
    vec![sub(
        "c29_stream",
        "0..12 mixed primitives of all codes written by the library, concatenated in both domains with trailing bytes, and read back by full size alone; non-trivial with two or more primitives",
        60_000,
        1_000_000,
        || {
            let it = prop_oneof![4 => mat_base(), 3 => idx_base(), 2 => cnt_base()];
            (vec(it, 0..12), trailing()).prop_map(|(items, tail)| Stream { items, tail }).boxed()
        },
        c29,
    )]
}
