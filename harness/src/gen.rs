//! Shared case types and generators.
use crate::dict;
use crate::fw::Hex;
use keride::cesr::{Indexer, Matter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Material of any code: the crate's trait with nothing but storage behind it.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Mtr {
    code: String,
    raw: Vec<u8>,
    size: u32,
}
impl Matter for Mtr {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
}
/// Indexed material of any code.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Ixr {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for Ixr {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index;
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex;
    }
}

/// Deterministic expansion of a generated seed into bytes.
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// How bytes of a given length are filled.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Fill {
    Random(u64),
    All(u8),
    /// first bytes zero, rest random
    LeadZero(u8, u64),
    /// last bytes zero, rest random
    TailZero(u8, u64),
    OneBit(u16),
    /// random, with these bytes at a position (from the start, or from the end when odd)
    Word(Hex, u16, u64),
}
impl Fill {
    pub fn make(&self, len: usize) -> Vec<u8> {
        let rnd = |s: u64| {
            let mut m = Mix(s);
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                v.extend_from_slice(&m.next().to_be_bytes());
            }
            v.truncate(len);
            v
        };
        match self {
            Fill::Random(s) => rnd(*s),
            Fill::All(b) => vec![*b; len],
            Fill::LeadZero(k, s) => {
                let mut v = rnd(*s);
                v.iter_mut().take(*k as usize).for_each(|b| *b = 0);
                v
            }
            Fill::TailZero(k, s) => {
                let mut v = rnd(*s);
                v.iter_mut().rev().take(*k as usize).for_each(|b| *b = 0);
                v
            }
            Fill::OneBit(i) => {
                let mut v = vec![0; len];
                if len > 0 {
                    let i = *i as usize % (len * 8);
                    v[i / 8] = 0x80 >> (i % 8);
                }
                v
            }
            Fill::Word(w, p, s) => {
                let mut v = rnd(*s);
                let n = w.0.len().min(len);
                if n > 0 {
                    let p = (*p as usize).checked_rem(2 * (len - n) + 2).unwrap_or(0);
                    let p = if p % 2 == 0 { p / 2 } else { len - n - p / 2 };
                    v[p..p + n].copy_from_slice(&w.0[..n]);
                }
                v
            }
        }
    }
}
pub fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        8 => any::<u64>().prop_map(Fill::Random),
        1 => prop_oneof![Just(0u8), Just(0xff), Just(0x80), Just(1)].prop_map(Fill::All),
        2 => (1u8..5, any::<u64>()).prop_map(|(k, s)| Fill::LeadZero(k, s)),
        1 => (1u8..5, any::<u64>()).prop_map(|(k, s)| Fill::TailZero(k, s)),
        1 => any::<u16>().prop_map(Fill::OneBit),
        1 => (dict::word(), prop_oneof![1 => 0u16..2, 1 => any::<u16>()], any::<u64>()).prop_map(|(w, p, s)| Fill::Word(Hex(w), p, s)),
    ]
    .boxed()
}

/// Lengths of variable-size raw values: short, medium, around the switch of code sizes, long.
pub fn var_len() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..64,
        3 => 64usize..2000,
        2 => 12_270usize..12_300,
        1 => 2000usize..20_000,
        1 => dict::lens(20_000),
    ]
    .boxed()
}
/// Same, seldom long (for expensive checks).
pub fn var_len_light() -> BoxedStrategy<usize> {
    prop_oneof![30 => 0usize..64, 8 => 64usize..600, 3 => dict::lens(600), 1 => 12_280usize..12_292].boxed()
}
pub fn mat_code() -> BoxedStrategy<String> {
    let fixed: Vec<String> = crate::refcesr::FIXED.iter().map(|x| x.0.to_string()).collect();
    let var: Vec<String> =
        crate::refcesr::all_codes().into_iter().filter(|c| b"456789".contains(&c.as_bytes()[0])).collect();
    prop_oneof![
        3 => proptest::sample::select(fixed),
        2 => proptest::sample::select(var),
    ]
    .boxed()
}
/// A code and a raw value for it.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct CodeRaw {
    pub code: String,
    pub len: usize,
    pub fill: Fill,
}
impl CodeRaw {
    pub fn raw(&self) -> Vec<u8> {
        self.fill.make(self.len)
    }
}
/// Codes with raw values they admit (exactly the size of a fixed-size code).
pub fn code_raw(len: fn() -> BoxedStrategy<usize>) -> BoxedStrategy<CodeRaw> {
    (mat_code(), len(), fill())
        .prop_map(|(code, len, fill)| {
            let len = crate::refcesr::fixed_raw_size(&code).unwrap_or(len);
            CodeRaw { code, len, fill }
        })
        .boxed()
}

pub fn b64_char() -> BoxedStrategy<u8> {
    proptest::sample::select(crate::refcesr::ALPHABET.to_vec()).boxed()
}
pub fn b64_string(len: impl Into<proptest::collection::SizeRange>) -> BoxedStrategy<String> {
    vec(b64_char(), len).prop_map(|v| String::from_utf8(v).unwrap()).boxed()
}

/// A change of an encoding.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Truncate(u16),
    /// drop this many bytes of the end
    Shorten(u16),
    Set(u16, u8),
    /// set counted from the end
    SetBack(u16, u8),
    FlipBit(u16, u8),
    Insert(u16, u8),
    Remove(u16),
    Append(Hex),
    Prepend(Hex),
    /// replace the first bytes
    Head(Hex),
}
impl Edit {
    pub fn apply(&self, v: &mut Vec<u8>) {
        let n = v.len();
        match self {
            Edit::Truncate(k) => v.truncate(*k as usize % (n + 1)),
            Edit::Shorten(k) => v.truncate(n.saturating_sub(*k as usize)),
            Edit::Set(p, b) if n > 0 => v[*p as usize % n] = *b,
            Edit::SetBack(p, b) if n > 0 => v[n - 1 - *p as usize % n] = *b,
            Edit::FlipBit(p, b) if n > 0 => v[*p as usize % n] ^= 1 << (b % 8),
            Edit::Insert(p, b) => v.insert(*p as usize % (n + 1), *b),
            Edit::Remove(p) if n > 0 => {
                v.remove(*p as usize % n);
            }
            Edit::Append(h) => v.extend_from_slice(&h.0),
            Edit::Prepend(h) => {
                let mut w = h.0.clone();
                w.extend_from_slice(v);
                *v = w;
            }
            Edit::Head(h) => {
                for (i, b) in h.0.iter().enumerate() {
                    if i < v.len() {
                        v[i] = *b;
                    } else {
                        v.push(*b);
                    }
                }
            }
            _ => {}
        }
    }
}
/// Positions: near the start (codes, sizes, pad bits) or anywhere.
fn pos() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..10, 1 => any::<u16>()].boxed()
}
/// Replacement bytes: characters of the alphabet, near misses of it, or anything.
fn rep() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => b64_char(),
        2 => proptest::sample::select(b"=+/.,:;@[`{ \n\r\t\0\"\\~\x7f".to_vec()),
        1 => any::<u8>(),
        1 => dict::bytes(),
    ]
    .boxed()
}
pub fn edit() -> BoxedStrategy<Edit> {
    let code_head = proptest::sample::select(
        crate::refcesr::all_codes()
            .into_iter()
            .chain(crate::refcesr::INDEXED.iter().map(|x| x.0.to_string()))
            .chain(crate::refcesr::COUNTERS.iter().map(|x| x.0.to_string()))
            .chain(["_", "_A", "a", "z", "-", "-Z", "-0", "-0A", "--", "--AAB", "0", "1", "1AA", "1AAZ", "4", "4C", "7AAC", "9"].map(String::from))
            .collect::<Vec<_>>(),
    );
    prop_oneof![
        2 => any::<u16>().prop_map(Edit::Truncate),
        3 => (1u16..9).prop_map(Edit::Shorten),
        5 => (pos(), rep()).prop_map(|(p, b)| Edit::Set(p, b)),
        3 => (0u16..5, rep()).prop_map(|(p, b)| Edit::SetBack(p, b)),
        4 => (pos(), 0u8..8).prop_map(|(p, b)| Edit::FlipBit(p, b)),
        1 => (pos(), rep()).prop_map(|(p, b)| Edit::Insert(p, b)),
        1 => pos().prop_map(Edit::Remove),
        2 => vec(rep(), 1..12).prop_map(|v| Edit::Append(Hex(v))),
        1 => dict::word().prop_map(|v| Edit::Append(Hex(v))),
        1 => dict::word().prop_map(|v| Edit::Prepend(Hex(v))),
        1 => dict::word().prop_map(|v| Edit::Head(Hex(v))),
        1 => proptest::sample::select(vec!["é", "€", "𝄞", "ÿ"]).prop_map(|s| Edit::Append(Hex(s.as_bytes().to_vec()))),
        1 => (pos(), proptest::sample::select(vec!["é", "€", "𝄞"])).prop_map(|(_, s)| Edit::Prepend(Hex(s.as_bytes().to_vec()))),
        2 => code_head.prop_map(|s| Edit::Head(Hex(s.into_bytes()))),
        1 => proptest::sample::select(vec!["Aé", "4A€", "4é", "-é", "1AA𝄞", "0é", "AA\u{80}"]).prop_map(|s| Edit::Head(Hex(s.as_bytes().to_vec()))),
    ]
    .boxed()
}
pub fn apply(edits: &[Edit], v: &mut Vec<u8>) {
    for e in edits {
        e.apply(v);
    }
}

/// Bytes that follow a primitive in a stream.
pub fn trailing() -> BoxedStrategy<Hex> {
    prop_oneof![
        2 => Just(Hex(vec![])),
        2 => vec(b64_char(), 1..12).prop_map(Hex),
        2 => vec(any::<u8>(), 1..12).prop_map(Hex),
        1 => proptest::sample::select(vec!["=", "==", "\n", "{\"v\":1}", "é", "-AAB"]).prop_map(|s| Hex(s.as_bytes().to_vec())),
    ]
    .boxed()
}
/// Arbitrary input bytes of the sizes primitives have.
pub fn noise() -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => vec(b64_char(), 0..100),
        1 => vec(rep(), 0..50),
        2 => vec(any::<u8>(), 0..100),
        1 => "\\PC{0,12}".prop_map(|s| s.into_bytes()),
    ]
    .prop_map(Hex)
    .boxed()
}
/// Data to digest or sign: mostly short, around the block sizes of hashes, seldom long.
pub fn ser_bytes() -> BoxedStrategy<Hex> {
    let len = prop_oneof![
        8 => proptest::sample::select(vec![63usize, 64, 65, 127, 128, 129, 135, 136, 137, 143, 144, 145, 1024, 1025]),
        4 => 0usize..3000,
        3 => dict::lens(5000),
        1 => prop_oneof![3 => 3000usize..20_000, 1 => 20_000usize..200_000, 1 => (12u32..17, 0usize..3).prop_map(|(b, d)| (1usize << b) + d - 1)],
    ];
    prop_oneof![
        16 => vec(any::<u8>(), 0..80),
        3 => (len, fill()).prop_map(|(n, f)| f.make(n)),
        1 => dict::word(),
    ]
    .prop_map(Hex)
    .boxed()
}
