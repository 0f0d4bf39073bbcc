//! Dictionary for the generators: the literals of the code under test, as a fuzzer takes one from a
//! binary. It only steers what is generated; every verdict comes from an oracle. Literals the tree
//! has more of than the tree this was built for (baseline.dict) are drawn more often, so that a
//! check run on a change explores around the values the change mentions.
use proptest::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::{Mutex, OnceLock};

#[derive(Default)]
pub struct Dict {
    pub ints: BTreeMap<u128, u32>,
    pub strs: BTreeMap<String, u32>,
}
fn lex(src: &str, d: &mut Dict) {
    let src = match src.find("#[cfg(test)]\nmod ") {
        Some(i) => &src[..i],
        None => src,
    };
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut prev = ' ';
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == 'r' && !prev.is_alphanumeric() && prev != '_' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) {
            let mut n = 0;
            while at(i + 1 + n) == '#' {
                n += 1;
            }
            let end: String = "\"".to_string() + &"#".repeat(n);
            let start = i + 2 + n;
            let rest: String = c[start.min(c.len())..].iter().collect();
            let len = rest.find(&end).unwrap_or(rest.len());
            let s = rest[..len].to_string();
            i = start + s.chars().count() + end.len();
            *d.strs.entry(s).or_default() += 1;
        } else if ch == '"' || ch == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            let q = ch;
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != q {
                if c[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = [at(i + 1), at(i + 2)].iter().collect();
                            let v = u8::from_str_radix(&h, 16).unwrap_or(0);
                            s.push(v as char);
                            *d.ints.entry(v as u128).or_default() += 1;
                            i += 2;
                        }
                        'u' => {
                            let h: String = c[i..].iter().skip(2).take_while(|c| **c != '}').collect();
                            s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                            i += 2 + h.len();
                        }
                        '\n' => {
                            while at(i + 1).is_whitespace() {
                                i += 1;
                            }
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            *d.strs.entry(s).or_default() += 1;
        } else if ch.is_ascii_digit() && !prev.is_alphanumeric() && prev != '_' {
            let mut t = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                t.push(c[i]);
                i += 1;
            }
            i -= 1;
            let t = t.replace('_', "");
            let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t);
            let v = match t.get(..2) {
                Some("0x") => u128::from_str_radix(&t[2..], 16),
                Some("0b") => u128::from_str_radix(&t[2..], 2),
                Some("0o") => u128::from_str_radix(&t[2..], 8),
                _ => t.parse(),
            };
            if let Ok(v) = v {
                *d.ints.entry(v).or_default() += 1;
            }
            i += 1;
        } else {
            i += 1;
        }
        prev = at(i.saturating_sub(1));
    }
}
fn walk(p: &Path, d: &mut Dict) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, d);
        } else if e.extension().is_some_and(|x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&e) {
                lex(&s, d);
            }
        }
    }
}
pub fn scan() -> Dict {
    let mut d = Dict::default();
    walk(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut d);
    d
}
/// The literals of the tree this was built for, one per line.
pub fn dump() -> String {
    let d = scan();
    let mut o = String::new();
    for (k, n) in &d.ints {
        o += &format!("{n} {k}\n");
    }
    for (k, n) in &d.strs {
        o += &format!("{n} {}\n", serde_json::to_string(k).unwrap());
    }
    o
}
#[derive(Default)]
struct Words {
    /// every value, and those the tree has more of than the baseline
    ints: Vec<u128>,
    fresh_ints: Vec<u128>,
    strs: Vec<String>,
    fresh_strs: Vec<String>,
}
fn words() -> &'static Words {
    static W: OnceLock<Words> = OnceLock::new();
    W.get_or_init(|| {
        let d = scan();
        let mut base = BTreeMap::new();
        for l in include_str!("../baseline.dict").lines() {
            if let Some((n, k)) = l.split_once(' ') {
                base.insert(k.to_string(), n.parse::<u32>().unwrap_or(0));
            }
        }
        let mut w = Words::default();
        for (k, n) in &d.ints {
            w.ints.push(*k);
            if base.get(&k.to_string()).is_none_or(|b| b < n) {
                w.fresh_ints.push(*k);
                // what shifts and powers of it make
                for p in [2u128, 10, 16, 64] {
                    if let Some(v) = u32::try_from(*k).ok().filter(|k| *k > 1).and_then(|k| p.checked_pow(k)) {
                        w.fresh_ints.push(v);
                    }
                }
            }
        }
        for (k, n) in &d.strs {
            if k.is_empty() || k.len() > 48 {
                continue;
            }
            w.strs.push(k.clone());
            if base.get(&serde_json::to_string(k).unwrap()).is_none_or(|b| b < n) {
                w.fresh_strs.push(k.clone());
            }
        }
        w
    })
}
fn near(v: &[u128], lo: u128, hi: u128) -> Vec<u128> {
    let mut o: Vec<u128> = v.iter().flat_map(|v| [v.saturating_sub(1), *v, v.saturating_add(1)]).filter(|v| (lo..=hi).contains(v)).collect();
    o.sort();
    o.dedup();
    o
}
type Two<T> = (&'static [T], &'static [T]);
fn keep<T>(all: Vec<T>, fresh: Vec<T>) -> Two<T> {
    (all.leak(), fresh.leak())
}
/// Selections are kept, strategies are built again and again.
fn kept<K: std::hash::Hash + Eq, T>(of: &'static OnceLock<Mutex<HashMap<K, Two<T>>>>, k: K, f: impl FnOnce() -> Two<T>) -> Two<T> {
    *of.get_or_init(Default::default).lock().unwrap().entry(k).or_insert_with(f)
}
fn pick<T: Clone + std::fmt::Debug + 'static>((all, fresh): Two<T>, other: BoxedStrategy<T>) -> BoxedStrategy<T> {
    match (all.is_empty(), fresh.is_empty()) {
        (true, true) => other,
        (true, false) => proptest::sample::select(fresh).boxed(),
        (false, true) => proptest::sample::select(all).boxed(),
        (false, false) => prop_oneof![3 => proptest::sample::select(all), 2 => proptest::sample::select(fresh)].boxed(),
    }
}
/// Literals of the code and their neighbours within a range (any value of the range if there is none).
pub fn ints(lo: u128, hi: u128) -> BoxedStrategy<u128> {
    static K: OnceLock<Mutex<HashMap<(u128, u128), Two<u128>>>> = OnceLock::new();
    let w = words();
    pick(kept(&K, (lo, hi), || keep(near(&w.ints, lo, hi), near(&w.fresh_ints, lo, hi))), (lo..=hi).boxed())
}
pub fn u32s(lo: u32, hi: u32) -> BoxedStrategy<u32> {
    ints(lo as u128, hi as u128).prop_map(|v| v as u32).boxed()
}
pub fn u64s(lo: u64, hi: u64) -> BoxedStrategy<u64> {
    ints(lo as u128, hi as u128).prop_map(|v| v as u64).boxed()
}
pub fn usizes(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    ints(lo as u128, hi as u128).prop_map(|v| v as usize).boxed()
}
/// Lengths such literals stand for: as bytes, as characters, as groups of three or four.
pub fn lens(hi: usize) -> BoxedStrategy<usize> {
    static K: OnceLock<Mutex<HashMap<usize, Two<usize>>>> = OnceLock::new();
    let w = words();
    let of = |v: &[u128]| -> Vec<usize> {
        let mut o: Vec<usize> = near(v, 0, 4 * hi as u128)
            .into_iter()
            .flat_map(|l| [l, l * 3, l * 3 / 4, (l * 3 / 4).saturating_sub(3), l * 4, l * 3 + 1, l.saturating_sub(4)])
            .filter(|l| *l <= hi as u128)
            .map(|l| l as usize)
            .collect();
        o.sort();
        o.dedup();
        o
    };
    pick(kept(&K, hi, || keep(of(&w.ints), of(&w.fresh_ints))), (0..=hi).boxed())
}
/// String and character literals of the code.
pub fn strs() -> BoxedStrategy<String> {
    let w = words();
    pick((&w.strs, &w.fresh_strs), "[a-z]{1,8}".boxed())
}
/// Bytes: literals below 256 and the characters of string literals of one or two characters.
pub fn bytes() -> BoxedStrategy<u8> {
    static K: OnceLock<Mutex<HashMap<(), Two<u8>>>> = OnceLock::new();
    let w = words();
    let of = |i: &[u128], s: &[String]| -> Vec<u8> {
        let mut o: Vec<u8> = i.iter().filter(|v| **v < 256).map(|v| *v as u8).chain(s.iter().filter(|s| s.len() <= 2).flat_map(|s| s.bytes())).collect();
        o.sort();
        o.dedup();
        o
    };
    pick(kept(&K, (), || keep(of(&w.ints, &w.strs), of(&w.fresh_ints, &w.fresh_strs))), any::<u8>().boxed())
}
/// A dictionary byte, text or number as bytes.
pub fn word() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => bytes().prop_map(|b| vec![b]),
        1 => strs().prop_map(|s| s.into_bytes()),
        1 => ints(1, u64::MAX as u128).prop_map(|v| {
            let b = (v as u64).to_be_bytes();
            b[b.iter().take_while(|b| **b == 0).count()..].to_vec()
        }),
    ]
    .boxed()
}
/// A literal from 64 to a bound, by a number.
pub fn some(n: usize, hi: usize) -> usize {
    static K: OnceLock<Mutex<HashMap<usize, Two<u128>>>> = OnceLock::new();
    let w = words();
    let (all, fresh) = kept(&K, hi, || keep(near(&w.ints, 64, hi as u128), near(&w.fresh_ints, 64, hi as u128)));
    let v = if !fresh.is_empty() && n % 2 == 0 { fresh } else { all };
    if v.is_empty() {
        64
    } else {
        v[n / 2 % v.len()] as usize
    }
}
