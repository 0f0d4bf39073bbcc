//! C34: the cost of reading what others wrote.
use crate::doc::*;
use crate::event::completed;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::typed::{build, Form, Kind, Src, KINDS};
use crate::wipe::metered;
use crate::{ensure, fail};
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// What an operation may take: memory at any time, memory in all, processor time.
struct Limit {
    peak: (usize, usize),
    total: (usize, usize),
    millis: u128,
}
/// fixed part, and for each byte read
const FLAT: Limit = Limit { peak: (64 << 10, 16), total: (256 << 10, 60), millis: 3000 };
const TREE: Limit = Limit { peak: (1 << 20, 1200), total: (4 << 20, 5000), millis: 5000 };

struct Meter<'a> {
    cx: &'a mut Cx,
    len: usize,
    limit: &'static Limit,
    done: usize,
}
impl Meter<'_> {
    /// One operation on an input of the length given.
    fn ask<T>(&mut self, what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<Option<T>, String> {
        let (got, taken, time) = metered(|| guarded(|| f().map_err(|e| drop(e.to_string()))));
        let got = match got {
            Ok(g) => g.ok(),
            Err(p) => fail!("{what}: {p}"),
        };
        let n = self.len;
        let of = |l: (usize, usize)| l.0 + l.1 * n;
        if std::env::var("COST").is_ok() {
            eprintln!("COST {what} {n} peak {} total {} us {}", taken.peak, taken.total, time.as_micros());
        }
        ensure!(taken.peak as usize <= of(self.limit.peak), "{what} of {n} bytes takes {} bytes of memory at a time, more than {} and {} for each", taken.peak, self.limit.peak.0, self.limit.peak.1);
        ensure!(taken.total as usize <= of(self.limit.total), "{what} of {n} bytes takes {} bytes of memory in all, more than {} and {} for each", taken.total, self.limit.total.0, self.limit.total.1);
        ensure!(time.as_millis() <= self.limit.millis, "{what} of {n} bytes takes {} ms", time.as_millis());
        self.done += got.is_some() as usize;
        Ok(got)
    }
}

// ---- qualified material ---------------------------------------------------------------------------

/// A code with the largest of what may follow, and some of what it claims.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Claim {
    code: String,
    soft: String,
    body: usize,
    fill: u8,
    edits: Vec<Edit>,
    kind: u8,
}
fn c34_claim(c: &Claim, cx: &mut Cx) -> R {
    let mut t = format!("{}{}", c.code, c.soft).into_bytes();
    t.extend(std::iter::repeat(b"A_-9"[c.fill as usize % 4]).take(c.body));
    apply(&c.edits, &mut t);
    let n = t.iter().take_while(|c| r::val(**c).is_some()).count() / 4 * 4;
    let bin = r::text_to_bin(std::str::from_utf8(&t[..n]).unwrap());
    let text = String::from_utf8_lossy(&t).into_owned();
    cx.class(format!("{} bytes", [10, 100, 1_000, 10_000, 1_000_000].iter().find(|x| t.len() < **x).unwrap_or(&0)));
    cx.hit();
    let mut m = Meter { len: t.len(), limit: &FLAT, done: 0, cx };
    m.ask("matter text", || <Mtr as Matter>::new(None, None, None, Some(&text), None).map(drop))?;
    m.ask("matter text bytes", || <Mtr as Matter>::new(None, None, Some(&t), None, None).map(drop))?;
    m.ask("matter binary", || <Mtr as Matter>::new(None, None, None, None, Some(&bin)).map(drop))?;
    if let Some(x) = m.ask("indexer text", || <Ixr as Indexer>::new(None, None, None, None, None, Some(&text), None))? {
        m.ask("indexer written", || x.qb2().and_then(|b| x.qb64().map(|t| (t, b))).map(drop))?;
    }
    m.ask("indexer text bytes", || <Ixr as Indexer>::new(None, None, None, None, Some(&t), None, None).map(drop))?;
    m.ask("indexer binary", || <Ixr as Indexer>::new(None, None, None, None, None, None, Some(&bin)).map(drop))?;
    m.ask("signature", || Siger::new_with_qb64b(&t, None).map(drop))?;
    if let Some(x) = m.ask("counter text", || Counter::new_with_qb64(&text))? {
        m.ask("counter written", || x.qb2().and_then(|b| x.qb64().map(|t| (t, b))).map(drop))?;
    }
    m.ask("counter text bytes", || Counter::new_with_qb64b(&t).map(drop))?;
    m.ask("counter binary", || Counter::new_with_qb2(&bin).map(drop))?;
    m.ask("sniffing", || common::sniff(&t).map(drop))?;
    let k: Kind = KINDS[c.kind as usize % KINDS.len()];
    for form in [Form::Text, Form::TextBytes, Form::Bin] {
        let src = Src { raw: &[], code: None, text: &text, text_bytes: &t, bin: &bin };
        m.ask(&format!("{k:?} {form:?}"), || build(k, form, &src).map_err(anyhow::Error::msg)?.map(drop))?;
    }
    if c.kind & 16 == 0 {
        m.limit = &TREE;
        if let Some(x) = m.ask("encoded threshold", || Tholder::new_with_limen(&t))? {
            m.ask("threshold written", || x.limen().and_then(|l| x.to_json().map(|j| (l, j))).map(drop))?;
            m.ask("threshold decided", || x.satisfy(&[0, 1, 5]).map(drop))?;
        }
    }
    Ok(())
}
fn claim() -> BoxedStrategy<Claim> {
    let code = prop_oneof![
        2 => mat_code(),
        1 => select(r::INDEXED.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()),
        1 => select(r::COUNTERS.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()),
    ];
    let soft = prop_oneof![2 => "[A-Za-z0-9_-]{0,8}", 1 => (0usize..8).prop_map(|n| "_".repeat(n)), 1 => (0usize..8, "[A-D_]{1,3}").prop_map(|(n, t)| "A".repeat(n) + &t)];
    let body = prop_oneof![4 => 0usize..200, 2 => 200usize..4000, 1 => 4000usize..40_000];
    (code, soft, body, any::<u8>(), vec(edit(), 0..3), any::<u8>()).prop_map(|(code, soft, body, fill, edits, kind)| Claim { code, soft, body, fill, edits, kind }).boxed()
}

// ---- documents ------------------------------------------------------------------------------------

fn depth(t: &str) -> usize {
    let (mut d, mut most) = (0usize, 0);
    for c in t.bytes() {
        match c {
            b'[' | b'{' => d += 1,
            b']' | b'}' => d = d.saturating_sub(1),
            _ => {}
        }
        most = most.max(d);
    }
    most
}
/// A large value of some shape.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Bulk {
    shape: u8,
    n: usize,
    seed: u64,
}
impl Bulk {
    fn json(&self) -> String {
        let n = self.n;
        let mut m = Mix(self.seed);
        let some = m.next() % 7;
        let key = |m: &mut Mix, code: &str| r::mat_build(code, &Fill::Random(m.next()).make(r::fixed_raw_size(code).unwrap())).unwrap().text;
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        match self.shape % 16 {
            // many fields
            0 => format!("{{{}}}", (0..n / 8).map(|i| format!("\"k{i}\":{}", i % 10)).collect::<Vec<_>>().join(",")),
            // the same field
            1 => format!("{{{}}}", (0..n / 6).map(|i| format!("\"k{}\":{}", i as u64 % (some + 1), i % 10)).collect::<Vec<_>>().join(",")),
            2 => list((0..n / 2).map(|i| (i % 10).to_string()).collect()),
            3 => list(vec!["\"\"".into(); n / 3]),
            4 => list(vec![["{}", "[]", "{\"d\":{}}", "[[]]"][some as usize % 4].into(); n / 6]),
            // deep
            5 => {
                let d = n.min(120);
                "[".repeat(d) + &"]".repeat(d)
            }
            6 => {
                let d = n.min(120);
                "{\"a\":".repeat(d) + "1" + &"}".repeat(d)
            }
            // one long text
            7 => format!("\"{}\"", ["a", "\\n", "\\u00e9", "é", "#", "\\ud83d\\ude00", "KERI10JSON000000_"][some as usize].repeat(n / 4)),
            // a long number
            8 => format!("{}{}", ["1", "-1", "0.", "1e-", "1.", "9"][some as usize % 6], ["1", "9", "0"][some as usize % 3].repeat(n.max(1))),
            9 => list((0..n / 47).map(|_| format!("\"{}\"", key(&mut m, "D"))).collect()),
            10 => list((0..n / 47).map(|_| format!("\"{}\"", key(&mut m, "E"))).collect()),
            // thresholds
            11 => list((0..n / 10).map(|i| format!("\"1/{}\"", 1 + i * (1 + some as usize))).collect()),
            12 => list(std::iter::once("\"1\"".to_string()).chain((0..n / 14).map(|i| format!("\"{}/{}\"", i % 3, 2_147_483_647 - 2 * i))).collect()),
            13 => list(vec!["[\"1\"]".to_string(); n / 6]),
            14 => format!("\"{}\"", ["f", "7", "0", "1", " "][some as usize % 5].repeat(n % 40)),
            _ => ["1e400", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "4294967295", "2147483648", "1e308"][some as usize].into(),
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Big {
    ilk: String,
    bulks: Vec<(String, Bulk)>,
    code: String,
    claimed: u8,
    path: u16,
}
const PLACES: &[&str] = &["a", "k", "n", "b", "kt", "nt", "br", "ba", "zz", "d", "i", "s", "bt", "e", "r", "f", "c", "v", "t", "p"];
fn c34_doc(c: &Big, cx: &mut Cx) -> R {
    let base: Fields = vec![
        ("v".into(), s("KERI10JSON000000_")), ("t".into(), s(&c.ilk)), ("d".into(), s("")), ("i".into(), s("")), ("s".into(), s("0")), ("kt".into(), s("1")), ("k".into(), D::A(vec![s("DKxy2sgzfplyr-tgwIxS19f2OchFHtLwPWD3v4oYimBx")])),
        ("nt".into(), s("1")), ("n".into(), D::A(vec![])), ("bt".into(), s("0")), ("b".into(), D::A(vec![])), ("a".into(), D::A(vec![])),
    ];
    let mut parts: Vec<(String, String)> = base.iter().map(|(k, d)| (k.clone(), d.text())).collect();
    for (k, b) in &c.bulks {
        match parts.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1 = b.json(),
            None => parts.push((k.clone(), b.json())),
        }
    }
    let write = |parts: &[(String, String)]| format!("{{{}}}", parts.iter().map(|(k, t)| format!("\"{k}\":{t}")).collect::<Vec<_>>().join(","));
    let mut text = write(&parts);
    // with its size and, where the reference gives one, its identifier
    if c.claimed & 1 == 0 {
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) {
            if let D::O(f) = D::of(&Value::from(&j)) {
                if let Some(f) = completed(&f, "d", &c.code, &[]) {
                    text = D::O(f).text();
                }
            }
        }
    }
    if text.len() > 24 && text.is_char_boundary(24) && text.starts_with("{\"v\":\"KERI10JSON") {
        let size = match c.claimed / 2 % 6 {
            0 => 0xff_ffff,
            1 => 0,
            _ => text.len(),
        };
        text.replace_range(16..22, &format!("{size:06x}"));
    }
    let raw = text.clone().into_bytes();
    cx.class(format!("{} bytes", [1_000, 10_000, 100_000, 10_000_000].iter().find(|x| text.len() < **x).unwrap_or(&0)));
    let mut m = Meter { len: text.len(), limit: &TREE, done: 0, cx };
    m.ask("sniffing", || common::sniff(&raw).map(drop))?;
    let code = Some(c.code.as_str());
    if let Some(e) = m.ask("reading an event", || Serder::new(code, Some(&raw), None, None, None))? {
        m.cx.class("an event");
        m.ask("its keys", || e.verfers().map(drop))?;
        m.ask("its commitments", || e.digers().map(drop))?;
        m.ask("its witnesses", || e.werfers().map(drop))?;
        if let Some(Some(t)) = m.ask("its threshold", || e.tholder())? {
            threshold(&mut m, &t)?;
        }
        if let Some(Some(t)) = m.ask("its next threshold", || e.ntholder())? {
            threshold(&mut m, &t)?;
        }
        m.ask("its number", || e.sn().map(drop))?;
        m.ask("its first seen number", || e._fn().map(drop))?;
        m.ask("its prefix", || e.pre().map(drop))?;
        m.ask("whether it is of establishment", || e.est().map(drop))?;
        m.ask("its print", || e.pretty(None).map(drop))?;
        m.ask("its parts", || Pather::new_with_bext(&format!("-a-{}", c.path)).and_then(|p| p.tail(&e)).map(drop))?;
    }
    if let Some(e) = m.ask("reading a credential", || Creder::new(code, Some(&raw), None, None, None))? {
        m.ask("its issuer", || e.issuer().map(drop))?;
        m.ask("its chains", || e.chains().map(drop))?;
    }
    let Ok(j) = serde_json::from_slice::<serde_json::Value>(&raw) else { return Ok(()) };
    m.cx.hit();
    m.cx.class("a document");
    // an escape is longer than what it stands for, a document may be longer when it is written
    m.len = m.len.max(j.to_string().len());
    let Some(v) = m.ask("conversion", || Ok(Value::from(&j)))? else { return Ok(()) };
    m.ask("writing", || v.to_json().map(drop))?;
    m.ask("an event of a document", || Serder::new(code, None, None, Some(&v), None).map(drop))?;
    m.ask("sizing", || common::sizeify(&v, None).map(drop))?;
    if let Some((x, _)) = m.ask("an identifier", || Saider::saidify(&v, code, None, None, None))? {
        m.ask("checking an identifier", || x.verify(&v, Some(true), Some(true), None, None, None).map(drop))?;
    }
    if let Some(p) = m.ask("a prefix", || Prefixer::new_with_ked(&v, None, code))? {
        m.ask("checking a prefix", || p.verify(&v, Some(true)).map(drop))?;
    }
    for (k, b) in &c.bulks {
        m.ask("a part", || Pather::new_with_bext(&format!("-{}-{}", k, c.path)).and_then(|p| p.resolve(&v)).map(drop))?;
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&b.json()) {
            let v = Value::from(&j);
            m.len = m.len.max(b.json().len()).max(j.to_string().len());
            if let Some(t) = m.ask("a threshold", || Tholder::new_with_sith(&v))? {
                threshold(&mut m, &t)?;
            }
            if let Some(t) = m.ask("a threshold as it is held", || Tholder::new_with_thold(&v))? {
                threshold(&mut m, &t)?;
            }
        }
    }
    Ok(())
}
fn threshold(m: &mut Meter, t: &Tholder) -> R {
    m.cx.class("a threshold");
    let n = t.size() as usize;
    m.ask("its encoding", || t.limen().map(drop))?;
    m.ask("its text", || t.to_json().map(drop))?;
    m.ask("its expression", || t.sith().map(drop))?;
    m.ask("its number", || t.num().map(drop))?;
    let all: Vec<u32> = (0..n.min(m.len) as u32).collect();
    m.ask("its decision", || t.satisfy(&all).map(drop))?;
    m.ask("its decision", || t.satisfy(&all[..all.len().saturating_sub(1)]).map(drop))?;
    m.ask("its decision", || t.satisfy(&[u32::MAX, 0, 1 << 31]).map(drop))?;
    Ok(())
}
fn big(n: BoxedStrategy<usize>, shapes: std::ops::Range<u8>) -> BoxedStrategy<Big> {
    let bulk = (shapes, n, any::<u64>()).prop_map(|(shape, n, seed)| Bulk { shape, n, seed });
    // the shape where it is at home, or anywhere
    let at_home = |b: &Bulk| match b.shape {
        9 => "k",
        10 => "n",
        11..=14 => ["kt", "nt"][b.seed as usize % 2],
        _ => "a",
    };
    let placed = (bulk, prop_oneof![2 => Just(None), 3 => select(PLACES).prop_map(Some)]).prop_map(move |(b, p)| (p.unwrap_or_else(|| at_home(&b)).to_string(), b));
    let ilk = select(vec!["icp", "rot", "dip", "drt", "ixn", "vcp", "rct", ""]).prop_map(String::from);
    (ilk, vec(placed, 1..3), select(crate::typed::DIGESTS).prop_map(String::from), any::<u8>(), any::<u16>()).prop_map(|(ilk, bulks, code, claimed, path)| Big { ilk, bulks, code, claimed, path }).boxed()
}

// ---- texts ----------------------------------------------------------------------------------------

/// A long text where a short one is expected.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Long {
    head: String,
    unit: String,
    n: usize,
    tail: String,
    doc: Bulk,
}
fn c34_text(c: &Long, cx: &mut Cx) -> R {
    let t = format!("{}{}{}", c.head, c.unit.repeat(c.n / c.unit.len().max(1)), c.tail);
    let v = serde_json::from_str::<serde_json::Value>(&c.doc.json()).ok().map(|j| Value::from(&j));
    cx.class(format!("{} bytes", [10, 100, 1_000, 10_000, 1_000_000].iter().find(|x| t.len() < **x).unwrap_or(&0)));
    let mut m = Meter { len: t.len(), limit: &TREE, done: 0, cx };
    m.ask("hexadecimal number", || Number::new_with_numh(&t).map(drop))?;
    m.ask("hexadecimal sequence number", || Seqner::new_with_snh(&t).map(drop))?;
    m.ask("datetime", || Dater::new_with_dts(&t, None).map(drop))?;
    m.ask("text", || Bexter::new_with_bext(&t).and_then(|b| b.qb64()).map(drop))?;
    m.ask("version string", || common::deversify(&t).map(drop))?;
    m.ask("sniffing", || common::sniff(t.as_bytes()).map(drop))?;
    m.ask("digest", || Diger::new_with_ser(t.as_bytes(), None).map(drop))?;
    if let Some(x) = m.ask("threshold", || Tholder::new_with_sith(&Value::from(&serde_json::Value::String(t.clone()))))? {
        threshold(&mut m, &x)?;
    }
    if let Some(p) = m.ask("path", || Pather::new_with_bext(&t))? {
        m.cx.class("a path");
        m.ask("its parts", || p.path().map(drop))?;
        m.ask("stripped", || p.strip(&p).map(drop))?;
        m.ask("rooted", || p.root(&p).map(drop))?;
        m.ask("leading", || p.starts_with(&p).map(drop))?;
        if let Some(v) = &v {
            // (what is below is taken along at each level)
            m.len = (m.len + c.doc.json().len() + v.to_json().map(|t| t.len()).unwrap_or(0)) * (1 + depth(&c.doc.json()) / 4);
            m.ask("resolved", || p.resolve(v).map(drop))?;
        }
    }
    if m.done > 4 {
        m.cx.hit();
    }
    Ok(())
}
fn long() -> BoxedStrategy<Long> {
    let head = prop_oneof![2 => Just(""), 1 => select(vec!["-", "--", "-a", "-0", "0x", "[", "[\"1\",", "2020-08-22T17:50:09.", "KERI10JSON", "4A", "6AA", "f", "1", "1/", "99999999999999999999"])].prop_map(String::from);
    let unit = prop_oneof![3 => select(vec!["0", "9", "f", "-", "-a", "-0", "-1", "-a-0", "A", "_", "[", "\"1/2\",", "1/2,", "/", " ", "é", "\"1\",", "KERI10JSON0000ff_", "K", "{\"v\":\"", "+", ":"]).prop_map(String::from), 1 => "[A-Za-z0-9_-]{1,6}"];
    let n = prop_oneof![2 => 0usize..60, 2 => 60usize..3000, 1 => 3000usize..30_000];
    let tail = prop_oneof![2 => Just(""), 1 => select(vec!["]", "\"1\"]", "_", "-", "1", "99999999999999999999999999", "-4294967296", "-18446744073709551615", "+00:00"])].prop_map(String::from);
    let doc = (0u8..16, 0usize..2000, any::<u64>()).prop_map(|(shape, n, seed)| Bulk { shape, n, seed });
    (head, unit, n, tail, doc).prop_map(|(head, unit, n, tail, doc)| Long { head, unit, n, tail, doc }).boxed()
}
pub fn c34_subs() -> Vec<Sub> {
    let size = || prop_oneof![3 => 0usize..400, 3 => 400usize..6000, 2 => 6000usize..40_000, 1 => 40_000usize..120_000].boxed();
    vec![
        sub("c34_claim", "every code with soft parts that claim any size, index or count, bodies of 0-40000 characters, edited; primitives, indexed signatures, counters, typed primitives and encoded thresholds as text, text bytes and binary; every case is non-trivial", 50_000, 1_000_000, claim, c34_claim),
        sub("c34_doc", "events and credentials with large values of 16 shapes (many fields, repeated fields, long lists, depth, long texts, numbers, keys, digests, thresholds of many weights) in any field, right and wrong sizes and identifiers: read, converted, written, sized, identified, their fields taken, thresholds decided, paths followed; non-trivial when the text is a document", 6_000, 120_000, move || big(size(), 0..16), c34_doc),
        sub("c34_text", "long texts of repeated parts as numbers, dates, paths, thresholds, version strings and messages; non-trivial when more than four are accepted", 30_000, 500_000, long, c34_text),
    ]
}
