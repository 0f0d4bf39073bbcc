//! C20-C23, C28: self-addressed documents, events, credentials, documents from outside.
use crate::crypto::digest_text;
use crate::doc::*;
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::thold;
use crate::typed::{DIGESTS, KEYS, NUMBERS};
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---- reference ----------------------------------------------------------------------------------

/// What is digested: identifier field filled, size corrected, ignored fields left out.
pub fn said_text(f: &Fields, label: &str, code: &str, ignore: &[String]) -> Option<String> {
    let mut f = f.clone();
    put(&mut f, label, D::S("#".repeat(crate::refcesr::mat_build(code, &vec![0; r::fixed_raw_size(code)?])?.text.len())));
    if at(&f, "v").is_some() {
        f = fix_size(&f)?;
    }
    f.retain(|x| !ignore.contains(&x.0));
    Some(D::O(f).text())
}
pub fn said(f: &Fields, label: &str, code: &str, ignore: &[String]) -> Option<String> {
    Some(digest_text(code, said_text(f, label, code, ignore)?.as_bytes()))
}
/// The size a version string declares once the identifier is in place.
pub fn completed(f: &Fields, label: &str, code: &str, ignore: &[String]) -> Option<Fields> {
    let id = said(f, label, code, ignore)?;
    let mut f = f.clone();
    put(&mut f, label, D::S(id));
    if at(&f, "v").is_some() {
        f = fix_size(&f)?;
    }
    Some(f)
}

// ---- C20 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mut {
    /// another value at a field
    Set(u16, D),
    Rename(u16, String),
    Remove(u16),
    Insert(u16, String, D),
    Swap(u16, u16),
    /// somewhere within a field
    Deep(u16, u64),
    /// the version string's declared size
    Size(u32),
    Proto,
    /// the identifier field
    Id(D),
    /// one character of the identifier in the document
    IdChar(u8, u8),
    /// a field takes the value of another, such as the identifier
    Alias(u16, u16),
    /// identifier under another algorithm, right for that algorithm
    OtherCode(u8),
    Nothing,
}
/// Changes one leaf or adds an element within a document.
fn deepen(d: &mut D, m: &mut Mix) {
    match d {
        D::Null => *d = D::B(false),
        D::B(b) => *b = !*b,
        D::I(i) => *i ^= 1,
        D::U(u) => *u ^= 1,
        D::F(_) => *d = D::I(3),
        D::S(t) => {
            let k = m.next() as usize % (t.chars().count() + 1);
            let mut v: Vec<char> = t.chars().collect();
            if m.next() % 2 == 0 && k < v.len() {
                v[k] = if v[k] == 'x' { 'y' } else { 'x' };
            } else {
                v.insert(k, ' ');
            }
            *t = v.into_iter().collect();
        }
        D::A(a) if a.is_empty() || m.next() % 4 == 0 => a.push(D::Null),
        D::O(o) if o.is_empty() || m.next() % 4 == 0 => put(o, "zz", D::I(m.next() as i64)),
        D::A(a) => {
            let k = m.next() as usize % a.len();
            deepen(&mut a[k], m)
        }
        D::O(o) => {
            let k = m.next() as usize % o.len();
            deepen(&mut o[k].1, m)
        }
    }
}
impl Mut {
    pub fn apply(&self, f: &mut Fields, label: &str, code: &mut String, ignore: &[String]) {
        let n = f.len().max(1);
        match self {
            Mut::Set(i, d) => {
                if let Some(x) = f.get_mut(*i as usize % n) {
                    x.1 = d.clone();
                }
            }
            Mut::Rename(i, k) => {
                if at(f, k).is_none() {
                    if let Some(x) = f.get_mut(*i as usize % n) {
                        x.0 = k.clone();
                    }
                }
            }
            Mut::Remove(i) => {
                if !f.is_empty() {
                    f.remove(*i as usize % n);
                }
            }
            Mut::Insert(i, k, d) => {
                if at(f, k).is_none() {
                    f.insert(*i as usize % (f.len() + 1), (k.clone(), d.clone()));
                }
            }
            Mut::Swap(i, j) => {
                if !f.is_empty() {
                    f.swap(*i as usize % n, *j as usize % n);
                }
            }
            Mut::Deep(i, s) => {
                if let Some(x) = f.get_mut(*i as usize % n) {
                    deepen(&mut x.1, &mut Mix(*s));
                }
            }
            Mut::Size(k) => {
                if let Some(w) = at(f, "v").and_then(|d| d.str()).and_then(|t| vs_at(t.as_bytes())) {
                    put(f, "v", D::S(vs(&w.0, w.1, w.2, &w.3, (w.4 ^ (k + 1)) & 0xffffff)));
                }
            }
            Mut::Proto => {
                if let Some(w) = at(f, "v").and_then(|d| d.str()).and_then(|t| vs_at(t.as_bytes())) {
                    put(f, "v", D::S(vs(if w.0 == "KERI" { "ACDC" } else { "KERI" }, w.1, w.2, &w.3, w.4)));
                }
            }
            Mut::Alias(i, j) => {
                if !f.is_empty() && f[*i as usize % n].0 != "v" {
                    f[*i as usize % n].1 = f[*j as usize % n].1.clone();
                }
            }
            Mut::Id(d) => put(f, label, d.clone()),
            Mut::IdChar(p, c) => {
                if let Some(t) = at(f, label).and_then(|d| d.str()) {
                    let mut v: Vec<char> = t.chars().collect();
                    let p = *p as usize % v.len().max(1);
                    if !v.is_empty() {
                        v[p] = r::ALPHABET[*c as usize % 64] as char;
                    }
                    put(f, label, D::S(v.into_iter().collect()));
                }
            }
            Mut::OtherCode(k) => {
                let other = DIGESTS[*k as usize % 9];
                if let Some(g) = completed(f, label, other, ignore) {
                    *f = g;
                }
                *code = other.to_string();
            }
            Mut::Nothing => {}
        }
    }
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        2 => (any::<u16>(), leaf()).prop_map(|(i, d)| Mut::Set(i, d)),
        1 => (any::<u16>(), key()).prop_map(|(i, k)| Mut::Rename(i, k)),
        2 => any::<u16>().prop_map(Mut::Remove),
        2 => (any::<u16>(), key(), leaf()).prop_map(|(i, k, d)| Mut::Insert(i, k, d)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| Mut::Swap(i, j)),
        5 => (any::<u16>(), any::<u64>()).prop_map(|(i, s)| Mut::Deep(i, s)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| Mut::Alias(i, j)),
        1 => (0u32..20).prop_map(Mut::Size),
        1 => Just(Mut::Proto),
        1 => leaf().prop_map(Mut::Id),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::IdChar(a, b)),
        1 => any::<u8>().prop_map(Mut::OtherCode),
        1 => Just(Mut::Nothing),
    ]
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SadCase {
    v: Option<D>,
    label: String,
    id: Option<D>,
    idpos: u16,
    rest: Fields,
    code: String,
    ignore: Vec<String>,
    /// fields picked for being ignored
    ignore_at: Vec<u16>,
    kind: bool,
    muts: Vec<Mut>,
    link: u64,
}
impl SadCase {
    fn doc(&self) -> Fields {
        let mut f = self.rest.clone();
        f.retain(|x| x.0 != "v" && x.0 != self.label);
        if let Some(id) = &self.id {
            f.insert(self.idpos as usize % (f.len() + 1), (self.label.clone(), id.clone()));
        }
        link(&mut f, self.link);
        if let Some(v) = &self.v {
            f.retain(|x| x.0 != "v");
            f.insert(0, ("v".into(), v.clone()));
        }
        f
    }
    fn ignored(&self, f: &Fields) -> Vec<String> {
        let mut v = self.ignore.clone();
        v.extend(self.ignore_at.iter().filter_map(|i| f.get(*i as usize % f.len().max(1))).map(|x| x.0.clone()));
        v
    }
}
fn c20(c: &SadCase, cx: &mut Cx) -> R {
    let f = c.doc();
    let ignore = c.ignored(&f);
    let ig: Vec<&str> = ignore.iter().map(|x| x.as_str()).collect();
    let ig = if ig.is_empty() && c.kind { None } else { Some(&ig[..]) };
    let kind = c.kind.then_some("JSON");
    let label = if c.label == "d" && c.kind { None } else { Some(c.label.as_str()) };
    let ked = D::O(f.clone()).val();
    let got = Saider::saidify(&ked, Some(&c.code), kind, label, ig);
    same!(D::of(&ked), D::O(f.clone()), "document left alone");
    let Some(want) = completed(&f, &c.label, &c.code, &ignore).filter(|_| at(&f, &c.label).is_some()) else {
        cx.class("refused");
        return refuse(got, "a document without identifier field or with a bad version string");
    };
    let (sdr, sad) = must(got, "saidify")?;
    let id = at(&want, &c.label).unwrap().str().unwrap().to_string();
    same!(must(sdr.qb64(), "identifier")?, id, "identifier of {}", said_text(&f, &c.label, &c.code, &ignore).unwrap());
    same!(D::of(&sad), D::O(want.clone()), "completed document");
    cx.hit();
    cx.class(format!("{}{}", if c.v.is_some() { "versioned" } else { "plain" }, if ignore.is_empty() { "" } else { ", ignoring" }));
    // the other ways to the identifier
    for (doc, code) in [(&ked, Some(c.code.as_str())), (&sad, Some(c.code.as_str())), (&sad, None)] {
        let x = must(Saider::new_with_sad(doc, label, kind, ig, code), "identifier of a document")?;
        same!(must(x.qb64(), "identifier")?, id, "identifier of the document (code {code:?})");
    }
    if c.code == "E" {
        let (x, _) = must(Saider::saidify(&ked, None, kind, label, ig), "saidify, default algorithm")?;
        same!(must(x.qb64(), "identifier")?, id, "identifier under the default algorithm");
    }
    let (again, sad2) = must(Saider::saidify(&sad, Some(&c.code), kind, label, ig), "saidify again")?;
    same!(must(again.qb64(), "identifier")?, id, "identifier of the completed document");
    same!(D::of(&sad2), D::O(want.clone()), "document completed again");
    // verification, of the document and of its mutations, each one on its own and all together
    let ver = |sdr: &Saider, f: &Fields, p: Option<bool>, v: Option<bool>| sdr.verify(&D::O(f.clone()).val(), p, v, kind, label, ig);
    let mut docs: Vec<(String, Fields, String)> = vec![("itself".into(), want.clone(), c.code.clone())];
    let mut all = want.clone();
    let mut all_code = c.code.clone();
    for m in &c.muts {
        let (mut g, mut code) = (want.clone(), c.code.clone());
        m.apply(&mut g, &c.label, &mut code, &ignore);
        docs.push((format!("{m:?}"), g, code));
        m.apply(&mut all, &c.label, &mut all_code, &ignore);
    }
    docs.push((format!("{:?}", c.muts), all, all_code));
    for (what, g, code) in docs {
        let fresh = said(&g, &c.label, &c.code, &ignore);
        let right = fresh.as_deref() == Some(&id);
        let sized = at(&g, "v").is_none() || fix_size_of_filled(&g, &c.label, &c.code).is_some_and(|h| at(&h, "v") == at(&g, "v"));
        let named = at(&g, &c.label).and_then(|d| d.str()) == Some(&id);
        for p in [None, Some(false), Some(true)] {
            for v in [None, Some(false), Some(true)] {
                let expect = right && (v == Some(false) || sized) && (p != Some(true) || named);
                match ver(&sdr, &g, p, v) {
                    Ok(b) => same!(b, expect, "verification (prefixed {p:?}, versioned {v:?}) of {what}: {}", D::O(g.clone()).text()),
                    Err(e) => ensure!(!expect, "verification (prefixed {p:?}, versioned {v:?}) of {what} fails with {e}"),
                }
            }
        }
        cx.class(if right { "mutation: same content" } else { "mutation: other content" });
        // an identifier under another algorithm
        if code != c.code {
            if let Some(t) = at(&g, &c.label).and_then(|d| d.str()) {
                if let Some(o) = Saider::new_with_qb64(t).ok().filter(|o| o.code() == code) {
                    let sized = at(&g, "v").is_none() || fix_size_of_filled(&g, &c.label, &code).is_some_and(|h| at(&h, "v") == at(&g, "v"));
                    let expect = sized && said(&g, &c.label, &code, &ignore).as_deref() == Some(t);
                    same!(ver(&o, &g, Some(true), None).unwrap_or(false), expect, "verification under {code}");
                    same!(ver(&o, &want, Some(true), None).unwrap_or(false), false, "verification of the original by an identifier under {code}");
                }
            }
        }
    }
    // a wrong identifier
    let mut raw = sdr.raw();
    let k = c.idpos as usize % raw.len();
    raw[k] ^= 1 << (c.idpos % 8);
    let bad = must(Saider::new_with_raw(&raw, Some(&c.code)), "identifier")?;
    same!(ver(&bad, &want, Some(false), None).unwrap_or(false), false, "verification by an altered identifier");
    // what has no identifier
    let mut g = want.clone();
    g.retain(|x| x.0 != c.label);
    refuse(Saider::saidify(&D::O(g).val(), Some(&c.code), kind, label, ig), "a document without identifier field")?;
    Ok(())
}
fn fix_size_of_filled(f: &Fields, label: &str, code: &str) -> Option<Fields> {
    let mut f = f.clone();
    put(&mut f, label, D::S("#".repeat(r::mat_build(code, &vec![0; r::fixed_raw_size(code)?])?.text.len())));
    fix_size(&f)
}
fn digest_code() -> BoxedStrategy<String> {
    prop_oneof![2 => Just("E".to_string()), 3 => select(DIGESTS).prop_map(String::from)].boxed()
}
pub fn digest_id() -> BoxedStrategy<String> {
    (select(DIGESTS), fill()).prop_map(|(c, f)| r::mat_build(c, &f.make(r::fixed_raw_size(c).unwrap())).unwrap().text).boxed()
}
fn sad_case() -> BoxedStrategy<SadCase> {
    let v = prop_oneof![3 => Just(None), 6 => (select(PROTOS), 0u32..(1 << 24)).prop_map(|(p, n)| Some(D::S(vs(p, 1, 0, "JSON", n)))), 1 => version().prop_map(Some)];
    let label = prop_oneof![4 => Just("d".to_string()), 2 => Just("i".to_string()), 2 => select(vec!["$id", "@id", "id", "said"]).prop_map(String::from), 1 => "[a-z]{1,3}".prop_filter("v", |x| x != "v")];
    let id = prop_oneof![12 => prop_oneof![2 => Just(D::S(String::new())), 2 => digest_id().prop_map(D::S), 1 => leaf()].prop_map(Some), 1 => Just(None)];
    let ignore = prop_oneof![3 => Just(vec![]), 1 => vec(key(), 0..3)];
    let ignore_at = prop_oneof![3 => Just(vec![]), 1 => vec(any::<u16>(), 1..3)];
    (v, label, id, any::<u16>(), fields(0..7), digest_code(), (ignore, ignore_at), any::<bool>(), vec(mutation(), 1..5), any::<u64>())
        .prop_map(|(v, label, id, idpos, rest, code, (ignore, ignore_at), kind, muts, link)| SadCase { v, label, id, idpos, rest, code, ignore, ignore_at, kind, muts, link })
        .boxed()
}
pub fn c20_subs() -> Vec<Sub> {
    vec![sub(
        "c20_said",
        "documents (nested, unicode, with or without version string) x identifier label and place x algorithm x ignored fields x mutations (values, keys, order, presence, nested leaves, version string, identifier, algorithm), every verification option, against an independent digest of the independent serialisation; non-trivial when the document has an identifier",
        25_000,
        500_000,
        sad_case,
        c20,
    )]
}

// ---- C21 ----------------------------------------------------------------------------------------

pub const ILKS: &[&str] = &["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv"];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DocCase {
    /// position of the identifier and other fields after the version string
    v: D,
    id: D,
    rest: Fields,
    idpos: u16,
    code: String,
    selfaddressed: bool,
    loose: u64,
    tail: Hex,
    cut: u16,
    edits: Vec<Edit>,
    other: Fields,
    pretty: u16,
}
fn assemble(v: &D, id: Option<&D>, rest: &Fields, idpos: u16) -> Fields {
    let mut f = rest.clone();
    f.retain(|x| x.0 != "v" && x.0 != "d");
    if let Some(id) = id {
        f.insert(idpos as usize % (f.len() + 1), ("d".into(), id.clone()));
    }
    f.insert(0, ("v".into(), v.clone()));
    f
}
/// What a serder or creder says of itself.
trait Doc: Sadder + PartialEq + std::fmt::Debug {
    const PROTO: &'static str;
    fn make(code: Option<&str>, raw: Option<&[u8]>, kind: Option<&str>, ked: Option<&Value>, sad: Option<&Self>) -> anyhow::Result<Self>;
    fn of_ked(ked: &Value, code: Option<&str>, kind: Option<&str>) -> anyhow::Result<Self>;
    fn of_raw(raw: &[u8]) -> anyhow::Result<Self>;
}
impl Doc for Serder {
    const PROTO: &'static str = "KERI";
    fn make(code: Option<&str>, raw: Option<&[u8]>, kind: Option<&str>, ked: Option<&Value>, sad: Option<&Self>) -> anyhow::Result<Self> {
        Serder::new(code, raw, kind, ked, sad)
    }
    fn of_ked(ked: &Value, code: Option<&str>, kind: Option<&str>) -> anyhow::Result<Self> {
        Serder::new_with_ked(ked, code, kind)
    }
    fn of_raw(raw: &[u8]) -> anyhow::Result<Self> {
        Serder::new_with_raw(raw)
    }
}
impl Doc for Creder {
    const PROTO: &'static str = "ACDC";
    fn make(code: Option<&str>, raw: Option<&[u8]>, kind: Option<&str>, ked: Option<&Value>, sad: Option<&Self>) -> anyhow::Result<Self> {
        Creder::new(code, raw, kind, ked, sad)
    }
    fn of_ked(ked: &Value, code: Option<&str>, kind: Option<&str>) -> anyhow::Result<Self> {
        Creder::new_with_ked(ked, code, kind)
    }
    fn of_raw(raw: &[u8]) -> anyhow::Result<Self> {
        Creder::new_with_raw(raw)
    }
}
fn check_doc<T: Doc>(t: &T, f: &Fields, raw: &[u8], what: &str) -> R {
    same!(D::of(&t.ked()), D::O(f.clone()), "{what}: document");
    same!(String::from_utf8_lossy(&t.raw()).into_owned(), String::from_utf8_lossy(raw).into_owned(), "{what}: serialisation");
    same!(t.size() as usize, raw.len(), "{what}: size");
    same!((t.ident(), t.kind()), (T::PROTO.to_string(), "JSON".to_string()), "{what}: protocol and kind");
    same!((t.version().major, t.version().minor), (1, 0), "{what}: version");
    let id = at(f, "d").and_then(|d| d.str()).unwrap_or_default();
    same!(must(t.said(), what)?, id, "{what}: identifier");
    same!(must(t.saidb(), what)?, id.as_bytes(), "{what}: identifier bytes");
    same!(must(t.saider().qb64(), what)?, id, "{what}: identifier primitive");
    same!(t.code(), t.saider().code(), "{what}: algorithm");
    Ok(())
}
fn doc_checks<T: Doc>(c: &DocCase, cx: &mut Cx) -> R {
    let mut f = assemble(&c.v, Some(&c.id), &c.rest, c.idpos);
    if c.selfaddressed {
        match completed(&f, "d", &c.code, &[]) {
            Some(g) => f = g,
            None => put(&mut f, "d", D::S(digest_text(&c.code, b""))),
        }
    }
    let ked = D::O(f.clone()).val();
    let built = T::make(Some(&c.code), None, Some("JSON"), Some(&ked), None);
    let built2 = T::of_ked(&ked, Some(&c.code), None);
    let proto = at(&f, "v").and_then(|d| d.str()).and_then(|t| vs_at(t.as_bytes())).map(|w| w.0);
    let id_code = at(&f, "d").and_then(|d| d.str()).and_then(|t| r::mat_read(t.as_bytes()).filter(|m| m.text.len() == t.len())).map(|m| m.code).filter(|c| DIGESTS.contains(&c.as_str()));
    let valid = fix_size(&f).filter(|_| proto.as_deref() == Some(T::PROTO) && id_code.as_deref() == Some(&c.code));
    let Some(want) = valid else {
        // (identifiers followed by other text are not claimed)
        let trailing = at(&f, "d").and_then(|d| d.str()).is_some_and(|t| r::mat_read(t.as_bytes()).is_some_and(|m| m.text.len() < t.len()));
        if !trailing {
            cx.class("refused");
            refuse(built, "a document of another protocol, version or identifier")?;
            refuse(built2, "a document of another protocol, version or identifier")?;
        }
        return Ok(());
    };
    cx.hit();
    cx.class(if c.selfaddressed { "self-addressed" } else { "arbitrary identifier" });
    let compact = D::O(want.clone()).text();
    let built = must(built, "document")?;
    check_doc(&built, &want, compact.as_bytes(), "built from a document")?;
    check_doc(&must(built2, "document")?, &want, compact.as_bytes(), "built from a document (defaults)")?;
    same!(D::of(&ked), D::O(f.clone()), "document left alone");
    let raws = |raw: &[u8]| -> Vec<Vec<u8>> { vec![raw.to_vec(), [raw, &c.tail.0].concat()] };
    for raw in raws(compact.as_bytes()) {
        let x = must(T::make(Some(&c.code), Some(&raw), None, None, None), "its serialisation, followed by other bytes")?;
        check_doc(&x, &want, compact.as_bytes(), "loaded")?;
        ensure!(x == built, "loaded and built documents differ");
        if c.code == "E" {
            let x = must(T::of_raw(&raw), "its serialisation, followed by other bytes")?;
            ensure!(x == built, "loaded and built documents differ");
        }
    }
    // written by someone else
    let mut loose = String::new();
    D::O(want[1..].to_vec()).loose(&mut Mix(c.loose), &mut loose);
    let mut loose = format!("{{\"v\":\"{}\"{}{}", vs(T::PROTO, 1, 0, "JSON", 0), if want.len() > 1 { "," } else { "" }, &loose[1..]);
    let size = loose.len();
    loose.replace_range(6..23, &vs(T::PROTO, 1, 0, "JSON", size as u32));
    let mut lw = want.clone();
    put(&mut lw, "v", D::S(vs(T::PROTO, 1, 0, "JSON", size as u32)));
    for raw in raws(loose.as_bytes()) {
        let x = must(T::make(Some(&c.code), Some(&raw), None, None, None), "loose serialisation")?;
        check_doc(&x, &lw, loose.as_bytes(), "loaded from loose text")?;
        // built again from its document it becomes compact
        let y = must(T::of_ked(&x.ked(), Some(&c.code), None), "document")?;
        check_doc(&y, &want, compact.as_bytes(), "built from a loaded document")?;
        let mut z = x.clone();
        must(z.populate_from_kind_and_self("JSON"), "serialising again")?;
        check_doc(&z, &want, compact.as_bytes(), "serialised again")?;
        // re-assignment of one object
        must(z.populate_from_raw(&raw), "loading into an existing object")?;
        ensure!(z == x, "loading into an existing object differs from loading");
        must(z.populate_from_ked(&ked, None), "document into an existing object")?;
        check_doc(&z, &want, compact.as_bytes(), "rebuilt")?;
        let w = must(T::make(Some(&c.code), None, None, None, Some(&x)), "copy")?;
        ensure!(w == x, "copy differs");
    }
    // another document assigned: all the parts follow
    let g = assemble(&s(&vs(T::PROTO, 1, 0, "JSON", 7)), at(&want, "d"), &c.other, c.idpos / 3);
    let gw = fix_size(&g).unwrap();
    let mut z = built.clone();
    z.set_ked(&D::O(g.clone()).val());
    must(z.populate_from_kind_and_self("JSON"), "serialising an assigned document")?;
    check_doc(&z, &gw, D::O(gw.clone()).text().as_bytes(), "assigned document")?;
    // one object, many documents one after the other: it is always as a new one
    let g_text = D::O(gw.clone()).text();
    let (mut mix, mut z) = (Mix(c.loose ^ 0x5eed), built.clone());
    for _ in 0..6 {
        let (fields, text) = match mix.next() % 3 {
            0 => (&want, &compact),
            1 => (&lw, &loose),
            _ => (&gw, &g_text),
        };
        let after = match mix.next() % 4 {
            0 => vec![],
            1 => c.tail.0.clone(),
            2 => [loose.as_bytes(), &c.tail.0].concat(),
            _ => [&c.tail.0[..], compact.as_bytes(), g_text.as_bytes()].concat(),
        };
        match mix.next() % 6 {
            0 => {
                must(z.populate_from_ked(&D::O(fields.clone()).val(), Some("JSON")), "document into an existing object")?;
                let (fields, text) = if std::ptr::eq(fields, &gw) { (&gw, &g_text) } else { (&want, &compact) };
                check_doc(&z, fields, text.as_bytes(), "one object, another document")?;
            }
            1 => refuse(z.populate_from_raw(&text.as_bytes()[..text.len() - 1]), "a truncated serialisation")?,
            _ => {
                let raw = [text.as_bytes(), &after].concat();
                must(z.populate_from_raw(&raw), "loading into an existing object")?;
                check_doc(&z, fields, text.as_bytes(), "one object, another serialisation")?;
            }
        }
    }
    // the other algorithm is refused
    let other = if c.code == "E" { "H" } else { "E" };
    refuse(T::make(Some(other), None, None, Some(&ked), None), "an identifier of another algorithm")?;
    refuse(T::make(Some(other), Some(compact.as_bytes()), None, None, None), "an identifier of another algorithm")?;
    refuse(T::make(Some(&c.code), None, None, None, None), "nothing")?;
    refuse(T::make(Some(&c.code), None, Some("CBOR"), Some(&ked), None), "an unknown kind")?;
    // too short
    let k = c.cut as usize % compact.len();
    refuse(T::make(Some(&c.code), Some(&compact.as_bytes()[..k]), None, None, None), "a truncated serialisation")?;
    refuse(T::make(Some(&c.code), Some(&compact.as_bytes()[..compact.len() - 1]), None, None, None), "a truncated serialisation")?;
    // another declared size: not a whole document any more
    let mut long = compact.clone();
    long.replace_range(6..23, &vs(T::PROTO, 1, 0, "JSON", (compact.len() + 1 + c.cut as usize) as u32));
    refuse(T::make(Some(&c.code), Some(long.as_bytes()), None, None, None), "a serialisation declared longer")?;
    let mut less = compact.clone();
    less.replace_range(6..23, &vs(T::PROTO, 1, 0, "JSON", k as u32));
    refuse(T::make(Some(&c.code), Some(less.as_bytes()), None, None, None), "a serialisation declared shorter")?;
    for v in [vs(T::PROTO, 1, 1, "JSON", size as u32), vs(T::PROTO, 2, 0, "JSON", size as u32), vs(T::PROTO, 0, 0, "JSON", size as u32), vs(T::PROTO, 1, 0, "MGPK", size as u32), vs(if T::PROTO == "KERI" { "ACDC" } else { "KERI" }, 1, 0, "JSON", size as u32)] {
        let mut raw = loose.clone();
        raw.replace_range(6..23, &v);
        refuse(T::make(Some(&c.code), Some(raw.as_bytes()), None, None, None), &format!("version string {v}"))?;
        let mut g = want.clone();
        put(&mut g, "v", D::S(v.clone()));
        refuse(T::make(Some(&c.code), None, None, Some(&D::O(g).val()), None), &format!("version string {v}"))?;
    }
    // damaged bytes: refused, or taken for exactly what they say
    let mut raw = compact.clone().into_bytes();
    apply(&c.edits, &mut raw);
    if let Ok(x) = T::make(Some(&c.code), Some(&raw), None, None, None) {
        let w = (0..=12).find_map(|i| vs_at(raw.get(i..29)?));
        let Some(w) = w else { fail!("accepted without version string") };
        ensure!(raw.len() >= w.4 as usize, "accepted while shorter than declared");
        let used = &raw[..w.4 as usize];
        let j: serde_json::Value = serde_json::from_slice(used).map_err(|e| format!("accepted what is not JSON: {e}"))?;
        same!(x.raw(), used.to_vec(), "damaged: serialisation");
        ensure!(x.ked() == Value::from(&j), "damaged: document differs from what the bytes say");
        same!((x.size(), x.ident()), (w.4, T::PROTO.to_string()), "damaged: size and protocol");
    }
    // shown to people
    let full = serde_json::to_string_pretty(&D::O(want.clone()).json()).unwrap();
    for (n, lim) in [(None, 1024), (Some(c.pretty as usize), c.pretty as usize), (Some(full.len()), full.len()), (Some(usize::MAX), usize::MAX)] {
        let p = must(built.pretty(n), "pretty")?;
        ensure!(full.starts_with(&p) && p.len() <= lim && (p.len() + 4 > lim || p == full), "pretty({n:?}) of {} bytes gives {} bytes", full.len(), p.len());
    }
    Ok(())
}
fn c21(c: &DocCase, cx: &mut Cx) -> R {
    doc_checks::<Serder>(c, cx)
}
fn doc_case(proto: &'static str) -> BoxedStrategy<DocCase> {
    let v = prop_oneof![14 => (0u32..(1 << 24)).prop_map(move |n| D::S(vs(proto, 1, 0, "JSON", n))), 1 => version()];
    let id = prop_oneof![6 => digest_id().prop_map(D::S), 1 => leaf()];
    let rest = prop_oneof![3 => fields(0..8), 2 => (event_fields(), fields(0..3)).prop_map(|(mut a, b)| { a.extend(b); unique(a) })];
    (v, id, rest, any::<u16>(), digest_code(), prop_oneof![3 => Just(true), 1 => Just(false)], any::<u64>(), (tail(), any::<u16>()), vec(edit(), 1..3), fields(0..3), 0u16..600)
        .prop_map(|(v, id, rest, idpos, code, selfaddressed, loose, (tail, cut), edits, other, pretty)| {
            let code = match &id {
                D::S(t) if !selfaddressed => r::mat_read(t.as_bytes()).map(|m| m.code).filter(|c| DIGESTS.contains(&c.as_str())).unwrap_or(code),
                _ => code,
            };
            DocCase { v, id, rest, idpos, code, selfaddressed, loose, tail, cut, edits, other, pretty }
        })
        .boxed()
}
fn tail() -> BoxedStrategy<Hex> {
    prop_oneof![2 => trailing(), 2 => vec(any::<u8>(), 1..60).prop_map(Hex), 1 => select(vec!["}", "{\"v\":\"KERI10JSON000011_\"}", "-AABAA", " ", "\n", "\u{0}", "}}}"]).prop_map(|s| Hex(s.as_bytes().to_vec()))].boxed()
}
pub fn c21_subs() -> Vec<Sub> {
    vec![sub(
        "c21_event",
        "events (arbitrary fields after the version string, self-addressed or with an arbitrary identifier of 9 algorithms) built, loaded compact and loose with trailing bytes, re-assigned, truncated, with wrong declared sizes, versions, kinds and protocols, and damaged; non-trivial when the document is admissible",
        20_000,
        400_000,
        || doc_case("KERI"),
        c21,
    )]
}

// ---- C22 ----------------------------------------------------------------------------------------

pub fn key_text() -> BoxedStrategy<String> {
    (select(KEYS), fill()).prop_map(|(c, f)| r::mat_build(c, &f.make(r::fixed_raw_size(c).unwrap())).unwrap().text).boxed()
}
fn threshold() -> BoxedStrategy<D> {
    prop_oneof![6 => (thold::expr(), any::<u8>()).prop_map(|(e, s)| from_json(&e.written(s))), 1 => select(vec!["", "-1", "zz", "[]", "[[]]", "100000000", "1/2"]).prop_map(s), 1 => doc()].boxed()
}
pub fn from_json(j: &serde_json::Value) -> D {
    D::of(&Value::from(j))
}
fn hexnum() -> BoxedStrategy<D> {
    prop_oneof![6 => any::<u16>().prop_map(|n| D::S(format!("{n:x}"))), 2 => dict::ints(0, u128::MAX).prop_map(|n| D::S(format!("{n:x}"))), 2 => any::<u128>().prop_map(|n| D::S(format!("{n:x}"))), 1 => select(vec!["0", "00", "0a", "A", "FF", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "g", "-1", "0x1", " 1", "1 "]).prop_map(s), 1 => any::<u64>().prop_map(|n| D::S(format!("{n:X}")))].boxed()
}
/// A qualified number, at times of a code larger than it needs.
fn number_text() -> BoxedStrategy<String> {
    (select(NUMBERS), prop_oneof![2 => any::<u128>(), 1 => any::<u16>().prop_map(u128::from), 1 => dict::ints(0, u128::MAX)])
        .prop_map(|(c, n)| {
            let size = r::fixed_raw_size(c).unwrap();
            r::mat_build(c, &n.to_be_bytes()[16 - size..]).unwrap().text
        })
        .boxed()
}
fn list(e: BoxedStrategy<String>) -> BoxedStrategy<D> {
    prop_oneof![
        40 => vec(e.clone().prop_map(D::S), 0..6).prop_map(D::A),
        1 => (vec(e.clone().prop_map(D::S), 3..8), prop_oneof![1 => 6usize..140, 1 => dict::usizes(0, 140)]).prop_map(|(v, n)| D::A(v.iter().cycle().take(n).cloned().collect())),
        4 => (vec(e.prop_map(D::S), 0..4), leaf(), any::<u16>()).prop_map(|(mut v, l, i)| { v.insert(i as usize % (v.len() + 1), l); D::A(v) }),
    ]
    .boxed()
}
pub fn event_fields() -> BoxedStrategy<Fields> {
    let ilk = prop_oneof![4 => select(vec!["icp", "rot", "dip", "drt", "ixn"]).prop_map(s), 3 => select(ILKS).prop_map(s), 1 => select(vec!["", "ICP", "icp ", "ro", "rotx", "dipdrt"]).prop_map(s), 1 => leaf()];
    let pre = prop_oneof![2 => key_text().prop_map(D::S), 2 => digest_id().prop_map(D::S), 1 => text().prop_map(D::S), 1 => leaf()];
    (ilk, pre, hexnum(), threshold(), list(key_text()), threshold(), list(digest_id()), list(key_text()), (prop_oneof![3 => Just(None), 1 => hexnum().prop_map(Some), 2 => number_text().prop_map(|t| Some(D::S(t)))], any::<u16>(), any::<u64>(), prop_oneof![3 => Just(None), 1 => (any::<u16>(), doc()).prop_map(Some)]))
        .prop_map(|(t, i, sn, kt, k, nt, n, b, (f, drop, order, retype))| {
            let mut v: Fields = vec![("t".into(), t), ("d".into(), s("")), ("i".into(), i), ("s".into(), sn), ("kt".into(), kt), ("k".into(), k), ("nt".into(), nt), ("n".into(), n), ("bt".into(), s("0")), ("b".into(), b), ("c".into(), D::A(vec![])), ("a".into(), D::A(vec![]))];
            if let Some(f) = f {
                v.push(("f".into(), f));
            }
            // now and then a field is missing, of another type, or elsewhere
            if drop % 3 == 0 {
                let i = drop as usize / 3 % v.len();
                v.remove(i);
            }
            if let Some((i, d)) = retype {
                let i = i as usize % v.len();
                v[i].1 = d;
            }
            if order % 4 == 0 {
                let mut m = Mix(order);
                for i in (1..v.len()).rev() {
                    v.swap(i, (m.next() % (i as u64 + 1)) as usize);
                }
            }
            if order % 5 == 0 {
                link(&mut v, order / 5);
            }
            v
        })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EventCase {
    fields: Fields,
    code: String,
    selfaddressed: bool,
    mutation: Mut,
    loaded: bool,
}
/// Texts of a list of primitives; Err: not such a list.
fn prims(d: &D, codes: &[&str]) -> Result<Vec<String>, ()> {
    let D::A(a) = d else { return Err(()) };
    a.iter().map(|x| x.str().filter(|t| r::mat_read(t.as_bytes()).is_some_and(|m| codes.contains(&m.code.as_str()))).map(String::from).ok_or(())).collect()
}
fn compare<T: std::fmt::Debug + PartialEq>(got: anyhow::Result<T>, want: Result<T, ()>, what: &str) -> R {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            same!(g, w, "{what}");
            Ok(())
        }
        (Err(_), Err(())) => Ok(()),
        (Ok(g), Err(())) => Err(format!("{what}: {} reported for a malformed field", short(&g))),
        (Err(e), Ok(w)) => Err(format!("{what}: refused ({e}), expected {}", short(&w))),
    }
}
fn qb64s<M: Matter>(v: anyhow::Result<Vec<M>>) -> anyhow::Result<Vec<String>> {
    v?.iter().map(|m| m.qb64()).collect()
}
fn hexval(t: &str) -> Option<Result<u128, ()>> {
    // leading plus signs and empty text are not decided here
    if t.is_empty() || t.starts_with('+') || t.len() > 32 && t.starts_with('0') {
        return None;
    }
    Some(u128::from_str_radix(t, 16).map_err(|_| ()))
}
fn check_threshold(got: anyhow::Result<Option<Tholder>>, d: Option<&D>, what: &str) -> R {
    match d {
        None => same!(must(got, what)?.is_none(), true, "{what} of an event without one"),
        Some(d) => match thold::ref_sith(&d.json()) {
            None => {}
            Some(Err(())) => ensure!(got.is_err(), "{what}: malformed {} accepted", d.text()),
            Some(Ok(rule)) => {
                let t = must(got, what)?;
                let Some(t) = t else { fail!("{what}: missing") };
                let n = 6u32;
                let picks: Vec<Vec<u32>> = (0..1 << n).map(|b: u32| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect();
                thold::same_threshold(&t, &rule, what, &picks)?;
            }
        },
    }
    Ok(())
}
fn c22(c: &EventCase, cx: &mut Cx) -> R {
    let mut f: Fields = vec![("v".into(), s("KERI10JSON000000_"))];
    f.extend(c.fields.iter().cloned());
    f = unique(f);
    put(&mut f, "d", D::S(digest_text(&c.code, b"x")));
    if c.selfaddressed {
        f = completed(&f, "d", &c.code, &[]).ok_or("bad case")?;
        let mut code = c.code.clone();
        c.mutation.apply(&mut f, "d", &mut code, &[]);
    }
    let Ok(e) = Serder::new(Some(&c.code), None, None, Some(&D::O(f.clone()).val()), None) else {
        // the identifier or version string was mutated: C21
        let ok = fix_size(&f).is_some_and(|f| at(&f, "v").unwrap().str().unwrap().starts_with("KERI")) && at(&f, "d").and_then(|d| d.str()).and_then(|t| r::mat_read(t.as_bytes())).is_some_and(|m| m.code == c.code);
        ensure!(!ok, "event refused");
        cx.class("not an event");
        return Ok(());
    };
    let f = fix_size(&f).ok_or("accepted without a version string")?;
    let e = if c.loaded { must(Serder::new(Some(&c.code), Some(&e.raw()), None, None, None), "its serialisation")? } else { e };
    cx.hit();
    let empty_or = |l: &str, codes: &[&str]| at(&f, l).map(|d| prims(d, codes)).unwrap_or(Ok(vec![]));
    let is_list = |l: &str| at(&f, l).is_none_or(|d| matches!(d, D::A(_)));
    // (primitives followed by other text are not claimed)
    let followed = |d: &D| matches!(d, D::A(a) if a.iter().filter_map(|x| x.str()).any(|t| r::mat_read(t.as_bytes()).is_some_and(|m| m.text.len() < t.len())));
    if ["k", "n", "b"].iter().any(|l| at(&f, l).is_some_and(followed)) {
        cx.class("a primitive followed by other text");
        return Ok(());
    }
    // a field that is no list gives an error or nothing
    for (l, codes, got) in [("k", KEYS, qb64s(e.verfers())), ("n", DIGESTS, qb64s(e.digers())), ("b", KEYS, qb64s(e.werfers()))] {
        if is_list(l) {
            let w = empty_or(l, codes);
            cx.class(format!("{l}: {}", match &w { Ok(v) if v.is_empty() => "none", Ok(_) => "listed", Err(()) => "malformed" }));
            compare(got, w, &format!("primitives of {l}"))?;
        } else if let Ok(v) = got {
            ensure!(v.is_empty(), "primitives of {l}, which is no list: {v:?}");
        }
    }
    check_threshold(e.tholder(), at(&f, "kt"), "threshold")?;
    check_threshold(e.ntholder(), at(&f, "nt"), "next threshold")?;
    let sn = match at(&f, "s").map(|d| d.str()) {
        Some(Some(t)) => hexval(t),
        _ => Some(Err(())),
    };
    if let Some(sn) = sn {
        compare(e.sn(), sn, "sequence number")?;
        compare(e.sner().and_then(|n| n.num()), sn, "sequence number primitive")?;
        if let Ok(n) = sn {
            same!(must(e.sner().and_then(|n| n.numh()), "sn")?, format!("{n:x}"), "sequence number in hexadecimal");
        }
    }
    // the first-seen number is a qualified one (other text is not decided here)
    let seen = match at(&f, "f") {
        None => Some(Ok(None)),
        Some(D::S(t)) => r::mat_read(t.as_bytes()).filter(|m| NUMBERS.contains(&m.code.as_str()) && m.text.len() == t.len()).map(|m| Ok(Some((m.code, m.raw.iter().fold(0u128, |n, b| n << 8 | *b as u128))))),
        Some(_) => Some(Err(())),
    };
    if let Some(seen) = seen {
        compare(e.fner().and_then(|n| n.map(|n| Ok((n.code(), n.num()?))).transpose()), seen.clone(), "first-seen number primitive")?;
        compare(e._fn(), seen.and_then(|s| s.map(|s| s.1).ok_or(())), "first-seen number")?;
    }
    let pre = at(&f, "i").and_then(|d| d.str()).map(String::from).ok_or(());
    compare(e.pre(), pre.clone(), "prefix")?;
    compare(e.preb(), pre.map(|p| p.into_bytes()), "prefix bytes")?;
    let est = at(&f, "t").and_then(|d| d.str()).map(|t| ["icp", "rot", "dip", "drt"].contains(&t)).ok_or(());
    compare(e.est(), est, "establishment")?;
    // its own identifier
    let right = said(&f, "d", &c.code, &[]) == at(&f, "d").and_then(|d| d.str()).map(String::from);
    cx.class(if right { "identifier right" } else { "identifier wrong" });
    same!(e.saider().verify(&e.ked(), Some(true), Some(true), None, None, None).unwrap_or(false), right, "verification of the event's identifier");
    Ok(())
}
pub fn c22_subs() -> Vec<Sub> {
    vec![sub(
        "c22_accessors",
        "events of all types with 0-6 keys, digests and witnesses of all codes, thresholds of all forms, sequence numbers to 128 bits, any field missing, of another type, malformed or elsewhere; non-trivial when an event results",
        20_000,
        400_000,
        || (event_fields(), digest_code(), prop_oneof![2 => Just(true), 1 => Just(false)], prop_oneof![1 => Just(Mut::Nothing), 1 => mutation()], any::<bool>()).prop_map(|(fields, code, selfaddressed, mutation, loaded)| EventCase { fields, code, selfaddressed, mutation, loaded }).boxed(),
        c22,
    )]
}

// ---- C23 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CredCase {
    fields: Fields,
    code: String,
    loaded: bool,
}
fn c23_doc(c: &DocCase, cx: &mut Cx) -> R {
    doc_checks::<Creder>(c, cx)
}
fn c23(c: &CredCase, cx: &mut Cx) -> R {
    let mut f: Fields = vec![("v".into(), s("ACDC10JSON000000_")), ("d".into(), s(""))];
    f.extend(c.fields.iter().cloned());
    let f = completed(&unique(f), "d", &c.code, &[]).ok_or("bad case")?;
    let e = must(Creder::new(Some(&c.code), None, None, Some(&D::O(f.clone()).val()), None), "credential")?;
    let e = if c.loaded { must(Creder::new(Some(&c.code), Some(&e.raw()), None, None, None), "its serialisation")? } else { e };
    cx.hit();
    let text = |l: &str| at(&f, l).and_then(|d| d.str()).map(String::from).ok_or(());
    same!(D::of(&e.crd()), D::O(f.clone()), "credential document");
    compare(e.issuer(), text("i"), "issuer")?;
    compare(e.schema(), text("s"), "schema")?;
    same!(D::of(&e.subject()), at(&f, "a").cloned().unwrap_or(D::Null), "subject");
    compare(e.status(), if at(&f, "ri").is_none() { Ok(None) } else { text("ri").map(Some) }, "status")?;
    compare(e.chains().map(|v| D::of(&v)), Ok(at(&f, "e").cloned().unwrap_or(D::O(vec![]))), "chains")?;
    same!(e.saider().verify(&e.crd(), Some(true), Some(true), None, None, None).unwrap_or(false), true, "verification of the credential's identifier");
    for l in ["i", "s", "a", "ri", "e"] {
        cx.class(format!("{l} {}", if at(&f, l).is_some() { "present" } else { "absent" }));
    }
    Ok(())
}
fn cred_fields() -> BoxedStrategy<Fields> {
    let id = || prop_oneof![4 => digest_id().prop_map(D::S), 1 => text().prop_map(D::S), 1 => leaf()];
    let part = || prop_oneof![4 => fields(0..5).prop_map(D::O), 1 => doc()];
    (id(), id(), part(), id(), part(), fields(0..3), any::<u8>(), any::<u64>())
        .prop_map(|(i, sc, a, ri, e, more, present, order)| {
            let mut v: Fields = vec![("i".into(), i), ("ri".into(), ri), ("s".into(), sc), ("a".into(), a), ("e".into(), e)];
            let mut k = 0;
            v.retain(|_| {
                k += 1;
                present >> (k - 1) & 1 == 1 || present & 0xe0 == 0
            });
            v.extend(more);
            if order % 5 == 0 {
                link(&mut v, order / 5);
            }
            if order % 4 == 0 {
                let mut m = Mix(order);
                for i in (1..v.len()).rev() {
                    v.swap(i, (m.next() % (i as u64 + 1)) as usize);
                }
            }
            unique(v)
        })
        .boxed()
}
pub fn c23_subs() -> Vec<Sub> {
    vec![
        sub(
            "c23_document",
            "credentials as the events of C21; non-trivial when the document is admissible",
            12_000,
            200_000,
            || doc_case("ACDC"),
            c23_doc,
        ),
        sub(
            "c23_accessors",
            "credentials with any of issuer, status, schema, subject and chains present, absent, of another type or elsewhere, self-addressed under 9 algorithms; every case is non-trivial",
            20_000,
            400_000,
            || (cred_fields(), digest_code(), any::<bool>()).prop_map(|(fields, code, loaded)| CredCase { fields, code, loaded }).boxed(),
            c23,
        ),
    ]
}

// ---- C28 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Outside {
    doc: D,
    code: String,
    label: String,
    path: String,
    complete: bool,
    edits: Vec<Edit>,
    bytes: Hex,
    indices: Vec<u32>,
}
fn exercise_threshold(t: &Tholder, idx: &[u32]) {
    let _ = (t.satisfy(idx), t.satisfy(&[]), t.limen(), t.sith(), t.to_json(), t.num(), t.size(), t.thold(), t.number().is_some(), t.bexter().is_some());
}
fn exercise_event(e: &Serder, idx: &[u32]) {
    let _ = (e.verfers().is_ok(), e.digers().is_ok(), e.werfers().is_ok(), e.sner().is_ok(), e.sn().is_ok(), e.fner().is_ok(), e._fn().is_ok(), e.pre().is_ok(), e.preb().is_ok(), e.est().is_ok());
    for t in [e.tholder(), e.ntholder()].into_iter().flatten().flatten() {
        exercise_threshold(&t, idx);
    }
    let _ = (e.said(), e.saidb(), e.pretty(None), e.pretty(Some(idx.len() * 37)), e.pretty(Some(0)));
    let mut f = e.clone();
    let _ = f.populate_from_kind_and_self("JSON");
    let _ = f.populate_from_kind_and_self("X");
}
fn exercise_cred(e: &Creder) {
    let _ = (e.crd(), e.issuer().is_ok(), e.schema().is_ok(), e.subject(), e.status().is_ok(), e.chains().is_ok(), e.said(), e.pretty(Some(77)), e.pretty(None));
}
fn c28(c: &Outside, cx: &mut Cx) -> R {
    let mut d = c.doc.clone();
    if c.complete {
        if let D::O(f) = &d {
            if let Some(g) = completed(f, "d", &c.code, &[]) {
                d = D::O(g);
            }
        }
    }
    let v = d.val();
    let mut loaded = 0;
    // documents
    for code in [Some(c.code.as_str()), None] {
        if let Ok(e) = Serder::new(code, None, None, Some(&v), None) {
            exercise_event(&e, &c.indices);
            let mut e2 = e.clone();
            let _ = e2.populate_from_raw(&c.bytes.0);
            exercise_event(&e2, &c.indices);
            loaded += 1;
            if let Ok(p) = Pather::new_with_bext(&format!("-{}", c.path)) {
                let _ = p.tail(&e).is_ok();
            }
        }
        if let Ok(e) = Creder::new(code, None, None, Some(&v), None) {
            exercise_cred(&e);
            loaded += 1;
        }
        for label in [None, Some(c.label.as_str()), Some("i")] {
            let ig = [c.label.as_str(), "v", "zz"];
            for ignore in [None, Some(&ig[..])] {
                if let Ok((sd, sad)) = Saider::saidify(&v, code, None, label, ignore) {
                    loaded += 1;
                    let _ = sd.verify(&sad, Some(true), None, None, label, ignore);
                    let _ = sd.verify(&v, None, None, Some("CBOR"), label, None);
                }
                if let Ok(sd) = Saider::new_with_sad(&v, label, None, ignore, code) {
                    let _ = sd.verify(&v, Some(true), Some(true), None, label, ignore);
                }
            }
        }
        let _ = Saider::new(Some(&v), None, Some("CBOR"), None, code, None, None, None, None).is_ok();
        for allow in [None, Some(&[c.code.as_str()][..])] {
            if let Ok(p) = Prefixer::new_with_ked(&v, allow, code) {
                loaded += 1;
                let _ = p.verify(&v, Some(true)).is_ok();
                let _ = p.verify(&v, Some(false)).is_ok();
            }
        }
    }
    for kc in KEYS.iter().chain(DIGESTS) {
        if let Ok(p) = Prefixer::new_with_ked(&v, None, Some(kc)) {
            let _ = p.verify(&v, Some(true)).is_ok();
        }
        let raw = vec![7u8; r::fixed_raw_size(kc).unwrap()];
        if let Ok(p) = Prefixer::new_with_raw(&raw, Some(kc)) {
            let _ = p.verify(&v, Some(true)).is_ok();
            let _ = p.verify(&v, None).is_ok();
        }
        if let Ok(sd) = Saider::new_with_raw(&raw, Some(kc)) {
            let _ = sd.verify(&v, Some(true), None, None, Some(&c.label), None);
        }
    }
    let _ = common::sizeify(&v, None).is_ok();
    // thresholds
    if let Ok(t) = Tholder::new_with_sith(&v) {
        exercise_threshold(&t, &c.indices);
        loaded += 1;
    }
    if let Ok(t) = Tholder::new(Some(&v), None, None) {
        exercise_threshold(&t, &c.indices);
        loaded += 1;
    }
    for m in [&c.bytes.0[..], d.str().unwrap_or_default().as_bytes()] {
        if let Ok(t) = Tholder::new_with_limen(m) {
            exercise_threshold(&t, &c.indices);
        }
    }
    // paths
    if let Ok(p) = Pather::new_with_bext(&format!("-{}", c.path)) {
        let _ = p.resolve(&v).is_ok();
        if let Ok(q) = Pather::new_with_path(&v) {
            let _ = (p.root(&q).is_ok(), p.strip(&q).is_ok(), p.starts_with(&q).is_ok(), q.resolve(&v).is_ok());
        }
    }
    let _ = Pather::new_with_bext(&c.path).map(|p| (p.path().is_ok(), p.resolve(&v).is_ok(), p.root(&p).is_ok(), p.strip(&p).is_ok(), p.starts_with(&p).is_ok()));
    // bytes
    let mut raw = d.text().into_bytes();
    apply(&c.edits, &mut raw);
    for raw in [&raw[..], d.text().as_bytes(), &c.bytes.0] {
        let _ = common::sniff(raw).is_ok();
        for code in [Some(c.code.as_str()), None] {
            if let Ok(e) = Serder::new(code, Some(raw), None, None, None) {
                exercise_event(&e, &c.indices);
                loaded += 1;
            }
            if let Ok(e) = Creder::new(code, Some(raw), None, None, None) {
                exercise_cred(&e);
                loaded += 1;
            }
        }
        if let Ok(t) = std::str::from_utf8(raw) {
            let _ = common::deversify(t).is_ok();
        }
    }
    cx.class(format!("{} of the constructors accept", match loaded { 0 => "none", 1..=3 => "1-3", _ => "more" }));
    if loaded > 0 {
        cx.hit();
    }
    Ok(())
}
fn outside_doc() -> BoxedStrategy<D> {
    let v = prop_oneof![5 => (select(PROTOS), 0u32..4000).prop_map(|(p, n)| D::S(vs(p, 1, 0, "JSON", n))), 1 => version()];
    let id = prop_oneof![4 => digest_id().prop_map(D::S), 1 => Just(s("")), 1 => Just(D::S("#".repeat(44))), 1 => doc()];
    let with_v = (v, id, prop_oneof![3 => event_fields(), 1 => cred_fields(), 1 => fields(0..6)], any::<u16>(), prop_oneof![8 => Just(None), 1 => (any::<u16>(), text()).prop_map(Some)]).prop_map(|(v, id, mut f, drop, decoy)| {
        put(&mut f, "d", id);
        f.insert(0, ("v".into(), v));
        if drop % 8 == 0 {
            let i = drop as usize / 8 % f.len();
            f.remove(i);
        }
        if let Some((i, t)) = decoy {
            let i = i as usize % f.len();
            f.insert(i, (t, D::S("KERI10JSON0000ff_".into())));
        }
        D::O(unique(f))
    });
    prop_oneof![6 => with_v, 1 => event_fields().prop_map(D::O), 1 => doc(), 1 => threshold()].boxed()
}
/// Documents with a long field, and how much of them to print.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LongDoc {
    doc: D,
    at: u16,
    seed: u64,
    wide: bool,
    sizes: Vec<u32>,
    indices: Vec<u32>,
}
fn c28_long(c: &LongDoc, cx: &mut Cx) -> R {
    let D::O(mut f) = c.doc.clone() else { return Err("bad case".into()) };
    // the version string and the identifier stay
    let places: Vec<usize> = (0..f.len()).filter(|i| !["v", "d"].contains(&f[*i].0.as_str())).collect();
    if let Some(&i) = places.get(c.at as usize % places.len().max(1)) {
        f[i].1 = if c.wide { s(&"é€x".repeat(1 + c.seed as usize % 40_000)) } else { swell(f[i].1.clone(), c.seed) };
    }
    let f = completed(&f, "d", "E", &[]).unwrap_or(f);
    let v = D::O(f).val();
    let sizes = c.sizes.iter().map(|n| *n as usize);
    let longest = if let Ok(e) = Serder::new_with_ked(&v, None, None) {
        exercise_event(&e, &c.indices);
        let _ = sizes.clone().map(|n| e.pretty(Some(n)).is_ok()).count();
        let l = must(Serder::new_with_raw(&[e.raw(), b"-AAB".to_vec()].concat()), "its serialisation");
        exercise_event(&l?, &c.indices);
        e.raw().len()
    } else if let Ok(e) = Creder::new_with_ked(&v, None, None) {
        exercise_cred(&e);
        let _ = sizes.clone().map(|n| e.pretty(Some(n)).is_ok()).count();
        exercise_cred(&must(Creder::new_with_raw(&e.raw()), "its serialisation")?);
        e.raw().len()
    } else {
        0
    };
    if longest > 0 {
        cx.hit();
    }
    cx.class(format!("loaded, {} bytes", [0, 1024, 16_384, 65_536, 131_072].iter().filter(|n| longest > **n).max().map_or("no".to_string(), |n| format!("more than {n}"))));
    Ok(())
}
pub fn c28_subs() -> Vec<Sub> {
    vec![sub(
        "c28_outside",
        "event-, credential- and threshold-like documents with missing, ill-typed and extreme fields, decoy version strings, wrong sizes, edited bytes, arbitrary bytes, given to every document-level constructor, and every accessor of what loads; non-trivial when something accepts",
        12_000,
        250_000,
        || {
            let bytes = prop_oneof![2 => noise(), 2 => vec(any::<u8>(), 0..200).prop_map(Hex), 2 => (vec(any::<u8>(), 0..14), 0u32..60, vec(any::<u8>(), 0..40)).prop_map(|(a, n, b)| Hex([&a[..], vs("KERI", 1, 0, "JSON", n).as_bytes(), &b].concat()))];
            let path = prop_oneof![2 => "[a-z0-9-]{0,10}", 1 => text(), 1 => vec(key(), 0..4).prop_map(|v| v.join("-")), 1 => Just("99999999999999999999999".to_string())];
            let idx = vec(prop_oneof![4 => 0u32..8, 1 => any::<u32>()], 0..10);
            (outside_doc(), digest_code(), key(), path, any::<bool>(), vec(edit(), 1..4), bytes, idx).prop_map(|(doc, code, label, path, complete, edits, bytes, indices)| Outside { doc, code, label, path, complete, edits, bytes, indices }).boxed()
        },
        c28,
    ), sub(
        "c28_long",
        "events and credentials with one field of up to 200 kB (texts, some of wide characters; lists; maps), every accessor, printed in part; non-trivial when one loads",
        1_500,
        30_000,
        || {
            let v = select(PROTOS).prop_map(|p| D::S(vs(p, 1, 0, "JSON", 0)));
            let doc = (v, prop_oneof![2 => event_fields(), 1 => cred_fields(), 1 => fields(1..6)], digest_id()).prop_map(|(v, mut f, id)| {
                put(&mut f, "d", D::S(id));
                f.retain(|x| x.0 != "v");
                f.insert(0, ("v".into(), v));
                D::O(unique(f))
            });
            let sizes = vec(prop_oneof![2 => 0u32..3000, 2 => 0u32..200_000, 1 => select(vec![0, 1, u32::MAX, 1 << 20, 65_535, 65_536, 1023, 1024, 1025])], 1..5);
            (doc, any::<u16>(), any::<u64>(), prop_oneof![3 => Just(false), 1 => Just(true)], sizes, vec(0u32..400, 0..10)).prop_map(|(doc, at, seed, wide, sizes, indices)| LongDoc { doc, at, seed, wide, sizes, indices }).boxed()
        },
        c28_long,
    )]
}
