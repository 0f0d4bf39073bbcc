//! The document model shared by the document checks, and C27, C24.
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::{ensure, same};
use keride::cesr::common;
use keride::data::{dat, Value};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// A JSON document.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum D {
    Null,
    B(bool),
    I(i64),
    /// above the i64 range
    U(u64),
    /// bits of a finite double
    F(u64),
    S(String),
    A(Vec<D>),
    O(Vec<(String, D)>),
}
pub fn s(t: &str) -> D {
    D::S(t.to_string())
}
pub type Fields = Vec<(String, D)>;

/// Replaces the value at a label, at its place, or appends it.
pub fn put(f: &mut Fields, label: &str, v: D) {
    match f.iter_mut().find(|x| x.0 == label) {
        Some(x) => x.1 = v,
        None => f.push((label.to_string(), v)),
    }
}
pub fn at<'a>(f: &'a Fields, label: &str) -> Option<&'a D> {
    f.iter().find(|x| x.0 == label).map(|x| &x.1)
}
/// A float that serde_json reads back from its own text; see known_findings.txt for the others.
pub fn exact(f: f64) -> bool {
    let t = serde_json::to_string(&f).unwrap();
    serde_json::from_str::<serde_json::Value>(&t).ok().and_then(|v| v.as_f64()).map(f64::to_bits) == Some(f.to_bits())
}
pub fn quote(t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
impl D {
    fn write(&self, out: &mut String) {
        match self {
            D::Null => out.push_str("null"),
            D::B(b) => out.push_str(if *b { "true" } else { "false" }),
            D::I(i) => out.push_str(&i.to_string()),
            D::U(u) => out.push_str(&u.to_string()),
            D::F(f) => out.push_str(&serde_json::to_string(&f64::from_bits(*f)).unwrap()),
            D::S(t) => quote(t, out),
            D::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            D::O(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    quote(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    /// compact JSON
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    /// the same document with white space and escapes
    pub fn loose(&self, m: &mut Mix, out: &mut String) {
        fn ws(m: &mut Mix, out: &mut String) {
            if m.next() % 3 == 0 {
                out.push([' ', '\n', '\t', '\r'][(m.next() % 4) as usize]);
            }
        }
        fn qt(t: &str, m: &mut Mix, out: &mut String) {
            out.push('"');
            for c in t.chars() {
                let must = (c as u32) < 0x20 || c == '"' || c == '\\';
                if c == '/' && m.next() % 2 == 0 {
                    out.push_str("\\/");
                } else if must || m.next() % 6 == 0 {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&if m.next() % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                    }
                } else {
                    out.push(c);
                }
            }
            out.push('"');
        }
        match self {
            D::S(t) => qt(t, m, out),
            D::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    ws(m, out);
                    x.loose(m, out);
                    ws(m, out);
                }
                out.push(']');
            }
            D::O(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    ws(m, out);
                    qt(k, m, out);
                    ws(m, out);
                    out.push(':');
                    ws(m, out);
                    x.loose(m, out);
                    ws(m, out);
                }
                out.push('}');
            }
            x => x.write(out),
        }
    }
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            D::Null => J::Null,
            D::B(b) => J::Bool(*b),
            D::I(i) => (*i).into(),
            D::U(u) => (*u).into(),
            D::F(f) => f64::from_bits(*f).into(),
            D::S(t) => J::String(t.clone()),
            D::A(a) => J::Array(a.iter().map(|x| x.json()).collect()),
            D::O(o) => J::Object(o.iter().map(|(k, x)| (k.clone(), x.json())).collect()),
        }
    }
    pub fn val(&self) -> Value {
        Value::from(&self.json())
    }
    /// built in code, piece by piece
    fn val_by_hand(&self) -> Value {
        match self {
            D::Null => dat!(null),
            D::B(true) => dat!(true),
            D::B(false) => dat!(false),
            D::I(i) if i8::try_from(*i).is_ok() => Value::from(*i as i8),
            D::I(i) if u8::try_from(*i).is_ok() => Value::from(*i as u8),
            D::I(i) if i16::try_from(*i).is_ok() => Value::from(*i as i16),
            D::I(i) if u16::try_from(*i).is_ok() => Value::from(*i as u16),
            D::I(i) if i32::try_from(*i).is_ok() => Value::from(*i as i32),
            D::I(i) if u32::try_from(*i).is_ok() => Value::from(*i as u32),
            D::I(i) => dat!(*i),
            D::U(_) => self.val(),
            D::F(f) => {
                let f = f64::from_bits(*f);
                if (f as f32) as f64 == f {
                    Value::from(f as f32)
                } else {
                    Value::from(f)
                }
            }
            D::S(t) if t.len() % 2 == 0 => dat!(t.as_str()),
            D::S(t) => dat!(t),
            D::A(a) => {
                let v: Vec<Value> = a.iter().map(|x| x.val_by_hand()).collect();
                dat!(v.as_slice())
            }
            D::O(o) => {
                let m: indexmap::IndexMap<String, Value> = o.iter().map(|(k, x)| (k.clone(), x.val_by_hand())).collect();
                dat!(&m)
            }
        }
    }
    /// What a value says.
    pub fn of(v: &Value) -> D {
        match v {
            Value::Null => D::Null,
            Value::Boolean(b) => D::B(*b),
            Value::Number(_) => {
                if let Ok(i) = v.to_i64() {
                    D::I(i)
                } else if let Ok(f) = v.to_f64() {
                    D::F(f.to_bits())
                } else {
                    D::U(v.to_json().ok().and_then(|t| t.parse().ok()).unwrap_or(0))
                }
            }
            Value::String(t) => D::S(t.clone()),
            Value::Array(a) => D::A(a.iter().map(D::of).collect()),
            Value::Object(o) => D::O(o.iter().map(|(k, x)| (k.clone(), D::of(x))).collect()),
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            D::S(t) => Some(t),
            _ => None,
        }
    }
    pub fn fields(&self) -> Option<&Fields> {
        match self {
            D::O(f) => Some(f),
            _ => None,
        }
    }
}

// ---- generators ---------------------------------------------------------------------------------

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[a-zA-Z0-9_ -]{0,12}",
        2 => "\\PC{0,8}",
        1 => vec(select(vec!['"', '\\', '\u{0}', '\u{1}', '\u{8}', '\u{c}', '\n', '\r', '\t', '\u{1f}', '\u{7f}', '\u{80}', '/', '\u{2028}', '\u{ffff}', '𝄞', 'é', '€', '#', '<', '\'']), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => ("[a-z]{0,3}", dict::strs(), "[a-z]{0,3}").prop_map(|(a, b, c)| a + &b + &c),
        1 => dict::strs(),
        1 => select(vec!["KERI10JSON0000fb_", "ACDC10JSON000000_", "KERI10JSON", "{\"v\":\"KERI10JSON000011_\"}", "############################################", "null", "1.0", "0", "-", "[]", "{}", "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]).prop_map(String::from),
    ]
    .boxed()
}
pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["a", "b", "c", "k", "n", "x", "i", "s", "t", "e", "ri", "kt", "nt", "bt", "di", "p", "f", "$id", "@id", "id", "0", "1", "10", "-"]).prop_map(String::from),
        2 => select(NAMES).prop_map(String::from),
        3 => "[a-z]{1,6}",
        1 => text(),
        1 => dict::strs(),
    ]
    .boxed()
}
/// Names that documents of these protocols use.
pub const NAMES: &[&str] = &[
    "v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "b", "br", "ba", "c", "a", "f", "r", "rr", "q", "di", "u", "e", "ri", "ra", "rd", "ii", "m", "o", "l", "h", "dt", "issuer", "issuee", "holder", "status",
    "schema", "subject", "id", "$id", "$schema", "type", "title", "properties", "required", "version", "said", "digest", "prefix", "name", "context", "credentialStatus", "role", "eid", "cid", "url", "scheme",
];
/// A text of many bytes that ends as the given one.
fn long_text(t: &str, len: usize, seed: u64) -> String {
    const WIDE: [char; 8] = ['é', 'ß', '€', '\u{2028}', '𝄞', '"', '\\', '\n'];
    let mut m = Mix(seed);
    // some are of wide and escaped characters, throughout or in places
    let every = [0, 0, 0, 1, 7, 64][m.next() as usize % 6];
    let mut o = String::with_capacity(len + t.len());
    while o.len() + t.len() < len {
        let x = m.next();
        o.push(if every > 0 && (x >> 32) % every == 0 { WIDE[(x >> 16) as usize % WIDE.len()] } else { char::from(b' ' + (x >> 20) as u8 % 95) });
    }
    o.push_str(t);
    o
}
/// A document grown to a long text, list or map.
pub fn swell(d: D, seed: u64) -> D {
    let mut m = Mix(seed);
    let mut pick = |n: usize| (m.next() >> 16) as usize % n.max(1);
    let n = if pick(2) == 0 { 16 + pick(300) } else { dict::some(pick(1 << 30), 2000) };
    match d {
        D::A(mut a) => {
            a.extend((a.len()..n).map(|x| D::I(x as i64)));
            D::A(a)
        }
        D::O(mut o) => {
            let down = pick(2) == 0;
            let sign = if pick(4) == 0 { "" } else { "k" };
            let shift = pick(3);
            (o.len()..n).for_each(|x| put(&mut o, &format!("{sign}{}", if down { n - x } else { x + shift }), D::I(x as i64)));
            D::O(o)
        }
        d => {
            let n = if pick(2) == 0 { (1usize << (6 + pick(12))) + pick(40) } else { dict::some(pick(1 << 30), 1 << 17) };
            D::S(long_text(d.str().unwrap_or_default(), n, seed))
        }
    }
}
/// Now and then: fields that share their values, lists that repeat an element, longer lists.
pub fn link(f: &mut Fields, seed: u64) {
    let mut m = Mix(seed);
    let mut pick = |n: usize| (m.next() >> 16) as usize % n.max(1);
    if f.is_empty() || pick(2) == 0 {
        return;
    }
    if pick(200) == 0 {
        let i = pick(f.len());
        if f[i].0 != "v" {
            f[i].1 = swell(f[i].1.clone(), pick(1 << 40) as u64);
        }
    }
    for _ in 0..1 + pick(3) {
        let (i, j) = (pick(f.len()), pick(f.len()));
        match pick(5) {
            0 | 1 if f[j].0 != "v" => f[j].1 = f[i].1.clone(),
            2 => {
                let k = NAMES[pick(NAMES.len())];
                if at(f, k).is_none() {
                    f.insert(j, (k.into(), f[i].1.clone()));
                }
            }
            3 => match &mut f[i].1 {
                D::A(a) if !a.is_empty() => {
                    let (x, y) = (pick(a.len()), pick(a.len() + 1));
                    a.insert(y, a[x].clone());
                }
                D::O(o) if !o.is_empty() => {
                    let (x, k) = (pick(o.len()), NAMES[pick(NAMES.len())]);
                    let d = o[x].1.clone();
                    put(o, k, d);
                }
                _ => {}
            },
            _ => {
                let n = if pick(60) == 0 { pick(300) } else { pick(16) };
                match &mut f[i].1 {
                    D::A(a) => a.extend((0..n).map(|x| D::I(x as i64))),
                    D::O(o) => (0..n).for_each(|x| put(o, &format!("k{x}"), D::I(x as i64))),
                    _ => {}
                }
            }
        }
    }
}
pub fn float() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>().prop_map(f64::from_bits),
        3 => (any::<i32>(), 0i32..8).prop_map(|(a, k)| a as f64 / 10f64.powi(k)),
        1 => any::<i32>().prop_map(|a| a as f64),
        1 => (any::<i64>(), -300i32..290).prop_map(|(a, k)| (a % 100_000) as f64 * 10f64.powi(k)),
        1 => select(vec![0.0, -0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 1e-5, 1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, 18446744073709551616.0, 1e21, 123456.789]),
    ]
    .prop_map(|f| if f.is_finite() { f.to_bits() } else { 0.5f64.to_bits() })
    .boxed()
}
fn exact_float() -> BoxedStrategy<u64> {
    float().prop_map(|b| if exact(f64::from_bits(b)) { b } else { ((f64::from_bits(b) as f32) as f64).to_bits() }).prop_map(|b| if f64::from_bits(b).is_finite() && exact(f64::from_bits(b)) { b } else { 0.25f64.to_bits() }).boxed()
}
pub fn int() -> BoxedStrategy<D> {
    prop_oneof![
        3 => (-300i64..70_000).prop_map(D::I),
        2 => any::<i64>().prop_map(D::I),
        1 => select(vec![0i64, -1, i8::MIN as i64, i16::MIN as i64, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, u32::MAX as i64 + 1, i64::MIN, i64::MAX, (1 << 53) + 1]).prop_map(D::I),
        1 => ((i64::MAX as u64 + 1)..=u64::MAX).prop_map(D::U),
        1 => select(vec![i64::MAX as u64 + 1, u64::MAX]).prop_map(D::U),
        1 => (dict::u64s(0, i64::MAX as u64), any::<bool>()).prop_map(|(n, m)| D::I(if m { -(n as i64) } else { n as i64 })),
    ]
    .boxed()
}
pub fn leaf() -> BoxedStrategy<D> {
    prop_oneof![1 => Just(D::Null), 1 => any::<bool>().prop_map(D::B), 2 => int(), 1 => exact_float().prop_map(D::F), 4 => text().prop_map(D::S)].boxed()
}
pub fn unique(f: Fields) -> Fields {
    let mut seen = std::collections::HashSet::new();
    f.into_iter().filter(|x| seen.insert(x.0.clone())).collect()
}
/// Documents, seldom at the bottom of many levels.
pub fn doc() -> BoxedStrategy<D> {
    let levels = vec((key(), any::<bool>(), 0u8..3), 5..60);
    let under = (flat_doc(), levels).prop_map(|(d, l)| {
        l.into_iter().fold(d, |d, (k, list, n)| {
            let before = (0..n).map(|i| D::I(i as i64));
            if list {
                D::A(before.chain([d]).collect())
            } else {
                D::O(unique([(k, d)].into_iter().chain(before.enumerate().map(|(i, v)| (format!("z{i}"), v))).collect()))
            }
        })
    });
    let large = (flat_doc(), any::<u64>()).prop_map(|(d, seed)| swell(d, seed));
    prop_oneof![400 => flat_doc(), 2 => under, 1 => large].boxed()
}
fn flat_doc() -> BoxedStrategy<D> {
    leaf()
        .prop_recursive(4, 40, 6, |inner| {
            prop_oneof![
                vec(inner.clone(), 0..6).prop_map(D::A),
                vec((key(), inner), 0..6).prop_map(|f| D::O(unique(f))),
                // now and then a wide one
                (0u8..12, vec((key(), leaf()), 0..24)).prop_map(|(k, f)| match k {
                    0 => D::O(unique(f)),
                    1 => D::A(f.into_iter().map(|x| x.1).collect()),
                    _ => D::A(f.into_iter().take(3).map(|x| x.1).collect()),
                }),
            ]
        })
        .boxed()
}
pub fn fields(n: std::ops::Range<usize>) -> BoxedStrategy<Fields> {
    (vec((key(), doc()), n), any::<u64>())
        .prop_map(|(f, seed)| {
            let mut f = unique(f);
            link(&mut f, seed);
            f
        })
        .boxed()
}

// ---- C27 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Conv {
    doc: D,
    loose: u64,
    other: D,
    label: String,
    pick: u16,
}
fn check_value(v: &Value, d: &D, what: &str, probe: &str) -> R {
    same!(D::of(v), *d, "{what}");
    same!(must(v.to_json(), what)?, d.text(), "{what}: JSON");
    same!(format!("{v}"), d.text(), "{what}: displayed");
    // typed conversions: the one of the kind gives the value, the others an error
    same!(v.to_bool().ok(), if let D::B(b) = d { Some(*b) } else { None }, "{what} as boolean");
    same!(v.to_string().ok(), d.str().map(String::from), "{what} as string");
    same!(v.to_i64().ok(), if let D::I(i) = d { Some(*i) } else { None }, "{what} as integer");
    same!(v.to_f64().ok().map(f64::to_bits), if let D::F(f) = d { Some(*f) } else { None }, "{what} as float");
    same!(v.to_vec().ok().map(|a| a.len()), if let D::A(a) = d { Some(a.len()) } else { None }, "{what} as list");
    same!(v.to_map().ok().map(|a| a.len()), d.fields().map(|f| f.len()), "{what} as map");
    same!(bool::try_from(v).ok(), v.to_bool().ok(), "{what}: conversions to boolean");
    same!(String::try_from(v).ok(), v.to_string().ok(), "{what}: conversions to string");
    same!(Vec::try_from(v).ok(), v.to_vec().ok(), "{what}: conversions to list");
    same!(indexmap::IndexMap::try_from(v).ok(), v.to_map().ok(), "{what}: conversions to map");
    match d {
        D::I(i) => {
            same!(i64::try_from(v).ok(), Some(*i), "{what}: conversion to integer");
            same!(f64::try_from(v).ok(), Some(*i as f64), "{what}: conversion to float");
        }
        D::U(u) => {
            ensure!(i64::try_from(v).is_err(), "{what}: an integer beyond the range converts");
            same!(f64::try_from(v).ok(), Some(*u as f64), "{what}: conversion to float");
        }
        D::F(f) => {
            let f = f64::from_bits(*f);
            same!(i64::try_from(v).ok(), Some(f as i64), "{what}: conversion to integer");
            same!(f64::try_from(v).ok().map(f64::to_bits), Some(f.to_bits()), "{what}: conversion to float");
        }
        _ => {
            ensure!(i64::try_from(v).is_err() && f64::try_from(v).is_err(), "{what}: converts to a number");
        }
    }
    match d {
        D::A(a) => {
            let list = must(v.to_vec(), what)?;
            for (i, x) in a.iter().enumerate() {
                same!(D::of(&v[i]), *x, "{what}[{i}]");
                same!(D::of(&list[i]), *x, "{what} as list [{i}]");
            }
            refuse(v.get(probe), "a label of a list")?;
            for (i, x) in a.iter().enumerate() {
                check_value(&v[i], x, &format!("{what}[{i}]"), probe)?;
            }
        }
        D::O(o) => {
            let map = must(v.to_map(), what)?;
            for (i, (k, x)) in o.iter().enumerate() {
                same!(D::of(&v[k.as_str()]), *x, "{what}[{k:?}]");
                same!(D::of(&v[i]), *x, "{what}[{i}]");
                same!(D::of(must(v.get(k), what)?), *x, "{what}.get({k:?})");
                same!(map.get_index(i).map(|(k, x)| (k.clone(), D::of(x))), Some((k.clone(), x.clone())), "{what} as map at {i}");
            }
            if at(o, probe).is_none() {
                refuse(v.get(probe), "a missing label")?;
            }
            for (k, x) in o {
                check_value(&v[k.as_str()], x, &format!("{what}[{k:?}]"), probe)?;
            }
        }
        _ => refuse(v.get(probe), "a label of a scalar")?,
    }
    Ok(())
}
/// JSON equality of two documents.
fn jeq(a: &D, b: &D) -> bool {
    match (a, b) {
        (D::F(x), D::F(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (D::A(x), D::A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| jeq(x, y)),
        (D::O(x), D::O(y)) => x.len() == y.len() && x.iter().all(|(k, v)| at(y, k).is_some_and(|w| jeq(v, w))),
        _ => a == b,
    }
}
fn c27(c: &Conv, cx: &mut Cx) -> R {
    cx.hit();
    let d = &c.doc;
    cx.class(match d {
        D::O(_) => "map",
        D::A(_) => "list",
        _ => "scalar",
    });
    // text in, text out
    let compact = d.text();
    let mut loose = String::new();
    d.loose(&mut Mix(c.loose), &mut loose);
    for t in [&compact, &loose] {
        let j: serde_json::Value = serde_json::from_str(t).map_err(|e| format!("{t}: {e}"))?;
        check_value(&Value::from(&j), d, &format!("value of {t}"), &c.label)?;
    }
    let v = d.val_by_hand();
    check_value(&v, d, "value built in code", &c.label)?;
    // equality
    ensure!(v == d.val(), "a value differs from itself built another way");
    ensure!(v.clone() == v, "a value differs from its copy");
    let o = c.other.val();
    same!(v == o, jeq(d, &c.other), "equality of {d:?} and {:?}", c.other);
    // assignment by label and position
    if let D::O(f) = d {
        let (mut v, mut f) = (v.clone(), f.clone());
        v[c.label.as_str()] = o.clone();
        put(&mut f, &c.label, c.other.clone());
        same!(D::of(&v), D::O(f.clone()), "assignment to label {:?}", c.label);
        let i = c.pick as usize % f.len();
        v[i] = dat!(true);
        f[i].1 = D::B(true);
        same!(D::of(&v), D::O(f), "assignment to position {i}");
    }
    if let D::A(a) = d {
        if !a.is_empty() {
            let (mut v, mut a) = (v.clone(), a.clone());
            let i = c.pick as usize % a.len();
            v[i] = o.clone();
            a[i] = c.other.clone();
            same!(D::of(&v), D::A(a), "assignment to position {i}");
        }
    }
    // the literal notation
    let l = c.label.as_str();
    let lit = dat!({"a": l, "b": [1, l, null, {"c": true}], "": {}, "d": [], "e": -1.5});
    let want = D::O(vec![
        ("a".into(), s(l)),
        ("b".into(), D::A(vec![D::I(1), s(l), D::Null, D::O(vec![("c".into(), D::B(true))])])),
        ("".into(), D::O(vec![])),
        ("d".into(), D::A(vec![])),
        ("e".into(), D::F((-1.5f64).to_bits())),
    ]);
    same!(D::of(&lit), want, "literal notation");
    same!(lit.to_json().unwrap_or_default(), want.text(), "literal notation");
    // every form of key and of value, in the middle and at the end, with and without trailing commas
    let (x, y) = (v.clone(), o.clone());
    let lit = dat!({
        l: null,
        (format!("{l}1")): true,
        format!("{l}2"): false,
        l.len().to_string(): [null, true, false, [l], {}, x.clone(), y.clone(),],
        ("p"): {"x": x.clone(), ("y"): y.clone(),},
        "last": [false, [], {"z": null}, [true], null],
        "null": null, "yes": true, "no": false, "neg": -(c.pick as i32), "sum": 1u8 + 2,
    });
    let mut want: Fields = vec![];
    let mut put = |k: String, d: D| match want.iter_mut().find(|f| f.0 == k) {
        Some(f) => f.1 = d,
        None => want.push((k, d)),
    };
    put(l.into(), D::Null);
    put(format!("{l}1"), D::B(true));
    put(format!("{l}2"), D::B(false));
    put(l.len().to_string(), D::A(vec![D::Null, D::B(true), D::B(false), D::A(vec![s(l)]), D::O(vec![]), d.clone(), c.other.clone()]));
    put("p".into(), D::O(vec![("x".into(), d.clone()), ("y".into(), c.other.clone())]));
    put("last".into(), D::A(vec![D::B(false), D::A(vec![]), D::O(vec![("z".into(), D::Null)]), D::A(vec![D::B(true)]), D::Null]));
    put("null".into(), D::Null);
    put("yes".into(), D::B(true));
    put("no".into(), D::B(false));
    put("neg".into(), D::I(-(c.pick as i64)));
    put("sum".into(), D::I(3));
    same!(D::of(&lit), D::O(want), "literal notation, all forms");
    let lits = [dat!([null]), dat!([true]), dat!([false]), dat!([[1]]), dat!([{"a": 1}]), dat!([l]), dat!([null, true, l, [2], {"b": 2}, false, -1])];
    let one = |k: &str, n| D::O(vec![(k.into(), D::I(n))]);
    let want = [D::Null, D::B(true), D::B(false), D::A(vec![D::I(1)]), one("a", 1), s(l)].map(|d| D::A(vec![d]));
    same!(lits[..6].iter().map(D::of).collect::<Vec<_>>(), want.to_vec(), "list literals of one");
    same!(D::of(&lits[6]), D::A(vec![D::Null, D::B(true), s(l), D::A(vec![D::I(2)]), one("b", 2), D::B(false), D::I(-1)]), "list literal");
    let lits = [dat!({l: null}), dat!({l: true}), dat!({l: false}), dat!({l: [1]}), dat!({l: {"a": 1}}), dat!({l: l}), dat!({(l): l,})];
    let want = [D::Null, D::B(true), D::B(false), D::A(vec![D::I(1)]), one("a", 1), s(l), s(l)].map(|d| D::O(vec![(l.into(), d)]));
    same!(lits.iter().map(D::of).collect::<Vec<_>>(), want.to_vec(), "map literals of one");
    let h: std::collections::HashMap<String, Value> = [(c.label.clone(), v.clone())].into();
    same!(D::of(&dat!(&h)), D::O(vec![(c.label.clone(), d.clone())]), "map built in code");
    Ok(())
}
/// A history of assignments.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Hist {
    doc: D,
    ops: Vec<(Vec<u16>, Put, D)>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Put {
    Label(String),
    /// the label of an existing field
    At(u16),
    Pos(u16),
}
fn c27_history(c: &Hist, cx: &mut Cx) -> R {
    let (mut v, mut d) = (c.doc.val(), c.doc.clone());
    for (k, (steps, put_at, new)) in c.ops.iter().enumerate() {
        // down to a container, by position or by label
        let (mut x, mut y) = (&mut v, &mut d);
        for (n, st) in steps.iter().enumerate() {
            let i = *st as usize;
            let len = match &*y {
                D::O(o) => o.len(),
                D::A(a) => a.len(),
                _ => 0,
            };
            if len == 0 {
                break;
            }
            let i = i % len;
            match y {
                D::O(o) => {
                    let l = o[i].0.clone();
                    x = if n % 2 == 0 { &mut x[l.as_str()] } else { &mut x[i] };
                    y = &mut o[i].1;
                }
                D::A(a) => {
                    x = &mut x[i];
                    y = &mut a[i];
                }
                _ => unreachable!(),
            }
        }
        let done = match (put_at, &mut *y) {
            (Put::Label(l), D::O(o)) => {
                x[l.as_str()] = new.val();
                cx.class(if at(o, l).is_some() { "label replaced" } else { "label added" });
                put(o, l, new.clone());
                true
            }
            (Put::At(i), D::O(o)) if !o.is_empty() => {
                let l = o[*i as usize % o.len()].0.clone();
                x[l.as_str()] = new.val();
                put(o, &l, new.clone());
                true
            }
            (Put::Pos(i), D::O(o)) if !o.is_empty() => {
                let i = *i as usize % o.len();
                x[i] = new.val();
                o[i].1 = new.clone();
                true
            }
            (Put::At(i) | Put::Pos(i), D::A(a)) if !a.is_empty() => {
                let i = *i as usize % a.len();
                x[i] = new.val();
                a[i] = new.clone();
                true
            }
            _ => false,
        };
        if !done {
            *x = new.val();
            *y = new.clone();
        }
        cx.hit();
        same!(D::of(&v), d, "after assignment {k}");
        same!(must(v.to_json(), "JSON")?, d.text(), "after assignment {k}: JSON");
        if let D::O(o) = &d {
            for (l, e) in o {
                same!(D::of(must(v.get(l), "field")?), *e, "after assignment {k}: field {l:?}");
                same!(D::of(&v[l.as_str()]), *e, "after assignment {k}: field {l:?} by label");
            }
        }
    }
    Ok(())
}
/// A float read from JSON text.
fn c27_float(c: &String, cx: &mut Cx) -> R {
    let f: f64 = c.parse().map_err(|_| "bad case")?;
    let j: serde_json::Value = serde_json::from_str(c).map_err(|e| e.to_string())?;
    let v = Value::from(&j);
    cx.hit();
    if j.as_f64() != Some(f) {
        // serde_json itself misread it: the known finding; what it read must still be kept
        cx.class("misread by the parser (known finding)");
        same!(must(v.to_f64(), "float")?, j.as_f64().unwrap_or_default(), "float read from {c}");
        return Ok(());
    }
    cx.class("read exactly");
    same!(must(v.to_f64(), "float")?, f, "float read from {c}");
    same!(must(v.to_json(), "float")?, serde_json::to_string(&f).unwrap(), "float {c} written again");
    Ok(())
}
fn c27_float_strict(c: &String, _cx: &mut Cx) -> R {
    let j: serde_json::Value = serde_json::from_str(c).map_err(|e| e.to_string())?;
    same!(must(Value::from(&j).to_json(), "float")?, *c, "float {c} written again");
    Ok(())
}
pub fn c27_subs() -> Vec<Sub> {
    vec![
        sub("c27_history", "documents x 1-40 assignments by new or present label and by position, at any depth, against an ordered-map model after each; non-trivial when something was assigned", 12_000, 600_000, || {
            let at = prop_oneof![3 => key().prop_map(Put::Label), 1 => "[a-z][0-9]{1,2}".prop_map(Put::Label), 1 => any::<u16>().prop_map(Put::At), 1 => any::<u16>().prop_map(Put::Pos)];
            let new = prop_oneof![4 => leaf(), 1 => doc(), 1 => Just(D::O(vec![]))];
            (prop_oneof![1 => Just(D::O(vec![])), 2 => doc()], vec((prop_oneof![3 => Just(vec![]), 1 => vec(any::<u16>(), 1..4)], at, new), 1..40)).prop_map(|(doc, ops)| Hist { doc, ops }).boxed()
        }, c27_history),
        sub(
            "c27_convert",
            "arbitrary JSON documents (unicode, control characters, 64-bit integers, doubles, nesting) x compact and loose text, values built in code, every element by key and position, every conversion, equality with another document, assignment; every case is non-trivial",
            150_000,
            2_500_000,
            || {
                (doc(), any::<u64>(), prop_oneof![1 => doc(), 2 => leaf()], key(), any::<u16>(), any::<u8>())
                    .prop_map(|(doc, loose, other, label, pick, twin)| {
                        // sometimes compare with a near twin
                        let other = match (twin % 4, &doc) {
                            (0, d) => d.clone(),
                            (1, D::I(i)) => D::F((*i as f64).to_bits()),
                            (1, D::O(f)) if !f.is_empty() => {
                                let mut f = f.clone();
                                f.reverse();
                                D::O(f)
                            }
                            (1, D::A(a)) if !a.is_empty() => D::A(a[1..].to_vec()),
                            _ => other,
                        };
                        Conv { doc, loose, other, label, pick }
                    })
                    .boxed()
            },
            c27,
        ),
        sub(
            "c27_float",
            "doubles of any bit pattern and decimal texts; every case is non-trivial, those the JSON parser itself misreads are the known finding and only checked to keep what was read",
            200_000,
            4_000_000,
            || prop_oneof![3 => float().prop_map(|b| serde_json::to_string(&f64::from_bits(b)).unwrap()), 1 => (any::<i32>(), any::<u32>(), -40i32..40).prop_map(|(a, b, e)| format!("{a}.{b}e{e}")), 1 => (any::<i16>(), 0u32..1000).prop_map(|(a, b)| format!("{a}.{b:03}"))].boxed(),
            c27_float,
        ),
        sub("c27_float_strict", "the known finding, by its own input", 0, 0, || Just(String::new()).boxed(), c27_float_strict),
    ]
}

// ---- C24 ----------------------------------------------------------------------------------------

pub const PROTOS: &[&str] = &["KERI", "ACDC"];
pub fn vs(proto: &str, major: u8, minor: u8, kind: &str, size: u32) -> String {
    format!("{proto}{major:x}{minor:x}{kind}{size:06x}_")
}
/// Reading of a version string at the start of some bytes.
pub fn vs_at(b: &[u8]) -> Option<(String, u8, u8, String, u32)> {
    if b.len() < 17 {
        return None;
    }
    let up = |r: &[u8]| r.iter().all(|c| c.is_ascii_uppercase());
    let hx = |r: &[u8]| r.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c));
    if !(up(&b[..4]) && hx(&b[4..6]) && up(&b[6..10]) && hx(&b[10..16]) && b[16] == b'_') {
        return None;
    }
    let t = |r: &[u8]| String::from_utf8_lossy(r).into_owned();
    let h = |r: &[u8]| u32::from_str_radix(&t(r), 16).unwrap();
    Some((t(&b[..4]), h(&b[4..5]) as u8, h(&b[5..6]) as u8, t(&b[6..10]), h(&b[10..16])))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Vers {
    proto: String,
    major: u8,
    minor: u8,
    size: u32,
    pre: Hex,
    post: Hex,
    edits: Vec<Edit>,
}
fn size24() -> BoxedStrategy<u32> {
    prop_oneof![1 => dict::u32s(0, (1 << 24) - 1), 2 => 0u32..5000, 2 => 0u32..(1 << 24), 1 => select(vec![0u32, 1, 15, 16, 255, 256, 4095, 4096, 65_535, 65_536, 1_048_575, 1_048_576, 16_777_215])].boxed()
}
fn c24_vers(c: &Vers, cx: &mut Cx) -> R {
    let v = common::Version { major: c.major, minor: c.minor };
    let t = must(common::versify(Some(&c.proto), Some(&v), Some("JSON"), Some(c.size)), "version string")?;
    same!(t, vs(&c.proto, c.major, c.minor, "JSON", c.size), "version string");
    let d = must(common::deversify(&t), "reading the version string")?;
    same!((d.ident, d.version, d.kind, d.size), (c.proto.clone(), v.clone(), "JSON".to_string(), c.size), "version string read back");
    let dflt = must(common::versify(None, None, None, None), "default version string")?;
    same!(dflt, "KERI10JSON000000_", "default version string");
    refuse(common::versify(Some("XXXX"), None, None, None), "an unknown protocol")?;
    refuse(common::versify(None, None, Some("CBOR"), None), "an unknown kind")?;
    // anything else is not a version string
    let mut e = t.clone().into_bytes();
    apply(&c.edits, &mut e);
    if let Ok(e) = String::from_utf8(e) {
        let want = vs_at(e.as_bytes()).filter(|w| e.len() == 17 && PROTOS.contains(&w.0.as_str()) && w.3 == "JSON");
        let got = common::deversify(&e).ok().map(|d| (d.ident, d.version.major, d.version.minor, d.kind, d.size));
        same!(got, want, "reading {e:?}");
    }
    // within a window
    let mut raw = c.pre.0.clone();
    raw.extend_from_slice(t.as_bytes());
    raw.extend_from_slice(&c.post.0);
    let mut broken = raw.clone();
    apply(&c.edits, &mut broken);
    for raw in [raw, broken] {
        let first = if raw.len() < 29 { None } else { (0..=12).find_map(|i| vs_at(&raw[i..29])) };
        let want = first.filter(|w| w.3 == "JSON");
        cx.class(if want.is_some() { "recognised" } else { "refused" });
        let got = common::sniff(&raw).ok().map(|d| (d.ident, d.version.major, d.version.minor, d.kind, d.size));
        same!(got, want, "version found in x\"{}\"", hex(&raw));
    }
    cx.hit();
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sized {
    before: Fields,
    v: D,
    after: Fields,
    kind: bool,
    link: u64,
}
/// Where the version string's own text starts in the compact serialisation.
fn place(f: &Fields) -> usize {
    let upto = f.iter().position(|x| x.0 == "v").unwrap_or(0);
    D::O(f[..upto].to_vec()).text().len() - 1 + if upto > 0 { 1 } else { 0 } + "\"v\":\"".len()
}
/// The document with its version string saying its size; none when it must be refused, as it is
/// without a version string of the supported version near its start.
pub fn fix_size(f: &Fields) -> Option<Fields> {
    resize(f).filter(|f| place(f) <= 12)
}
fn resize(f: &Fields) -> Option<Fields> {
    let (p, major, minor, kind, _) = vs_at(at(f, "v")?.str()?.as_bytes()).filter(|w| at(f, "v").unwrap().str().unwrap().len() == 17 && PROTOS.contains(&w.0.as_str()))?;
    if (major, minor) != (1, 0) || kind != "JSON" {
        return None;
    }
    let size = D::O(f.clone()).text().len();
    let mut f = f.clone();
    put(&mut f, "v", D::S(vs(&p, 1, 0, "JSON", size as u32)));
    Some(f)
}
fn c24_size(c: &Sized, cx: &mut Cx) -> R {
    let mut f = c.before.clone();
    put(&mut f, "v", c.v.clone());
    f.extend(c.after.iter().cloned());
    let mut f = unique(f);
    link(&mut f, c.link);
    if c.link % 4 == 0 && !f.is_empty() {
        // the version string again
        let i = (c.link >> 8) as usize % f.len();
        let i = if c.link % 8 == 0 { f.len() - 1 } else { i };
        f[i].1 = c.v.clone();
    }
    let ked = D::O(f.clone()).val();
    let got = common::sizeify(&ked, c.kind.then_some("JSON"));
    refuse(common::sizeify(&ked, Some("CBOR")), "an unknown kind")?;
    let Some(want) = resize(&f) else {
        cx.class("no version string of the supported version");
        return refuse(got, "a document without a version string of the supported version");
    };
    let want_text = D::O(want.clone()).text();
    let own = place(&want);
    same!(D::of(&ked), D::O(f.clone()), "document left alone");
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            ensure!(own > 12, "sizing was refused: {e}");
            cx.class("misplaced version string");
            return Ok(());
        }
    };
    // (beyond the start only by what looks like a version string there)
    ensure!(own <= 12 || (0..=12).any(|i| vs_at(&want_text.as_bytes()[i..]).is_some()), "a version string at {own} was accepted");
    cx.hit();
    cx.class("sized");
    same!(String::from_utf8_lossy(&got.raw).into_owned(), want_text, "serialisation");
    same!(D::of(&got.ked), D::O(want.clone()), "document");
    let w = vs_at(at(&want, "v").unwrap().str().unwrap().as_bytes()).unwrap();
    same!((got.ident, got.version.major, got.version.minor, got.kind), (w.0, 1, 0, "JSON".to_string()), "what the version string says");
    same!(w.4 as usize, got.raw.len(), "declared size");
    Ok(())
}
pub fn version() -> BoxedStrategy<D> {
    prop_oneof![
        8 => (select(PROTOS), size24()).prop_map(|(p, n)| D::S(vs(p, 1, 0, "JSON", n))),
        1 => (select(PROTOS), 0u8..16, 0u8..16, select(vec!["JSON", "CBOR", "MGPK"]), size24()).prop_map(|(p, a, b, k, n)| D::S(vs(p, a, b, k, n))),
        1 => (select(PROTOS), size24(), vec(edit(), 1..3)).prop_map(|(p, n, e)| {
            let mut v = vs(p, 1, 0, "JSON", n).into_bytes();
            apply(&e, &mut v);
            D::S(String::from_utf8_lossy(&v).into_owned())
        }),
        1 => leaf(),
    ]
    .boxed()
}
pub fn c24_subs() -> Vec<Sub> {
    let pre = || prop_oneof![
        3 => Just(Hex(b"{\"v\":\"".to_vec())),
        3 => vec(prop_oneof![any::<u8>(), select(b"{\"v:KERI10JSON_0a ".to_vec())], 0..14).prop_map(Hex),
        1 => select(vec!["KERI10JSON00", "KERI10JSON0", "KERI10JSONK", "ABCD", "", "{\"a\":1,\"v\":\"", "KER", "0", "_"]).prop_map(|s| Hex(s.as_bytes().to_vec())),
    ];
    let post = || prop_oneof![3 => Just(Hex(b"\",\"t\":\"icp\"}".to_vec())), 2 => vec(any::<u8>(), 0..30).prop_map(Hex), 1 => select(vec!["KERI10JSON0000ff_", "", "_", "ACDC10JSON000000_\"}"]).prop_map(|s| Hex(s.as_bytes().to_vec()))];
    vec![
        sub(
            "c24_version",
            "protocol x version x size (all hexadecimal widths), the string itself, edited, at every offset of a window between arbitrary bytes; every case is non-trivial",
            200_000,
            4_000_000,
            move || (select(PROTOS), 0u8..16, 0u8..16, size24(), pre(), post(), vec(edit(), 1..3)).prop_map(|(p, major, minor, size, pre, post, edits)| Vers { proto: p.to_string(), major, minor, size, pre, post, edits }).boxed(),
            c24_vers,
        ),
        sub(
            "c24_size",
            "documents with valid, foreign, malformed and missing version strings at their first or a later field, decoy version strings in keys and values, other fields that repeat the version string, up to 16 fields; non-trivial when the document was sized",
            120_000,
            2_500_000,
            || {
                let before = prop_oneof![6 => Just(vec![]), 2 => ("[a-z0-9]{0,2}", prop_oneof![0i64..200]).prop_map(|(k, v)| vec![(k, D::I(v))]), 1 => (key(), text()).prop_map(|(k, v)| vec![(k, D::S(v))]), 1 => fields(1..3), 1 => (select(PROTOS), 0u32..300).prop_map(|(p, n)| vec![(vs(p, 1, 0, "JSON", n), D::I(1))])];
                let after = prop_oneof![3 => fields(0..5), 1 => fields(5..16)];
                (before, version(), after, any::<bool>(), any::<u64>()).prop_map(|(before, v, after, kind, link)| Sized { before, v, after, kind, link }).boxed()
            },
            c24_size,
        ),
    ]
}
