//! C18, C19: signing thresholds.
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::data::Value;
use num_bigint::BigInt;
use num_rational::Ratio;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::collections::BTreeSet;

type Q = Ratio<BigInt>;

/// What a threshold says.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Rule {
    Num(u32),
    /// clauses of reduced fractions
    Weighted(Vec<Vec<(u32, u32)>>),
}
fn q(w: (u32, u32)) -> Q {
    Ratio::new(w.0.into(), w.1.into())
}
fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn reduce(w: (u32, u32)) -> (u32, u32) {
    let g = gcd(w.0, w.1);
    (w.0 / g, w.1 / g)
}
fn one() -> Q {
    Ratio::from_integer(1.into())
}
impl Rule {
    pub fn satisfied(&self, idx: &[u32]) -> bool {
        let set: BTreeSet<u32> = idx.iter().copied().collect();
        match self {
            Rule::Num(n) => *n > 0 && set.len() >= *n as usize,
            Rule::Weighted(cl) => {
                let total: usize = cl.iter().map(|c| c.len()).sum();
                if set.iter().any(|i| *i as usize >= total) {
                    return false;
                }
                let mut at = 0u32;
                cl.iter().all(|c| {
                    let mut s: Q = Ratio::from_integer(0.into());
                    for w in c {
                        if set.contains(&at) {
                            s += q(*w);
                        }
                        at += 1;
                    }
                    s >= one()
                })
            }
        }
    }
    pub fn size(&self) -> u32 {
        match self {
            Rule::Num(n) => *n,
            Rule::Weighted(cl) => cl.iter().map(|c| c.len() as u32).sum(),
        }
    }
    fn weight_text(w: (u32, u32), sep: &str) -> String {
        if w.1 == 1 {
            w.0.to_string()
        } else {
            format!("{}{sep}{}", w.0, w.1)
        }
    }
    /// canonical value
    fn thold(&self) -> J {
        match self {
            Rule::Num(n) => json!(n),
            Rule::Weighted(cl) => json!(cl.iter().map(|c| c.iter().map(|w| Rule::weight_text(*w, "/")).collect()).collect::<Vec<Vec<String>>>()),
        }
    }
    pub fn sith(&self) -> J {
        match self {
            Rule::Num(n) => json!(format!("{n:x}")),
            Rule::Weighted(cl) if cl.len() == 1 => self.thold()[0].clone(),
            _ => self.thold(),
        }
    }
    fn limen(&self) -> String {
        match self {
            Rule::Num(n) => {
                let (code, len) = if *n < 1 << 16 { ("M", 2) } else { ("0H", 4) };
                r::mat_build(code, &n.to_be_bytes()[4 - len..]).unwrap().text
            }
            Rule::Weighted(cl) => {
                let t = cl.iter().map(|c| c.iter().map(|w| Rule::weight_text(*w, "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a");
                bext_limen(&t)
            }
        }
    }
}
pub fn bext_limen(t: &str) -> String {
    let nbytes = (t.len() * 6).div_ceil(8);
    let pad = (4 - t.len() % 4) % 4;
    let b = r::text_to_bin(&("A".repeat(pad) + t));
    r::mat_build("4A", &b[b.len() - nbytes..]).unwrap().text
}
fn val(j: &J) -> Value {
    Value::from(j)
}

/// Reading of threshold expressions by their documented rules. None: undecided here.
fn ref_weight(s: &str) -> Option<Result<(u32, u32), ()>> {
    if s.contains('+') {
        return None;
    }
    let num = |t: &str| -> Option<u32> { (!t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())).then(|| t.parse::<u32>().ok().filter(|n| *n <= i32::MAX as u32)).flatten() };
    Some(match s.split('/').collect::<Vec<_>>()[..] {
        ["0"] => Ok((0, 1)),
        ["1"] => Ok((1, 1)),
        [n, d] => match (num(n), num(d)) {
            (Some(n), Some(d)) if d > 0 && n <= d => Ok(reduce((n, d))),
            _ => Err(()),
        },
        _ => Err(()),
    })
}
fn ref_clauses(cl: &[J]) -> Option<Result<Rule, ()>> {
    let mut out = vec![];
    for c in cl {
        let mut ws = vec![];
        let Some(c) = c.as_array() else { return Some(Err(())) };
        for w in c {
            match w.as_str() {
                None => return Some(Err(())),
                Some(s) => match ref_weight(s)? {
                    Err(()) => return Some(Err(())),
                    Ok(w) => ws.push(w),
                },
            }
        }
        out.push(ws);
    }
    if out.is_empty() || out.iter().any(|c| c.iter().map(|w| q(*w)).sum::<Q>() < one()) {
        return Some(Err(()));
    }
    Some(Ok(Rule::Weighted(out)))
}
pub fn ref_sith(j: &J) -> Option<Result<Rule, ()>> {
    match j {
        J::Number(n) => Some(match n.as_i64() {
            Some(i) if (0..=u32::MAX as i64).contains(&i) => Ok(Rule::Num(i as u32)),
            _ => Err(()),
        }),
        J::String(s) if s.starts_with('[') => match serde_json::from_str::<J>(s) {
            Ok(j) => ref_sith(&j),
            Err(_) => Some(Err(())),
        },
        J::String(s) => {
            if s.starts_with('+') || s.starts_with("-0") {
                return None;
            }
            Some(match u64::from_str_radix(s, 16) {
                Ok(n) if n <= u32::MAX as u64 => Ok(Rule::Num(n as u32)),
                _ => Err(()),
            })
        }
        J::Array(a) => {
            if a.is_empty() {
                Some(Err(()))
            } else if a.iter().all(|c| c.is_array()) {
                ref_clauses(a)
            } else {
                ref_clauses(&[j.clone()])
            }
        }
        _ => Some(Err(())),
    }
}

// ---- generators ---------------------------------------------------------------------------------

/// A clause: parts of one (exactly, or missing or exceeding it by little), extra weights, zeros.
fn clause() -> BoxedStrategy<Vec<(u32, u32)>> {
    let parts = (1u32..2000, vec(1u32..2000, 1..6)).prop_map(|(d, cuts)| {
        let mut cuts: Vec<u32> = cuts.into_iter().map(|c| c % (d + 1)).chain([0, d]).collect();
        cuts.sort();
        cuts.windows(2).map(|w| (w[1] - w[0], d)).collect::<Vec<_>>()
    });
    let shares = (1u32..12, 0usize..4).prop_map(|(k, extra)| vec![(1, k); k as usize + extra]);
    let big = (1u32..=i32::MAX as u32, any::<u32>()).prop_map(|(d, n)| {
        let n = n % (d + 1);
        vec![(n, d), (d - n, d)]
    });
    let primes = vec(proptest::sample::select(vec![2u32, 3, 5, 7, 11, 13, 127, 8191, 131_071, 2_147_483_647, 2_147_483_629, 65_537]), 1..7).prop_map(|ps| ps.iter().map(|p| (p - 1, *p)).collect::<Vec<_>>());
    let small = vec((0u32..6, 1u32..6), 1..6).prop_map(|v| v.into_iter().map(|(n, d)| (n % (d + 1), d)).collect::<Vec<_>>());
    let decimal = vec(proptest::sample::select(vec![(1u32, 10u32), (2, 10), (3, 10), (1, 3), (2, 3), (1, 6), (1, 7), (6, 7), (1, 49), (33, 100), (34, 100)]), 2..9);
    let dict = (dict::u32s(1, i32::MAX as u32), any::<u32>(), any::<bool>()).prop_map(|(d, n, h)| {
        let n = if h { d / 2 } else { n % (d + 1) };
        vec![(n, d), (d - n, d)]
    });
    // many weights that together make one
    let long = prop_oneof![4 => 12u32..40, 2 => 40u32..140, 1 => dict::u32s(2, 300)].prop_map(|n| (0..n).map(|i| if i % 7 == 3 { (2, 2 * n) } else { (1, n) }).collect::<Vec<_>>());
    let base = prop_oneof![50 => dict, 1 => long, 75 => parts, 75 => shares, 50 => big, 25 => primes, 50 => small, 25 => decimal];
    // change one weight by the least step, add what is missing at random places
    (base, any::<Option<(u8, bool)>>(), vec((any::<u8>(), prop_oneof![Just((0u32, 1u32)), Just((1, 1)), Just((1, 2))]), 0..3))
        .prop_map(|(mut v, step, more)| {
            if let Some((i, up)) = step {
                let i = i as usize % v.len();
                let (n, d) = v[i];
                v[i] = if up { ((n + 1).min(d), d) } else { (n.saturating_sub(1), d) };
            }
            for (i, w) in more {
                v.insert(i as usize % (v.len() + 1), w);
            }
            if v.iter().map(|w| q(*w)).sum::<Q>() < one() {
                let at = v.len() / 2;
                v.insert(at, (1, 1));
            }
            v
        })
        .boxed()
}
/// Weights as written (not reduced).
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Expr {
    Num(u32),
    Weighted(Vec<Vec<(u32, u32)>>),
}
impl Expr {
    pub fn rule(&self) -> Rule {
        match self {
            Expr::Num(n) => Rule::Num(*n),
            Expr::Weighted(c) => Rule::Weighted(c.iter().map(|c| c.iter().map(|w| reduce(*w)).collect()).collect()),
        }
    }
    pub fn written(&self, style: u8) -> J {
        match self {
            Expr::Num(n) => match style % 3 {
                0 => json!(n),
                1 => json!(format!("{n:x}")),
                _ => json!(format!("{n:X}")),
            },
            Expr::Weighted(c) => {
                let w = |w: &(u32, u32)| match (w, style & 4) {
                    ((0, _), 0) => "0".to_string(),
                    ((n, d), 0) if n == d => "1".to_string(),
                    ((n, d), _) => format!("{n}/{d}"),
                };
                let v: Vec<Vec<String>> = c.iter().map(|c| c.iter().map(w).collect()).collect();
                if v.len() == 1 && style & 2 == 0 {
                    json!(v[0])
                } else {
                    json!(v)
                }
            }
        }
    }
}
pub fn expr() -> BoxedStrategy<Expr> {
    let num = prop_oneof![6 => 0u32..12, 1 => dict::u32s(0, u32::MAX), 1 => 12u32..300, 1 => proptest::sample::select(vec![255u32, 256, 65_535, 65_536, i32::MAX as u32, u32::MAX]), 1 => any::<u32>()];
    // clauses of one or two weights, as many as a literal of the code says
    let few = prop_oneof![Just(vec![(1u32, 1u32)]), Just(vec![(1, 2), (1, 2)]), Just(vec![(1, 3), (2, 3)])];
    let many = dict::usizes(2, 150).prop_flat_map(move |n| vec(few.clone(), n)).boxed();
    prop_oneof![2 => num.prop_map(Expr::Num), 5 => vec(clause(), 1..4).prop_map(Expr::Weighted), 1 => prop_oneof![16 => vec(clause(), 4..9).boxed(), 1 => vec(clause(), 9..24).boxed(), 1 => many].prop_map(Expr::Weighted)].boxed()
}
/// Indices: a base set chosen by bits, with repetitions, strangers and another order.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Picks {
    bits: u64,
    dups: Vec<u8>,
    strangers: Vec<u32>,
    order: u64,
}
impl Picks {
    fn base(&self, size: u32) -> Vec<u32> {
        let n = size.min(400);
        // beyond 64 the bits come round again, shifted
        (0..n).filter(|i| self.bits.rotate_right(i / 64 * 7) >> (i % 64) & 1 == 1).collect()
    }
    fn shuffled(&self, mut v: Vec<u32>) -> Vec<u32> {
        let mut m = Mix(self.order);
        for i in (1..v.len()).rev() {
            v.swap(i, (m.next() % (i as u64 + 1)) as usize);
        }
        v
    }
}
fn picks() -> BoxedStrategy<Picks> {
    let bits = prop_oneof![2 => any::<u64>(), 2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a | b), 1 => Just(u64::MAX), 1 => (0u32..64).prop_map(|b| !(1 << b)), 1 => (0u32..64, 0u32..64).prop_map(|(a, b)| !(1 << a | 1 << b)), 1 => Just(0)];
    let stranger = prop_oneof![2 => 0u32..20, 1 => dict::u32s(0, u32::MAX), 1 => Just(u32::MAX), 1 => any::<u32>()];
    (bits, vec(any::<u8>(), 0..5), prop_oneof![2 => Just(vec![]), 1 => vec(stranger, 1..4)], any::<u64>())
        .prop_map(|(bits, dups, strangers, order)| Picks { bits, dups, strangers, order })
        .boxed()
}

// ---- C18 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sat {
    expr: Expr,
    style: u8,
    picks: Picks,
}
fn c18(c: &Sat, cx: &mut Cx) -> R {
    let rule = c.expr.rule();
    let t = must(Tholder::new_with_sith(&val(&c.expr.written(c.style))), "threshold")?;
    let base = c.picks.base(rule.size());
    let want = rule.satisfied(&base);
    cx.hit();
    cx.class(format!("{} {}", if matches!(rule, Rule::Num(_)) { "numeric" } else { "weighted" }, if want { "satisfied" } else { "not satisfied" }));
    let sat = |v: &[u32]| must(t.satisfy(v), "satisfaction");
    same!(sat(&base)?, want, "satisfaction of {:?} by {base:?}", c.expr);
    // order and repetition
    let mut many = base.clone();
    for d in &c.picks.dups {
        if !base.is_empty() {
            many.push(base[*d as usize % base.len()]);
        }
    }
    let many = c.picks.shuffled(many);
    same!(sat(&many)?, want, "satisfaction by reordered and repeated {many:?}");
    // indices beyond the list
    if !c.picks.strangers.is_empty() {
        let mut more = many.clone();
        let off = rule.size();
        more.extend(c.picks.strangers.iter().map(|s| s.saturating_add(off)));
        let more = c.picks.shuffled(more);
        same!(sat(&more)?, rule.satisfied(&more), "satisfaction by {more:?}");
        if matches!(rule, Rule::Weighted(_)) {
            ensure!(want || !sat(&more)?, "indices beyond the list satisfy");
        }
    }
    // every single addition keeps, every single removal follows the rule
    let n = rule.size().min(400);
    for i in (0..n).filter(|i| n < 48 || (*i as u64 ^ c.picks.order) % (n as u64 / 16) == 0) {
        let mut v = base.clone();
        if let Some(p) = v.iter().position(|x| *x == i) {
            v.remove(p);
        } else {
            v.push(i);
            ensure!(!want || sat(&v)?, "adding {i} to {base:?} unsatisfies");
        }
        same!(sat(&v)?, rule.satisfied(&v), "satisfaction by {v:?}");
    }
    same!(sat(&[])?, false, "satisfaction by nothing");
    let all: Vec<u32> = (0..rule.size().min(5000)).collect();
    same!(sat(&all)?, rule.satisfied(&all), "satisfaction by all indices");
    Ok(())
}
pub fn c18_subs() -> Vec<Sub> {
    vec![sub(
        "c18_satisfy",
        "numeric thresholds and weighted ones with clauses that partition one exactly, miss or exceed it by the least step, prime and 31-bit denominators x index multisets (subsets, repeated, reordered, beyond the list, every single addition and removal); every case is non-trivial",
        25_000,
        500_000,
        || (expr(), any::<u8>(), picks()).prop_map(|(expr, style, picks)| Sat { expr, style, picks }).boxed(),
        c18,
    )]
}

// ---- C19 ----------------------------------------------------------------------------------------

pub fn same_threshold(t: &Tholder, rule: &Rule, what: &str, picks: &[Vec<u32>]) -> R {
    let weighted = matches!(rule, Rule::Weighted(_));
    same!(t.weighted(), weighted, "{what}: kind");
    same!(t.size(), rule.size(), "{what}: size");
    same!(t.thold(), val(&rule.thold()), "{what}: threshold");
    same!(must(t.sith(), what)?, val(&rule.sith()), "{what}: text form");
    same!(must(t.to_json(), what)?, serde_json::to_string(&rule.sith()).unwrap(), "{what}: JSON form");
    same!(String::from_utf8_lossy(&must(t.limen(), what)?).into_owned(), rule.limen(), "{what}: encoded form");
    same!(must(t.num(), what)?, if let Rule::Num(n) = rule { Some(*n) } else { None }, "{what}: number");
    same!(t.number().map(|n| n.num().ok()), if let Rule::Num(n) = rule { Some(Some(*n as u128)) } else { None }, "{what}: number primitive");
    same!(t.bexter().is_some(), weighted, "{what}: text primitive");
    for p in picks {
        same!(must(t.satisfy(p), what)?, rule.satisfied(p), "{what}: satisfaction by {p:?}");
    }
    Ok(())
}
fn c19(c: &Sat, cx: &mut Cx) -> R {
    let rule = c.expr.rule();
    cx.hit();
    cx.class(match &rule {
        Rule::Num(_) => "numeric".to_string(),
        Rule::Weighted(c) => format!("{} clauses", c.len()),
    });
    let base = c.picks.base(rule.size());
    let picks = vec![base.clone(), c.picks.shuffled((0..rule.size().min(400)).collect()), base.iter().take(1).copied().collect()];
    let mut forms: Vec<(&str, anyhow::Result<Tholder>)> = vec![];
    for style in [c.style, 0, 1, 2, 4, 6] {
        let w = c.expr.written(style);
        forms.push(("expression", Tholder::new_with_sith(&val(&w))));
        if w.is_array() {
            forms.push(("JSON text", Tholder::new_with_sith(&val(&json!(serde_json::to_string(&w).unwrap())))));
            forms.push(("pretty JSON text", Tholder::new_with_sith(&val(&json!(serde_json::to_string_pretty(&w).unwrap())))));
        }
    }
    forms.push(("canonical threshold", Tholder::new_with_thold(&val(&rule.thold()))));
    forms.push(("encoded form", Tholder::new_with_limen(rule.limen().as_bytes())));
    if let Rule::Num(n) = rule {
        for (code, len) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
            if len < 4 && n >> (8 * len) != 0 {
                continue;
            }
            let raw = (n as u128).to_be_bytes()[16 - len..].to_vec();
            forms.push(("number of another size", Tholder::new_with_limen(r::mat_build(code, &raw).unwrap().text.as_bytes())));
        }
        forms.push(("decimal value", Tholder::new_with_sith(&val(&json!(n)))));
    }
    for (what, t) in forms {
        let t = must(t, what)?;
        same_threshold(&t, &rule, what, &picks)?;
        // and back
        let sith = must(t.sith(), what)?;
        same_threshold(&must(Tholder::new_with_sith(&sith), "own text form")?, &rule, "own text form", &picks)?;
        same_threshold(&must(Tholder::new_with_limen(&must(t.limen(), what)?), "own encoded form")?, &rule, "own encoded form", &picks)?;
        same_threshold(&must(Tholder::new_with_thold(&t.thold()), "own threshold")?, &rule, "own threshold", &picks)?;
        same!(must(Tholder::new_with_sith(&sith), "own text form")?, t, "{what}: read back");
    }
    Ok(())
}
fn c19_loose(c: &J, cx: &mut Cx) -> R {
    let Some(want) = ref_sith(c) else { return Ok(()) };
    let got = Tholder::new_with_sith(&val(c));
    // the same value as the canonical threshold: a number or a list of clauses
    let canonical = match c {
        J::Array(a) if a.iter().all(|c| c.is_array()) => want.clone(),
        J::Number(_) => want.clone(),
        _ => Err(()),
    };
    match (&canonical, Tholder::new_with_thold(&val(c))) {
        (Err(()), t) => refuse(t, &format!("malformed canonical threshold {c}"))?,
        (Ok(rule), t) => same_threshold(&must(t, &format!("well-formed canonical threshold {c}"))?, rule, "canonical threshold", &[])?,
    }
    match want {
        Err(()) => {
            cx.hit();
            refuse(got, &format!("malformed threshold {c}"))?;
            if c.is_array() {
                let t = json!(c.to_string());
                refuse(Tholder::new_with_sith(&val(&t)), &format!("malformed threshold text {t}"))?;
            }
            Ok(())
        }
        Ok(rule) => {
            cx.class("well formed");
            same_threshold(&must(got, &format!("well-formed threshold {c}"))?, &rule, "expression", &[])
        }
    }
}
/// Encoded thresholds with arbitrary text or number in them, and other material.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Limen {
    Text(String),
    Num(String, Hex),
    Other(CodeRaw),
}
fn c19_limen(c: &Limen, cx: &mut Cx) -> R {
    let (text, want) = match c {
        Limen::Text(t) => {
            if t.len() % 4 == 0 && t.starts_with('A') {
                return Ok(());
            }
            let cl: Vec<J> = t.replace('s', "/").split('a').map(|c| json!(c.split('c').collect::<Vec<_>>())).collect();
            (bext_limen(t), ref_clauses(&cl))
        }
        Limen::Num(code, raw) => {
            let n = raw.0.iter().fold(0u128, |a, b| a << 8 | *b as u128);
            (r::mat_build(code, &raw.0).ok_or("case")?.text, Some(if n <= u32::MAX as u128 { Ok(Rule::Num(n as u32)) } else { Err(()) }))
        }
        Limen::Other(cr) => {
            if ["M", "0H", "N", "0A"].contains(&cr.code.as_str()) || ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"].contains(&cr.code.as_str()) {
                return Ok(());
            }
            (r::mat_build(&cr.code, &cr.raw()).ok_or("case")?.text, Some(Err(())))
        }
    };
    let Some(want) = want else { return Ok(()) };
    let got = Tholder::new_with_limen(text.as_bytes());
    match want {
        Err(()) => {
            cx.hit();
            refuse(got, &format!("encoded malformed threshold {c:?}"))
        }
        Ok(rule) => {
            cx.class("well formed");
            let t = must(got, &format!("encoded threshold {c:?}"))?;
            same!(t.weighted(), matches!(rule, Rule::Weighted(_)), "kind");
            same!(t.size(), rule.size(), "size");
            same!(t.thold(), val(&rule.thold()), "threshold");
            Ok(())
        }
    }
}
fn c19_nothing(_: &u8, cx: &mut Cx) -> R {
    cx.hit();
    if Tholder::new(None, None, None).is_ok() {
        fail!("no threshold expression accepted");
    }
    refuse(Tholder::new_with_limen(b""), "empty encoded threshold")
}
fn loose_weight() -> BoxedStrategy<J> {
    prop_oneof![
        6 => (0u32..5, 1u32..5).prop_map(|(n, d)| json!(format!("{n}/{d}"))),
        3 => proptest::sample::select(vec!["0", "1", "1/1", "1/2", "01/02", "0/1", "0/5", "2147483647/2147483647"]).prop_map(|s| json!(s)),
        2 => proptest::sample::select(vec![
            "2", "-1", "1/0", "0/0", "3/2", "-1/2", "1/-2", "-1/-2", "1/2/3", "/", "1/", "/2", "", " ", "1 /2", " 1/2", "1/2 ", "0.5", "1.0", "a", "½", "１/２", "1/2147483648",
            "2147483648/2147483648", "99999999999999999999/1", "00", "10", "1s2", "0x1", "1/0x2", "1//2", "[\"1\"]",
        ]).prop_map(|s| json!(s)),
        1 => prop_oneof![Just(json!(1)), Just(json!(0)), Just(json!(0.5)), Just(json!(null)), Just(json!(true)), Just(json!({})), Just(json!([])), Just(json!(["1"])), Just(json!([["1"]])), Just(json!({"1/2": ["1"]}))],
        1 => "[0-9/]{0,6}".prop_map(|s| json!(s)),
        1 => "\\PC{0,4}".prop_map(|s| json!(s)),
    ]
    .boxed()
}
fn loose() -> BoxedStrategy<J> {
    let list = vec(loose_weight(), 0..5).prop_map(|v| json!(v)).boxed();
    let valid = expr().prop_map(|e| e.written(0)).boxed();
    prop_oneof![
        4 => list.clone(),
        4 => vec(list.clone(), 0..4).prop_map(|v| json!(v)),
        2 => (valid.clone(), any::<u8>(), loose_weight()).prop_map(|(mut j, i, w)| {
            if let Some(a) = j.as_array_mut() {
                let k = i as usize % a.len();
                let n = a.len();
                match a[k].as_array_mut() {
                    Some(b) => { let k = (i / 8) as usize % b.len(); b[k] = w }
                    None => a[k % n] = w,
                }
            }
            j
        }),
        1 => (valid, any::<u8>()).prop_map(|(mut j, i)| {
            // drop one weight
            if let Some(a) = j.as_array_mut() {
                let k = i as usize % a.len();
                match a[k].as_array_mut() {
                    Some(b) => { b.remove((i / 8) as usize % b.len()); }
                    None => { a.remove(k); }
                }
            }
            j
        }),
        1 => vec(prop_oneof![3 => list, 1 => loose_weight()], 0..4).prop_map(|v| json!(v)),
        2 => prop_oneof![any::<i64>().prop_map(|n| json!(n)), (-5i64..5).prop_map(|n| json!(n)), any::<u64>().prop_map(|n| json!(n)), (-2.0f64..3.0).prop_map(|n| json!(n)),
            proptest::sample::select(vec![4_294_967_295u64, 4_294_967_296, u64::MAX, i64::MAX as u64]).prop_map(|n| json!(n))],
        2 => prop_oneof!["[0-9a-fA-F]{0,9}", "-[0-9a-f]{1,3}", "[0-9a-z]{1,4}", "0x[0-9]", "[ 0-9]{1,3}", Just("100000000".to_string()), Just("ffffffff".to_string()), Just("8000000000000000".to_string())].prop_map(|s| json!(s)),
        1 => proptest::sample::select(vec!["[", "[]", "[[]]", "[\"1\"", "[1]", "[\"1\"]x", "[\"1\",]", "['1']", "[null]", "[[\"1\"],\"1\"]", "[\"1/2\", \"1/2\"]", "[[[\"1\"]]]"]).prop_map(|s| json!(s)),
        1 => proptest::sample::select(vec![json!(null), json!(true), json!(false), json!({}), json!({"a": 1}), json!([])]),
    ]
    .boxed()
}
pub fn c19_subs() -> Vec<Sub> {
    vec![
        sub("c19_forms", "thresholds (numeric up to 32 bits; clauses of fractions) written as number, hexadecimal in both cases, list, nested list, JSON text, canonical value and encoded primitive, read and written back; every case is non-trivial", 10_000, 200_000, || {
            (expr(), any::<u8>(), picks()).prop_map(|(expr, style, picks)| Sat { expr, style, picks }).boxed()
        }, c19),
        sub("c19_malformed", "expressions from a grammar with well-formed and malformed weights, clauses, nesting, types and JSON text, judged by a reference reading; non-trivial when malformed", 100_000, 2_000_000, loose, c19_loose),
        sub("c19_limen", "encoded primitives with well-formed and malformed threshold text, numbers of any size, other material; non-trivial when malformed", 60_000, 1_000_000, || {
            let weight = prop_oneof![4 => (0u32..4, 1u32..4).prop_map(|(n, d)| format!("{n}s{d}")), 2 => proptest::sample::select(vec!["0", "1", "", "s", "1s", "1s0", "3s2", "2", "1s2s3", "A", "-1", "1s-2", "_"]).prop_map(String::from), 1 => b64_string(0..4)];
            let text = vec(vec(weight, 0..4), 0..3).prop_map(|v| Limen::Text(v.iter().map(|c| c.join("c")).collect::<Vec<_>>().join("a")));
            let num = prop_oneof![Just(("M", 2usize)), Just(("0H", 4)), Just(("N", 8)), Just(("0A", 16))].prop_flat_map(|(c, n)| fill().prop_map(move |f| Limen::Num(c.to_string(), Hex(f.make(n)))));
            prop_oneof![4 => text, 2 => num, 1 => code_raw(var_len_light).prop_map(Limen::Other), 1 => b64_string(0..12).prop_map(Limen::Text)].boxed()
        }, c19_limen),
        sub("c19_nothing", "no expression at all", 1, 1, || any::<u8>().boxed(), c19_nothing),
    ]
}
