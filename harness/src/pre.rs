//! C25: identifier prefixes.
use crate::crypto::digest_text;
use crate::doc::*;
use crate::event::*;
use crate::fw::*;
use crate::refcesr as r;
use crate::typed::{DIGESTS, KEYS};
use crate::{ensure, same};
use keride::cesr::*;
use keride::prefexing::prefixer::Prefixer;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

const INCEPT: &[&str] = &["icp", "dip", "vcp"];
const NONTRANS: &[&str] = &["B", "1AAA", "1AAI"];

fn key_of(f: &Fields) -> Option<String> {
    match at(f, "k")? {
        D::A(a) if a.len() == 1 => a[0].str().map(String::from),
        _ => None,
    }
}
fn is_empty(d: Option<&D>) -> bool {
    match d {
        None => true,
        Some(D::A(a)) => a.is_empty(),
        Some(D::S(t)) => t.is_empty(),
        _ => false,
    }
}
fn ilk_ok(f: &Fields) -> bool {
    at(f, "t").and_then(|d| d.str()).is_some_and(|t| INCEPT.contains(&t))
}
fn digest_of(f: &Fields, code: &str) -> Option<String> {
    let dummy = D::S("#".repeat(r::mat_build(code, &vec![0; r::fixed_raw_size(code)?])?.text.len()));
    let mut f = f.clone();
    put(&mut f, "i", dummy.clone());
    put(&mut f, "d", dummy);
    Some(digest_text(code, D::O(fix_size(&f)?).text().as_bytes()))
}
fn derive(f: &Fields, code: &str) -> Option<String> {
    if !ilk_ok(f) {
        return None;
    }
    if DIGESTS.contains(&code) {
        return digest_of(f, code);
    }
    let k = key_of(f)?;
    let m = r::mat_read(k.as_bytes())?;
    if m.code != code || !KEYS.contains(&code) {
        return None;
    }
    if NONTRANS.contains(&code) && !(is_empty(at(f, "n")) && is_empty(at(f, "b")) && is_empty(at(f, "a"))) {
        return None;
    }
    Some(m.text)
}
/// None: not decided here.
pub fn verifies(pre: &str, f: &Fields, prefixed: bool) -> Option<bool> {
    let code = r::mat_read(pre.as_bytes())?.code;
    let named = !prefixed || at(f, "i").and_then(|d| d.str()) == Some(pre);
    if !ilk_ok(f) {
        return Some(false);
    }
    if DIGESTS.contains(&code.as_str()) {
        return Some(named && digest_of(f, &code).as_deref() == Some(pre));
    }
    let keyed = key_of(f).as_deref() == Some(pre);
    if keyed && NONTRANS.contains(&code.as_str()) {
        match at(f, "n") {
            None | Some(D::A(_)) | Some(D::S(_)) => {}
            _ => return None,
        }
        return Some(named && is_empty(at(f, "n")));
    }
    Some(named && keyed)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Incept {
    fields: Fields,
    code: String,
    allows: Vec<String>,
    muts: Vec<Mut>,
    other: String,
}
fn c25(c: &Incept, cx: &mut Cx) -> R {
    let f = unique(c.fields.clone());
    let v = D::O(f.clone()).val();
    let followed = |d: Option<&D>| match d {
        Some(D::A(a)) => a.iter().filter_map(|x| x.str()).any(|t| r::mat_read(t.as_bytes()).is_some_and(|m| m.text.len() < t.len())),
        Some(D::S(t)) => r::mat_read(t.as_bytes()).is_some_and(|m| m.text.len() < t.len()),
        _ => false,
    };
    if followed(at(&f, "k")) || followed(at(&f, "i")) {
        return Ok(());
    }
    let want = derive(&f, &c.code);
    let got = Prefixer::new_with_ked(&v, None, Some(&c.code));
    // the code taken from the identifier in the event
    let own = at(&f, "i").and_then(|d| d.str()).and_then(|t| r::mat_read(t.as_bytes())).map(|m| m.code).filter(|k| KEYS.contains(&k.as_str()) || DIGESTS.contains(&k.as_str()));
    match own.as_ref().and_then(|k| derive(&f, k)) {
        Some(w) => {
            let p = must(Prefixer::new_with_ked(&v, None, None), "deriving by the identifier's own code")?;
            same!(must(p.qb64(), "prefix")?, w, "prefix derived by the identifier's own code");
            cx.class("code from the identifier");
        }
        None => refuse(Prefixer::new_with_ked(&v, None, None), "an event whose identifier gives no usable code")?,
    }
    // codes allowed
    if !c.allows.is_empty() {
        let al: Vec<&str> = c.allows.iter().map(|x| x.as_str()).collect();
        let p = Prefixer::new_with_ked(&v, Some(&al), Some(&c.code));
        match want.as_ref().filter(|_| c.allows.contains(&c.code)) {
            Some(w) => same!(must(p.and_then(|p| p.qb64()), "an allowed code")?, *w, "prefix"),
            None => refuse(p, "a code that is not allowed")?,
        }
    }
    let Some(want) = want else {
        cx.class("refused");
        return refuse(got, &format!("an event inadmissible for {}", c.code));
    };
    cx.hit();
    cx.class(c.code.clone());
    let p = must(got, "inception")?;
    let what = if DIGESTS.contains(&c.code.as_str()) { "digest prefix" } else { "key prefix" };
    same!(must(p.qb64(), what)?, want, "{what}");
    same!(p.code(), c.code, "{what}: code");
    same!(D::of(&v), D::O(f.clone()), "event left alone");
    let q = must(Prefixer::new_with_qb64(&want), "prefix text")?;
    ensure!(q == p, "prefix read back differs");
    // the event with its prefix in place, other events, other prefixes
    let mut full = f.clone();
    put(&mut full, "i", D::S(want.clone()));
    if DIGESTS.contains(&c.code.as_str()) {
        put(&mut full, "d", D::S(want.clone()));
    }
    full = fix_size(&full).unwrap_or(full);
    let mut docs = vec![("the event as given".to_string(), f.clone()), ("the completed event".to_string(), full.clone())];
    let mut all = full.clone();
    for m in &c.muts {
        let mut g = full.clone();
        let mut code = c.code.clone();
        m.apply(&mut g, "i", &mut code, &[]);
        docs.push((format!("{m:?}"), g));
        m.apply(&mut all, "i", &mut code, &[]);
    }
    docs.push((format!("{:?}", c.muts), all));
    // change where it matters
    for (l, d) in [("k", D::A(vec![s(&c.other)])), ("i", s(&c.other)), ("n", D::A(vec![s("x")])), ("t", s("rot")), ("t", s("ixn"))] {
        let mut g = full.clone();
        put(&mut g, l, d);
        docs.push((format!("other {l}"), g));
    }
    let mut two = full.clone();
    put(&mut two, "k", D::A(vec![D::S(want.clone()), D::S(want.clone())]));
    docs.push(("two keys".into(), two));
    for (l, g) in &docs {
        let gv = D::O(g.clone()).val();
        for pf in [None, Some(false), Some(true)] {
            if let Some(expect) = verifies(&want, g, pf == Some(true)) {
                match p.verify(&gv, pf) {
                    Ok(b) => same!(b, expect, "verification (prefixed {pf:?}) against {l}: {}", D::O(g.clone()).text()),
                    Err(e) => ensure!(!expect, "verification (prefixed {pf:?}) against {l} fails: {e}"),
                }
                cx.class(if expect { "verifies" } else { "does not verify" });
            }
            // another prefix of the same code
            if let Some(m) = r::mat_read(c.other.as_bytes()).filter(|m| KEYS.contains(&m.code.as_str()) || DIGESTS.contains(&m.code.as_str())) {
                let o = must(Prefixer::new_with_qb64b(c.other.as_bytes()), "prefix")?;
                if let Some(expect) = verifies(&m.text, g, pf == Some(true)) {
                    same!(o.verify(&gv, pf).unwrap_or(false), expect, "verification of another prefix against {l}");
                }
            }
        }
    }
    ensure!(p.verify(&D::O(full.clone()).val(), Some(true)).unwrap_or(false), "the derived prefix does not verify against its event");
    // an altered prefix
    let mut raw = p.raw();
    raw[0] ^= 1;
    let bad = must(Prefixer::new_with_raw(&raw, Some(&c.code)), "prefix")?;
    ensure!(!bad.verify(&D::O(full).val(), None).unwrap_or(false), "an altered prefix verifies");
    Ok(())
}
fn incept() -> BoxedStrategy<Incept> {
    let emptyish = || prop_oneof![5 => Just(Some(D::A(vec![]))), 2 => Just(None), 2 => Just(Some(s(""))), 1 => vec(digest_id().prop_map(D::S), 1..3).prop_map(|v| Some(D::A(v))), 1 => Just(Some(s("x"))), 1 => leaf().prop_map(Some)];
    let ilk = prop_oneof![9 => select(INCEPT).prop_map(s), 1 => select(ILKS).prop_map(s), 1 => leaf()];
    let keys = prop_oneof![10 => key_text().prop_map(|k| vec![D::S(k)]), 1 => vec(key_text().prop_map(D::S), 0..4), 1 => leaf().prop_map(|l| vec![l]), 1 => digest_id().prop_map(|d| vec![D::S(d)])];
    let id = prop_oneof![3 => Just(s("")), 2 => digest_id().prop_map(D::S), 2 => key_text().prop_map(D::S), 1 => leaf()];
    let v = prop_oneof![9 => (select(PROTOS), 0u32..5000).prop_map(|(p, n)| D::S(vs(p, 1, 0, "JSON", n))), 1 => version()];
    let code = prop_oneof![3 => Just(None), 2 => select(DIGESTS).prop_map(|c| Some(c.to_string())), 1 => select(KEYS).prop_map(|c| Some(c.to_string())), 1 => select(vec!["A", "0A", "X", "", "0B", "M", "1AAG"]).prop_map(|c| Some(c.to_string()))];
    let other = prop_oneof![2 => key_text(), 1 => digest_id(), 1 => text()];
    let allows = prop_oneof![2 => Just(vec![]), 1 => vec(select([KEYS, DIGESTS].concat()).prop_map(String::from), 1..5)];
    ((v, ilk, id.clone(), id), (keys, emptyish(), emptyish(), emptyish()), fields(0..3), code, allows, vec(mutation(), 0..4), other, (any::<u16>(), any::<bool>()))
        .prop_map(|((v, t, d, i), (k, n, b, a), more, code, allows, muts, other, (drop, match_id))| {
            let code = code.unwrap_or_else(|| k.first().and_then(|k| k.str()).and_then(|t| r::mat_read(t.as_bytes())).map(|m| m.code).unwrap_or("E".into()));
            // often the identifier is the key
            let i = if match_id { k.first().cloned().unwrap_or(i) } else { i };
            let mut f: Fields = vec![("v".into(), v), ("t".into(), t), ("d".into(), d), ("i".into(), i), ("s".into(), s("0")), ("k".into(), D::A(k))];
            for (l, x) in [("n", n), ("b", b), ("a", a)] {
                if let Some(x) = x {
                    f.push((l.into(), x));
                }
            }
            f.extend(more);
            if drop % 12 == 0 {
                let at = drop as usize / 12 % f.len();
                f.remove(at);
            }
            // allow the code in question half of the time
            let mut allows = allows;
            if !allows.is_empty() && drop % 2 == 0 {
                allows.push(code.clone());
            }
            Incept { fields: unique(f), code, allows, muts, other }
        })
        .boxed()
}
pub fn c25_subs() -> Vec<Sub> {
    vec![sub(
        "c25_prefix",
        "inception, delegated and registry inception events (and others) x keys of 6 codes and lists of 0-3 keys x commitments, witnesses, data empty or not x 15 prefix codes x allowed codes x mutations, other keys, identifiers, event types and prefixes, judged by an independent derivation; non-trivial when a prefix is derived",
        25_000,
        500_000,
        incept,
        c25,
    )]
}
