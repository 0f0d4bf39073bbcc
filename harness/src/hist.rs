//! C31: whole key event histories.
use crate::crypto::{digest_text, key_code, public, sig_verifies};
use crate::doc::*;
use crate::event::*;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::thold::{self, Expr};
use crate::typed::{fix_seed, DIGESTS, KEYS};
use crate::{ensure, fail};
use keride::cesr::*;
use keride::data::Value;
use keride::messaging::verif_messagize;
use keride::prefexing::prefixer::Prefixer;
use keride::receipting::verif_receipt;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ---- what a validator does, over some implementation of the operations ---------------------------

/// An event as loaded.
struct Loaded<T> {
    raw: Vec<u8>,
    said: String,
    t: String,
    pre: String,
    sn: Option<u128>,
    prior: Option<String>,
    est: bool,
    keys: Option<Vec<String>>,
    nexts: Option<Vec<String>>,
    kt: Option<T>,
    nt: Option<T>,
    wits: Option<Vec<String>>,
    cuts: Option<Vec<String>>,
    adds: Option<Vec<String>>,
    toad: Option<u128>,
    traits: Vec<String>,
    /// content bound to the identifier (and, for an inception, to the prefix)
    bound: bool,
}
type Sig = (usize, String, u32, u32, Vec<u8>);
trait Ops {
    type T: Clone;
    fn load(&self, b: &[u8]) -> Option<Loaded<Self::T>>;
    fn counter(&self, b: &[u8]) -> Option<(usize, String, u32)>;
    fn sig(&self, b: &[u8]) -> Option<Sig>;
    /// prefix of a seal
    fn prefix(&self, b: &[u8]) -> Option<(usize, String)>;
    fn seqner(&self, b: &[u8]) -> Option<(usize, u128)>;
    fn saider(&self, b: &[u8]) -> Option<(usize, String)>;
    fn verifies(&self, key: &str, sig: &[u8], msg: &[u8]) -> bool;
    fn commits(&self, dig: &str, key: &str) -> bool;
    fn satisfied(&self, t: &Self::T, idx: &[u32]) -> bool;
    fn size(&self, t: &Self::T) -> u32;
    fn sith(&self, t: &Self::T) -> String;
}
/// What is in force after an event.
#[derive(Debug, Clone, PartialEq)]
struct St {
    t: String,
    pre: String,
    sn: u128,
    said: String,
    keys: Vec<String>,
    kt: String,
    nt: String,
    nexts: Vec<String>,
    wits: Vec<String>,
    signed: Vec<u32>,
    exposed: Vec<u32>,
    witnessed: Vec<u32>,
}
fn dual(code: &str) -> bool {
    r::INDEXED.iter().any(|x| x.0 == code && x.4 == r::Lists::Both)
}
/// The states of the accepted events of a stream, up to the first that is not acceptable.
fn judge<O: Ops>(o: &O, stream: &[u8]) -> Vec<St> {
    let mut out: Vec<St> = vec![];
    let mut chain: Option<(St, O::T, Option<O::T>, bool)> = None;
    let mut est_seal: Option<(u128, String)> = None;
    let mut seen: BTreeMap<(u128, String), St> = BTreeMap::new();
    let mut rest = stream;
    'events: while !rest.is_empty() {
        let Some(e) = o.load(rest) else { break };
        rest = &rest[e.raw.len()..];
        // attachments
        let mut sigs: Vec<(Option<(String, Option<(u128, String)>)>, Sig)> = vec![];
        let mut wsigs: Vec<Sig> = vec![];
        let mut seal = None;
        while rest.first().is_some_and(|c| *c != b'{') {
            let Some((n, code, count)) = o.counter(rest) else { break 'events };
            rest = &rest[n..];
            match code.as_str() {
                "-A" | "-B" => {
                    for _ in 0..count {
                        let Some(x) = o.sig(rest) else { break 'events };
                        rest = &rest[x.0..];
                        if code == "-A" {
                            sigs.push((seal.clone(), x));
                        } else {
                            wsigs.push(x);
                        }
                    }
                    seal = None;
                }
                "-F" | "-H" if count == 1 => {
                    let Some((n, i)) = o.prefix(rest) else { break 'events };
                    rest = &rest[n..];
                    let mut at = None;
                    if code == "-F" {
                        let Some((n, q)) = o.seqner(rest) else { break 'events };
                        rest = &rest[n..];
                        let Some((n, d)) = o.saider(rest) else { break 'events };
                        rest = &rest[n..];
                        at = Some((q, d));
                    }
                    seal = Some((i, at));
                }
                _ => break 'events,
            }
        }
        let Some(sn) = e.sn else { break };
        // who must have signed, by what rule
        let mut st;
        let (kt, nt, eo);
        let mut prior_nexts = vec![];
        let mut prior_nt = None;
        match e.t.as_str() {
            "icp" | "dip" => {
                if chain.is_some() || sn != 0 || !e.bound || !e.est {
                    break;
                }
                let (Some(keys), Some(nexts), Some(k), Some(n), Some(wits), Some(toad)) = (e.keys.clone(), e.nexts.clone(), e.kt.clone(), e.nt.clone(), e.wits.clone(), e.toad) else { break };
                if toad > wits.len() as u128 {
                    break;
                }
                st = St { t: e.t.clone(), pre: e.pre.clone(), sn, said: e.said.clone(), keys, kt: o.sith(&k), nt: o.sith(&n), nexts, wits, signed: vec![], exposed: vec![], witnessed: vec![] };
                eo = e.traits.iter().any(|t| t == "EO");
                kt = k;
                nt = Some(n);
            }
            "rot" | "drt" | "ixn" => {
                let Some((was, wkt, wnt, weo)) = &chain else { break };
                if !e.bound || e.pre != was.pre || Some(sn) != was.sn.checked_add(1) || e.prior.as_ref() != Some(&was.said) || was.nexts.is_empty() {
                    break;
                }
                st = St { t: e.t.clone(), sn, said: e.said.clone(), ..was.clone() };
                eo = *weo;
                if e.t == "ixn" {
                    if *weo || e.est {
                        break;
                    }
                    kt = wkt.clone();
                    nt = wnt.clone();
                } else {
                    let (Some(keys), Some(nexts), Some(k), Some(n), Some(cuts), Some(adds)) = (e.keys.clone(), e.nexts.clone(), e.kt.clone(), e.nt.clone(), e.cuts.clone(), e.adds.clone()) else { break };
                    if !e.est || cuts.iter().any(|c| !was.wits.contains(c)) || adds.iter().any(|a| was.wits.contains(a)) || unique_len(&cuts) != cuts.len() {
                        break;
                    }
                    st.wits.retain(|w| !cuts.contains(w));
                    st.wits.extend(adds);
                    if e.toad.is_none_or(|t| t > st.wits.len() as u128) {
                        break;
                    }
                    prior_nexts = std::mem::replace(&mut st.nexts, nexts);
                    prior_nt = wnt.clone();
                    st.keys = keys;
                    st.kt = o.sith(&k);
                    st.nt = o.sith(&n);
                    kt = k;
                    nt = Some(n);
                }
            }
            "rct" => {
                // a receipt of an accepted event: who signed that
                let Some(of) = seen.get(&(sn, e.said.clone())) else { break };
                if of.pre != e.pre || e.est {
                    break;
                }
                st = of.clone();
                st.t = "rct".into();
                let raw = st.said.clone().into_bytes();
                st.signed = indices(o, &st.keys, sigs.iter().filter(|(s, _)| s.as_ref().is_some_and(|s| s.0 == st.pre && s.1.is_none())).map(|x| &x.1), &raw);
                st.witnessed = indices(o, &st.wits, wsigs.iter(), &raw);
                if st.signed.is_empty() && st.witnessed.is_empty() {
                    break;
                }
                st.exposed = vec![];
                out.push(st);
                continue;
            }
            _ => break,
        }
        if st.keys.is_empty() || unique_len(&st.keys) != st.keys.len() || unique_len(&st.wits) != st.wits.len() || o.size(&kt) as usize > st.keys.len() || nt.as_ref().is_some_and(|n| o.size(n) as usize > st.nexts.len()) {
            break;
        }
        let seal_of = if e.est { Some((sn, e.said.clone())) } else { est_seal.clone() };
        let mine: Vec<&Sig> = sigs.iter().filter(|(s, _)| s.as_ref().is_none_or(|(i, at)| *i == st.pre && (at.is_none() || *at == seal_of))).map(|x| &x.1).collect();
        st.signed = indices(o, &st.keys, mine.iter().copied(), &e.raw);
        if !o.satisfied(&kt, &st.signed) {
            break;
        }
        st.exposed = vec![];
        if e.est && !matches!(e.t.as_str(), "icp" | "dip") {
            let set: BTreeSet<u32> = mine
                .iter()
                .filter(|x| st.signed.contains(&x.2) && dual(&x.1) && prior_nexts.get(x.3 as usize).is_some_and(|d| o.commits(d, &st.keys[x.2 as usize])) && o.verifies(&st.keys[x.2 as usize], &x.4, &e.raw))
                .map(|x| x.3)
                .collect();
            st.exposed = set.into_iter().collect();
            if !prior_nt.as_ref().is_some_and(|n| o.satisfied(n, &st.exposed)) {
                break;
            }
        }
        st.witnessed = indices(o, &st.wits, wsigs.iter(), &e.raw);
        let toad = if e.est { e.toad.unwrap_or(0) } else { 0 };
        if (st.witnessed.len() as u128) < toad {
            break;
        }
        if e.est {
            est_seal = Some((sn, e.said.clone()));
        }
        seen.insert((sn, st.said.clone()), st.clone());
        chain = Some((st.clone(), kt, nt, eo));
        out.push(st);
    }
    out
}
fn unique_len(v: &[String]) -> usize {
    v.iter().collect::<BTreeSet<_>>().len()
}
/// Indices of the keys whose signatures verify.
fn indices<'a, O: Ops>(o: &O, keys: &[String], sigs: impl Iterator<Item = &'a Sig>, msg: &[u8]) -> Vec<u32> {
    let set: BTreeSet<u32> = sigs.filter(|x| keys.get(x.2 as usize).is_some_and(|k| o.verifies(k, &x.4, msg))).map(|x| x.2).collect();
    set.into_iter().collect()
}

/// The library's operations.
struct Lib;
fn v_texts(v: &Value, label: &str) -> Option<Vec<String>> {
    v.get(label).ok()?.to_vec().ok()?.iter().map(|x| x.to_string().ok()).collect()
}
/// All texts that are exactly a key.
fn lib_keys(v: Option<Vec<String>>) -> Option<Vec<String>> {
    v.filter(|v| v.iter().all(|k| Verfer::new_with_qb64(k).and_then(|x| x.qb64()).is_ok_and(|q| q == *k)))
}
impl Ops for Lib {
    type T = Tholder;
    fn load(&self, b: &[u8]) -> Option<Loaded<Tholder>> {
        let e = DIGESTS.iter().find_map(|c| Serder::new(Some(c), Some(b), None, None, None).ok())?;
        let v = e.ked();
        let text = |l: &str| v.get(l).ok().and_then(|x| x.to_string().ok());
        let t = text("t")?;
        let pre = e.pre().ok()?;
        let said = e.said().ok()?;
        let est = e.est().ok()?;
        let p = Prefixer::new_with_qb64(&pre).ok().filter(|p| p.qb64().is_ok_and(|q| q == pre))?;
        let digested = DIGESTS.contains(&p.code().as_str());
        let said_ok = || e.saider().verify(&v, Some(true), None, None, None, None).unwrap_or(false);
        let bound = match t.as_str() {
            "icp" | "dip" => p.verify(&v, Some(true)).unwrap_or(false) && if digested { said == pre } else { said_ok() },
            _ => said_ok(),
        };
        let (kt, nt) = (e.tholder().ok()?, e.ntholder().ok()?);
        let strict = |l: &str| v_texts(&v, l);
        let keys = match strict("k") {
            Some(k) => {
                let got: Option<Vec<String>> = e.verfers().ok()?.iter().map(|x| x.qb64().ok()).collect();
                got.filter(|g| *g == k)
            }
            None => None,
        };
        let nexts = match strict("n") {
            Some(k) => {
                let got: Option<Vec<String>> = e.digers().ok()?.iter().map(|x| x.qb64().ok()).collect();
                got.filter(|g| *g == k)
            }
            None => None,
        };
        let wits = match strict("b") {
            Some(k) => {
                let got: Option<Vec<String>> = e.werfers().ok()?.iter().map(|x| x.qb64().ok()).collect();
                got.filter(|g| *g == k)
            }
            None => None,
        };
        let hex = |l: &str| Number::new_with_numh(&text(l)?).ok()?.num().ok();
        Some(Loaded {
            raw: e.raw(),
            said,
            t,
            pre,
            sn: e.sn().ok(),
            prior: text("p").filter(|p| Saider::new_with_qb64(p).and_then(|x| x.qb64()).is_ok_and(|q| q == *p)),
            est,
            keys,
            nexts,
            kt,
            nt,
            wits,
            cuts: lib_keys(strict("br")),
            adds: lib_keys(strict("ba")),
            toad: hex("bt"),
            traits: v_texts(&v, "c").unwrap_or_default(),
            bound,
        })
    }
    fn counter(&self, b: &[u8]) -> Option<(usize, String, u32)> {
        let c = Counter::new_with_qb64b(b).ok()?;
        Some((c.full_size().ok()? as usize, c.code(), c.count()))
    }
    fn sig(&self, b: &[u8]) -> Option<Sig> {
        let x = Siger::new_with_qb64b(b, None).ok()?;
        Some((x.full_size().ok()? as usize, x.code(), x.index(), x.ondex(), x.raw()))
    }
    fn prefix(&self, b: &[u8]) -> Option<(usize, String)> {
        let x = Prefixer::new_with_qb64b(b).ok()?;
        Some((x.full_size().ok()? as usize, x.qb64().ok()?))
    }
    fn seqner(&self, b: &[u8]) -> Option<(usize, u128)> {
        let x = Seqner::new_with_qb64b(b).ok()?;
        Some((x.full_size().ok()? as usize, x.sn().ok()?))
    }
    fn saider(&self, b: &[u8]) -> Option<(usize, String)> {
        let x = Saider::new_with_qb64b(b).ok()?;
        Some((x.full_size().ok()? as usize, x.qb64().ok()?))
    }
    fn verifies(&self, key: &str, sig: &[u8], msg: &[u8]) -> bool {
        Verfer::new_with_qb64(key).is_ok_and(|k| k.verify(sig, msg).unwrap_or(false))
    }
    fn commits(&self, dig: &str, key: &str) -> bool {
        Diger::new_with_qb64(dig).is_ok_and(|d| d.verify(key.as_bytes()).unwrap_or(false))
    }
    fn satisfied(&self, t: &Tholder, idx: &[u32]) -> bool {
        t.satisfy(idx).unwrap_or(false)
    }
    fn size(&self, t: &Tholder) -> u32 {
        t.size()
    }
    fn sith(&self, t: &Tholder) -> String {
        t.sith().ok().and_then(|v| v.to_json().ok()).unwrap_or_default()
    }
}

/// The reference operations.
struct Ref;
fn plain(j: &serde_json::Value) -> Option<D> {
    use serde_json::Value as J;
    Some(match j {
        J::Null => D::Null,
        J::Bool(b) => D::B(*b),
        J::Number(n) => D::I(n.as_i64()?),
        J::String(t) => D::S(t.clone()),
        J::Array(a) => D::A(a.iter().map(plain).collect::<Option<_>>()?),
        J::Object(o) => D::O(o.iter().map(|(k, x)| Some((k.clone(), plain(x)?))).collect::<Option<_>>()?),
    })
}
fn exactly(t: &str, codes: &[&str]) -> bool {
    r::mat_read(t.as_bytes()).is_some_and(|m| m.text == t && codes.contains(&m.code.as_str()))
}
fn texts(f: &Fields, l: &str, codes: &[&str]) -> Option<Vec<String>> {
    let D::A(a) = at(f, l)? else { return None };
    a.iter().map(|x| x.str().filter(|t| exactly(t, codes)).map(String::from)).collect()
}
impl Ops for Ref {
    type T = thold::Rule;
    fn load(&self, b: &[u8]) -> Option<Loaded<thold::Rule>> {
        let v = if b.len() < 29 { None } else { (0..=12).find_map(|i| vs_at(&b[i..29])) }?;
        if v.0 != "KERI" || (v.1, v.2) != (1, 0) || v.3 != "JSON" {
            return None;
        }
        let raw = b.get(..v.4 as usize)?;
        let j: serde_json::Value = serde_json::from_slice(raw).ok()?;
        let D::O(f) = plain(&j)? else { return None };
        let text = |l: &str| at(&f, l).and_then(|d| d.str()).map(String::from);
        let said = text("d").filter(|t| exactly(t, DIGESTS))?;
        let code = r::mat_read(said.as_bytes())?.code;
        let pre = text("i").filter(|t| exactly(t, DIGESTS) || exactly(t, KEYS))?;
        let t = text("t")?;
        let said_ok = || completed(&f, "d", &code, &[]).is_some_and(|g| g == f);
        let bound = match t.as_str() {
            "icp" | "dip" if exactly(&pre, DIGESTS) => said == pre && crate::pre::verifies(&pre, &f, true) == Some(true),
            "icp" | "dip" => crate::pre::verifies(&pre, &f, true) == Some(true) && said_ok(),
            _ => said_ok(),
        };
        let rule = |l: &str| -> Option<Option<thold::Rule>> {
            match at(&f, l) {
                None => Some(None),
                Some(d) => thold::ref_sith(&d.json())?.ok().map(Some),
            }
        };
        let hex = |l: &str| u128::from_str_radix(&text(l)?, 16).ok();
        Some(Loaded {
            raw: raw.to_vec(),
            said,
            est: ["icp", "rot", "dip", "drt"].contains(&t.as_str()),
            t,
            pre,
            sn: hex("s"),
            prior: text("p").filter(|t| exactly(t, DIGESTS)),
            keys: texts(&f, "k", KEYS),
            nexts: texts(&f, "n", DIGESTS),
            kt: rule("kt")?,
            nt: rule("nt")?,
            wits: texts(&f, "b", KEYS),
            cuts: texts(&f, "br", KEYS),
            adds: texts(&f, "ba", KEYS),
            toad: hex("bt"),
            traits: match at(&f, "c") {
                Some(D::A(a)) => a.iter().filter_map(|x| x.str().map(String::from)).collect(),
                _ => vec![],
            },
            bound,
        })
    }
    fn counter(&self, b: &[u8]) -> Option<(usize, String, u32)> {
        let c = r::cnt_read(b)?;
        Some((c.text.len(), c.code.clone(), c.count as u32))
    }
    fn sig(&self, b: &[u8]) -> Option<Sig> {
        let x = r::idx_read(b)?;
        Some((x.text.len(), x.code, x.index, x.ondex, x.raw))
    }
    fn prefix(&self, b: &[u8]) -> Option<(usize, String)> {
        let m = r::mat_read(b).filter(|m| KEYS.contains(&m.code.as_str()) || DIGESTS.contains(&m.code.as_str()))?;
        Some((m.text.len(), m.text))
    }
    fn seqner(&self, b: &[u8]) -> Option<(usize, u128)> {
        let m = r::mat_read(b).filter(|m| m.code == "0A")?;
        Some((m.text.len(), u128::from_be_bytes(m.raw.try_into().ok()?)))
    }
    fn saider(&self, b: &[u8]) -> Option<(usize, String)> {
        let m = r::mat_read(b).filter(|m| DIGESTS.contains(&m.code.as_str()))?;
        Some((m.text.len(), m.text))
    }
    fn verifies(&self, key: &str, sig: &[u8], msg: &[u8]) -> bool {
        let Some(m) = r::mat_read(key.as_bytes()) else { return false };
        let alg = match m.code.as_str() {
            "B" | "D" => "A",
            "1AAA" | "1AAB" => "J",
            _ => "Q",
        };
        sig_verifies(alg, &m.raw, sig, msg)
    }
    fn commits(&self, dig: &str, key: &str) -> bool {
        r::mat_read(dig.as_bytes()).is_some_and(|m| digest_text(&m.code, key.as_bytes()) == dig)
    }
    fn satisfied(&self, t: &thold::Rule, idx: &[u32]) -> bool {
        t.satisfied(idx)
    }
    fn size(&self, t: &thold::Rule) -> u32 {
        t.size()
    }
    fn sith(&self, t: &thold::Rule) -> String {
        t.sith().to_string()
    }
}

// ---- making histories with the library -----------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Dev {
    None,
    /// keys that nobody committed to sign (and, in a rotation, are put in)
    Forge,
    Sn(i8),
    Prior,
    Pre(String),
    /// one signature, as often as there were
    SigDup,
    /// indices one off
    SigShift,
    /// signatures over something else
    SigOver,
    /// another signer's signature under the index
    SigSwap,
    /// a field changed after signing, identifier made right
    Edit(u16, D),
    /// an event altered, identifier and all else left alone
    Alter(u16, D),
    /// a signed event whose identifier is of other content
    Unbound,
    /// a threshold of witnesses above their number
    Toad,
    /// a cut of no witness, an added witness that is one
    Cuts,
    /// a key twice
    Twice,
    /// threshold larger than the number of keys
    Big,
    /// sealed by another event
    Seal,
    /// one bit of the prefix, the chain, the identifier or a commitment, signed all the same
    Near(u8, u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ev {
    est: bool,
    kt: Expr,
    nt: Expr,
    style: u8,
    /// keys beyond what the thresholds need
    more: (u8, u8),
    said: String,
    digs: Vec<String>,
    /// 0,1: the keys are exactly those committed to; 2: in another order; 3: mixed with new ones
    reveal: u8,
    order: u64,
    wits: u8,
    cuts: u8,
    toad: u8,
    anchors: Vec<D>,
    /// who does not sign
    absent: u64,
    wabsent: u64,
    /// 0: none, 1: a seal of the event in force, 2: of the last
    sealed: u8,
    receipt: bool,
    /// nothing further
    end: bool,
    dev: Dev,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Stream {
    Drop(u8),
    Swap(u8, u8),
    Repeat(u8, u8),
    /// attachments of another event
    Graft(u8, u8),
    Truncate(u16),
    Flip(u32, u8),
    Insert(u32, u8),
    Remove(u32),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    seed: u64,
    algs: Vec<u8>,
    salty: bool,
    prefix: String,
    delegated: bool,
    only: bool,
    evs: Vec<Ev>,
    stream: Vec<Stream>,
}
struct Keys<'a> {
    h: &'a History,
    made: u64,
    salt: Option<SaltyCreator>,
}
impl Keys<'_> {
    fn signer(&mut self, transferable: bool) -> Result<Signer, String> {
        let k = self.made;
        self.made += 1;
        let alg = crate::crypto::SEEDS[self.h.algs[k as usize % self.h.algs.len()] as usize % 3];
        if let Some(c) = &self.salt {
            let mut v = c.create(None, Some(1), Some(alg), None, Some(k as u16), None, None, Some(transferable), true);
            return v.pop().ok_or("no key created".into());
        }
        let mut raw = Fill::Random(self.h.seed ^ k.wrapping_mul(0x9e37_79b9)).make(32);
        fix_seed(alg, &mut raw);
        let s = must(Signer::new_with_raw(&raw, Some(transferable), Some(alg)), "signer")?;
        let want = r::mat_build(key_code(alg, transferable), &public(alg, &raw).ok_or("bad seed")?).unwrap().text;
        ensure!(must(s.verfer().qb64(), "key")? == want, "key of a signer");
        Ok(s)
    }
    fn many(&mut self, n: usize, transferable: bool) -> Result<Vec<Signer>, String> {
        (0..n).map(|_| self.signer(transferable)).collect()
    }
}
fn qb64s(v: &[Signer]) -> Result<Vec<String>, String> {
    v.iter().map(|s| must(s.verfer().qb64(), "key")).collect()
}
fn list(v: &[String]) -> D {
    D::A(v.iter().cloned().map(D::S).collect())
}
fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut m = Mix(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, (m.next() % (i as u64 + 1)) as usize);
    }
}
/// The text of another value one bit away, the bit near the start or the end more often than not.
fn one_off(t: &str, bit: u16) -> Option<String> {
    let m = r::mat_read(t.as_bytes())?;
    let n = m.raw.len() * 8;
    if n == 0 || m.text.len() != t.len() {
        return None;
    }
    let b = bit as usize / 4;
    let b = match bit % 4 {
        0 => b % 16 % n,
        1 | 2 => n - 1 - b % 24 % n,
        _ => b % n,
    };
    let mut raw = m.raw.clone();
    raw[b / 8] ^= 0x80 >> (b % 8);
    Some(r::mat_build(&m.code, &raw)?.text)
}
/// Changes one field to a value one bit away; identifiers of the event made right where they are not
/// themselves what changes.
fn nearly(f: &mut Fields, which: u8, bit: u16, code: &str) -> bool {
    let first = at(f, "t").and_then(|t| t.str()).is_some_and(|t| t == "icp" || t == "dip");
    let whole = first && at(f, "i") == at(f, "d");
    let label = ["i", "i", "p", "d", "n", "k"][which as usize % 6];
    let Some(old) = at(f, label).cloned() else { return false };
    let new = match &old {
        D::S(t) => one_off(t, bit).map(D::S),
        D::A(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = (which / 6) as usize % v.len();
            match v[i].str().and_then(|t| one_off(t, bit)) {
                Some(t) => {
                    v[i] = D::S(t);
                    Some(D::A(v))
                }
                None => None,
            }
        }
        _ => None,
    };
    let Some(new) = new else { return false };
    put(f, label, new.clone());
    if whole && (label == "i" || label == "d") {
        put(f, "i", new.clone());
        put(f, "d", new);
    } else if !whole && label != "d" {
        match completed(f, "d", code, &[]) {
            Some(g) => *f = g,
            None => return false,
        }
    }
    true
}
/// The messages of a history; whether each is honest.
fn make(c: &History) -> Result<Vec<(String, bool)>, String> {
    let salt = if c.salty {
        let s = must(Salter::new_with_raw(&Fill::Random(c.seed).make(16), None, None), "salt")?;
        Some(must(SaltyCreator::new(None, Some("history"), None, Some(s)), "creator")?)
    } else {
        None
    };
    let mut ks = Keys { h: c, made: 0, salt };
    let mut out: Vec<(String, bool)> = vec![];
    let mut pre = String::new();
    let (mut last, mut last_est, mut est_sn) = (String::new(), String::new(), 0u128);
    let mut sn = 0u128;
    let mut now: Vec<Signer> = vec![];
    let mut next: Vec<Signer> = vec![];
    let mut kt;
    let mut nt = Expr::Num(1);
    let mut wits: Vec<Signer> = vec![];
    for (k, e) in c.evs.iter().enumerate() {
        let mut honest = true;
        let first = k == 0;
        if !first && next.is_empty() {
            break;
        }
        let est = e.est || first;
        let mut f: Fields = vec![("v".into(), s("KERI10JSON000000_"))];
        let mut ondex: Vec<Option<u32>> = vec![];
        let forge = matches!(e.dev, Dev::Forge) && !first;
        let basic = first && KEYS.contains(&c.prefix.as_str());
        let nontrans = basic && ["B", "1AAA", "1AAI"].contains(&c.prefix.as_str());
        if est {
            let room = |x: &Expr, more: u8| match x {
                Expr::Num(n) => *n as usize + more as usize,
                w => w.rule().size() as usize,
            };
            if first {
                kt = if basic { Expr::Num(1) } else { e.kt.clone() };
                now = ks.many(if basic { 1 } else { room(&kt, e.more.0).max(1) }, !nontrans)?;
                ondex = vec![None; now.len()];
            } else {
                let was = std::mem::take(&mut next);
                let n = was.len() as u32;
                let mut put_in: Vec<(Signer, Option<u32>)> = if forge { ks.many(was.len(), true)?.into_iter().zip((0..n).map(Some)).collect() } else { was.into_iter().zip((0..n).map(Some)).collect() };
                if e.reveal >= 2 {
                    if e.reveal == 3 {
                        put_in.extend(ks.many(e.more.0 as usize % 4, true)?.into_iter().map(|s| (s, None)));
                    }
                    shuffle(&mut put_in, e.order);
                }
                // the threshold: that committed to, or one that fits the number of keys
                kt = match (&e.kt, &nt) {
                    (_, n) if e.reveal == 0 && (room(n, 0) == put_in.len() || matches!(n, Expr::Num(_))) => n.clone(),
                    (Expr::Num(n), _) => Expr::Num((*n).clamp(1, put_in.len() as u32)),
                    (w, _) if room(w, 0) < put_in.len() => Expr::Num(1 + (e.order % put_in.len() as u64) as u32),
                    (w, _) => {
                        let more = ks.many(room(w, 0) - put_in.len(), true)?;
                        put_in.extend(more.into_iter().map(|s| (s, None)));
                        w.clone()
                    }
                };
                (now, ondex) = put_in.into_iter().unzip();
            }
            if let Expr::Num(0) = kt {
                kt = Expr::Num(1);
            }
            let ended = e.end || nontrans;
            nt = if ended { Expr::Num(0) } else { e.nt.clone() };
            if let (Expr::Num(0), false) = (&nt, ended) {
                nt = Expr::Num(1);
            }
            next = if ended { vec![] } else { ks.many(room(&nt, e.more.1).max(1), true)? };
            let mut digs = vec![];
            for (i, q) in qb64s(&next)?.iter().enumerate() {
                let code = &e.digs[i % e.digs.len()];
                digs.push(must(Diger::new_with_ser(q.as_bytes(), Some(code)).and_then(|d| d.qb64()), "commitment")?);
            }
            // witnesses
            let mut cuts = vec![];
            if !first {
                let mut keep = vec![];
                for (i, w) in std::mem::take(&mut wits).into_iter().enumerate() {
                    if e.cuts >> (i % 8) & 1 == 1 {
                        cuts.push(must(w.verfer().qb64(), "witness")?);
                    } else {
                        keep.push(w);
                    }
                }
                wits = keep;
            }
            let added = ks.many(if nontrans { 0 } else { e.wits as usize }, false)?;
            let mut adds = qb64s(&added)?;
            let stay = qb64s(&wits)?;
            wits.extend(added);
            let mut toad = e.toad as usize % (wits.len() + 1);
            let mut keys = qb64s(&now)?;
            let mut sith = from_json(&kt.written(e.style));
            match &e.dev {
                Dev::Toad => toad = wits.len() + 1,
                Dev::Cuts if !first => match stay.first() {
                    Some(w) if e.order % 2 == 0 => adds.push(w.clone()),
                    _ => cuts.push(keys[0].clone()),
                },
                Dev::Twice if !basic => keys.push(keys[0].clone()),
                Dev::Big => sith = s(&format!("{:x}", keys.len() + 1)),
                _ => {}
            }
            f.push(("t".into(), s(match (first, c.delegated) {
                (true, false) => "icp",
                (true, true) => "dip",
                (false, false) => "rot",
                (false, true) => "drt",
            })));
            f.push(("d".into(), s("")));
            f.push(("i".into(), s(&pre)));
            f.push(("s".into(), s("0")));
            if !first {
                f.push(("p".into(), s(&last)));
            }
            f.push(("kt".into(), sith));
            f.push(("k".into(), list(&keys)));
            f.push(("nt".into(), from_json(&nt.written(e.style >> 1))));
            f.push(("n".into(), list(&digs)));
            f.push(("bt".into(), D::S(format!("{toad:x}"))));
            if first {
                f.push(("b".into(), list(&adds)));
                f.push(("c".into(), if c.only { D::A(vec![s("EO")]) } else { D::A(vec![]) }));
            } else {
                f.push(("br".into(), list(&cuts)));
                f.push(("ba".into(), list(&adds)));
            }
            f.push(("a".into(), D::A(if nontrans { vec![] } else { e.anchors.clone() })));
            if first && c.delegated {
                f.push(("di".into(), D::S(digest_text("E", b"delegator"))));
            }
            honest &= !matches!(e.dev, Dev::Toad | Dev::Cuts | Dev::Twice | Dev::Big);
        } else {
            f.extend([("t".into(), s("ixn")), ("d".into(), s("")), ("i".into(), s(&pre)), ("s".into(), s("0")), ("p".into(), s(&last)), ("a".into(), D::A(e.anchors.clone()))] as [(String, D); 6]);
            ondex = vec![None; now.len()];
            honest &= !c.only;
        }
        // the sequence number, the chain
        let mut n = sn;
        if let (Dev::Sn(d), false) = (&e.dev, first) {
            n = n.checked_add_signed(*d as i128).unwrap_or(n);
            honest &= *d == 0;
        }
        let numh = must(Number::new_with_num(n).and_then(|x| x.numh()), "sequence number")?;
        put(&mut f, "s", D::S(numh));
        if !first {
            match &e.dev {
                Dev::Prior => {
                    put(&mut f, "p", D::S(digest_text("E", last.as_bytes())));
                    honest = false;
                }
                Dev::Pre(t) => {
                    put(&mut f, "i", s(t));
                    honest &= *t == pre;
                }
                _ => {}
            }
        }
        if forge {
            honest = false;
        }
        // identifiers
        let mut code = e.said.clone();
        if first {
            if basic {
                code = e.said.clone();
                let v = D::O(f.clone()).val();
                let kc = r::mat_read(must(now[0].verfer().qb64(), "key")?.as_bytes()).unwrap().code;
                let p = must(Prefixer::new_with_ked(&v, None, Some(&kc)), "prefix")?;
                pre = must(p.qb64(), "prefix")?;
                put(&mut f, "i", s(&pre));
            } else {
                code = c.prefix.clone();
                let p = must(Prefixer::new_with_ked(&D::O(f.clone()).val(), None, Some(&code)), "prefix")?;
                pre = must(p.qb64(), "prefix")?;
                put(&mut f, "i", s(&pre));
                put(&mut f, "d", s(&pre));
            }
        }
        if !(first && !basic) {
            let (_, v) = must(Saider::saidify(&D::O(f.clone()).val(), Some(&code), None, None, None), "identifier")?;
            let D::O(g) = D::of(&v) else { fail!("an event with its identifier is no document") };
            f = g;
        }
        if matches!(e.dev, Dev::Unbound) {
            put(&mut f, "d", D::S(digest_text(&code, b"other")));
            honest = false;
        }
        if let Dev::Near(which, bit) = &e.dev {
            if nearly(&mut f, *which, *bit, &code) {
                honest = false;
            }
        }
        let mut ev = must(Serder::new_with_ked(&D::O(f.clone()).val(), Some(&code), None), "event")?;
        let raw = ev.raw();
        let said = must(ev.said(), "identifier")?;
        // signatures
        let over: Vec<u8> = if matches!(e.dev, Dev::SigOver) { [&raw[..], b" "].concat() } else { raw.clone() };
        let mut sigers = vec![];
        let forged = if forge && !est { ks.many(now.len(), true)? } else { vec![] };
        let who: Vec<&Signer> = if forge && !est { forged.iter().collect() } else { now.iter().collect() };
        let total = who.len();
        let mut all = true;
        for (i, w) in who.iter().enumerate() {
            if e.absent >> (i % 64) & 1 == 1 {
                all = false;
                continue;
            }
            let mut at = i as u32;
            if matches!(e.dev, Dev::SigShift) {
                at = (at + 1) % (total as u32 + 1);
            }
            let w = if matches!(e.dev, Dev::SigSwap) { who[(i + 1) % total] } else { w };
            let rotation = est && !first;
            let (only, o) = if rotation { (ondex[i].is_none(), ondex[i]) } else { (e.order >> (i % 64) & 1 == 1, None) };
            sigers.push(must(w.sign_indexed(&over, only, at, o), "signature")?);
        }
        match &e.dev {
            Dev::SigDup if total > 1 && !sigers.is_empty() => {
                let one = sigers[0].clone();
                sigers.iter_mut().for_each(|x| *x = one.clone());
                honest = false;
            }
            Dev::SigShift | Dev::SigOver => honest = false,
            Dev::SigSwap if total > 1 => honest = false,
            Dev::Seal => honest &= e.sealed != 1,
            _ => {}
        }
        let mut wigers = vec![];
        for (i, w) in wits.iter().enumerate() {
            if e.wabsent >> (i % 64) & 1 == 1 {
                all = false;
                continue;
            }
            wigers.push(must(w.sign_indexed(&over, true, i as u32, None), "witness signature")?);
        }
        match &e.dev {
            // an attacker edits a signed event and makes its identifier right again
            Dev::Edit(i, d) | Dev::Alter(i, d) => {
                let mut g = f.clone();
                let i = 3 + *i as usize % (g.len() - 3);
                if g[i].1 != *d {
                    g[i].1 = d.clone();
                    honest = false;
                    if matches!(e.dev, Dev::Edit(..)) {
                        g = completed(&g, "d", &code, &[]).ok_or("bad case")?;
                    }
                    if let Ok(x) = Serder::new_with_ked(&D::O(g).val(), Some(&code), None) {
                        ev = x;
                    }
                }
            }
            _ => {}
        }
        let est_now = est;
        let (seal_sn, seal_d) = if est_now { (n, said.clone()) } else { (est_sn, last_est.clone()) };
        let seal_sn = must(Number::new_with_num(seal_sn).and_then(|x| x.numh()), "sequence number")?;
        let seal_d = if matches!(e.dev, Dev::Seal) { digest_text("E", seal_d.as_bytes()) } else { seal_d };
        let seal = match e.sealed {
            1 => Some((pre.as_str(), seal_sn.as_str(), seal_d.as_str(), None)),
            2 => Some((pre.as_str(), seal_sn.as_str(), seal_d.as_str(), Some(true))),
            _ => None,
        };
        let mut msg = if sigers.is_empty() && wigers.is_empty() {
            honest = false;
            String::from_utf8(ev.raw()).map_err(|e| e.to_string())?
        } else {
            must(verif_messagize(&ev, Some(&sigers), seal, Some(&wigers), None), "message")?
        };
        let honest = honest && all;
        if e.receipt && code == "E" && (!wits.is_empty() || e.sealed == 2) {
            let rct = must(verif_receipt(&pre, n, &said, None, None), "receipt")?;
            let mut ws = vec![];
            for (i, w) in wits.iter().enumerate().rev() {
                ws.push(must(w.sign_indexed(said.as_bytes(), true, i as u32, None), "witness signature")?);
            }
            let cs = if e.sealed == 2 { vec![must(now[0].sign_indexed(said.as_bytes(), true, 0, None), "signature")?] } else { vec![] };
            out.push((std::mem::take(&mut msg), honest));
            out.push((must(verif_messagize(&rct, Some(&cs), Some((&pre, "0", "", Some(true))), Some(&ws), None), "receipt message")?, true));
        } else {
            out.push((msg, honest));
        }
        last = said;
        if est {
            last_est = last.clone();
            est_sn = n;
        }
        sn += 1;
    }
    Ok(out)
}
fn c31(c: &History, cx: &mut Cx) -> R {
    let msgs = make(c)?;
    let mut parts: Vec<String> = msgs.iter().map(|m| m.0.clone()).collect();
    let n = parts.len();
    let mut bytes = None;
    for x in &c.stream {
        let m = parts.len();
        if m == 0 {
            break;
        }
        let k = |i: &u8| *i as usize % m;
        match x {
            Stream::Drop(i) => drop(parts.remove(k(i))),
            Stream::Swap(i, j) => parts.swap(k(i), k(j)),
            Stream::Repeat(i, j) => {
                let p = parts[k(i)].clone();
                parts.insert(k(j), p);
            }
            Stream::Graft(i, j) => {
                let size = |p: &str| vs_at(&p.as_bytes()[6..]).map(|v| v.4 as usize).unwrap_or(0);
                let (a, b) = (parts[k(i)].clone(), parts[k(j)].clone());
                parts[k(i)] = a[..size(&a)].to_string() + &b[size(&b)..];
            }
            _ => {
                let b: &mut Vec<u8> = bytes.get_or_insert_with(|| parts.concat().into_bytes());
                if b.is_empty() {
                    break;
                }
                match x {
                    Stream::Truncate(i) => b.truncate(b.len().saturating_sub(*i as usize)),
                    Stream::Flip(i, j) => {
                        let i = *i as usize % b.len();
                        b[i] ^= 1 << (j % 8);
                    }
                    Stream::Insert(i, x) => b.insert(*i as usize % (b.len() + 1), *x),
                    Stream::Remove(i) => drop(b.remove(*i as usize % b.len())),
                    _ => {}
                }
            }
        }
    }
    let untouched = c.stream.is_empty();
    let bytes = bytes.unwrap_or_else(|| parts.concat().into_bytes());
    let want = judge(&Ref, &bytes);
    let got = judge(&Lib, &bytes);
    let honest = msgs.iter().take_while(|m| m.1).count();
    if untouched {
        ensure!(want.len() >= honest, "an honest history of {n} messages is accepted to {} of {honest}", want.len());
        cx.class(if honest == n { "honest history".into() } else { format!("deviation after {honest}") });
    } else {
        cx.class("altered stream");
    }
    cx.class(format!("{} of {n} accepted", want.len()));
    if want.len() > 1 {
        cx.hit();
    }
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "after message {k}: the library's operations give {}, expected {}", short(g), short(w));
    }
    ensure!(got.len() == want.len(), "by the library's operations {} messages are acceptable, expected {} of {}", got.len(), want.len(), n);
    Ok(())
}
fn small() -> BoxedStrategy<Expr> {
    let num = prop_oneof![10 => 1u32..5, 1 => 5u32..12, 1 => Just(1u32)].prop_map(Expr::Num);
    let shares = |k: u32| vec![(1u32, k); k as usize];
    let clause = prop_oneof![
        3 => (1u32..5).prop_map(shares),
        2 => (2u32..5, 1usize..3).prop_map(|(k, x)| vec![(1, k); k as usize + x]),
        2 => select(vec![vec![(1u32, 2u32), (1, 2), (1, 4), (1, 4)], vec![(2, 3), (1, 3), (1, 6), (1, 6)], vec![(1, 1), (1, 2), (1, 2)], vec![(0, 1), (1, 1)], vec![(3, 7), (4, 7), (1, 7)], vec![(1, 10), (2, 10), (7, 10)], vec![(2, 4), (3, 6)]]),
    ];
    let any_expr = thold::expr().prop_map(|e| match e {
        Expr::Num(n) => Expr::Num(n % 9),
        Expr::Weighted(c) => {
            if c.iter().map(|c| c.len()).sum::<usize>() > 8 {
                Expr::Weighted(vec![vec![(1, 2), (1, 2)]])
            } else {
                Expr::Weighted(c)
            }
        }
    });
    prop_oneof![5 => num, 3 => vec(clause, 1..4).prop_map(Expr::Weighted), 1 => any_expr].boxed()
}
fn dev() -> BoxedStrategy<Dev> {
    let doc = prop_oneof![2 => text().prop_map(D::S), 2 => select(vec!["0", "1", "2", "3", "ff"]).prop_map(s), 1 => Just(D::A(vec![])), 1 => key_text().prop_map(|k| D::A(vec![D::S(k)])), 1 => digest_id().prop_map(|k| D::A(vec![D::S(k)]))];
    let some = prop_oneof![
        2 => Just(Dev::Forge), 2 => (-3i8..4).prop_map(Dev::Sn), 1 => Just(Dev::Prior), 1 => prop_oneof![digest_id(), key_text()].prop_map(Dev::Pre), 2 => Just(Dev::SigDup), 1 => Just(Dev::SigShift), 1 => Just(Dev::SigOver),
        1 => Just(Dev::SigSwap), 2 => (any::<u16>(), doc.clone()).prop_map(|(i, d)| Dev::Edit(i, d)), 2 => (any::<u16>(), doc).prop_map(|(i, d)| Dev::Alter(i, d)), 1 => Just(Dev::Unbound), 1 => Just(Dev::Toad), 1 => Just(Dev::Cuts), 1 => Just(Dev::Twice), 1 => Just(Dev::Big), 1 => Just(Dev::Seal),
        6 => (any::<u8>(), any::<u16>()).prop_map(|(i, b)| Dev::Near(i, b)),
    ];
    prop_oneof![14 => Just(Dev::None), 1 => some].boxed()
}
fn bits() -> BoxedStrategy<u64> {
    prop_oneof![12 => Just(0u64), 2 => (0u32..8).prop_map(|b| 1 << b), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b), 1 => any::<u64>()].boxed()
}
fn event() -> BoxedStrategy<Ev> {
    let anchor = prop_oneof![2 => digest_id().prop_map(D::S), 1 => text().prop_map(D::S), 1 => (digest_id(), any::<u16>(), digest_id()).prop_map(|(i, n, d)| D::O(vec![("i".into(), D::S(i)), ("s".into(), D::S(format!("{n:x}"))), ("d".into(), D::S(d))])), 1 => any::<i64>().prop_map(D::I), 1 => (key(), text()).prop_map(|(k, t)| D::O(vec![(k, D::S(t))]))];
    let digests = || prop_oneof![2 => Just("E".to_string()), 1 => select(DIGESTS).prop_map(String::from)];
    let more = || prop_oneof![60 => 0u8..3, 1 => 60u8..68];
    (
        (any::<bool>(), small(), small(), any::<u8>(), (more(), more())),
        (digests(), vec(digests(), 1..4), 0u8..4, any::<u64>()),
        (prop_oneof![4 => 0u8..3, 1 => 3u8..6], prop_oneof![2 => Just(0u8), 1 => any::<u8>()], any::<u8>(), vec(anchor, 0..3)),
        (bits(), bits(), prop_oneof![3 => Just(0u8), 1 => 1u8..3], prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![30 => Just(false), 1 => Just(true)], dev()),
    )
        .prop_map(|((est, kt, nt, style, more), (said, digs, reveal, order), (wits, cuts, toad, anchors), (absent, wabsent, sealed, receipt, end, dev))| Ev { est, kt, nt, style, more, said, digs, reveal, order, wits, cuts, toad, anchors, absent, wabsent, sealed, receipt, end, dev })
        .boxed()
}
/// Few keys and nobody missing: for histories that go far.
fn plain_event() -> BoxedStrategy<Ev> {
    (event(), 1u32..3, 1u32..3, 0u8..2, prop_oneof![30 => Just(Dev::None), 1 => dev()])
        .prop_map(|(e, a, b, wits, dev)| Ev { kt: Expr::Num(a), nt: Expr::Num(b), more: (0, 0), wits, anchors: vec![], absent: 0, wabsent: 0, end: false, dev, ..e })
        .boxed()
}
fn history(stream: fn() -> BoxedStrategy<Vec<Stream>>, len: std::ops::Range<usize>) -> BoxedStrategy<History> {
    let evs = prop_oneof![25 => vec(event(), len), 1 => vec(plain_event(), 17..24)];
    let prefix = prop_oneof![8 => Just("E".to_string()), 5 => select(DIGESTS).prop_map(String::from), 4 => Just("D".to_string()), 1 => Just("B".to_string())];
    (any::<u64>(), prop_oneof![2 => Just(vec![0u8]), 2 => vec(0u8..3, 1..6), 1 => (0u8..3).prop_map(|a| vec![a])], prop_oneof![3 => Just(false), 1 => Just(true)], prefix, prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![6 => Just(false), 1 => Just(true)], evs, stream(), (0u8..16, any::<u16>()))
        .prop_map(|(seed, algs, salty, prefix, delegated, only, mut evs, stream, (near, bit))| {
            if near == 0 {
                evs[0].dev = Dev::Near(if bit & 1 == 0 { 0 } else { 3 }, bit >> 1);
            }
            History { seed, algs, salty, prefix, delegated, only, evs, stream }
        })
        .boxed()
}
fn tamper() -> BoxedStrategy<Vec<Stream>> {
    let b = || any::<u8>();
    vec(
        prop_oneof![
            2 => b().prop_map(Stream::Drop), 2 => (b(), b()).prop_map(|(i, j)| Stream::Swap(i, j)), 2 => (b(), b()).prop_map(|(i, j)| Stream::Repeat(i, j)), 2 => (b(), b()).prop_map(|(i, j)| Stream::Graft(i, j)),
            1 => (0u16..300).prop_map(Stream::Truncate), 4 => (any::<u32>(), 0u8..8).prop_map(|(i, j)| Stream::Flip(i, j)), 1 => (any::<u32>(), b64_char()).prop_map(|(i, j)| Stream::Insert(i, j)), 1 => any::<u32>().prop_map(Stream::Remove),
        ],
        1..4,
    )
    .boxed()
}
pub fn c31_subs() -> Vec<Sub> {
    vec![
        sub("c31_history", "histories of 2-7 events, a few of up to 23 (inception by key or digest, delegated or not, rotations that reveal committed keys in order, permuted or among new ones, interactions, receipts; 1-70 keys of 3 algorithms, numeric and weighted thresholds, witnesses cut and added, 9 digests, seals) with missing signatures and 18 kinds of deviation (one a single bit of a prefix, chain, identifier, commitment or key), made with the library and judged from the bytes by its operations and by independent ones; non-trivial when two or more messages are accepted", 3_000, 100_000, || history(|| Just(vec![]).boxed(), 2..8), c31),
        sub("c31_stream", "the same with messages dropped, swapped, repeated, with each other's attachments, bits flipped, bytes inserted or removed, and truncation", 2_500, 80_000, || history(tamper, 2..6), c31),
    ]
}
