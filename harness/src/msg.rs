//! C30: receipts and messages with attached signatures.
use crate::crypto::digest_text;
use crate::doc::*;
use crate::event::*;
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::messaging::verif_messagize;
use keride::receipting::verif_receipt;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sg {
    code: String,
    index: u32,
    ondex: Option<u32>,
    fill: Fill,
}
impl Sg {
    fn refer(&self) -> Option<r::Idx> {
        let x = r::INDEXED.iter().find(|x| x.0 == self.code)?;
        r::idx_build(&self.code, &self.fill.make(x.3), self.index, self.ondex)
    }
}
fn sg() -> BoxedStrategy<Sg> {
    // signature codes of 64 bytes; dual-list codes with or without an other index
    let codes: Vec<String> = r::INDEXED.iter().filter(|x| x.3 == 64 && x.0 != "0z").map(|x| x.0.to_string()).collect();
    (select(codes), prop_oneof![10 => 0u32..64, 2 => 64u32..4096, 2 => select(vec![0u32, 63]), 1 => dict::u32s(0, 4095)], prop_oneof![1 => Just(None), 1 => (0u32..64).prop_map(Some)], fill(), any::<bool>())
        .prop_map(|(code, index, ondex, fill, same)| {
            let mut s = Sg { code, index, ondex, fill };
            // what the code admits
            for (i, o) in [(s.index, s.ondex), (s.index, None), (s.index % 64, s.ondex), (s.index % 64, None), (s.index % 64, Some(s.index % 64))] {
                s.index = i;
                s.ondex = if same && o.is_some() { Some(i) } else { o };
                if s.refer().is_some() {
                    break;
                }
            }
            s
        })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Seal {
    i: String,
    s: String,
    d: String,
    last: Option<bool>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Msg {
    fields: Fields,
    code: String,
    sigers: Option<Vec<Sg>>,
    wigers: Option<Vec<Sg>>,
    seal: Option<Seal>,
    /// repeat the first signature this often
    many: u32,
    /// what the parts share
    share: u8,
    tail: Hex,
}
fn expand(v: &Option<Vec<Sg>>, many: u32) -> Option<Vec<Sg>> {
    let mut v = v.clone()?;
    if many > 0 && !v.is_empty() {
        let first = v[0].clone();
        v.extend(std::iter::repeat_n(first, many as usize));
    }
    Some(v)
}
fn build(v: &Option<Vec<Sg>>) -> Result<Option<Vec<Siger>>, String> {
    v.as_ref()
        .map(|v| {
            v.iter()
                .map(|x| {
                    let raw = x.refer().ok_or("bad case")?.raw;
                    must(Siger::new(None, Some(x.index), x.ondex, Some(&x.code), Some(&raw), None, None, None), "signature")
                })
                .collect::<Result<Vec<_>, String>>()
        })
        .transpose()
}
fn c30(c: &Msg, cx: &mut Cx) -> R {
    let mut c = c.clone();
    match c.share {
        0 => c.wigers = c.sigers.clone(),
        1 => c.seal.iter_mut().for_each(|s| s.i = s.d.clone()),
        2 => c.sigers.iter_mut().for_each(|v| v.reverse()),
        3 => c.sigers.iter_mut().for_each(|v| v.extend_from_within(..)),
        4 => c.wigers.iter_mut().for_each(|v| v.extend_from_within(..)),
        _ => {}
    }
    let c = &mut c;
    let mut f: Fields = vec![("v".into(), s("KERI10JSON000000_"))];
    f.extend(c.fields.iter().cloned());
    f = unique(f);
    put(&mut f, "d", s(""));
    let f = completed(&f, "d", &c.code, &[]).ok_or("bad case")?;
    let e = must(Serder::new(Some(&c.code), None, None, Some(&D::O(f.clone()).val()), None), "event")?;
    if let Some(seal) = &mut c.seal {
        // a seal of the very event
        let text = |l: &str| at(&f, l).and_then(|d| d.str()).map(String::from);
        if matches!(c.share, 5 | 6) && text("i").is_some_and(|i| keride::prefexing::prefixer::Prefixer::new_with_qb64(&i).is_ok_and(|p| p.qb64().is_ok_and(|q| q == i))) {
            seal.i = text("i").unwrap();
        }
        if matches!(c.share, 6 | 7) {
            seal.d = text("d").unwrap();
        }
    }
    let (sg, wg) = (expand(&c.sigers, c.many), expand(&c.wigers, c.many / 2));
    let (sigers, wigers) = (build(&sg)?, build(&wg)?);
    let seal = c.seal.as_ref().map(|s| (s.i.as_str(), s.s.as_str(), s.d.as_str(), s.last));
    let got = verif_messagize(&e, sigers.as_deref(), seal, wigers.as_deref(), None);
    let count = |v: &Option<Vec<Sg>>| v.as_ref().map(|v| v.len()).unwrap_or(0);
    let (ns, nw) = (count(&sg), count(&wg));
    if ns + nw == 0 {
        cx.class("no signature");
        return refuse(got, "a message without any signature");
    }
    let sn = c.seal.as_ref().and_then(|s| u128::from_str_radix(&s.s, 16).ok());
    let sealed = ns > 0 && c.seal.is_some();
    let last = c.seal.as_ref().and_then(|s| s.last).unwrap_or(false);
    if ns > 4095 || nw > 4095 || sealed && !last && sn.is_none() {
        cx.class("too many signatures or malformed seal");
        return refuse(got, "more signatures than a counter carries, or a malformed seal");
    }
    let got = must(got, "message")?;
    // the parts, one after another
    let event = D::O(f.clone()).text();
    let mut want = event.clone();
    if ns > 0 {
        if let Some(s) = &c.seal {
            want += &r::cnt_build(if last { "-H" } else { "-F" }, 1).unwrap().text;
            want += &s.i;
            if !last {
                want += &r::mat_build("0A", &sn.unwrap().to_be_bytes()).unwrap().text;
                want += &s.d;
            }
        }
        want += &r::cnt_build("-A", ns as u64).unwrap().text;
        for x in sg.as_ref().unwrap() {
            want += &x.refer().unwrap().text;
        }
    }
    if nw > 0 {
        want += &r::cnt_build("-B", nw as u64).unwrap().text;
        for x in wg.as_ref().unwrap() {
            want += &x.refer().unwrap().text;
        }
    }
    ensure!(got == want, "message: got {}, expected {}", short(&got), short(&want));
    cx.hit();
    cx.class(format!("{}{}{}", if sealed { if last { "last-event seal, " } else { "event seal, " } } else { "" }, if ns > 0 { "controller " } else { "" }, if nw > 0 { "witness" } else { "" }));
    // read back with the library, in a longer stream
    let stream = [got.as_bytes(), &c.tail.0].concat();
    let e2 = must(Serder::new(Some(&c.code), Some(&stream), None, None, None), "the event of the message")?;
    ensure!(e2 == e, "the event read back differs");
    let mut rest = &stream[e2.size() as usize..];
    let end = c.tail.0.len();
    let mut back: Vec<(bool, String, u32, u32, Vec<u8>)> = vec![];
    let mut seals = vec![];
    while rest.len() > end {
        let k = must(Counter::new_with_qb64b(rest), "counter")?;
        rest = &rest[must(k.full_size(), "counter")? as usize..];
        match k.code().as_str() {
            "-A" | "-B" => {
                for _ in 0..k.count() {
                    let x = must(Siger::new_with_qb64b(rest, None), "signature")?;
                    rest = &rest[must(x.full_size(), "signature")? as usize..];
                    back.push((k.code() == "-A", x.code(), x.index(), x.ondex(), x.raw()));
                }
            }
            "-F" | "-H" => {
                let p = must(keride::prefexing::prefixer::Prefixer::new_with_qb64b(rest), "prefix of the seal")?;
                rest = &rest[must(p.full_size(), "prefix")? as usize..];
                let mut item = (k.code(), k.count(), must(p.qb64(), "prefix")?, 0, String::new());
                if k.code() == "-F" {
                    let q = must(Seqner::new_with_qb64b(rest), "sequence number of the seal")?;
                    rest = &rest[must(q.full_size(), "sequence number")? as usize..];
                    let d = must(Saider::new_with_qb64b(rest), "digest of the seal")?;
                    rest = &rest[must(d.full_size(), "digest")? as usize..];
                    item.3 = must(q.sn(), "sequence number")?;
                    item.4 = must(d.qb64(), "digest")?;
                }
                seals.push(item);
            }
            other => fail!("an unexpected group {other}"),
        }
    }
    let list = |v: &Option<Vec<Sg>>, ctl: bool| v.iter().flatten().map(|x| x.refer().unwrap()).map(|x| (ctl, x.code, x.index, x.ondex, x.raw)).collect::<Vec<_>>();
    let want_list = [list(&sg, true), list(&wg, false)].concat();
    ensure!(back == want_list, "signatures read back differ: {} and {}", short(&back), short(&want_list));
    let want_seals: Vec<_> = c.seal.iter().filter(|_| sealed).map(|s| if last { ("-H".to_string(), 1, s.i.clone(), 0, String::new()) } else { ("-F".to_string(), 1, s.i.clone(), sn.unwrap(), s.d.clone()) }).collect();
    same!(seals, want_seals, "seal read back");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rct {
    pre: String,
    sn: Hex,
    said: String,
    version: Option<(u8, u8)>,
    kind: bool,
}
fn c30_receipt(c: &Rct, cx: &mut Cx) -> R {
    let sn = u128::from_be_bytes(c.sn.0.clone().try_into().map_err(|_| "bad case")?);
    let v = c.version.map(|(major, minor)| common::Version { major, minor });
    let got = verif_receipt(&c.pre, sn, &c.said, v.as_ref(), c.kind.then_some("JSON"));
    let code = r::mat_read(c.said.as_bytes()).filter(|m| m.text.len() == c.said.len()).map(|m| m.code);
    let supported = c.version.is_none_or(|v| v == (1, 0));
    if supported && code.is_none() && r::mat_read(c.said.as_bytes()).is_some_and(|m| crate::typed::DIGESTS.contains(&m.code.as_str())) {
        // an identifier and more: what follows material belongs to the stream, undecided here
        cx.class("identifier and more");
        return Ok(());
    }
    let is_digest = code.as_ref().is_some_and(|k| crate::typed::DIGESTS.contains(&k.as_str()));
    if !supported || !is_digest {
        cx.class("not a receipt");
        return refuse(got, "a receipt of an unsupported version or of what is no digest");
    }
    let e = match got {
        Ok(e) => e,
        Err(x) => {
            // (only identifiers of the default algorithm are receipted)
            ensure!(code.as_deref() != Some("E"), "the receipt was refused: {x}");
            cx.class("identifier of another algorithm");
            return Ok(());
        }
    };
    cx.hit();
    cx.class("receipt");
    let f: Fields = vec![("v".into(), s("KERI10JSON000000_")), ("t".into(), s("rct")), ("d".into(), s(&c.said)), ("i".into(), s(&c.pre)), ("s".into(), D::S(format!("{sn:x}")))];
    let f = fix_size(&f).unwrap();
    same!(D::of(&e.ked()), D::O(f.clone()), "receipt");
    same!(String::from_utf8_lossy(&e.raw()).into_owned(), D::O(f).text(), "receipt as text");
    same!((must(e.pre(), "prefix")?, must(e.sn(), "sequence number")?, must(e.said(), "identifier")?), (c.pre.clone(), sn, c.said.clone()), "what is receipted");
    same!(must(e.est(), "establishment")?, false, "a receipt establishes");
    Ok(())
}
pub fn c30_subs() -> Vec<Sub> {
    let sigs = || prop_oneof![1 => Just(None), 1 => Just(Some(vec![])), 8 => vec(sg(), 1..6).prop_map(Some)];
    vec![
        sub(
            "c30_message",
            "events x 0-5 (now and then 100 or over 4095) controller and witness signatures of all 64-byte codes and indices x no, event and last-event seals, compared with the independent assembly and read back from a longer stream; non-trivial when a message results",
            10_000,
            200_000,
            move || {
                let sn = prop_oneof![4 => any::<u16>().prop_map(|n| format!("{n:x}")), 2 => dict::ints(0, u128::MAX).prop_map(|n| format!("{n:x}")), 2 => any::<u128>().prop_map(|n| format!("{n:x}")), 1 => select(vec!["0", "ffffffffffffffffffffffffffffffff", "zz", "100000000000000000000000000000000", "-1"]).prop_map(String::from)];
                let seal = (prop_oneof![key_text(), digest_id()], sn, digest_id(), prop_oneof![1 => Just(None), 2 => any::<bool>().prop_map(Some)]).prop_map(|(i, s, d, last)| Seal { i, s, d, last });
                let many = prop_oneof![300 => Just(0u32), 4 => 60u32..200, 1 => 4085u32..4100];
                (event_fields(), select(crate::typed::DIGESTS).prop_map(String::from), sigs(), sigs(), prop_oneof![1 => Just(None), 1 => seal.prop_map(Some)], many, 0u8..16, trailing())
                    .prop_map(|(fields, code, sigers, wigers, seal, many, share, tail)| Msg { fields, code, sigers, wigers, seal, many, share, tail })
                    .boxed()
            },
            c30,
        ),
        sub(
            "c30_receipt",
            "receipts of events: prefixes, sequence numbers to 128 bits, identifiers of 9 algorithms and malformed ones, versions; non-trivial when a receipt results",
            15_000,
            300_000,
            || {
                let sn = prop_oneof![2 => dict::ints(0, u128::MAX), 2 => (0u128..1000), 2 => any::<u128>(), 1 => select(vec![0u128, u128::MAX, 1 << 64, (1 << 64) - 1])];
                let said = prop_oneof![4 => fill().prop_map(|f| digest_text("E", &f.make(9))), 2 => digest_id(), 1 => key_text(), 1 => text()];
                let ver = prop_oneof![3 => Just(None), 2 => Just(Some((1u8, 0u8))), 1 => (0u8..3, 0u8..3).prop_map(Some)];
                (prop_oneof![2 => key_text(), 2 => digest_id(), 1 => text()], sn, said, ver, any::<bool>()).prop_map(|(pre, sn, said, version, kind)| Rct { pre, sn: Hex(sn.to_be_bytes().to_vec()), said, version, kind }).boxed()
            },
            c30_receipt,
        ),
    ]
}
