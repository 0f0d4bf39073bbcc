//! C32: results depend on the arguments alone.
use crate::crypto::{digest_text, sig_verifies, SEEDS};
use crate::doc::*;
use crate::event::*;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::thold::Expr;
use crate::typed::{fix_seed, DIGESTS, KEYS};
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::data::Value;
use keride::messaging::verif_messagize;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::receipting::verif_receipt;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read as _, Write as _};

/// Small pools, so that the same arguments meet again in other company.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Prog {
    seed: u64,
    docs: Vec<Fields>,
    msgs: Vec<Hex>,
    texts: Vec<String>,
    nums: Vec<u64>,
    exprs: Vec<Expr>,
    codes: Vec<CodeRaw>,
    edits: Vec<Edit>,
    ops: Vec<[u8; 6]>,
    order: u64,
}
struct Env<'a> {
    p: &'a Prog,
    docs: Vec<Value>,
    /// with identifier and size in place
    done: Vec<(String, Fields, Value, Vec<u8>)>,
    sith: Vec<Value>,
    /// qualified encodings: as they are and damaged
    texts: Vec<String>,
    bins: Vec<Vec<u8>>,
}
fn pick<T>(v: &[T], i: u8) -> &T {
    &v[i as usize % v.len()]
}
fn env(p: &Prog) -> Result<Env<'_>, String> {
    let docs: Vec<Value> = p.docs.iter().map(|f| D::O(f.clone()).val()).collect();
    let mut done = vec![];
    for (k, f) in p.docs.iter().enumerate() {
        for code in ["E", DIGESTS[(p.seed as usize + k) % DIGESTS.len()]] {
            let mut f = f.clone();
            put(&mut f, "v", s(if k % 3 == 2 { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }));
            let v = f.pop();
            f.retain(|x| x.0 != "v");
            f.insert(0, ("v".into(), v.filter(|x| x.0 == "v").map(|x| x.1).unwrap_or(s("KERI10JSON000000_"))));
            let Some(g) = completed(&f, "d", code, &[]) else { return Err("bad case".into()) };
            let d = D::O(g.clone());
            done.push((code.to_string(), g, d.val(), d.text().into_bytes()));
        }
    }
    let mut texts = vec![];
    let mut bins = vec![];
    for c in &p.codes {
        let m = r::mat_build(&c.code, &c.raw()).ok_or("bad case")?;
        bins.push(r::text_to_bin(&m.text));
        texts.push(m.text);
    }
    for (k, t) in p.texts.iter().enumerate() {
        texts.push(r::cnt_build(["-A", "-B", "-V"][k % 3], k as u64 + p.nums[0] % 60).unwrap().text + t);
        let x = r::idx_build(["A", "B", "2A", "0A"][k % 4], &Fill::Random(p.seed).make(114), k as u32, None).ok_or("bad case")?;
        bins.push(r::text_to_bin(&x.text));
        texts.push(x.text);
    }
    for k in 0..p.edits.len() {
        let mut b = texts[k % texts.len()].clone().into_bytes();
        p.edits[k].apply(&mut b);
        texts.push(String::from_utf8_lossy(&b).into_owned());
        let mut b = bins[k % bins.len()].clone();
        p.edits[k].apply(&mut b);
        bins.push(b);
    }
    let sith = p.exprs.iter().enumerate().map(|(k, e)| Value::from(&e.written((p.seed >> k) as u8))).collect();
    Ok(Env { p, docs, done, sith, texts, bins })
}
impl Env<'_> {
    fn signer(&self, i: u8, transferable: bool) -> anyhow::Result<Signer> {
        let alg = SEEDS[i as usize % 3];
        let mut raw = Fill::Random(self.p.seed ^ (i % 6) as u64).make(32);
        fix_seed(alg, &mut raw);
        Signer::new_with_raw(&raw, Some(transferable), Some(alg))
    }
    /// A signature: the bytes where the scheme determines them, otherwise whether it holds.
    fn sealed(&self, i: u8, sig: &[u8], key: &[u8], m: u8) -> String {
        let alg = SEEDS[i as usize % 3];
        if alg == "A" {
            return hex(sig);
        }
        format!("{} {}", sig.len(), sig_verifies(alg, key, sig, self.msg(m)))
    }
    fn msg(&self, i: u8) -> &[u8] {
        &pick(&self.p.msgs, i).0
    }
}
/// One operation; its result in full.
fn perform(e: &Env, op: &[u8; 6]) -> String {
    match attempt(e, op) {
        Ok(t) => t,
        Err(_) => "refused".to_string(),
    }
}
pub const KINDS: u8 = 34;
fn attempt(e: &Env, &[kind, a, b, c, d, f]: &[u8; 6]) -> anyhow::Result<String> {
    let num = |i: u8| *pick(&e.p.nums, i);
    let text = |i: u8| pick(&e.p.texts, i).as_str();
    let code = |i: u8| DIGESTS[(e.p.seed as usize % 9 + i as usize % 4) % DIGESTS.len()];
    let doc = |i: u8| pick(&e.done, i);
    let opt = |x: bool, t: &'static str| x.then_some(t);
    Ok(match kind % KINDS {
        0 => {
            let x = e.signer(a, b & 1 == 0)?.sign_indexed(e.msg(c), d & 1 == 0, (f % 70) as u32, opt(d & 2 != 0, "").map(|_| (d % 70) as u32))?;
            format!("{} {} {} {}", x.code(), e.sealed(a, &x.raw(), &x.verfer().raw(), c), r::idx_build(&x.code(), &[0; 64], x.index(), Some(x.ondex())).map(|y| y.text).unwrap_or_default(), x.verfer().qb64()?)
        }
        1 => {
            let x = e.signer(a, b & 1 == 0)?.sign_unindexed(e.msg(c))?;
            format!("{} {} {}", x.code(), e.sealed(a, &x.raw(), &x.verfer().raw(), c), x.verfer().qb64()?)
        }
        2 | 3 => {
            // a signature over one message, by one signer, against another
            let sig = e.signer(a, true)?.sign_unindexed(e.msg(b))?;
            format!("{}", e.signer(if kind % KINDS == 2 { a } else { c }, d & 1 == 0)?.verfer().verify(&sig.raw(), e.msg(f))?)
        }
        4 => Diger::new_with_ser(e.msg(a), Some(code(b)))?.qb64()?,
        5 => format!("{}", Diger::new_with_qb64(&digest_text(code(b), e.msg(a)))?.verify(e.msg(c))?),
        6 => {
            let (x, y) = (digest_text(code(b), e.msg(a)), digest_text(code(d), e.msg(c)));
            format!("{}", Diger::new_with_qb64(&x)?.compare(e.msg(f), Some(y.as_bytes()), None)?)
        }
        7 => {
            let salt = Salter::new_with_raw(&Fill::Random(e.p.seed ^ (a % 2) as u64).make(16), None, opt(b & 1 == 0, "low"))?;
            hex(&salt.stretch(Some([32, 132, 232, 12, 20, 8, 120, 64][c as usize % 8]), Some(text(d)), opt(f & 1 == 0, "med"), Some(true))?)
        }
        8 => {
            let salt = Salter::new_with_raw(&Fill::Random(e.p.seed ^ (a % 2) as u64).make(16), None, None)?;
            let x = salt.signer(Some(SEEDS[b as usize % 3]), Some(c & 1 == 0), Some(text(d)), None, Some(true))?;
            format!("{} {}", x.qb64()?, x.verfer().qb64()?)
        }
        9 => {
            let salt = Salter::new_with_raw(&Fill::Random(e.p.seed ^ (a % 2) as u64).make(16), None, None)?;
            let x = SaltyCreator::new(None, Some(text(b)).filter(|_| b & 4 != 0), None, Some(salt))?;
            let v = x.create(None, Some(1 + (c % 3) as u16), Some(SEEDS[d as usize % 3]), Some(num(a) as u16 % 300), Some((f % 4) as u16), Some((c % 5) as u16), Some(text(f)).filter(|_| f & 8 != 0), Some(d & 8 == 0), true);
            format!("{:?}", v.iter().map(|x| x.verfer().qb64()).collect::<anyhow::Result<Vec<_>>>()?)
        }
        10 | 11 => {
            let t = Tholder::new_with_sith(pick(&e.sith, a))?;
            let idx: Vec<u32> = (0..8u32).filter(|i| b >> i & 1 == 1).chain([(c % 9) as u32]).collect();
            format!("{} {} {}", t.satisfy(&idx)?, t.size(), t.weighted())
        }
        12 => {
            let t = Tholder::new_with_sith(pick(&e.sith, a))?;
            let l = t.limen()?;
            format!("{} {} {}", String::from_utf8_lossy(&l), t.to_json()?, Tholder::new_with_limen(&l)?.sith()?.to_json()?)
        }
        13 => {
            let ig = [text(c)];
            let (x, v) = Saider::saidify(pick(&e.docs, a), Some(code(b)), None, opt(d & 1 == 0, "d"), Some(&ig[..]).filter(|_| d & 2 != 0))?;
            format!("{} {}", x.qb64()?, v.to_json()?)
        }
        14 | 15 => {
            // the identifier of one document against another
            let x = Saider::new_with_qb64(at(&doc(a).1, "d").and_then(|d| d.str()).unwrap_or_default())?;
            let other = if kind % KINDS == 14 { a } else { b };
            format!("{}", x.verify(&doc(other).2, Some(c & 1 == 0), Some(c & 2 == 0), None, None, None)?)
        }
        16 => {
            let x = doc(a);
            let y = Serder::new(Some(&x.0), None, None, Some(&x.2), None)?;
            format!("{} {} {} {:?}", String::from_utf8_lossy(&y.raw()), y.said()?, y.size(), y.pretty(None)?)
        }
        17 | 18 => {
            let x = doc(a);
            let y = Serder::new(Some(&x.0), Some(&[&x.3[..], e.msg(b)].concat()), None, None, None)?;
            let keys: anyhow::Result<Vec<String>> = y.verfers().and_then(|v| v.iter().map(|k| k.qb64()).collect());
            let digs: anyhow::Result<Vec<String>> = y.digers().and_then(|v| v.iter().map(|k| k.qb64()).collect());
            let wits: anyhow::Result<Vec<String>> = y.werfers().and_then(|v| v.iter().map(|k| k.qb64()).collect());
            let th = |t: anyhow::Result<Option<Tholder>>| t.ok().flatten().and_then(|t| t.to_json().ok());
            format!("{} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", String::from_utf8_lossy(&y.raw()), keys.ok(), digs.ok(), wits.ok(), th(y.tholder()), th(y.ntholder()), y.sn().ok(), y.pre().ok(), y.est().ok())
        }
        19 => {
            let x = doc(a);
            let y = Creder::new(Some(&x.0), Some(&x.3), None, None, None)?;
            format!("{} {:?} {:?} {:?} {:?}", String::from_utf8_lossy(&y.raw()), y.issuer().ok(), y.schema().ok(), y.status().ok(), y.chains().ok().and_then(|c| c.to_json().ok()))
        }
        20 => {
            let x = doc(a);
            let all = [KEYS, DIGESTS].concat();
            Prefixer::new_with_ked(&x.2, None, Some(pick(&all, b)).filter(|_| c & 1 == 0).copied())?.qb64()?
        }
        21 => {
            let x = doc(a);
            let p = Prefixer::new_with_qb64(at(&doc(b).1, "i").and_then(|d| d.str()).unwrap_or_default())?;
            format!("{}", p.verify(&x.2, Some(c & 1 == 0))?)
        }
        22 => {
            let parts = [text(a), text(b), &format!("{}", c % 12)][..1 + (d % 3) as usize].join("-");
            let p = Pather::new_with_bext(&format!("-{}", if d & 8 == 0 { format!("{}", c % 12) } else { parts }))?;
            let y = doc(f);
            let tail = Serder::new(Some(&y.0), Some(&y.3), None, None, None).and_then(|z| p.tail(&z));
            format!("{} {:?} {:?}", p.qb64()?, p.resolve(&y.2)?.to_json()?, tail.ok())
        }
        23 | 24 => {
            let t = pick(&e.texts, a).to_owned() + if b & 1 == 0 { "" } else { text(c) };
            let x: anyhow::Result<Mtr> = Matter::new(None, None, None, Some(&t), None);
            let y: anyhow::Result<Ixr> = Indexer::new(None, None, None, None, None, Some(&t), None);
            let z = Counter::new_with_qb64(&t);
            format!("{:?} {:?} {:?} {:?}", x.map_err(|e| e.to_string()), y.map_err(|e| e.to_string()), z.as_ref().map(|z| (z.code(), z.count())).map_err(|e| e.to_string()), z.and_then(|z| z.qb2()).ok())
        }
        25 => {
            let t = [&pick(&e.bins, a)[..], if b & 1 == 0 { &[] } else { e.msg(c) }].concat();
            let x: anyhow::Result<Mtr> = Matter::new(None, None, None, None, Some(&t));
            let y: anyhow::Result<Ixr> = Indexer::new(None, None, None, None, None, None, Some(&t));
            format!("{:?} {:?} {:?}", x.and_then(|x| x.qb64()).map_err(|e| e.to_string()), y.and_then(|x| x.qb64()).map_err(|e| e.to_string()), Counter::new_with_qb2(&t).and_then(|z| z.qb64()).map_err(|e| e.to_string()))
        }
        26 => {
            let n = Number::new_with_num(num(a) as u128)?;
            let q = Seqner::new_with_sn(num(b) as u128)?;
            let t = Bexter::new_with_bext(text(c)).and_then(|x| Ok((x.qb64()?, x.bext()?)));
            let w = Dater::new_with_dts(&format!("2020-08-{:02}T17:50:{:02}.{:06}+00:00", 1 + d % 28, f % 60, num(a) % 1_000_000), None)?;
            format!("{} {} {} {} {:?} {} {}", n.qb64()?, n.numh()?, q.qb64()?, q.snh()?, t.ok(), w.qb64()?, w.dts()?)
        }
        27 => {
            let v = common::versify(opt(a & 1 == 0, "ACDC"), None, None, Some(num(b) as u32 & 0xff_ffff))?;
            let dv = common::deversify(&v)?;
            let sn = common::sniff(&[e.msg(c), v.as_bytes(), e.msg(d), &[b' '; 20]].concat()).map(|x| (x.ident, x.kind, x.size));
            let sz = common::sizeify(pick(&e.docs, f), None).map(|x| String::from_utf8_lossy(&x.raw).into_owned());
            format!("{v} {} {} {:?} {:?}", dv.ident, dv.size, sn.map_err(|e| e.to_string()), sz.map_err(|e| e.to_string()))
        }
        28 => {
            let x = &doc(a).3;
            let j: serde_json::Value = serde_json::from_slice(x)?;
            let v = Value::from(&j);
            format!("{} {}", v.to_json()?, v == doc(b).2)
        }
        30..=32 => {
            // paths among each other; those of the same length and nearly the same parts included
            let one = |i: u8, j: u8| -> anyhow::Result<Pather> {
                let mut t = text(i).to_string();
                if j & 1 == 1 {
                    let c = if t.ends_with('x') { 'y' } else { 'x' };
                    t.pop();
                    t.push(c);
                }
                let parts = [t, text(d).to_string(), text(f).to_string()][..3 - (j >> 1) as usize % 3].join("-");
                Pather::new_with_bext(&format!("-{parts}"))
            };
            let (x, y) = (one(a, b)?, one(a, c)?);
            match kind % KINDS {
                30 => format!("{} {}", x.starts_with(&y)?, y.starts_with(&x)?),
                31 => format!("{:?} {:?}", x.strip(&y).and_then(|z| z.bext()).ok(), x.root(&y).and_then(|z| z.bext()).ok()),
                _ => format!("{} {}", x.bext()?, y.path()?.to_json()?),
            }
        }
        33 => {
            // a label that may start the path of another
            let z = Bexter::new_with_bext(text(a))?;
            let p = Prefixer::new_with_qb64(pick(&e.texts, b)).and_then(|p| p.qb64());
            let v = Verfer::new_with_qb64(pick(&e.texts, c)).map(|v| (v.code(), hex(&v.raw())));
            let g = Diger::new_with_qb64(pick(&e.texts, d)).and_then(|g| g.verify(e.msg(f)));
            let s = Siger::new_with_qb64(pick(&e.texts, f), None).map(|s| (s.code(), s.index(), s.ondex()));
            format!("{} {:?} {:?} {:?} {:?}", z.qb64()?, p.ok(), v.ok(), g.ok(), s.ok())
        }
        _ => {
            let x = doc(a);
            let y = Serder::new(Some(&x.0), None, None, Some(&x.2), None)?;
            let sg = vec![e.signer(0, true)?.sign_indexed(&y.raw(), c & 1 == 0, (d % 4) as u32, None)?; 1 + (f % 2) as usize];
            let wg = vec![e.signer(3, false)?.sign_indexed(&y.raw(), true, (f % 4) as u32, None)?; (d % 3) as usize];
            let m = verif_messagize(&y, Some(&sg), Some((text(b), "a", text(c), Some(f & 4 == 0))).filter(|_| f & 8 == 0), Some(&wg), None)?;
            format!("{m} {:?}", verif_receipt(text(a), num(d) as u128, &y.said()?, None, None).map(|r| String::from_utf8_lossy(&r.raw()).into_owned()).map_err(|e| e.to_string()))
        }
    })
}
fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut m = Mix(seed);
    for i in (1..n).rev() {
        v.swap(i, (m.next() % (i as u64 + 1)) as usize);
    }
    v
}
/// All operations in an order; results by place in the program.
fn execute(e: &Env, order: &[usize]) -> Vec<String> {
    let mut out = vec![String::new(); order.len()];
    for &k in order {
        out[k] = match guarded(|| perform(e, &e.p.ops[k])) {
            Ok(t) => t,
            Err(p) => p,
        };
    }
    out
}
fn compare(p: &Prog, a: &[String], b: &[String], what: &str) -> R {
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x == y, "operation {k} {:?}, {what}: {} and then {}", p.ops[k], short(x), short(y));
    }
    Ok(())
}
fn orders(p: &Prog) -> [Vec<usize>; 4] {
    let n = p.ops.len();
    [(0..n).collect(), (0..n).rev().collect(), shuffled(n, p.order), shuffled(n, p.order ^ 1)]
}
fn c32(p: &Prog, cx: &mut Cx) -> R {
    let e = env(p)?;
    let [first, back, third, fourth] = orders(p);
    let a = execute(&e, &first);
    compare(p, &a, &execute(&e, &first), "repeated")?;
    compare(p, &a, &execute(&e, &back), "in reverse order")?;
    compare(p, &a, &execute(&e, &third), "in another order")?;
    // at the same time
    let sets = [&first, &back, &third, &fourth];
    let got: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = sets
            .iter()
            .map(|o| {
                let e = &e;
                sc.spawn(move || {
                    execute(e, o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for g in got {
        match g {
            Ok(g) => compare(p, &a, &g, "at the same time in other threads")?,
            Err(_) => fail!("a thread panicked"),
        }
    }
    // the arguments are as they were
    for (v, f) in e.docs.iter().zip(&p.docs).chain(e.done.iter().map(|x| (&x.2, &x.1))) {
        ensure!(D::of(v) == D::O(f.clone()), "a document given changed");
    }
    let ok = a.iter().filter(|t| !t.starts_with("refused")).count();
    for (k, t) in a.iter().enumerate() {
        ensure!(!t.contains("panick"), "operation {k} {:?}: {t}", p.ops[k]);
    }
    if ok * 3 >= a.len() * 2 {
        cx.hit();
    }
    cx.class(format!("{} of 10 succeed", ok * 10 / a.len()));
    Ok(())
}
/// In another process, in other orders.
fn c32_fresh(p: &Prog, cx: &mut Cx) -> R {
    let e = env(p)?;
    let a = execute(&e, &orders(p)[0]);
    cx.hit();
    for k in 1..4usize {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut ch = std::process::Command::new(exe).arg("ops").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let input = serde_json::json!({"order": k, "prog": p}).to_string();
        ch.stdin.take().unwrap().write_all(input.as_bytes()).map_err(|e| e.to_string())?;
        let out = ch.wait_with_output().map_err(|e| e.to_string())?;
        let Ok(b) = serde_json::from_slice::<Vec<String>>(&out.stdout) else { fail!("a process performing the operations ended with {:?}", out.status) };
        compare(p, &a, &b, "in another process, in another order")?;
    }
    Ok(())
}
/// The other process.
pub fn serve() -> Result<(), String> {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).map_err(|e| e.to_string())?;
    let mut j: serde_json::Value = deep(&t).map_err(|e| e.to_string())?;
    let fresh = |j: &serde_json::Value, l: &str| serde_json::from_value::<Fresh>(j[l].clone()).ok();
    let place = j["place"].as_u64().unwrap_or(0);
    let done = match (fresh(&j, "secrets"), fresh(&j, "seals")) {
        (Some(c), _) => serde_json::to_string(&secrets(&c)?),
        (_, Some(c)) => serde_json::to_string(&seals(&c, place)?),
        _ => Ok(String::new()),
    }
    .map_err(|e| e.to_string())?;
    if !done.is_empty() {
        println!("{done}");
        return Ok(());
    }
    let p: Prog = serde_json::from_value(j["prog"].take()).map_err(|e| e.to_string())?;
    let e = env(&p)?;
    let out = execute(&e, &orders(&p)[j["order"].as_u64().unwrap_or(0) as usize % 4]);
    println!("{}", serde_json::to_string(&out).map_err(|e| e.to_string())?);
    Ok(())
}
fn prog() -> BoxedStrategy<Prog> {
    let word = prop_oneof![3 => "[A-Za-z0-9_]{1,8}", 1 => "[A-Za-z_]{9,24}", 1 => Just("i".to_string()), 1 => Just("k".to_string())];
    let long = (prop_oneof![3 => 100usize..700, 1 => 700usize..6000], fill()).prop_map(|(n, f)| Hex(f.make(n)));
    let msgs = prop_oneof![
        1 => vec(ser_bytes(), 2..4),
        1 => (ser_bytes(), long).prop_map(|(a, b)| vec![a, b]),
        // near each other: same length, one bit, a prefix
        2 => (vec(any::<u8>(), 1..40), any::<u16>(), any::<u8>()).prop_map(|(v, i, b)| {
            let mut w = v.clone();
            let i = i as usize % w.len();
            w[i] ^= 1 << (b % 8);
            let mut x = v.clone();
            x.push(b);
            vec![Hex(v), Hex(w), Hex(x)]
        }),
    ];
    // words, and words that run together with a number to the same text
    let texts = (vec(word, 1..4), 0u8..4).prop_map(|(mut v, k)| {
        if k > 0 {
            let t = format!("{}{k}", v[0]);
            v.insert(1, t);
        }
        if k > 1 {
            v.push(v[0].to_ascii_uppercase());
        }
        v
    });
    // documents, some with the same parts
    let docs = (vec(event_fields(), 1..3), fields(0..4), any::<u64>()).prop_map(|(mut v, more, m)| {
        v.iter_mut().for_each(|f| *f = unique(f.clone()));
        let mut twin = v[0].clone();
        if !twin.is_empty() {
            let i = (m % twin.len() as u64) as usize;
            if twin[i].0 != "d" {
                twin[i].1 = s("twin");
            }
        }
        v.push(twin);
        v.push(unique(more));
        v.iter_mut().for_each(|f| put(f, "d", s("")));
        v
    });
    let op = (0..KINDS, any::<[u8; 5]>()).prop_map(|(k, x)| [k, x[0], x[1], x[2], x[3], x[4]]);
    // the arguments from a narrow range, so that they meet again
    let near = (0..KINDS, any::<[u8; 5]>()).prop_map(|(k, x)| [k, x[0] % 3, x[1] % 3, x[2] % 3, x[3] % 3, x[4] % 3]);
    // one kind of operation with few arguments
    let one = (0..KINDS, vec(any::<[u8; 5]>(), 3..12)).prop_map(|(k, v)| v.into_iter().map(|x| [k, x[0] % 3, x[1] % 2, x[2] % 3, x[3] % 2, x[4] % 3]).collect::<Vec<_>>());
    let ops = prop_oneof![1 => vec(op, 2..24), 1 => vec(near, 2..24), 2 => one];
    (any::<u64>(), docs, msgs, texts, vec(prop_oneof![any::<u64>(), 0u64..300], 2..4), vec(crate::thold::expr(), 1..4), (vec(code_raw(var_len_light), 1..4), vec(edit(), 0..4)), ops, any::<u64>())
        .prop_map(|(seed, docs, msgs, texts, nums, exprs, (codes, edits), ops, order)| Prog { seed, docs, msgs, texts, nums, exprs, codes, edits, ops, order })
        .boxed()
}
pub fn c32_subs() -> Vec<Sub> {
    vec![
        sub("c32_orders", "programs of 2-24 operations of 34 kinds (signing, verifying, digests, salts, creators, thresholds, identifiers, events, credentials, prefixes, paths and their relations, encodings, numbers, version strings, messages) over small pools of near-equal arguments: repeated, reversed, permuted, in four threads at once; non-trivial when two thirds of the operations succeed", 9_000, 120_000, prog, c32),
        sub("c32_fresh", "the same in three other processes in other orders; every case is non-trivial", 400, 6_000, prog, c32_fresh),
    ]
}

// ---- C33: fresh secrets ---------------------------------------------------------------------------

/// What asks for randomness, and in how many places at the same time.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fresh {
    /// kinds asked for, in turn: signers of 3 algorithms, salts, creators
    kinds: Vec<u8>,
    rounds: u8,
    threads: u8,
    children: u8,
    /// operations in between, whose arguments are equal everywhere
    between: u64,
    transferable: bool,
}
/// (kind, secret) for everything made.
fn secrets(c: &Fresh) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let mut out = vec![];
    let t = Some(c.transferable);
    for i in 0..c.rounds {
        for &k in &c.kinds {
            let k = k % 13;
            let tier = [None, Some("low"), Some("med"), Some("high")][(k as usize / 9 + i as usize) % 4];
            let alg = SEEDS[k as usize % 3];
            match k {
                0..=2 => out.push((0, must(Signer::new_with_defaults(t, Some(alg)), "signer")?.raw())),
                3 => out.push((1, must(Salter::new_with_defaults(None), "salt")?.raw())),
                4 => out.push((1, must(Salter::new(Some("med"), Some("0A"), None, None, None, None), "salt")?.raw())),
                5..=7 => {
                    let codes = (i % 2 == 0).then(|| vec![alg, alg]);
                    out.extend(keride::signify::creating::verif_randy_create(codes, Some(2), Some(alg), t).iter().map(|s| (0, s.raw())));
                }
                9 => out.push((1, must(Salter::new_with_defaults(tier), "salt")?.raw())),
                10 => out.push((1, must(Salter::new(tier, None, None, None, None, None), "salt")?.raw())),
                11 => {
                    let n = 1 + (c.between >> 8) as u16 % 24;
                    let codes = (i % 2 == 0).then(|| (0..n as usize).map(|j| if i % 4 == 0 { alg } else { SEEDS[j % 3] }).collect());
                    out.extend(keride::signify::creating::verif_randy_create(codes, Some(n), Some(alg), t).iter().map(|s| (0, s.raw())));
                }
                _ => {
                    let stem = ["fresh", "", "a"][i as usize % 3];
                    let s = must(SaltyCreator::new(None, Some(stem), tier.filter(|_| k == 12), None), "creator")?;
                    out.extend(s.create(None, Some(1), None, None, None, None, None, t, true).iter().map(|s| (0, s.raw())));
                }
            }
            if c.between & 1 << (i % 64) != 0 {
                let s = must(Salter::new_with_raw(&Fill::Random(c.between).make(16), None, None), "salt")?;
                must(s.signer(Some(alg), t, Some("x"), None, Some(true)), "derived signer")?;
            }
        }
    }
    Ok(out)
}
/// Signatures with random parts by two keys, the same everywhere: (algorithm, key, message, signature).
fn seals(c: &Fresh, place: u64) -> Result<Vec<(u8, u8, u64, Vec<u8>)>, String> {
    let mut out = vec![];
    for i in 0..c.rounds as u64 {
        for &k in &c.kinds {
            let alg = SEEDS[1 + k as usize % 2];
            let mut raw = Fill::Random(c.between ^ (k / 2 % 2) as u64).make(32);
            fix_seed(alg, &mut raw);
            let s = must(Signer::new_with_raw(&raw, Some(c.transferable), Some(alg)), "signer")?;
            let m = place << 32 | (out.len() as u64);
            let msg = m.to_be_bytes();
            let sig = if i % 2 == 0 { must(s.sign_unindexed(&msg), "signing")?.raw() } else { must(s.sign_indexed(&msg, i % 3 == 0, k as u32 % 64, None), "signing")?.raw() };
            out.push((1 + k % 2, k / 2 % 2, m, sig));
        }
    }
    Ok(out)
}
fn everywhere<T: Send + serde::de::DeserializeOwned>(c: &Fresh, what: &str, f: fn(&Fresh, u64) -> Result<Vec<T>, String>) -> Result<Vec<(String, T)>, String> {
    let mut out: Vec<(String, T)> = vec![];
    let mut children = vec![];
    for k in 0..c.children {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut ch = std::process::Command::new(exe).arg("ops").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let input = serde_json::json!({what: c, "place": 100 + k}).to_string();
        ch.stdin.take().unwrap().write_all(input.as_bytes()).map_err(|e| e.to_string())?;
        children.push(ch);
    }
    out.extend(f(c, 0)?.into_iter().map(|x| ("the first thread".into(), x)));
    let got: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..c.threads).map(|k| sc.spawn(move || f(c, 1 + k as u64))).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (k, g) in got.into_iter().enumerate() {
        match g {
            Ok(g) => out.extend(g?.into_iter().map(|x| (format!("thread {}", k + 2), x))),
            Err(_) => fail!("a thread panicked"),
        }
    }
    for (k, ch) in children.into_iter().enumerate() {
        let o = ch.wait_with_output().map_err(|e| e.to_string())?;
        let Ok(b) = serde_json::from_slice::<Vec<T>>(&o.stdout) else { fail!("a process making secrets ended with {:?}", o.status) };
        out.extend(b.into_iter().map(|x| (format!("process {}", k + 2), x)));
    }
    Ok(out)
}
/// No part of eight bytes of a fresh secret is anywhere in another: by chance that is below 2^-40 for all cases.
fn c33_secrets(c: &Fresh, cx: &mut Cx) -> R {
    let all = everywhere(c, "secrets", |c, _| secrets(c))?;
    if c.threads > 0 || c.children > 0 {
        cx.hit();
    }
    cx.class(format!("{} threads, {} processes", 1 + c.threads, 1 + c.children));
    let mut seen: std::collections::HashMap<[u8; 8], (String, usize)> = Default::default();
    for (k, (place, (kind, raw))) in all.iter().enumerate() {
        same!(raw.len(), [32, 16][*kind as usize], "size of a secret");
        for w in raw.windows(8) {
            if let Some((p, j)) = seen.insert(w.try_into().unwrap(), (place.clone(), k)) {
                fail!("secret {k} of {place} and secret {j} of {p} share eight bytes");
            }
        }
    }
    // no bit stands still
    for kind in [0, 1] {
        let v: Vec<&Vec<u8>> = all.iter().filter(|x| x.1 .0 == kind).map(|x| &x.1 .1).collect();
        if v.len() >= 64 {
            for i in 0..v[0].len() * 8 {
                let n = v.iter().filter(|r| r[i / 8] >> (i % 8) & 1 == 1).count();
                ensure!(n > 0 && n < v.len(), "bit {i} of {} secrets is the same", v.len());
            }
        }
    }
    Ok(())
}
/// A nonce used for two messages gives the key away: the first half of a signature tells nonces apart.
fn c33_nonces(c: &Fresh, cx: &mut Cx) -> R {
    let all = everywhere(c, "seals", seals)?;
    if c.threads > 0 || c.children > 0 {
        cx.hit();
    }
    let mut seen: std::collections::HashMap<(u8, Vec<u8>), String> = Default::default();
    for (place, (alg, key, m, sig)) in all {
        same!(sig.len(), 64, "size of a signature");
        let what = format!("signature of message {m:x} by key {key} in {place}");
        if let Some(other) = seen.insert((alg, sig[..32].to_vec()), what.clone()) {
            fail!("{what} has the nonce of the {other}");
        }
    }
    Ok(())
}
fn fresh() -> BoxedStrategy<Fresh> {
    (prop_oneof![vec(any::<u8>(), 1..10), any::<u8>().prop_map(|k| vec![k])], 2u8..14, prop_oneof![1 => Just(0u8), 2 => 1u8..4], prop_oneof![2 => Just(0u8), 2 => 1u8..4], prop_oneof![Just(0), any::<u64>()], any::<bool>())
        .prop_map(|(kinds, rounds, threads, children, between, transferable)| Fresh { kinds, rounds, threads, children, between, transferable })
        .boxed()
}
pub fn c33_subs() -> Vec<Sub> {
    vec![
        sub("c33_secrets", "2-130 secrets made without a seed (signers of 3 algorithms, random creators, salts, salted creators without a salt) in each of 1-4 threads and 1-4 processes at the same time, other operations between: none shares eight bytes with another, no bit stands still; non-trivial with more than one thread or process", 500, 8_000, fresh, c33_secrets),
        sub("c33_nonces", "the same for the nonces of signatures of the two randomised schemes over different messages, by keys that are the same everywhere", 500, 8_000, fresh, c33_nonces),
    ]
}
