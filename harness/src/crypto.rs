//! C12-C16: digests, signatures, key derivation.
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::typed::{fix_seed, view, DIGESTS};
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---- reference algorithms -----------------------------------------------------------------------

pub fn digest(code: &str, data: &[u8]) -> Vec<u8> {
    use blake2::{digest::consts::U32, Blake2b, Blake2b512, Blake2s256};
    use sha2::Digest;
    match code {
        "E" => blake3::hash(data).as_bytes().to_vec(),
        "F" => Blake2b::<U32>::digest(data).to_vec(),
        "G" => Blake2s256::digest(data).to_vec(),
        "H" => sha3::Sha3_256::digest(data).to_vec(),
        "I" => sha2::Sha256::digest(data).to_vec(),
        "0D" => {
            let mut out = vec![0; 64];
            let mut h = blake3::Hasher::new();
            h.update(data);
            h.finalize_xof().fill(&mut out);
            out
        }
        "0E" => Blake2b512::digest(data).to_vec(),
        "0F" => sha3::Sha3_512::digest(data).to_vec(),
        "0G" => sha2::Sha512::digest(data).to_vec(),
        _ => panic!("no digest {code}"),
    }
}
pub fn digest_text(code: &str, data: &[u8]) -> String {
    r::mat_build(code, &digest(code, data)).unwrap().text
}

pub const SEEDS: &[&str] = &["A", "J", "Q"];
/// Public key of a seed; none when the seed is not a private key of the algorithm.
pub fn public(code: &str, seed: &[u8]) -> Option<Vec<u8>> {
    match code {
        "A" => Some(ed25519_dalek::SigningKey::from_bytes(seed.try_into().ok()?).verifying_key().to_bytes().to_vec()),
        "J" => Some(k256::ecdsa::SigningKey::from_slice(seed).ok()?.verifying_key().to_encoded_point(true).as_bytes().to_vec()),
        "Q" => Some(p256::ecdsa::SigningKey::from_slice(seed).ok()?.verifying_key().to_encoded_point(true).as_bytes().to_vec()),
        _ => None,
    }
}
pub fn key_code(seed_code: &str, transferable: bool) -> &'static str {
    match (seed_code, transferable) {
        ("A", true) => "D",
        ("A", false) => "B",
        ("J", true) => "1AAB",
        ("J", false) => "1AAA",
        ("Q", true) => "1AAJ",
        _ => "1AAI",
    }
}
pub fn sig_verifies(seed_code: &str, key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    use ed25519_dalek::Verifier as _;
    match seed_code {
        "A" => {
            let (Ok(k), Ok(s)) = (key.try_into().map_err(|_| ()), ed25519_dalek::Signature::from_slice(sig)) else { return false };
            ed25519_dalek::VerifyingKey::from_bytes(k).is_ok_and(|k| k.verify_strict(msg, &s).is_ok())
        }
        "J" => {
            let (Ok(k), Ok(s)) = (k256::ecdsa::VerifyingKey::from_sec1_bytes(key), k256::ecdsa::Signature::from_slice(sig)) else { return false };
            k.verify(msg, &s).is_ok()
        }
        _ => {
            let (Ok(k), Ok(s)) = (p256::ecdsa::VerifyingKey::from_sec1_bytes(key), p256::ecdsa::Signature::from_slice(sig)) else { return false };
            k.verify(msg, &s).is_ok()
        }
    }
}
/// Argon2id v1.3 with the documented cost of a tier.
pub fn stretch(salt: &[u8], path: &str, size: usize, tier: &str) -> Option<Vec<u8>> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65_536, 2),
        "med" => (262_144, 3),
        "high" => (1_048_576, 4),
        _ => return None,
    };
    let p = argon2::Params::new(m, t, 1, Some(size)).ok()?;
    let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, p);
    let mut out = vec![0; size];
    a.hash_password_into(path.as_bytes(), salt, &mut out).ok()?;
    Some(out)
}

// ---- C12 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Dig {
    code: String,
    data: Hex,
    edits: Vec<Edit>,
    bit: u16,
    other: String,
}
fn c12(c: &Dig, cx: &mut Cx) -> R {
    let data = &c.data.0;
    let mut changed = data.clone();
    apply(&c.edits, &mut changed);
    cx.hit();
    cx.class(format!("code {}", c.code));
    let want = digest(&c.code, data);
    let text = r::mat_build(&c.code, &want).unwrap().text;
    let bin = r::text_to_bin(&text);
    let d = must(Diger::new_with_ser(data, Some(&c.code)), "digest")?;
    same!(Hex(d.raw()), Hex(want.clone()), "digest under {}", c.code);
    same!(d.code(), c.code, "code");
    same!(must(d.qb64(), "qb64")?, text, "qualified digest");
    if c.code == "E" {
        same!(must(Diger::new_with_ser(data, None), "default digest")?, d, "default digest");
    }
    let forms = [
        ("data", d.clone()),
        ("raw", must(Diger::new_with_raw(&want, Some(&c.code)), "raw")?),
        ("text", must(Diger::new_with_qb64(&text), "text")?),
        ("text bytes", must(Diger::new_with_qb64b(text.as_bytes()), "text bytes")?),
        ("binary", must(Diger::new_with_qb2(&bin), "binary")?),
    ];
    for (what, d) in &forms {
        same!(must(d.verify(data), what)?, true, "digest from {what}: verification of its data");
        same!(must(d.verify(&changed), what)?, changed == *data, "digest from {what}: verification of other data");
    }
    // an altered digest
    let mut bad = want.clone();
    let b = c.bit as usize % (bad.len() * 8);
    bad[b / 8] ^= 0x80 >> (b % 8);
    let altered = must(Diger::new_with_raw(&bad, Some(&c.code)), "altered")?;
    same!(must(altered.verify(data), "altered")?, false, "verification of an altered digest");

    // comparison: the other one is a digest of the data, of other data, or altered
    let same_code = c.code == c.other;
    let od = must(Diger::new_with_ser(data, Some(&c.other)), "other")?;
    let oc = must(Diger::new_with_ser(&changed, Some(&c.other)), "other")?;
    let mut bad = od.raw();
    let b = c.bit as usize % (bad.len() * 8);
    bad[b / 8] ^= 0x80 >> (b % 8);
    let oa = must(Diger::new_with_raw(&bad, Some(&c.other)), "other")?;
    let is_same = changed == *data;
    for (what, me, other, ser, want) in [
        ("both over the data", &d, &od, data, true),
        ("other over other data", &d, &oc, data, is_same),
        ("own over other data", &oc, &d, data, is_same),
        ("other altered", &d, &oa, data, false),
        ("own altered", &oa, &d, data, false),
        ("own altered, same code", &altered, &d, data, false),
        // two algorithms, checked against data neither digests
        ("neither over the data", &d, &od, &changed, is_same || same_code),
    ] {
        let q = must(other.qb64b(), "qb64b")?;
        same!(must(me.compare(ser, None, Some(other)), what)?, want, "comparison, {what}");
        same!(must(me.compare(ser, Some(&q), None), what)?, want, "comparison by text, {what}");
    }
    ensure!(d.compare(data, None, None).is_err(), "comparison with nothing accepted");
    Ok(())
}
pub fn c12_subs() -> Vec<Sub> {
    vec![sub(
        "c12_digests",
        "9 algorithms x data of all lengths around block boundaries x edits of the data x flipped digest bits x a second algorithm; every case is non-trivial",
        40_000,
        1_000_000,
        || {
            (proptest::sample::select(DIGESTS), ser_bytes(), vec(edit(), 1..3), any::<u16>(), proptest::sample::select(DIGESTS))
                .prop_map(|(c, data, edits, bit, o)| Dig { code: c.into(), data, edits, bit, other: o.into() })
                .boxed()
        },
        c12,
    )]
}

// ---- C13 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sig {
    code: String,
    seed: Fill,
    other_code: String,
    other_seed: Fill,
    transferable: bool,
    msg: Hex,
    edits: Vec<Edit>,
    only: bool,
    index: u32,
    ondex: Option<u32>,
    bit: u16,
    key_bit: u16,
    cut: u8,
}
fn seed_of(code: &str, f: &Fill) -> Vec<u8> {
    let mut raw = f.make(32);
    fix_seed(code, &mut raw);
    raw
}
fn genuine(v: &Verfer, sig: &[u8], msg: &[u8]) -> bool {
    matches!(v.verify(sig, msg), Ok(true))
}
fn flip(v: &[u8], bit: u16) -> Vec<u8> {
    let mut v = v.to_vec();
    let b = bit as usize % (v.len() * 8);
    v[b / 8] ^= 0x80 >> (b % 8);
    v
}
fn indexed_code(seed: &str, only: bool, index: u32, ondex: u32) -> &'static str {
    let small = index < 64 && (only || ondex == index);
    match (seed, only, small) {
        ("A", false, true) => "A",
        ("A", true, true) => "B",
        ("A", false, false) => "2A",
        ("A", true, false) => "2B",
        ("J", false, true) => "C",
        ("J", true, true) => "D",
        ("J", false, false) => "2C",
        ("J", true, false) => "2D",
        ("Q", false, true) => "E",
        ("Q", true, true) => "F",
        ("Q", false, false) => "2E",
        _ => "2F",
    }
}
fn c13(c: &Sig, cx: &mut Cx) -> R {
    let seed = seed_of(&c.code, &c.seed);
    let other = seed_of(&c.other_code, &c.other_seed);
    let Some(key) = public(&c.code, &seed) else { return Ok(()) };
    let msg = &c.msg.0;
    let mut changed = msg.clone();
    apply(&c.edits, &mut changed);
    cx.hit();
    cx.class(format!("{} {}", c.code, if c.only { "only" } else { "dual" }));
    let signer = must(Signer::new_with_raw(&seed, Some(c.transferable), Some(&c.code)), "signer")?;
    let verfer = signer.verfer();
    same!(verfer.code(), key_code(&c.code, c.transferable), "key code");
    same!(Hex(verfer.raw()), Hex(key.clone()), "key");

    // unindexed
    let cigar = must(signer.sign_unindexed(msg), "signing")?;
    let want = match c.code.as_str() {
        "A" => "0B",
        "J" => "0C",
        _ => "0I",
    };
    same!(cigar.code(), want, "signature code");
    same!(cigar.verfer(), verfer, "key attached to the signature");
    let mut sigs = vec![("unindexed", cigar.raw())];
    // read back
    let q = must(cigar.qb64(), "signature text")?;
    let back = must(Cigar::new_with_qb64(&q, Some(&verfer)), "signature text")?;
    same!(back, cigar, "signature read back");

    // indexed
    let ondex = c.ondex.unwrap_or(c.index);
    let code = indexed_code(&c.code, c.only, c.index, ondex);
    let fits = r::idx_build(code, &[0; 64], c.index, if c.only { None } else { Some(ondex) }).is_some();
    match (signer.sign_indexed(msg, c.only, c.index, c.ondex), fits) {
        (Err(_), false) => {}
        (Ok(s), false) => fail!("indexed signature with index {} ondex {ondex} accepted as {}", c.index, short(&s)),
        (Err(e), true) => fail!("indexed signature refused: {e}"),
        (Ok(s), true) => {
            cx.class("indexed");
            same!(s.code(), code, "indexed signature code (index {}, ondex {:?}, only {})", c.index, c.ondex, c.only);
            same!(s.index(), c.index, "index");
            same!(s.ondex(), if c.only { 0 } else { ondex }, "other index");
            same!(s.verfer(), verfer, "key attached to the indexed signature");
            let want = r::idx_build(code, &s.raw(), c.index, if c.only { None } else { Some(ondex) }).ok_or("reference encoding")?;
            let q = must(s.qb64(), "indexed signature text")?;
            same!(q, want.text, "indexed signature text");
            let back = must(Siger::new_with_qb64(&q, Some(&verfer)), "indexed signature text")?;
            same!(back, s, "indexed signature read back");
            sigs.push(("indexed", s.raw()));
        }
    }

    let foreign = match public(&c.other_code, &other) {
        Some(k) => Some(must(Verfer::new_with_raw(&k, Some(key_code(&c.other_code, c.transferable))), "other key")?),
        None => None,
    };
    let twin = must(Verfer::new_with_raw(&key, Some(key_code(&c.code, !c.transferable))), "twin key")?;
    for (what, sig) in &sigs {
        same!(sig.len(), 64, "{what}: signature size");
        same!(must(verfer.verify(sig, msg), what)?, true, "{what}: verification");
        same!(must(twin.verify(sig, msg), what)?, true, "{what}: verification under the key of the other transferability");
        ensure!(sig_verifies(&c.code, &key, sig, msg), "{what}: the signature is not one of the algorithm");
        if changed != *msg {
            same!(must(verfer.verify(sig, &changed), what)?, false, "{what}: verification of a changed message");
        }
        ensure!(!genuine(&verfer, &flip(sig, c.bit), msg), "{what}: changed signature verifies");
        ensure!(!genuine(&verfer, &sig[..64 - 1 - c.cut as usize % 64], msg), "{what}: truncated signature verifies");
        let mut long = sig.clone();
        long.push(c.cut);
        ensure!(!genuine(&verfer, &long, msg), "{what}: extended signature verifies");
        if let Some(f) = &foreign {
            if f.raw() != key {
                ensure!(!genuine(f, sig, msg), "{what}: verifies under another key ({})", f.code());
            }
        }
        if let Ok(k) = Verfer::new_with_raw(&flip(&key, c.key_bit), Some(&verfer.code())) {
            // the leading byte of a compressed point tells the sign; anything else is another point
            ensure!(!genuine(&k, sig, msg), "{what}: verifies under a changed key");
        }
        // the same bytes as key of another algorithm
        for (kc, len) in [("D", 32), ("1AAB", 33), ("1AAJ", 33)] {
            if kc != key_code(&c.code, true) && key.len() == len {
                if let Ok(k) = Verfer::new_with_raw(&key, Some(kc)) {
                    ensure!(!genuine(&k, sig, msg), "{what}: verifies under algorithm {kc}");
                }
            }
        }
    }
    if c.code == "A" {
        use ed25519_dalek::Signer as _;
        let want = ed25519_dalek::SigningKey::from_bytes(seed.as_slice().try_into().unwrap()).sign(msg).to_bytes().to_vec();
        for (what, sig) in &sigs {
            same!(Hex(sig.clone()), Hex(want.clone()), "{what}: Ed25519 signature");
            // the same signature with the scalar out of range
            let mut s2 = sig.clone();
            const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
            let mut carry = 0u16;
            for i in 0..32 {
                let t = s2[32 + i] as u16 + L[i] as u16 + carry;
                s2[32 + i] = t as u8;
                carry = t >> 8;
            }
            ensure!(!genuine(&verfer, &s2, msg), "{what}: signature with a scalar out of range verifies");
        }
    }
    Ok(())
}
/// Which indexed code a signature gets, for pairs of indices.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pair {
    alg: u8,
    transferable: bool,
    only: bool,
    index: u32,
    ondex: Option<u32>,
}
fn c13_pair(c: &Pair, cx: &mut Cx) -> R {
    let code = SEEDS[c.alg as usize % SEEDS.len()];
    thread_local! {
        static SIGNERS: std::cell::RefCell<std::collections::HashMap<(String, bool), Signer>> = Default::default();
    }
    let ondex = c.ondex.unwrap_or(c.index);
    let want = indexed_code(code, c.only, c.index, ondex);
    let fits = r::idx_build(want, &[0; 64], c.index, if c.only { None } else { Some(ondex) });
    let got = SIGNERS.with(|m| -> Result<_, String> {
        let mut m = m.borrow_mut();
        let s = match m.entry((code.into(), c.transferable)) {
            std::collections::hash_map::Entry::Occupied(e) => e.into_mut(),
            std::collections::hash_map::Entry::Vacant(e) => e.insert(must(Signer::new_with_raw(&[7; 32], Some(c.transferable), Some(code)), "signer")?),
        };
        Ok(s.sign_indexed(b"abc", c.only, c.index, c.ondex))
    })?;
    let what = format!("{code}, only {}, index {}, other index {:?}", c.only, c.index, c.ondex);
    if fits.is_none() {
        cx.class("refused");
        return refuse(got, &what);
    }
    cx.hit();
    let s = must(got, &what)?;
    cx.class(format!("code {want}"));
    same!((s.code(), s.index(), s.ondex()), (want.to_string(), c.index, if c.only { 0 } else { ondex }), "{what}");
    let t = r::idx_build(want, &s.raw(), c.index, if c.only { None } else { Some(ondex) }).ok_or("reference encoding")?.text;
    same!(must(s.qb64(), &what)?, t, "{what}: text");
    same!(must(s.verfer().verify(&s.raw(), b"abc"), &what)?, true, "{what}: verification");
    Ok(())
}
pub fn c13_subs() -> Vec<Sub> {
    vec![
        sub("c13_pairs", "3 algorithms x transferability x form x pairs of indices: all below 70, boundaries of 6, 12 and 32 bits, any; non-trivial when the pair is admitted", 40_000, 800_000, || {
            let edge = || proptest::sample::select(vec![0u32, 1, 2, 61, 62, 63, 64, 65, 66, 127, 128, 255, 256, 4094, 4095, 4096, 4097, 4158, 4159, 4160, 8191, 262_143, 262_144, 16_777_215, 16_777_216, u32::MAX - 1, u32::MAX]);
            let d = || dict::u32s(0, u32::MAX);
            let pair = prop_oneof![4 => (edge(), edge()), 2 => (d(), edge()), 2 => (edge(), d()), 2 => d().prop_map(|d| (d, d)), 4 => (0u32..70, 0u32..70), 2 => (0u32..4200, 0u32..4200), 1 => any::<(u32, u32)>()];
            (0u8..3, any::<bool>(), any::<bool>(), pair, 0u8..8).prop_map(|(alg, transferable, only, (index, o), k)| Pair { alg, transferable, only, index, ondex: match k { 0 => None, 1 => Some(index), _ => Some(o) } }).boxed()
        }, c13_pair),
        sub(
        "c13_signatures",
        "3 algorithms x seeds x transferability x messages x index pairs (boundaries of 6 and 12 bits) x changed messages, signature and key bits, lengths, other keys and algorithms; non-trivial when the seed is a private key",
        8_000,
        200_000,
        || {
            let idx = prop_oneof![4 => 0u32..70, 2 => proptest::sample::select(vec![0u32, 62, 63, 64, 65, 127, 128, 4094, 4095, 4096, 262_143, 262_144, u32::MAX]), 2 => 0u32..4096, 1 => any::<u32>(), 1 => dict::u32s(0, u32::MAX)].boxed();
            let od = prop_oneof![2 => Just(None), 3 => idx.clone().prop_map(Some)];
            let head = (proptest::sample::select(SEEDS), fill(), proptest::sample::select(SEEDS), fill(), any::<bool>());
            (head, ser_bytes(), vec(edit(), 1..3), any::<bool>(), idx, od, any::<bool>(), any::<[u16; 2]>(), any::<u8>())
                .prop_map(|((code, seed, oc, os, transferable), msg, edits, only, index, ondex, eq, [bit, key_bit], cut)| Sig {
                    code: code.into(),
                    seed,
                    other_code: oc.into(),
                    other_seed: os,
                    transferable,
                    msg,
                    edits,
                    only,
                    index,
                    ondex: if eq { Some(index) } else { ondex },
                    bit,
                    key_bit,
                    cut,
                })
                .boxed()
        },
        c13,
    ),
    ]
}

// ---- C14 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Keyed {
    code: String,
    seed: Fill,
    transferable: Option<bool>,
    msg: Hex,
    tail: Hex,
}
fn c14(c: &Keyed, cx: &mut Cx) -> R {
    let seed = c.seed.make(32);
    let t = c.transferable.unwrap_or(true);
    let Some(key) = public(&c.code, &seed) else {
        cx.class("not a private key");
        return refuse(Signer::new_with_raw(&seed, c.transferable, Some(&c.code)), "seed that is no private key");
    };
    cx.hit();
    cx.class(format!("{} {t}", c.code));
    let want = r::mat_build(&c.code, &seed).unwrap();
    let kt = r::mat_build(key_code(&c.code, t), &key).unwrap();
    let s = must(Signer::new_with_raw(&seed, c.transferable, Some(&c.code)), "signer")?;
    let (qb64, qb64b, qb2) = (must(s.qb64(), "text")?, must(s.qb64b(), "text bytes")?, must(s.qb2(), "binary")?);
    same!(qb64, want.text, "exported text");
    let mut tb = qb64b.clone();
    tb.extend_from_slice(&c.tail.0);
    let mut b2 = qb2.clone();
    b2.extend_from_slice(&c.tail.0);
    let mut sg = None;
    for (what, m) in [
        ("raw", Ok(s.clone())),
        ("raw again", Signer::new_with_raw(&s.raw(), c.transferable, Some(&s.code()))),
        ("text", Signer::new_with_qb64(&qb64, c.transferable)),
        ("text bytes", Signer::new_with_qb64b(&tb, c.transferable)),
        ("binary", Signer::new_with_qb2(&b2, c.transferable)),
        ("text, with a code given", Signer::new(c.transferable, Some(&c.code), None, None, Some(&qb64), None)),
    ] {
        let m = must(m, what)?;
        let v = m.verfer();
        same!(Hex(m.raw()), Hex(seed.clone()), "{what}: seed");
        same!(m.code(), c.code, "{what}: code");
        same!(must(v.qb64(), what)?, kt.text, "{what}: verification key");
        same!(v.transferable(), t, "{what}: transferability of the key");
        same!(must(m.qb64(), what)?, want.text, "{what}: text");
        same!(Hex(must(m.qb2(), what)?), Hex(r::text_to_bin(&want.text)), "{what}: binary");
        view(&v)?;
        let sig = sg.get_or_insert(must(m.sign_unindexed(&c.msg.0), what)?.raw());
        same!(must(v.verify(sig, &c.msg.0), what)?, true, "{what}: key verifies a signature of the original");
        same!(m, s, "{what}: signer");
    }
    // another algorithm's code over the same text is refused or kept, never mixed up
    for other in SEEDS {
        if let Ok(m) = Signer::new(c.transferable, Some(other), None, None, Some(&qb64), None) {
            same!(m.code(), c.code, "code of the text wins");
            same!(must(m.verfer().qb64(), "key")?, kt.text, "key of the text's code");
        }
    }
    Ok(())
}
/// Signers, salts, creators made without a seed.
fn c14_random(c: &(String, bool, u8), cx: &mut Cx) -> R {
    let (code, t, form) = c;
    cx.hit();
    let n = 64;
    let mut seen = std::collections::HashSet::new();
    let mut raws = vec![];
    for i in 0..n {
        let s = must(
            match form % 2 {
                0 => Signer::new_with_defaults(Some(*t), Some(code)),
                _ => Signer::new(Some(*t), Some(code), None, None, None, None),
            },
            "signer without a seed",
        )?;
        same!(s.code(), *code, "code");
        same!(s.raw().len(), 32, "seed size");
        let key = public(code, &s.raw()).ok_or("generated seed is no private key")?;
        same!(s.verfer().code(), key_code(code, *t), "key code");
        same!(Hex(s.verfer().raw()), Hex(key), "key");
        ensure!(seen.insert(s.raw()), "two signers have the same seed");
        if i < 2 {
            let msg = i.to_string();
            let g = must(s.sign_unindexed(msg.as_bytes()), "signing")?;
            same!(must(s.verfer().verify(&g.raw(), msg.as_bytes()), "verify")?, true, "verification");
        }
        raws.push(s.raw());
    }
    spread(&raws)
}
/// Every byte position takes many values: of 64 uniform bytes about 57 differ, and fewer than 28 has no chance.
fn spread(raws: &[Vec<u8>]) -> R {
    for i in 0..raws[0].len() {
        let d: std::collections::HashSet<u8> = raws.iter().map(|r| r[i]).collect();
        ensure!(d.len() >= 28, "byte {i} of {} random values takes only {} values", raws.len(), d.len());
    }
    Ok(())
}
pub fn c14_subs() -> Vec<Sub> {
    vec![
        sub("c14_seeds", "3 algorithms x seeds (random, extreme, no private key) x transferability, through every import form with trailing bytes; non-trivial when the seed is a private key", 12_000, 300_000, || {
            let seed = prop_oneof![8 => fill(), 1 => Just(Fill::All(0)), 1 => Just(Fill::All(255)), 1 => (0u16..256).prop_map(Fill::OneBit)];
            (proptest::sample::select(SEEDS), seed, any::<Option<bool>>(), ser_bytes(), trailing())
                .prop_map(|(c, seed, transferable, msg, tail)| Keyed { code: c.into(), seed, transferable, msg, tail })
                .boxed()
        }, c14),
        sub("c14_random", "batches of 64 signers made without a seed; every case is non-trivial", 60, 1000, || {
            (proptest::sample::select(SEEDS).prop_map(String::from), any::<bool>(), any::<u8>()).boxed()
        }, c14_random),
    ]
}

// ---- C15 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Stretch {
    salt: Fill,
    /// tier of the salter
    own: Option<String>,
    /// tier asked for
    tier: Option<String>,
    temp: Option<bool>,
    size: Option<usize>,
    path: Option<String>,
    form: u8,
}
fn salter(form: u8, raw: &[u8], tier: Option<&str>) -> Result<Salter, String> {
    let t = r::mat_build("0A", raw).unwrap().text;
    let b = r::text_to_bin(&t);
    must(
        match form % 5 {
            0 => Salter::new_with_raw(raw, Some("0A"), tier),
            1 => Salter::new_with_raw(raw, None, tier),
            2 => Salter::new_with_qb64(&t, tier),
            3 => Salter::new_with_qb64b(t.as_bytes(), tier),
            _ => Salter::new_with_qb2(&b, tier),
        },
        "salt",
    )
}
fn tier_of<'a>(own: Option<&'a str>, tier: Option<&'a str>, temp: Option<bool>) -> &'a str {
    if temp == Some(true) {
        "min"
    } else {
        tier.or(own).unwrap_or("low")
    }
}
fn c15_stretch(c: &Stretch, cx: &mut Cx) -> R {
    let raw = c.salt.make(16);
    let s = salter(c.form, &raw, c.own.as_deref())?;
    same!(s.tier(), c.own.as_deref().unwrap_or("low"), "tier of the salt");
    let tier = tier_of(c.own.as_deref(), c.tier.as_deref(), c.temp);
    let (path, size) = (c.path.as_deref().unwrap_or(""), c.size.unwrap_or(32));
    let got = s.stretch(c.size, c.path.as_deref(), c.tier.as_deref(), c.temp);
    match stretch(&raw, path, size, tier) {
        None => refuse(got, "size or tier that has no derivation"),
        Some(want) => {
            cx.hit();
            cx.class(format!("tier {tier}"));
            same!(Hex(must(got, "stretching")?), Hex(want), "seed of size {size} at tier {tier}");
            Ok(())
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Derive {
    salt: Fill,
    own: Option<String>,
    tier: Option<String>,
    temp: Option<bool>,
    code: Option<String>,
    transferable: Option<bool>,
    path: Option<String>,
    count: Option<usize>,
    start: Option<usize>,
    form: u8,
}
pub fn check_signer(s: &Signer, code: &str, transferable: bool, seed: &[u8], what: &str) -> R {
    let Some(key) = public(code, seed) else { return Ok(()) };
    same!(s.code(), code, "{what}: code");
    same!(Hex(s.raw()), Hex(seed.to_vec()), "{what}: seed");
    same!(s.verfer().code(), key_code(code, transferable), "{what}: key code");
    same!(Hex(s.verfer().raw()), Hex(key), "{what}: key");
    Ok(())
}
fn c15_signers(c: &Derive, cx: &mut Cx) -> R {
    cx.hit();
    let raw = c.salt.make(16);
    let tier = tier_of(c.own.as_deref(), c.tier.as_deref(), c.temp);
    cx.class(format!("tier {tier}"));
    let (path, code, t) = (c.path.as_deref().unwrap_or(""), c.code.as_deref().unwrap_or("A"), c.transferable.unwrap_or(true));
    let s = salter(c.form, &raw, c.own.as_deref())?;
    let g = must(s.signer(c.code.as_deref(), c.transferable, c.path.as_deref(), c.tier.as_deref(), c.temp), "signer")?;
    check_signer(&g, code, t, &stretch(&raw, path, 32, tier).ok_or("reference")?, "signer")?;
    let (n, start) = (c.count.unwrap_or(1), c.start.unwrap_or(0));
    let many = must(s.signers(c.count, c.start, c.path.as_deref(), c.code.as_deref(), c.transferable, c.tier.as_deref(), c.temp), "signers")?;
    same!(many.len(), n, "number of signers");
    for (i, g) in many.iter().enumerate() {
        let p = format!("{path}{:x}", start + i);
        check_signer(g, code, t, &stretch(&raw, &p, 32, tier).ok_or("reference")?, "signers")?;
    }
    let again = must(salter(c.form.wrapping_add(1), &raw, c.own.as_deref())?.signers(c.count, c.start, c.path.as_deref(), c.code.as_deref(), c.transferable, c.tier.as_deref(), c.temp), "signers")?;
    same!(again, many, "signers derived again");
    Ok(())
}
fn c15_export(c: &(Fill, Option<String>, Hex), cx: &mut Cx) -> R {
    let (f, tier, tail) = c;
    cx.hit();
    let raw = f.make(16);
    let want = r::mat_build("0A", &raw).unwrap().text;
    let s = salter(0, &raw, tier.as_deref())?;
    let mut tb = must(s.qb64b(), "export")?;
    tb.extend_from_slice(&tail.0);
    let mut b2 = must(s.qb2(), "export")?;
    b2.extend_from_slice(&tail.0);
    for (what, m) in [
        ("text", Salter::new_with_qb64(&must(s.qb64(), "export")?, tier.as_deref())),
        ("text bytes", Salter::new_with_qb64b(&tb, tier.as_deref())),
        ("binary", Salter::new_with_qb2(&b2, tier.as_deref())),
        ("raw", Salter::new_with_raw(&s.raw(), None, tier.as_deref())),
    ] {
        let m = must(m, what)?;
        same!(must(m.qb64(), what)?, want, "salt from {what}");
        same!(Hex(must(m.qb2(), what)?), Hex(r::text_to_bin(&want)), "salt from {what}, binary");
        same!(Hex(m.raw()), Hex(raw.clone()), "salt from {what}, raw");
        same!(m.tier(), tier.as_deref().unwrap_or("low"), "salt from {what}, tier");
        same!(m, s, "salt from {what}");
    }
    Ok(())
}
fn c15_random(c: &bool, cx: &mut Cx) -> R {
    cx.hit();
    let mut seen = std::collections::HashSet::new();
    let mut raws = vec![];
    for _ in 0..64 {
        let s = must(if *c { Salter::new_with_defaults(None) } else { Salter::new(None, None, None, None, None, None) }, "salt")?;
        same!(s.raw().len(), 16, "salt size");
        ensure!(seen.insert(s.raw()), "two salts are the same");
        raws.push(s.raw());
    }
    spread(&raws)
}
fn path() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        1 => Just(None),
        1 => Just(Some(String::new())),
        3 => "[0-9a-f]{1,6}".prop_map(Some),
        2 => "[a-z:]{1,20}".prop_map(Some),
        1 => "\\PC{1,20}".prop_map(Some),
        1 => "[A-Za-z0-9]{60,140}".prop_map(Some),
        1 => dict::strs().prop_map(Some),
        1 => (prop_oneof![4 => dict::lens(300), 1 => dict::lens(70_000)], any::<u64>()).prop_map(|(n, s)| Some(Fill::Random(s).make(n).iter().map(|b| r::ALPHABET[(b >> 2) as usize] as char).collect())),
    ]
    .boxed()
}
fn stretch_case(dear: bool) -> BoxedStrategy<Stretch> {
    let own = prop_oneof![1 => Just(None), 1 => Just(Some("min")), 1 => Just(Some("low")), 1 => Just(Some("med")), 1 => Just(Some("high")), 1 => Just(Some("odd"))];
    let ask = if dear {
        prop_oneof![1 => Just((None, None)), 3 => Just((Some("low"), Some(false))), 3 => Just((Some("med"), None)), 2 => Just((Some("high"), None))].boxed()
    } else {
        let tier = proptest::sample::select(vec![None, Some("min"), Some("low"), Some("med"), Some("high"), Some("none"), Some("")]);
        prop_oneof![4 => tier.prop_map(|t| (t, Some(true))), 3 => Just((Some("min"), None)), 3 => Just((Some("min"), Some(false))), 1 => Just((Some("odd"), None)), 1 => Just((Some("LOW"), Some(false)))].boxed()
    };
    let size = prop_oneof![2 => Just(None), 2 => Just(Some(32)), 1 => Just(Some(16)), 1 => Just(Some(64)), 2 => (0usize..200).prop_map(Some), 1 => dict::usizes(1, 300).prop_map(Some)];
    (fill(), own, ask, size, path(), any::<u8>())
        .prop_map(move |(salt, own, (tier, temp), size, path, form)| Stretch {
            salt,
            own: own.map(String::from),
            tier: tier.map(String::from),
            temp,
            size,
            path,
            form,
        })
        .boxed()
}
pub fn c15_subs() -> Vec<Sub> {
    vec![
        // the dear ones first, so that they overlap with the rest
        sub("c15_tiers", "salts x paths x sizes at the documented tiers of low, medium and high cost; non-trivial when the tier and size have a derivation", 24, 400, || stretch_case(true), c15_stretch),
        sub("c15_stretch", "salts x paths (none, empty, hexadecimal, unicode, long) x sizes 0..200 x own and requested tiers x temporary, at the minimum cost; non-trivial when the tier and size have a derivation", 30_000, 600_000, || stretch_case(false), c15_stretch),
        sub("c15_signers", "salts x codes x transferability x paths x counts x starts, at the minimum cost asked for or owned; every case is non-trivial", 6_000, 100_000, || {
            let o = |v: Vec<Option<&'static str>>| proptest::sample::select(v).prop_map(|x| x.map(String::from));
            let ask = prop_oneof![
                3 => (o(vec![None, Some("low"), Some("high"), Some("min")]), o(vec![None, Some("min"), Some("low"), Some("high")])).prop_map(|(own, t)| (own, t, Some(true))),
                2 => o(vec![None, Some("low"), Some("high")]).prop_map(|own| (own, Some("min".to_string()), None)),
                2 => any::<Option<bool>>().prop_map(|t| (Some("min".to_string()), None, t)),
            ];
            let start = prop_oneof![2 => Just(None), 2 => (0usize..20).prop_map(Some), 1 => (0usize..100_000).prop_map(Some), 1 => Just(Some(255)), 1 => dict::usizes(0, 1 << 32).prop_map(Some)];
            (fill(), ask, o(vec![None, Some("A"), Some("J"), Some("Q")]), any::<Option<bool>>(), path(), proptest::option::of(0usize..6), start, any::<u8>())
                .prop_map(|(salt, (own, tier, temp), code, transferable, path, count, start, form)| Derive { salt, own, tier, temp, code, transferable, path, count, start, form })
                .boxed()
        }, c15_signers),
        sub("c15_export", "salts x tiers through every import form with trailing bytes; every case is non-trivial", 20_000, 300_000, || {
            (fill(), proptest::sample::select(vec![None, Some("min"), Some("low"), Some("med"), Some("high")]).prop_map(|x| x.map(String::from)), trailing()).boxed()
        }, c15_export),
        sub("c15_random", "batches of 64 generated salts; every case is non-trivial", 400, 4000, || any::<bool>().boxed(), c15_random),
    ]
}

// ---- C16 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Create {
    salt: Fill,
    /// the salt is given as text, as a salter, or both (the text then being another salt)
    given: u8,
    own_stem: Option<String>,
    tier: Option<String>,
    salter_tier: Option<String>,
    codes: Option<Vec<String>>,
    count: Option<u16>,
    code: Option<String>,
    pidx: Option<u16>,
    ridx: Option<u16>,
    kidx: Option<u16>,
    stem: Option<String>,
    transferable: Option<bool>,
    temp: bool,
}
fn creator(c: &Create, raw: &[u8]) -> Result<(SaltyCreator, String), String> {
    let text = r::mat_build("0A", raw).unwrap().text;
    let other = r::mat_build("0A", &[7; 16]).unwrap().text;
    let (salt, salter) = match c.given % 3 {
        0 => (Some(text.as_str()), None),
        1 => (None, Some(must(Salter::new_with_raw(raw, None, c.salter_tier.as_deref()), "salter")?)),
        _ => (Some(other.as_str()), Some(must(Salter::new_with_raw(raw, None, c.salter_tier.as_deref()), "salter")?)),
    };
    let tier = if salter.is_some() { c.salter_tier.as_deref() } else { c.tier.as_deref() }.unwrap_or("low").to_string();
    Ok((must(SaltyCreator::new(salt, c.own_stem.as_deref(), c.tier.as_deref(), salter), "creator")?, tier))
}
fn c16(c: &Create, cx: &mut Cx) -> R {
    let raw = c.salt.make(16);
    let (sc, own) = creator(c, &raw)?;
    let tier = if c.temp { "min" } else { own.as_str() };
    if tier != "min" {
        return Ok(()); // left to the dear sub-check
    }
    c16_at(c, cx, &sc, &raw, tier)
}
fn c16_dear(c: &Create, cx: &mut Cx) -> R {
    let raw = c.salt.make(16);
    let (sc, own) = creator(c, &raw)?;
    let tier = if c.temp { "min" } else { own.as_str() };
    c16_at(c, cx, &sc, &raw, tier)
}
fn c16_at(c: &Create, cx: &mut Cx, sc: &SaltyCreator, raw: &[u8], tier: &str) -> R {
    cx.hit();
    cx.class(format!("tier {tier}"));
    let make = |sc: &SaltyCreator| {
        let codes: Option<Vec<&str>> = c.codes.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
        sc.create(codes, c.count, c.code.as_deref(), c.pidx, c.ridx, c.kidx, c.stem.as_deref(), c.transferable, c.temp)
    };
    let got = make(sc);
    let code = c.code.clone().unwrap_or("A".into());
    let want: Vec<String> = match &c.codes {
        Some(v) if !v.is_empty() => v.clone(),
        _ => vec![code; c.count.unwrap_or(1) as usize],
    };
    same!(got.len(), want.len(), "number of keys");
    let stem = match c.own_stem.as_deref() {
        Some(s) if !s.is_empty() => s.to_string(),
        _ => c.stem.clone().unwrap_or(format!("{:x}", c.pidx.unwrap_or(0))),
    };
    for (i, (g, code)) in got.iter().zip(&want).enumerate() {
        let p = format!("{stem}{:x}{:x}", c.ridx.unwrap_or(0), c.kidx.unwrap_or(0) as usize + i);
        let seed = stretch(raw, &p, 32, tier).ok_or("reference")?;
        check_signer(g, code, c.transferable.unwrap_or(true), &seed, &format!("key {i} (path {p})"))?;
    }
    let mut seen = std::collections::HashMap::new();
    for (i, g) in got.iter().enumerate() {
        if let Some(j) = seen.insert(g.raw(), i) {
            fail!("keys {j} and {i} have the same seed");
        }
    }
    if tier == "min" {
        let (again, _) = creator(c, raw)?;
        same!(make(&again), got, "equal request");
        same!(make(sc), got, "equal request to the same creator");
    }
    Ok(())
}
fn c16_salts(c: &String, cx: &mut Cx) -> R {
    // text that is no salt is refused; a creator without one makes its own
    let ok = r::mat_read(c.as_bytes()).is_some_and(|m| m.code == "0A");
    if ok {
        must(SaltyCreator::new(Some(c), None, None, None), "salt")?;
        return Ok(());
    }
    cx.hit();
    ensure!(SaltyCreator::new(Some(c), None, None, None).is_err(), "text that is no salt accepted by a creator");
    Ok(())
}
fn c16_fresh(c: &u8, cx: &mut Cx) -> R {
    cx.hit();
    let mk = || -> Result<Vec<Vec<u8>>, String> {
        let sc = must(SaltyCreator::new(None, None, None, None), "creator")?;
        Ok(sc.create(None, Some(1 + *c as u16 % 3), None, None, None, None, None, None, true).iter().map(|s| s.raw()).collect())
    };
    let (a, b) = (mk()?, mk()?);
    ensure!(a.iter().all(|x| !b.contains(x)), "creators without a salt share keys");
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Randy {
    codes: Option<Vec<String>>,
    count: Option<u16>,
    code: Option<String>,
    transferable: Option<bool>,
}
fn c16_randy(c: &Randy, cx: &mut Cx) -> R {
    cx.hit();
    let codes: Option<Vec<&str>> = c.codes.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let make = || keride::signify::creating::verif_randy_create(codes.clone(), c.count, c.code.as_deref(), c.transferable);
    let (a, b) = (make(), make());
    let want: Vec<String> = match &c.codes {
        Some(v) if !v.is_empty() => v.clone(),
        _ => vec![c.code.clone().unwrap_or("A".into()); c.count.unwrap_or(1) as usize],
    };
    let mut seen = std::collections::HashSet::new();
    for got in [a, b] {
        same!(got.len(), want.len(), "number of keys");
        for (g, code) in got.iter().zip(&want) {
            check_signer(g, code, c.transferable.unwrap_or(true), &g.raw(), "random key")?;
            ensure!(public(code, &g.raw()).is_some(), "random seed is no private key");
            ensure!(seen.insert(g.raw()), "two random keys are the same");
        }
    }
    Ok(())
}
pub fn c16_subs() -> Vec<Sub> {
    fn seed_code() -> BoxedStrategy<String> {
        proptest::sample::select(SEEDS).prop_map(String::from).boxed()
    }
    fn n16() -> BoxedStrategy<Option<u16>> {
        prop_oneof![2 => Just(None), 3 => (0u16..20).prop_map(Some), 1 => any::<u16>().prop_map(Some), 1 => proptest::sample::select(vec![9u16, 10, 15, 16, 17, 255, 256, 65_535]).prop_map(Some), 1 => dict::u32s(0, 65_535).prop_map(|n| Some(n as u16))].boxed()
    }
    fn stem() -> BoxedStrategy<Option<String>> {
        prop_oneof![3 => Just(None), 1 => Just(Some(String::new())), 2 => "[a-z:]{1,12}".prop_map(Some), 1 => "[0-9a-f]{1,4}".prop_map(Some), 1 => "\\PC{1,6}".prop_map(Some), 1 => dict::strs().prop_map(Some), 1 => dict::usizes(0, 300).prop_map(|n| Some("s".repeat(n)))].boxed()
    }
    fn case(dear: bool) -> BoxedStrategy<Create> {
        let o = |v: Vec<Option<&'static str>>| proptest::sample::select(v).prop_map(|x| x.map(String::from)).boxed();
        let tiers = if dear {
            (o(vec![None, Some("low"), Some("med")]), o(vec![None, Some("low"), Some("med")]), Just(false).boxed())
        } else {
            let t = || o(vec![None, Some("min"), Some("min"), Some("min"), Some("low"), Some("high")]);
            (t(), t(), any::<bool>().boxed())
        };
        let n = if dear { 2usize } else { 5 };
        let most = if dear { 2u32 } else { 300 };
        let seldom = |a: BoxedStrategy<usize>| if dear { a } else { prop_oneof![120 => a, 1 => 5usize..40, 1 => dict::usizes(5, most as usize)].boxed() };
        let what = (proptest::option::weighted(0.4, seldom((0..n).boxed()).prop_flat_map(|n| vec(seed_code(), n))), proptest::option::of(seldom((0..n).boxed()).prop_map(|n| n as u16)), proptest::option::of(seed_code()), any::<Option<bool>>());
        (fill(), 0u8..3, stem(), tiers, what, n16(), n16(), n16(), stem())
            .prop_map(|(salt, given, own_stem, (tier, salter_tier, temp), (codes, count, code, transferable), pidx, ridx, kidx, stem)| Create {
                salt, given, own_stem, tier, salter_tier, codes, count, code, pidx, ridx, kidx, stem, transferable, temp,
            })
            .boxed()
    }
    vec![
        sub("c16_tiers", "creators at the low and medium tiers, one or two keys; every case is non-trivial", 24, 300, || case(true), c16_dear),
        sub("c16_create", "salts (text, salter, both) x stems x tiers x counts or code lists x positions x requested stems x transferability, at the minimum cost; non-trivial unless the tier is dearer", 10_000, 200_000, || case(false), c16),
        sub("c16_salts", "text that is no salt (edited salts, other material, noise); non-trivial then", 20_000, 200_000, || {
            let edited = (fill(), vec(edit(), 1..3)).prop_map(|(f, e)| {
                let mut t = r::mat_build("0A", &f.make(16)).unwrap().text.into_bytes();
                apply(&e, &mut t);
                String::from_utf8_lossy(&t).into_owned()
            });
            let foreign = code_raw(var_len_light).prop_map(|c| r::mat_build(&c.code, &c.raw()).unwrap().text);
            prop_oneof![2 => edited, 1 => foreign, 1 => "\\PC{0,24}"].boxed()
        }, c16_salts),
        sub("c16_fresh", "pairs of creators without a salt; every case is non-trivial", 400, 4000, || any::<u8>().boxed(), c16_fresh),
        sub("c16_random", "random creator requests: counts or code lists, codes, transferability; every case is non-trivial", 1_000, 20_000, || {
            (proptest::option::weighted(0.4, vec(seed_code(), 0..6)), proptest::option::of(prop_oneof![60 => 0u16..6, 1 => 6u16..70, 1 => dict::u32s(6, 300).prop_map(|n| n as u16)]), proptest::option::of(seed_code()), any::<Option<bool>>())
                .prop_map(|(codes, count, code, transferable)| Randy { codes, count, code, transferable })
                .boxed()
        }, c16_randy),
    ]
}
