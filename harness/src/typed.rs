//! C04, C08-C11: typed primitives.
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::prim::{index_val, Base, Input};
use crate::refcesr as r;
use crate::{ensure, fail, same};
use keride::cesr::*;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Verfer,
    Diger,
    Saider,
    Cigar,
    Number,
    Seqner,
    Dater,
    Bexter,
    Pather,
    Salter,
    Signer,
    Prefixer,
}
pub const KINDS: &[Kind] = &[
    Kind::Verfer, Kind::Diger, Kind::Saider, Kind::Cigar, Kind::Number, Kind::Seqner, Kind::Dater,
    Kind::Bexter, Kind::Pather, Kind::Salter, Kind::Signer, Kind::Prefixer,
];
pub const NUMBERS: &[&str] = &["M", "0H", "N", "0A"];
pub const NONTRANSFERABLE: &[&str] = &["B", "1AAA", "1AAC", "1AAI"];
pub const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const TEXTS: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
impl Kind {
    pub fn owns(self, code: &str) -> bool {
        match self {
            Kind::Verfer => KEYS.contains(&code),
            Kind::Diger | Kind::Saider => DIGESTS.contains(&code),
            Kind::Cigar => ["0B", "0C", "0I"].contains(&code),
            Kind::Number => NUMBERS.contains(&code),
            Kind::Seqner | Kind::Salter => code == "0A",
            Kind::Dater => code == "1AAG",
            Kind::Bexter | Kind::Pather => TEXTS.contains(&code),
            Kind::Signer => ["A", "J", "Q"].contains(&code),
            Kind::Prefixer => KEYS.contains(&code) || DIGESTS.contains(&code),
        }
    }
}
/// What a primitive says about itself.
#[derive(Debug, Clone, PartialEq)]
pub struct View {
    pub code: String,
    pub raw: Hex,
    pub text: String,
    pub text_bytes: Hex,
    pub bin: Hex,
    pub size: usize,
}
pub fn view<M: Matter>(m: &M) -> Result<View, String> {
    Ok(View {
        code: m.code(),
        raw: Hex(m.raw()),
        text: must(m.qb64(), "encoding an accepted value as text")?,
        text_bytes: Hex(must(m.qb64b(), "encoding an accepted value as text bytes")?),
        bin: Hex(must(m.qb2(), "encoding an accepted value as binary")?),
        size: must(m.full_size(), "full size of an accepted value")?,
    })
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Form {
    /// short constructor
    Raw,
    /// full constructor
    RawNew,
    Text,
    TextBytes,
    Bin,
    /// full constructors
    TextNew,
    TextBytesNew,
    BinNew,
}
pub const FORMS: &[Form] = &[
    Form::Raw, Form::RawNew, Form::Text, Form::TextBytes, Form::Bin, Form::TextNew, Form::TextBytesNew, Form::BinNew,
];
pub struct Src<'a> {
    pub code: Option<&'a str>,
    pub raw: &'a [u8],
    pub text: &'a str,
    pub text_bytes: &'a [u8],
    pub bin: &'a [u8],
}
/// Builds a primitive of a kind in a form. Outer error: a violation on the way.
pub fn build(kind: Kind, form: Form, s: &Src) -> Result<anyhow::Result<View>, String> {
    macro_rules! with {
        ($t:ty, raw($raw:ident, $code:ident) $rawx:expr, $newx:expr, $tx:expr, $bx:expr, $b2:expr) => {{
            let ($raw, $code) = (s.raw, s.code);
            let got: anyhow::Result<$t> = match form {
                Form::Raw => $rawx,
                Form::RawNew => $newx($code, Some($raw), None, None, None),
                Form::Text => $tx(s.text),
                Form::TextBytes => $bx(s.text_bytes),
                Form::Bin => $b2(s.bin),
                Form::TextNew => $newx(None, None, None, Some(s.text), None),
                Form::TextBytesNew => $newx(None, None, Some(s.text_bytes), None, None),
                Form::BinNew => $newx(None, None, None, None, Some(s.bin)),
            };
            match got {
                Ok(m) => {
                    extra(&m)?;
                    Ok(view(&m)?)
                }
                Err(e) => Err(e),
            }
        }};
    }
    fn extra<M: Matter>(m: &M) -> R {
        // what a primitive is follows from its code
        same!(m.digestive(), DIGESTS.contains(&m.code().as_str()), "{} is a digest", m.code());
        same!(m.transferable(), !NONTRANSFERABLE.contains(&m.code().as_str()), "{} is transferable", m.code());
        Ok(())
    }
    Ok(match kind {
        Kind::Verfer => with!(Verfer, raw(raw, code) Verfer::new_with_raw(raw, code), Verfer::new, Verfer::new_with_qb64, Verfer::new_with_qb64b, Verfer::new_with_qb2),
        Kind::Diger => with!(Diger, raw(raw, code) Diger::new_with_raw(raw, code), |c, r, b, t, b2| Diger::new(None, c, r, b, t, b2), Diger::new_with_qb64, Diger::new_with_qb64b, Diger::new_with_qb2),
        Kind::Saider => with!(Saider, raw(raw, code) Saider::new_with_raw(raw, code), |c, r, b, t, b2| Saider::new(None, None, None, None, c, r, b, t, b2), Saider::new_with_qb64, Saider::new_with_qb64b, Saider::new_with_qb2),
        Kind::Cigar => with!(Cigar, raw(raw, code) Cigar::new_with_raw(raw, None, code), |c, r, b, t, b2| Cigar::new(None, c, r, b, t, b2), |t| Cigar::new_with_qb64(t, None), |t| Cigar::new_with_qb64b(t, None), |t| Cigar::new_with_qb2(t, None)),
        Kind::Number => with!(Number, raw(raw, code) Number::new_with_raw(raw, code), |c, r, b, t, b2| Number::new(None, None, c, r, b, t, b2), Number::new_with_qb64, Number::new_with_qb64b, Number::new_with_qb2),
        Kind::Seqner => with!(Seqner, raw(raw, code) Seqner::new_with_raw(raw, code), |c, r, b, t, b2| Seqner::new(None, None, c, r, b, t, b2), Seqner::new_with_qb64, Seqner::new_with_qb64b, Seqner::new_with_qb2),
        Kind::Dater => with!(Dater, raw(raw, code) Dater::new_with_raw(raw, code), |c, r, b, t, b2| Dater::new(None, c, r, b, t, b2), Dater::new_with_qb64, Dater::new_with_qb64b, Dater::new_with_qb2),
        Kind::Bexter => with!(Bexter, raw(raw, code) Bexter::new_with_raw(raw, code), |c, r, b, t, b2| Bexter::new(None, c, r, b, t, b2), Bexter::new_with_qb64, Bexter::new_with_qb64b, Bexter::new_with_qb2),
        Kind::Pather => with!(Pather, raw(raw, code) Pather::new_with_raw(raw, code), |c, r, b, t, b2| Pather::new(None, None, c, r, b, t, b2), Pather::new_with_qb64, Pather::new_with_qb64b, Pather::new_with_qb2),
        Kind::Salter => with!(Salter, raw(raw, code) Salter::new_with_raw(raw, code, None), |c, r, b, t, b2| Salter::new(None, c, r, b, t, b2), |t| Salter::new_with_qb64(t, None), |t| Salter::new_with_qb64b(t, None), |t| Salter::new_with_qb2(t, None)),
        Kind::Signer => with!(Signer, raw(raw, code) Signer::new_with_raw(raw, None, code), |c, r, b, t, b2| Signer::new(None, c, r, b, t, b2), |t| Signer::new_with_qb64(t, None), |t| Signer::new_with_qb64b(t, None), |t| Signer::new_with_qb2(t, None)),
        Kind::Prefixer => with!(Prefixer, raw(raw, code) Prefixer::new_with_raw(raw, code), |c, r, b, t, b2| Prefixer::new(None, None, c, r, b, t, b2), Prefixer::new_with_qb64, Prefixer::new_with_qb64b, Prefixer::new_with_qb2),
    })
}

// ---- C08 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TypedCase {
    kind: Kind,
    cr: CodeRaw,
    tail: Hex,
}
/// A seed every algorithm takes for one.
pub fn fix_seed(code: &str, raw: &mut [u8]) {
    if (code == "J" || code == "Q") && !raw.is_empty() {
        raw[0] &= 0x7f;
        *raw.last_mut().unwrap() |= 1;
    }
}
fn c08(c: &TypedCase, cx: &mut Cx) -> R {
    let mut raw = c.cr.raw();
    if c.kind == Kind::Signer {
        fix_seed(&c.cr.code, &mut raw);
    }
    let Some(want) = r::mat_build(&c.cr.code, &raw) else { fail!("generator: no material") };
    let owns = c.kind.owns(&c.cr.code);
    cx.hit();
    cx.class(format!("{:?} {}", c.kind, if owns { "own code" } else { "foreign code" }));
    let bin = r::text_to_bin(&want.text);
    let mut tb = want.text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    let text = match std::str::from_utf8(&tb) {
        Ok(t) => t.to_string(),
        Err(_) => want.text.clone(),
    };
    let mut b2 = bin.clone();
    b2.extend_from_slice(&c.tail.0);
    let s = Src { code: Some(&c.cr.code), raw: &raw, text: &text, text_bytes: &tb, bin: &b2 };
    let v = View { code: want.code.clone(), raw: Hex(want.raw.clone()), text: want.text.clone(), text_bytes: Hex(want.text.clone().into_bytes()), bin: Hex(bin), size: want.text.len() };
    for f in FORMS {
        match (build(c.kind, *f, &s)?, owns) {
            (Ok(g), true) => same!(g, v, "{:?} from {f:?}", c.kind),
            (Err(_), false) => {}
            (Ok(g), false) => fail!("{:?} from {f:?} accepted foreign code {}: {}", c.kind, want.code, short(&g)),
            (Err(e), true) => fail!("{:?} from {f:?} refused its own code {}: {e}", c.kind, want.code),
        }
    }
    Ok(())
}
/// Codes no table knows are refused whatever the kind.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct UnknownCode {
    kind: Kind,
    code: String,
    len: usize,
    fill: Fill,
}
fn c08_unknown(c: &UnknownCode, cx: &mut Cx) -> R {
    if r::all_codes().contains(&c.code) && c.kind.owns(&c.code) {
        return Ok(());
    }
    cx.hit();
    let raw = c.fill.make(c.len);
    for f in [Form::Raw, Form::RawNew] {
        let s = Src { code: Some(&c.code), raw: &raw, text: "", text_bytes: b"", bin: b"" };
        if let Ok(v) = build(c.kind, f, &s)? {
            fail!("{:?} from {f:?} accepted unknown or foreign code {:?}: {}", c.kind, c.code, short(&v));
        }
    }
    if let (Ok(m), false) = (<Mtr as Matter>::new(Some(&c.code), Some(&raw), None, None, None), r::all_codes().contains(&c.code)) {
        fail!("material with unknown code {:?} accepted: {}", c.code, short(&m));
    }
    Ok(())
}
pub fn unknown_code() -> BoxedStrategy<String> {
    prop_oneof![
        2 => proptest::sample::select(r::all_codes()),
        2 => b64_string(1..5),
        1 => proptest::sample::select(vec!["", "4", "5", "6", "7", "9", "4C", "4é", "7AAC", "7A", "8AA", "9AAAA", "é", "A ", " A", "AA", "4A4A", "6AA", "-A", "_", "1AAK", "1AA", "7aaa", "4a"]).prop_map(String::from),
        1 => "\\PC{0,4}",
    ]
    .boxed()
}
pub fn c08_subs() -> Vec<Sub> {
    vec![
        sub("c08_kinds", "primitive kind x code (half of them the kind's own) x raw value, in 8 construction forms with trailing bytes; every case is non-trivial", 60_000, 1_000_000, || {
            (proptest::sample::select(KINDS), any::<bool>(), any::<proptest::sample::Index>(), code_raw(var_len_light), trailing()).prop_map(|(kind, own, ix, mut cr, tail)| {
                if own {
                    let codes: Vec<String> = r::all_codes().into_iter().filter(|c| kind.owns(c)).collect();
                    cr.code = codes[ix.index(codes.len())].clone();
                    cr.len = r::fixed_raw_size(&cr.code).unwrap_or(cr.len);
                }
                TypedCase { kind, cr, tail }
            }).boxed()
        }, c08),
        sub("c08_unknown", "primitive kind x unknown, malformed or foreign code with raw material; non-trivial when the code is not one of the kind's own", 60_000, 600_000, || {
            (proptest::sample::select(KINDS), unknown_code(), 0usize..130, fill()).prop_map(|(kind, code, len, fill)| UnknownCode { kind, code, len, fill }).boxed()
        }, c08_unknown),
    ]
}

// ---- C04 ----------------------------------------------------------------------------------------

fn reads(tb: &[u8], b2: &[u8]) -> R {
    let text = String::from_utf8_lossy(tb).into_owned();
    let s = Src { code: None, raw: &[], text: &text, text_bytes: tb, bin: b2 };
    for k in KINDS {
        for f in &FORMS[2..] {
            let _ = build(*k, *f, &s)?;
        }
    }
    // accessors of what was accepted
    macro_rules! both {
        ($t:ident, $x:ident => $e:expr) => {
            for $x in [$t::new_with_qb64(&text), $t::new_with_qb64b(tb), $t::new_with_qb2(b2)].into_iter().flatten() {
                let _ = $e;
            }
        };
    }
    both!(Number, x => (x.num().map_err(|e| format!("num of accepted number: {e}"))?, x.numh().map_err(|e| format!("numh: {e}"))?, x.positive().is_ok()));
    both!(Seqner, x => (x.sn().map_err(|e| format!("sn of accepted: {e}"))?, x.snh().map_err(|e| format!("{e}"))?));
    both!(Dater, x => (x.dts().map_err(|e| format!("dts of accepted: {e}"))?, x.dtsb().map_err(|e| format!("{e}"))?));
    both!(Bexter, x => x.bext().map_err(|e| format!("bext of accepted: {e}"))?);
    both!(Pather, x => (x.bext().map_err(|e| format!("bext of accepted: {e}"))?, x.path().is_ok()));
    both!(Verfer, x => (x.verify(tb, b2).is_ok(), x.verify(&[0u8; 64], b2).is_ok()));
    both!(Diger, x => (x.verify(tb).map_err(|e| format!("verify of accepted digest: {e}"))?, x.compare(b2, Some(tb), None).is_ok()));
    for x in [Mtr::new_with_qb64(&text), Mtr::new_with_qb64b(tb), Mtr::new_with_qb2(b2)].into_iter().flatten() {
        view(&x)?;
    }
    for x in [Ixr::new_with_qb64(&text), Ixr::new_with_qb64b(tb), Ixr::new_with_qb2(b2)].into_iter().flatten() {
        reencode(&x)?;
    }
    for x in [Siger::new_with_qb64(&text, None), Siger::new_with_qb64b(tb, None), Siger::new_with_qb2(b2, None)].into_iter().flatten() {
        reencode(&x)?;
    }
    for x in [Counter::new_with_qb64(&text), Counter::new_with_qb64b(tb), Counter::new_with_qb2(b2)].into_iter().flatten() {
        must(x.qb64(), "encoding an accepted counter")?;
        must(x.qb64b(), "encoding an accepted counter")?;
        must(x.qb2(), "encoding an accepted counter")?;
        must(x.full_size(), "full size of accepted counter")?;
        must(x.count_as_b64(0), "count of accepted counter")?;
    }
    let _ = Tholder::new(None, Some(tb), None).map(|t| (t.limen().is_ok(), t.sith().is_ok()));
    let _ = keride::signify::creating::SaltyCreator::new(Some(&text), None, None, None);
    let _ = Counter::sem_ver_str_to_b64(&text);
    let _ = Counter::new(None, Some(&text), Some("-V"), None, None, None);
    Ok(())
}
fn reencode<I: Indexer>(x: &I) -> R {
    must(x.qb64(), "encoding accepted indexed material")?;
    must(x.qb64b(), "encoding accepted indexed material")?;
    must(x.qb2(), "encoding accepted indexed material as binary")?;
    must(x.full_size(), "full size of accepted indexed material")?;
    Ok(())
}
fn c04_read(c: &Input, cx: &mut Cx) -> R {
    let (t, b) = c.bytes();
    if !t.is_empty() {
        cx.hit();
    }
    // text-domain bytes as binary too, and the other way round
    reads(&t, &b)?;
    reads(&b, &t)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Params {
    code: String,
    raw: CodeRaw,
    index: u32,
    ondex: Option<u32>,
    text: String,
    num: u128ish,
}
/// 128-bit numbers as text (JSON numbers are smaller)
#[allow(non_camel_case_types)]
pub type u128ish = String;
fn c04_params(c: &Params, cx: &mut Cx) -> R {
    cx.hit();
    let raw = c.raw.raw();
    let s = Src { code: Some(&c.code), raw: &raw, text: &c.text, text_bytes: c.text.as_bytes(), bin: c.text.as_bytes() };
    for k in KINDS {
        for f in FORMS {
            let _ = build(*k, *f, &s)?;
        }
        let none = Src { code: None, ..s };
        let _ = build(*k, Form::RawNew, &none)?;
        let _ = build(*k, Form::Raw, &none)?;
    }
    if let Ok(m) = <Mtr as Matter>::new(Some(&c.code), Some(&raw), None, None, None) {
        view(&m)?;
    }
    if let Ok(m) = <Ixr as Indexer>::new(Some(c.index), c.ondex, Some(&c.code), Some(&raw), None, None, None) {
        reencode(&m)?;
    }
    if let Ok(m) = Siger::new(None, Some(c.index), c.ondex, Some(&c.code), Some(&raw), None, None, None) {
        reencode(&m)?;
    }
    for k in [Counter::new_with_code_and_count(&c.code, c.index), Counter::new(None, Some(&c.text), Some(&c.code), None, None, None)].into_iter().flatten() {
        must(k.qb64(), "encoding an accepted counter")?;
        must(k.qb2(), "encoding an accepted counter")?;
    }
    let _ = <Mtr as Matter>::new(None, None, None, None, None);
    let _ = <Mtr as Matter>::new(None, Some(&raw), None, None, None);
    let _ = <Ixr as Indexer>::new(None, None, None, None, None, None, None);
    let _ = Counter::new(None, None, None, None, None, None);
    for m in [Number::new_with_numh(&c.text), Number::new(None, Some(&c.text), Some(&c.code), None, None, None, None)].into_iter().flatten() {
        view(&m)?;
    }
    if let Ok(m) = Seqner::new_with_snh(&c.text) {
        view(&m)?;
    }
    for m in [Dater::new_with_dts(&c.text, None), Dater::new_with_dts(&c.text, Some(&c.code))].into_iter().flatten() {
        view(&m)?;
    }
    for m in [Bexter::new_with_bext(&c.text), Bexter::new(Some(&c.text), Some(&c.code), None, None, None, None)].into_iter().flatten() {
        view(&m)?;
        must(m.bext(), "text of accepted")?;
    }
    if let Ok(m) = Pather::new_with_bext(&c.text) {
        view(&m)?;
        let _ = m.path();
    }
    for x in [Diger::new(Some(&raw), Some(&c.code), None, None, None, None), Diger::new(Some(&raw), Some(&c.code), None, Some(c.text.as_bytes()), None, None)].into_iter().flatten() {
        view(&x)?;
    }
    let n: u128 = c.num.parse().unwrap_or(0);
    view(&must(Number::new_with_num(n), "number")?)?;
    view(&must(Seqner::new_with_sn(n), "sequence number")?)?;
    Ok(())
}
fn loose_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => b64_string(0..40),
        1 => "[0-9a-fA-F+-]{0,36}",
        1 => "\\PC{0,36}",
        1 => "[0-9T:.+Zcdp-]{28,36}",
        1 => "-([a-zA-Z0-9_]{0,4}-){0,4}",
    ]
    .boxed()
}
pub fn c04_subs() -> Vec<Sub> {
    vec![
        sub("c04_read", "valid encodings of material, indexed material and counters with 0..3 edits, noise and trailing bytes, read by every primitive type in every form, text as binary and binary as text too; accepted values re-encoded and their accessors called; non-trivial unless empty", 60_000, 1_500_000, || {
            let codes: Vec<String> = r::INDEXED.iter().map(|x| x.0.to_string()).collect();
            let cnt: Vec<String> = r::COUNTERS.iter().map(|x| x.0.to_string()).collect();
            let idx = (proptest::sample::select(codes), index_val(), proptest::option::of(index_val()), fill()).prop_map(|(code, index, ondex, fill)| Base::Idx { code, index, ondex, fill });
            let cnt = (proptest::sample::select(cnt), any::<u32>()).prop_map(|(code, count)| Base::Cnt { code, count });
            let mat = code_raw(var_len_light).prop_map(Base::Mat);
            crate::prim::input(prop_oneof![6 => mat, 2 => idx, 1 => cnt].boxed())
        }, c04_read),
        sub("c04_params", "arbitrary codes (known, foreign, malformed, non-ASCII) x raw values of any length x indices x texts x numbers into every constructor; every case is non-trivial", 50_000, 800_000, || {
            let code = prop_oneof![
                2 => unknown_code(),
                1 => proptest::sample::select(r::INDEXED.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()),
                1 => proptest::sample::select(r::COUNTERS.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()),
            ];
            let raw = (mat_code(), prop_oneof![4 => 0usize..130, 1 => 12_280usize..12_292], fill()).prop_map(|(code, len, fill)| CodeRaw { code, len, fill });
            (code, raw, index_val(), proptest::option::of(index_val()), loose_text(), any::<u128>(), 0u32..128).prop_map(|(code, raw, index, ondex, text, n, sh)| Params { code, raw, index, ondex, text, num: (n >> sh).to_string() }).boxed()
        }, c04_params),
    ]
}

// ---- C09 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Num {
    num: String,
    upper: bool,
    zeros: u8,
    tail: Hex,
}
fn c09(c: &Num, cx: &mut Cx) -> R {
    let n: u128 = c.num.parse().map_err(|_| "case".to_string())?;
    cx.hit();
    let (code, len) = if n < 1 << 16 {
        ("M", 2)
    } else if n < 1 << 32 {
        ("0H", 4)
    } else if n < 1 << 64 {
        ("N", 8)
    } else {
        ("0A", 16)
    };
    cx.class(format!("code {code}"));
    let raw = n.to_be_bytes()[16 - len..].to_vec();
    let want = r::mat_build(code, &raw).unwrap();
    let h = format!("{n:x}");
    let digits = if c.upper { h.to_uppercase() } else { h.clone() };
    let given = format!("{}{digits}", "0".repeat(c.zeros as usize));
    let mut tb = want.text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    let mut b2 = r::text_to_bin(&want.text);
    b2.extend_from_slice(&c.tail.0);
    for (what, m) in [
        ("number", Number::new_with_num(n)),
        ("hexadecimal", Number::new_with_numh(&given)),
        ("number (full)", Number::new(Some(n), None, None, None, None, None, None)),
        ("text", Number::new_with_qb64(&want.text)),
        ("text bytes", Number::new_with_qb64b(&tb)),
        ("binary", Number::new_with_qb2(&b2)),
        ("raw", Number::new_with_raw(&raw, Some(code))),
    ] {
        let m = must(m, what)?;
        same!(m.num().ok(), Some(n), "{what}: value");
        same!(m.numh().ok(), Some(h.clone()), "{what}: hexadecimal");
        same!(m.positive().ok(), Some(n > 0), "{what}: positive");
        same!(m.code(), code, "{what}: code");
        same!(m.raw(), raw, "{what}: raw");
        same!(must(m.qb64(), what)?, want.text, "{what}: text form");
        same!(Hex(must(m.qb2(), what)?), Hex(r::text_to_bin(&want.text)), "{what}: binary form");
    }
    // the same number under every code that holds it keeps that code
    for (code, len) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
        if len < 16 && n >> (8 * len) != 0 {
            continue;
        }
        let raw = n.to_be_bytes()[16 - len..].to_vec();
        let w = r::mat_build(code, &raw).unwrap();
        for m in [Number::new_with_raw(&raw, Some(code)), Number::new_with_qb64(&w.text), Number::new_with_qb2(&r::text_to_bin(&w.text))] {
            let m = must(m, code)?;
            same!(m.num().ok(), Some(n), "value under {code}");
            same!(m.numh().ok(), Some(h.clone()), "hexadecimal under {code}");
            same!(m.code(), code, "code");
            same!(must(m.qb64(), code)?, w.text, "text form under {code}");
        }
    }
    // sequence numbers
    let raw = n.to_be_bytes().to_vec();
    let want = r::mat_build("0A", &raw).unwrap();
    let mut tb = want.text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    for (what, m) in [
        ("sn", Seqner::new_with_sn(n)),
        ("sn hexadecimal", Seqner::new_with_snh(&given)),
        ("sn text", Seqner::new_with_qb64(&want.text)),
        ("sn text bytes", Seqner::new_with_qb64b(&tb)),
        ("sn binary", Seqner::new_with_qb2(&r::text_to_bin(&want.text))),
        ("sn raw", Seqner::new_with_raw(&raw, None)),
    ] {
        let m = must(m, what)?;
        same!(m.sn().ok(), Some(n), "{what}: value");
        same!(m.snh().ok(), Some(h.clone()), "{what}: hexadecimal");
        same!(m.code(), "0A", "{what}: code");
        same!(must(m.qb64(), what)?, want.text, "{what}: text form");
        same!(Hex(must(m.qb2(), what)?), Hex(r::text_to_bin(&want.text)), "{what}: binary form");
    }
    Ok(())
}
fn c09_bad(c: &String, cx: &mut Cx) -> R {
    let digits = c.strip_prefix('+').unwrap_or(c);
    let valid = digits.bytes().all(|b| b.is_ascii_hexdigit()) && digits.trim_start_matches('0').len() <= 32;
    if valid {
        return Ok(());
    }
    cx.hit();
    refuse(Number::new_with_numh(c), "malformed hexadecimal number")?;
    refuse(Seqner::new_with_snh(c), "malformed hexadecimal sequence number")
}
pub fn c09_subs() -> Vec<Sub> {
    vec![
        sub("c09_numbers", "128-bit numbers biased to the boundaries of every code, with hexadecimal in both cases and leading zeros, through every construction form; every case is non-trivial", 100_000, 1_500_000, || {
            let near = (proptest::sample::select(vec![0u32, 4, 8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 96, 127]), -3i32..4).prop_map(|(b, d)| (1u128 << b).wrapping_add(d as i128 as u128));
            let n = prop_oneof![3 => near, 2 => dict::ints(0, u128::MAX), 1 => Just(u128::MAX), 1 => Just(0u128), 4 => (any::<u128>(), 0u32..128).prop_map(|(n, s)| n >> s)];
            (n, any::<bool>(), 0u8..5, trailing()).prop_map(|(n, upper, zeros, tail)| Num { num: n.to_string(), upper, zeros, tail }).boxed()
        }, c09),
        sub("c09_malformed", "hexadecimal text with foreign characters or more than 128 bits; non-trivial when malformed", 40_000, 400_000, || {
            prop_oneof![
                2 => "[0-9a-f]{0,6}[g-zG-Z .,_xé-][0-9a-f]{0,6}",
                2 => "[1-9a-f][0-9a-f]{32,40}",
                1 => "0x[0-9a-f]{1,8}",
                1 => "-[0-9a-f]{1,8}",
                1 => "\\PC{1,10}",
            ].boxed()
        }, c09_bad),
    ]
}

// ---- C10 ----------------------------------------------------------------------------------------

fn c10(c: &(String, Hex), cx: &mut Cx) -> R {
    let (dts, tail) = c;
    cx.hit();
    let m = must(Dater::new_with_dts(dts, None), "date-time")?;
    let b64: String = dts.chars().map(|c| match c { ':' => 'c', '.' => 'd', '+' => 'p', c => c }).collect();
    let text = format!("1AAG{b64}");
    let bin = r::text_to_bin(&text);
    let mut tb = text.clone().into_bytes();
    tb.extend_from_slice(&tail.0);
    let mut b2 = bin.clone();
    b2.extend_from_slice(&tail.0);
    for (what, m) in [
        ("built", Ok(m.clone())),
        ("built with code", Dater::new_with_dts(dts, Some("1AAG"))),
        ("from text", Dater::new_with_qb64(&text)),
        ("from text bytes", Dater::new_with_qb64b(&tb)),
        ("from binary", Dater::new_with_qb2(&b2)),
        ("from raw", Dater::new_with_raw(&m.raw(), None)),
    ] {
        let m = must(m, what)?;
        same!(must(m.dts(), what)?, *dts, "{what}: date-time");
        same!(must(m.dtsb(), what)?, dts.as_bytes(), "{what}: date-time bytes");
        same!(must(m.qb64(), what)?, text, "{what}: text form");
        same!(must(m.qb64b(), what)?, text.as_bytes(), "{what}: text form as bytes");
        same!(Hex(must(m.qb2(), what)?), Hex(bin.clone()), "{what}: binary form");
        same!(m.code(), "1AAG", "{what}: code");
    }
    Ok(())
}
fn c10_bad(c: &String, cx: &mut Cx) -> R {
    let carried = c.len() == 32 && c.bytes().all(|b| matches!(b, b':' | b'.' | b'+') || r::val(b).is_some() && !matches!(b, b'c' | b'd' | b'p'));
    if carried {
        cx.class("carried");
        let m = must(Dater::new_with_dts(c, None), "text the encoding can carry")?;
        same!(must(m.dts(), "dts")?, *c, "date-time");
        return Ok(());
    }
    cx.hit();
    refuse(Dater::new_with_dts(c, None), "text the encoding cannot carry")
}
fn c10_now(_: &u8, cx: &mut Cx) -> R {
    cx.hit();
    let m = must(Dater::new(None, None, None, None, None, None), "current date-time")?;
    let dts = must(m.dts(), "current date-time")?;
    let shape: String = dts.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect();
    same!(shape, "9999-99-99T99:99:99.999999+99:99", "form of the current date-time");
    same!(must(must(Dater::new_with_dts(&dts, None), "own date-time")?.qb64(), "qb64")?, must(m.qb64(), "qb64")?, "own text");
    Ok(())
}
pub fn c10_subs() -> Vec<Sub> {
    fn iso() -> BoxedStrategy<String> {
        let d = (0u32..10_000, 1u32..13, 1u32..32, 0u32..24, 0u32..60, 0u32..61);
        (d, 0u32..1_000_000, any::<bool>(), 0u32..24, 0u32..60)
            .prop_map(|((y, mo, da, h, mi, s), us, neg, oh, om)| format!("{y:04}-{mo:02}-{da:02}T{h:02}:{mi:02}:{s:02}.{us:06}{}{oh:02}:{om:02}", if neg { '-' } else { '+' }))
            .boxed()
    }
    vec![
        sub("c10_roundtrip", "ISO-8601 date-times with microseconds and any offset, through all forms with trailing bytes; every case is non-trivial", 60_000, 800_000, || (iso(), trailing()).boxed(), c10),
        sub("c10_malformed", "date-times of another length (nanoseconds, no offset, Z) or with other characters, edited ones, noise; non-trivial when the encoding cannot carry the text", 60_000, 600_000, || {
            prop_oneof![
                2 => (iso(), 1usize..32).prop_map(|(s, n)| s[..n].to_string()),
                2 => (iso(), "[0-9:+.Z-]{1,8}").prop_map(|(s, t)| s + &t),
                2 => (iso(), "[0-9]{1,3}").prop_map(|(s, t)| format!("{}{t}{}", &s[..26], &s[26..])),
                2 => (iso(), 0usize..32, "[cdp =/é,;ZA_a]").prop_map(|(s, i, t)| format!("{}{t}{}", &s[..i], &s[i + 1..])),
                1 => iso().prop_map(|s| format!("{}Z", &s[..26])),
                1 => "\\PC{0,40}",
                1 => "[A-Za-z0-9:.+-]{30,34}",
            ].boxed()
        }, c10_bad),
        sub("c10_now", "the default date-time is the current time in the same form", 200, 2000, || any::<u8>().boxed(), c10_now),
    ]
}

// ---- C11 ----------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Text {
    head: String,
    len: usize,
    seed: u64,
    /// runs of one character at the end
    runs: Vec<(char, u8)>,
    tail: Hex,
}
impl Text {
    fn text(&self) -> String {
        let mut s = self.head.clone();
        let mut m = Mix(self.seed);
        while s.len() < self.len {
            s.push(r::ALPHABET[(m.next() >> 58) as usize] as char);
        }
        for (c, n) in &self.runs {
            s.extend(std::iter::repeat_n(*c, *n as usize));
        }
        s
    }
}
fn c11(c: &Text, cx: &mut Cx) -> R {
    let t = c.text();
    if t.len() % 4 == 0 && t.starts_with('A') {
        // the encoding cannot tell such a text; it must still be taken without failing
        let m = must(Bexter::new_with_bext(&t), "text")?;
        must(m.bext(), "bext")?;
        return Ok(());
    }
    cx.hit();
    // the raw value: the text's sextets, behind zero bits up to whole bytes
    let nbytes = (t.len() * 6).div_ceil(8);
    let raw = { // sextets right-aligned
        let pad = (4 - t.len() % 4) % 4;
        let b = r::text_to_bin(&("A".repeat(pad) + &t));
        b[b.len() - nbytes..].to_vec()
    };
    let want = r::mat_build("4A", &raw).unwrap();
    cx.class(format!("length mod 4 = {}, {}", t.len() % 4, if want.code.len() == 2 { "small" } else { "large" }));
    let bin = r::text_to_bin(&want.text);
    let mut tb = want.text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    let mut b2 = bin.clone();
    b2.extend_from_slice(&c.tail.0);
    for (what, m) in [
        ("text", Bexter::new_with_bext(&t)),
        ("text with code", Bexter::new(Some(&t), Some("4A"), None, None, None, None)),
        ("qb64", Bexter::new_with_qb64(&want.text)),
        ("qb64b", Bexter::new_with_qb64b(&tb)),
        ("qb2", Bexter::new_with_qb2(&b2)),
        ("raw", Bexter::new_with_raw(&raw, Some("4A"))),
    ] {
        let m = must(m, what)?;
        same!(must(m.bext(), what)?, t, "{what}: text");
        same!(m.code(), want.code, "{what}: code");
        same!(Hex(m.raw()), Hex(raw.clone()), "{what}: raw");
        same!(must(m.qb64(), what)?, want.text, "{what}: qualified text");
        same!(Hex(must(m.qb2(), what)?), Hex(bin.clone()), "{what}: qualified binary");
        same!(must(m.full_size(), what)?, want.text.len(), "{what}: full size");
    }
    // the large code, when asked for
    let m = must(Bexter::new(Some(&t), Some("7AAA"), None, None, None, None), "large code")?;
    same!(must(m.bext(), "large")?, t, "text under a large code");
    ensure!(m.code().len() == 4, "large code not kept: {}", m.code());
    let q = must(m.qb64(), "large")?;
    same!(must(must(Bexter::new_with_qb64(&q), "large text")?.bext(), "large")?, t, "text under a large code, read back");
    Ok(())
}
fn c11_bad(c: &String, cx: &mut Cx) -> R {
    if c.bytes().all(|b| r::val(b).is_some()) {
        return Ok(());
    }
    cx.hit();
    refuse(Bexter::new_with_bext(c), "text with a foreign character")?;
    refuse(Pather::new_with_bext(c), "path text with a foreign character")
}
pub fn c11_subs() -> Vec<Sub> {
    vec![
        sub("c11_roundtrip", "texts over the alphabet, leading A's, every length modulo 4, both size regimes (switch at 16 380 characters); non-trivial unless the text is one the encoding cannot tell", 50_000, 800_000, || {
            let head = prop_oneof![4 => Just(String::new()), 2 => (1usize..6).prop_map(|n| "A".repeat(n)), 2 => b64_string(1..9), 1 => Just("-".to_string()), 1 => Just("B".to_string())];
            let run = || (prop_oneof![4 => proptest::sample::select(vec!['-', 'A', '_', 'B', '0', '9', 'z']), 1 => b64_char().prop_map(char::from)], prop_oneof![4 => 1u8..12, 1 => 12u8..200]);
            (head, prop_oneof![8 => 0usize..80, 2 => 80usize..1500, 1 => 16_360usize..16_400], any::<u64>(), prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(run(), 1..5)], trailing())
                .prop_map(|(head, len, seed, runs, tail)| Text { head, len, seed, runs, tail }).boxed()
        }, c11),
        sub("c11_foreign", "texts with at least one character outside the alphabet; non-trivial then", 40_000, 400_000, || {
            prop_oneof![
                3 => (b64_string(0..30), "[ =+/.,:\n\r\t\u{0}é€@~]", b64_string(0..30)).prop_map(|(a, b, c)| a + &b + &c),
                1 => (b64_string(0..30), "={1,3}").prop_map(|(a, b)| a + &b),
                1 => (b64_string(0..30), "\n").prop_map(|(a, b)| a + &b),
                1 => "\\PC{1,20}",
            ].boxed()
        }, c11_bad),
    ]
}
