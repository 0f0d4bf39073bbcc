//! C17: what the heap blocks released by the library still contain.
use crate::crypto::{stretch, SEEDS};
use crate::dict;
use crate::fw::*;
use crate::gen::*;
use crate::refcesr as r;
use crate::typed::fix_seed;
use crate::{fail, same};
use keride::cesr::*;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Blocks released while the library runs are copied here first.
const LOG: usize = 4 << 20;
/// Larger blocks are the stretching's own work memory.
const BLOCK: usize = 64 << 10;
pub struct Log {
    used: usize,
    blocks: usize,
    overflow: bool,
    bytes: [u8; LOG],
}
thread_local! {
    static ACTIVE: Cell<*mut Log> = const { Cell::new(std::ptr::null_mut()) };
    static OWN: Cell<*mut Log> = const { Cell::new(std::ptr::null_mut()) };
}
pub struct Watching;
/// What a thread takes of memory while it is metered: in all, now, at most.
#[derive(Debug, Clone, Copy, Default)]
pub struct Taken {
    on: bool,
    pub total: u64,
    live: i64,
    pub peak: i64,
}
thread_local! {
    static METER: Cell<Taken> = const { Cell::new(Taken { on: false, total: 0, live: 0, peak: 0 }) };
}
fn take(n: usize, back: usize) {
    METER.with(|m| {
        let mut t = m.get();
        if t.on {
            t.total += n as u64;
            t.live += n as i64 - back as i64;
            t.peak = t.peak.max(t.live);
            m.set(t);
        }
    })
}
/// The memory a call takes and the processor time of its thread.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Taken, std::time::Duration) {
    METER.with(|m| m.set(Taken { on: true, ..Taken::default() }));
    let t0 = thread_time();
    let v = f();
    let t = thread_time() - t0;
    (v, METER.with(|m| m.replace(Taken::default())), t)
}
fn thread_time() -> std::time::Duration {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    const THREAD_CPUTIME: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    let rc = unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    assert_eq!(rc, 0, "no clock of the thread's processor time");
    std::time::Duration::new(t.sec as u64, t.nsec as u32)
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        take(l.size(), 0);
        if ACTIVE.with(|a| a.get()).is_null() {
            System.alloc(l)
        } else {
            // what a block holds when it is released was put there by its user
            System.alloc_zeroed(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        take(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        take(0, l.size());
        let log = ACTIVE.with(|a| a.get());
        if !log.is_null() && l.size() <= BLOCK {
            let log = &mut *log;
            log.blocks += 1;
            // a separator keeps blocks apart
            if log.used + l.size() + 1 > LOG {
                log.overflow = true;
            } else {
                std::ptr::copy_nonoverlapping(p, log.bytes.as_mut_ptr().add(log.used), l.size());
                log.used += l.size();
                log.bytes[log.used] = 0;
                log.used += 1;
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ACTIVE.with(|a| a.get()).is_null() {
            take(n, l.size());
            return System.realloc(p, l, n);
        }
        // a block that moves is released where it was
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
struct Stop;
impl Drop for Stop {
    fn drop(&mut self) {
        ACTIVE.with(|a| a.set(std::ptr::null_mut()));
    }
}
/// Runs a call of the library with its released blocks recorded.
fn lib<T>(f: impl FnOnce() -> T) -> T {
    let own = OWN.with(|o| o.get());
    let _stop = Stop;
    ACTIVE.with(|a| a.set(own));
    f()
}
fn begin() {
    OWN.with(|o| {
        if o.get().is_null() {
            let p = unsafe { std::alloc::alloc_zeroed(Layout::new::<Log>()) } as *mut Log;
            assert!(!p.is_null());
            o.set(p);
        }
        let log = unsafe { &mut *o.get() };
        log.used = 0;
        log.blocks = 0;
        log.overflow = false;
    })
}
fn log() -> &'static Log {
    unsafe { &*OWN.with(|o| o.get()) }
}

/// Parts of a secret (raw bytes, their text, hexadecimal) that nothing but the secret has.
fn needles(what: &str, code: &str, raw: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    for k in [0, raw.len() - 8] {
        out.push((format!("{what}, bytes {k}.."), raw[k..k + 8].to_vec()));
    }
    if raw.len() > 16 {
        out.push((format!("{what}, bytes 12.."), raw[12..20].to_vec()));
    }
    let text = r::mat_build(code, raw).unwrap().text.into_bytes();
    for k in [4, text.len() - 12] {
        out.push((format!("{what}, text {k}.."), text[k..k + 12].to_vec()));
        let sextets = text[k..k + 12].iter().map(|c| r::val(*c).unwrap() as u8).collect();
        out.push((format!("{what}, sextets {k}.."), sextets));
    }
    out
}
/// Whether the recorded blocks contain a needle. Needles are random: no block has one by chance.
fn scan(needles: &[(String, Vec<u8>)]) -> Result<usize, String> {
    let l = log();
    if l.overflow {
        return Err("HARNESS: block log overflow".into());
    }
    let hay = &l.bytes[..l.used];
    // one pass over the log with a filter on the first two bytes
    let mut first = vec![false; 65_536];
    for (_, n) in needles {
        first[(n[0] as usize) << 8 | n[1] as usize] = true;
    }
    for i in 0..hay.len().saturating_sub(7) {
        if first[(hay[i] as usize) << 8 | hay[i + 1] as usize] {
            for (what, n) in needles {
                if hay[i..].starts_with(n) {
                    return Err(format!("released memory contains a secret ({what})"));
                }
            }
        }
    }
    Ok(l.blocks)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Sign(Hex),
    SignIndexed(Hex, bool, u8, Option<u8>),
    Text,
    TextBytes,
    Bin,
    Raw,
    Verfer,
    Clone,
    DropClone,
    Compare,
    Size,
    /// of salts: size, path, tier given
    Stretch(u8, String, bool),
    Signer(u8, String, bool),
    Signers(u8, u8, String),
    Create(u8, u8),
    Classify,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Life {
    code: String,
    seed: u64,
    transferable: Option<bool>,
    form: u8,
    tail: Hex,
    ops: Vec<Op>,
}
/// Things the caller got: released after the recording, by the caller.
#[derive(Default)]
struct Kept {
    bytes: Vec<Vec<u8>>,
    texts: Vec<String>,
}

fn signer_life(c: &Life, cx: &mut Cx) -> R {
    let mut m = Mix(c.seed);
    let mut seed: Vec<u8> = (0..4).flat_map(|_| m.next().to_be_bytes()).collect();
    fix_seed(&c.code, &mut seed);
    let text = r::mat_build(&c.code, &seed).unwrap().text;
    let mut tb = text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    let mut b2 = r::text_to_bin(&text);
    b2.extend_from_slice(&c.tail.0);
    let mut kept = Kept::default();
    begin();
    let s = must(
        lib(|| match c.form % 6 {
            0 => Signer::new_with_raw(&seed, c.transferable, Some(&c.code)),
            1 => Signer::new_with_qb64(&text, c.transferable),
            2 => Signer::new_with_qb64b(&tb, c.transferable),
            3 => Signer::new_with_qb2(&b2, c.transferable),
            4 => Signer::new(c.transferable, Some(&c.code), None, None, Some(&text), None),
            _ => Signer::new_with_defaults(c.transferable, Some(&c.code)),
        }),
        "signer",
    )?;
    cx.class(format!("{} form {}", c.code, c.form % 6));
    let secret = s.raw();
    let mut clones: Vec<Signer> = vec![];
    let mut wrong = None;
    for op in &c.ops {
        match op {
            Op::Sign(m) => kept.bytes.push(must(lib(|| s.sign_unindexed(&m.0)), "sign")?.raw()),
            Op::SignIndexed(m, only, i, o) => kept.bytes.push(must(lib(|| s.sign_indexed(&m.0, *only, *i as u32, o.map(|x| x as u32))), "sign")?.raw()),
            Op::Text => kept.texts.push(must(lib(|| s.qb64()), "text")?),
            Op::TextBytes => kept.bytes.push(must(lib(|| s.qb64b()), "text bytes")?),
            Op::Bin => kept.bytes.push(must(lib(|| s.qb2()), "binary")?),
            Op::Raw => kept.bytes.push(lib(|| s.raw())),
            Op::Verfer => kept.bytes.push(lib(|| s.verfer()).raw()),
            Op::Clone => clones.push(lib(|| s.clone())),
            Op::DropClone => {
                if let Some(c) = clones.pop() {
                    lib(|| drop(c))
                }
            }
            Op::Compare => {
                if let Some(c) = clones.last() {
                    if !lib(|| *c == s) {
                        wrong = Some("a clone differs");
                    }
                }
            }
            Op::Size => {
                must(lib(|| s.full_size()), "size")?;
            }
            Op::Classify => {
                lib(|| (s.transferable(), s.digestive()));
            }
            _ => {}
        }
    }
    cx.hit();
    let n = needles("seed", &c.code, &secret);
    let live = scan(&n).map_err(|e| format!("before the drop: {e}"))?;
    lib(|| {
        drop(clones);
        drop(s)
    });
    let all = scan(&n).map_err(|e| format!("at the drop: {e}"))?;
    if all <= live {
        fail!("HARNESS: the drop released nothing");
    }
    drop(kept);
    if let Some(w) = wrong {
        fail!("{w}");
    }
    Ok(())
}
fn salter_life(c: &Life, cx: &mut Cx) -> R {
    let mut m = Mix(c.seed);
    let salt: Vec<u8> = (0..2).flat_map(|_| m.next().to_be_bytes()).collect();
    let text = r::mat_build("0A", &salt).unwrap().text;
    let mut tb = text.clone().into_bytes();
    tb.extend_from_slice(&c.tail.0);
    let mut b2 = r::text_to_bin(&text);
    b2.extend_from_slice(&c.tail.0);
    let mut kept = Kept::default();
    begin();
    let s = must(
        lib(|| match c.form % 5 {
            0 => Salter::new_with_raw(&salt, None, Some("min")),
            1 => Salter::new_with_qb64(&text, Some("min")),
            2 => Salter::new_with_qb64b(&tb, Some("min")),
            3 => Salter::new_with_qb2(&b2, Some("min")),
            _ => Salter::new_with_defaults(Some("min")),
        }),
        "salt",
    )?;
    cx.class(format!("form {}", c.form % 5));
    let secret = s.raw();
    let mut n = needles("salt", "0A", &secret);
    let mut clones: Vec<Salter> = vec![];
    let mut signers: Vec<Signer> = vec![];
    for op in &c.ops {
        match op {
            Op::Stretch(size, path, tier) => {
                let size = 16 + *size as usize % 65;
                let got = must(lib(|| s.stretch(Some(size), Some(path), tier.then_some("min"), Some(true))), "stretch")?;
                for (k, w) in [(0, "start"), (size - 8, "end")] {
                    n.push((format!("stretched seed, {w}"), got[k..k + 8].to_vec()));
                }
                kept.bytes.push(got);
            }
            Op::Signer(code, path, t) => {
                let code = SEEDS[*code as usize % 3];
                let g = must(lib(|| s.signer(Some(code), Some(*t), Some(path), None, Some(true))), "signer")?;
                n.extend(needles("derived seed", code, &g.raw()));
                signers.push(g);
            }
            Op::Signers(k, code, path) => {
                let code = SEEDS[*code as usize % 3];
                let g = must(lib(|| s.signers(Some(*k as usize % 4), None, Some(path), Some(code), None, Some("min"), None)), "signers")?;
                for g in &g {
                    n.extend(needles("derived seed", code, &g.raw()));
                }
                signers.extend(g);
            }
            Op::Text => kept.texts.push(must(lib(|| s.qb64()), "text")?),
            Op::TextBytes => kept.bytes.push(must(lib(|| s.qb64b()), "text bytes")?),
            Op::Bin => kept.bytes.push(must(lib(|| s.qb2()), "binary")?),
            Op::Raw => kept.bytes.push(lib(|| s.raw())),
            Op::Clone => clones.push(lib(|| s.clone())),
            Op::DropClone => {
                if let Some(c) = clones.pop() {
                    lib(|| drop(c))
                }
                if let Some(g) = signers.pop() {
                    lib(|| drop(g))
                }
            }
            Op::Compare => {
                if let Some(c) = clones.last() {
                    same!(lib(|| *c == s), true, "clone");
                }
            }
            Op::Size => {
                must(lib(|| s.full_size()), "size")?;
            }
            Op::Sign(m) => {
                if let Some(g) = signers.last() {
                    kept.bytes.push(must(lib(|| g.sign_unindexed(&m.0)), "sign")?.raw());
                }
            }
            _ => {}
        }
    }
    cx.hit();
    let live = scan(&n).map_err(|e| format!("before the drop: {e}"))?;
    lib(|| {
        drop(clones);
        drop(signers);
        drop(s)
    });
    let all = scan(&n).map_err(|e| format!("at the drop: {e}"))?;
    if all <= live {
        fail!("HARNESS: the drop released nothing");
    }
    drop(kept);
    Ok(())
}
fn creator_life(c: &Life, cx: &mut Cx) -> R {
    let mut m = Mix(c.seed);
    let salt: Vec<u8> = (0..2).flat_map(|_| m.next().to_be_bytes()).collect();
    let text = r::mat_build("0A", &salt).unwrap().text;
    cx.class(format!("form {}", c.form % 3));
    begin();
    let sc = must(
        match c.form % 3 {
            0 => lib(|| SaltyCreator::new(Some(&text), None, Some("min"), None)),
            1 => lib(|| SaltyCreator::new(Some(&text), Some("stem"), Some("min"), None)),
            _ => lib(|| SaltyCreator::new(None, None, None, Some(Salter::new_with_raw(&salt, None, Some("min"))?))),
        },
        "creator",
    )?;
    let mut n = needles("salt", "0A", &salt);
    let mut signers = vec![];
    for op in &c.ops {
        match op {
            Op::Create(k, code) | Op::Signers(k, code, _) => {
                let code = SEEDS[*code as usize % 3];
                let g = lib(|| sc.create(None, Some(*k as u16 % 4), Some(code), None, None, Some(*k as u16), None, None, k % 2 == 0));
                for g in &g {
                    n.extend(needles("derived seed", code, &g.raw()));
                }
                signers.extend(g);
            }
            Op::DropClone => {
                if let Some(g) = signers.pop() {
                    lib(|| drop(g))
                }
            }
            _ => {}
        }
    }
    cx.hit();
    let live = scan(&n).map_err(|e| format!("before the drop: {e}"))?;
    let first = c.seed % 2 == 0;
    lib(|| {
        if first {
            drop(sc);
            drop(signers);
        } else {
            drop(signers);
            drop(sc);
        }
    });
    let all = scan(&n).map_err(|e| format!("at the drop: {e}"))?;
    if all <= live {
        fail!("HARNESS: the drop released nothing");
    }
    Ok(())
}
/// The recording itself works: a block released with a secret in it is found, a wiped one is not.
fn control(c: &u64, cx: &mut Cx) -> R {
    cx.hit();
    let mut m = Mix(*c);
    let secret: Vec<u8> = (0..4).flat_map(|_| m.next().to_be_bytes()).collect();
    let n = needles("seed", "A", &secret);
    for text in [false, true] {
        let mut copy = if text { r::mat_build("A", &secret).unwrap().text.into_bytes() } else { secret.clone() };
        begin();
        let wiped = lib(|| {
            let x = copy.clone();
            let y = std::hint::black_box(x);
            copy.fill(0);
            y
        });
        if scan(&n).is_err() {
            fail!("HARNESS: a secret found where none is");
        }
        lib(|| drop(wiped));
        if scan(&n).is_ok() {
            fail!("HARNESS: a released secret is not found");
        }
    }
    // moving a block
    begin();
    let mut v: Vec<u8> = lib(|| {
        let mut v = Vec::with_capacity(32);
        v.extend_from_slice(&secret);
        v.reserve(200);
        v
    });
    if scan(&n).is_ok() {
        fail!("HARNESS: a moved block is not found");
    }
    v.fill(0);
    let _ = stretch(&secret[..16], "", 32, "min");
    Ok(())
}
pub fn c17_subs() -> Vec<Sub> {
    fn msg() -> BoxedStrategy<Hex> {
        let long = (dict::lens(5000), fill()).prop_map(|(n, f)| f.make(n));
        prop_oneof![12 => vec(any::<u8>(), 0..40), 1 => long, 1 => dict::word()].prop_map(Hex).boxed()
    }
    fn path() -> BoxedStrategy<String> {
        prop_oneof![8 => "[a-z0-9]{0,6}", 1 => dict::strs(), 1 => dict::lens(300).prop_map(|n| "p".repeat(n))].boxed()
    }
    fn op() -> BoxedStrategy<Op> {
        prop_oneof![
            2 => msg().prop_map(Op::Sign),
            2 => (msg(), any::<bool>(), any::<u8>(), any::<Option<u8>>()).prop_map(|(m, o, i, d)| Op::SignIndexed(m, o, i, d)),
            2 => Just(Op::Text),
            2 => Just(Op::TextBytes),
            2 => Just(Op::Bin),
            1 => Just(Op::Raw),
            1 => Just(Op::Verfer),
            2 => Just(Op::Clone),
            2 => Just(Op::DropClone),
            1 => Just(Op::Compare),
            1 => Just(Op::Size),
            1 => Just(Op::Classify),
            3 => (any::<u8>(), path(), any::<bool>()).prop_map(|(a, p, t)| Op::Stretch(a, p, t)),
            3 => (any::<u8>(), path(), any::<bool>()).prop_map(|(a, p, t)| Op::Signer(a, p, t)),
            1 => (any::<u8>(), any::<u8>(), path()).prop_map(|(a, b, p)| Op::Signers(a, b, p)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Create(a, b)),
        ]
        .boxed()
    }
    fn life() -> BoxedStrategy<Life> {
        (proptest::sample::select(SEEDS), any::<u64>(), any::<Option<bool>>(), any::<u8>(), trailing(), vec(op(), 0..8))
            .prop_map(|(code, seed, transferable, form, tail, ops)| Life { code: code.into(), seed, transferable, form, tail, ops })
            .boxed()
    }
    vec![
        sub("c17_signer", "signers of 3 algorithms in 6 construction forms x sequences of signing, exporting, cloning and dropping; every heap block released inside the library is searched for the seed and its text; every case is non-trivial", 30_000, 400_000, life, signer_life),
        sub("c17_salter", "salts in 5 construction forms x sequences of stretching, deriving, exporting, cloning and dropping; searched for the salt and every derived seed; every case is non-trivial", 20_000, 300_000, life, salter_life),
        sub("c17_creator", "salty creators x sequences of key creation and drops; searched for the salt and every derived seed; every case is non-trivial", 15_000, 200_000, life, creator_life),
        sub("c17_control", "the recording finds released and moved secrets, and only those", 200, 200, || any::<u64>().boxed(), control),
    ]
}
