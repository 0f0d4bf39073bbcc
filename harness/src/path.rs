//! C26: paths.
use crate::crypto::digest_text;
use crate::doc::*;
use crate::dict;
use crate::fw::*;
use crate::refcesr as r;
use crate::{ensure, same};
use keride::cesr::*;
use keride::pathing::pather::Pather;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Walk {
    /// indices as numbers or text
    parts: Vec<D>,
    more: Vec<D>,
    doc: D,
    /// steps into the document itself
    steps: Vec<u16>,
    by_label: u16,
    cut: u8,
    bad: String,
}
fn text_of(d: &D) -> String {
    match d {
        D::I(i) => i.to_string(),
        d => d.str().unwrap_or_default().to_string(),
    }
}
fn texts(p: &[D]) -> Vec<String> {
    p.iter().map(text_of).collect()
}
fn bext(p: &[String]) -> String {
    format!("-{}", p.join("-"))
}
fn resolve(d: &D, p: &[String]) -> Option<D> {
    let Some(h) = p.first() else { return Some(d.clone()) };
    // a part is a position when it is a number
    let n: Option<usize> = if h.bytes().all(|b| b.is_ascii_digit()) { h.parse().ok() } else { None };
    let next = match d {
        D::O(o) => match n {
            Some(n) => &o.get(n)?.1,
            None => at(o, h)?,
        },
        D::A(a) => a.get(n?)?,
        _ => return None,
    };
    resolve(next, &p[1..])
}
fn check_path(p: &Pather, parts: &[String], what: &str) -> R {
    let t = bext(parts);
    same!(must(p.bext(), what)?, t, "{what}: text");
    same!(D::of(&must(p.path(), what)?), D::A(parts.iter().map(|x| s(x)).collect()), "{what}: parts");
    same!(must(p.qb64(), what)?, crate::thold::bext_limen(&t), "{what}: encoding");
    Ok(())
}
fn path(parts: &[String]) -> Result<Pather, String> {
    must(Pather::new_with_bext(&bext(parts)), "path text")
}
/// Steps into the document, so that many paths lead somewhere.
fn lead(d: &D, steps: &[u16], by_label: u16) -> Vec<String> {
    let mut out = vec![];
    let mut d = d;
    for (k, st) in steps.iter().enumerate() {
        match d {
            D::O(o) if !o.is_empty() => {
                let i = *st as usize % o.len();
                let lab = &o[i].0;
                let ok = !lab.is_empty() && lab.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
                out.push(if by_label >> (k % 16) & 1 == 1 && ok { lab.clone() } else { i.to_string() });
                d = match resolve(d, &out[out.len() - 1..]) {
                    Some(_) if by_label >> (k % 16) & 1 == 1 && ok && lab.bytes().all(|b| b.is_ascii_digit()) => return out,
                    _ => &o[i].1,
                };
            }
            D::A(a) if !a.is_empty() => {
                let i = *st as usize % a.len();
                out.push(i.to_string());
                d = &a[i];
            }
            _ => break,
        }
    }
    out
}
fn c26(c: &Walk, cx: &mut Cx) -> R {
    let parts = texts(&c.parts);
    let more = texts(&c.more);
    // every form
    let pv = D::A(c.parts.clone()).val();
    let p = must(Pather::new_with_path(&pv), "path parts")?;
    check_path(&p, &parts, "from parts")?;
    for (q, what) in [
        (Pather::new_with_bext(&bext(&parts)), "from text"),
        (Pather::new_with_qb64(&must(p.qb64(), "qb64")?), "from encoded text"),
        (Pather::new_with_qb64b(&must(p.qb64b(), "qb64b")?), "from encoded bytes"),
        (Pather::new_with_qb2(&must(p.qb2(), "qb2")?), "from binary"),
        (Pather::new_with_raw(&p.raw(), Some(&p.code())), "from raw"),
        (Pather::new_with_path(&must(p.path(), "path")?), "from its own parts"),
    ] {
        let q = must(q, what)?;
        ensure!(q == p, "{what}: differs");
        check_path(&q, &parts, what)?;
    }
    // resolution: the given path, and one that leads somewhere, cut and extended
    let doc = c.doc.val();
    let led = lead(&c.doc, &c.steps, c.by_label);
    let mut ext = led.clone();
    ext.extend(more.iter().cloned());
    let mut over = led.clone();
    over.push(99_999.to_string());
    let mut alt = led.clone();
    if let Some(l) = alt.last_mut() {
        *l = more.first().cloned().unwrap_or("zz".into());
    }
    // just past the last one
    let mut past = led.clone();
    let here = resolve(&c.doc, &led);
    let size = |d: &Option<D>| match d {
        Some(D::A(a)) => a.len(),
        Some(D::O(o)) => o.len(),
        _ => 0,
    };
    past.push((size(&here) + c.cut as usize % 2).to_string());
    let mut beside = led.clone();
    if let Some(l) = beside.pop() {
        let n = size(&resolve(&c.doc, &beside));
        beside.push(format!("{}{n}", ["", "0", "", ""][l.len() % 4]));
    }
    for w in [&parts, &led, &ext, &over, &past, &beside, &alt, &vec![], &led[..led.len() / 2].to_vec()] {
        let q = path(w)?;
        let got = q.resolve(&doc);
        match resolve(&c.doc, w) {
            Some(d) => {
                same!(D::of(&must(got, &format!("{} in {}", bext(w), c.doc.text()))?), d, "{} in {}", bext(w), c.doc.text());
                if !w.is_empty() {
                    cx.hit();
                }
                cx.class(format!("resolved, depth {}", w.len().min(4)));
            }
            None => {
                cx.class("not resolved");
                refuse(got, &format!("{} in {}", bext(w), c.doc.text()))?
            }
        }
    }
    // joining and comparing: a and b share a leading part
    let cut = c.cut as usize % (parts.len() + 1);
    let a = parts[..cut].to_vec();
    for (x, y) in [(&parts, &a), (&a, &parts), (&parts, &more), (&more, &parts), (&parts, &parts), (&a, &more), (&parts, &vec![]), (&vec![], &parts)] {
        let (px, py) = (path(x)?, path(y)?);
        let starts = x.len() >= y.len() && x[..y.len()] == y[..];
        same!(must(px.starts_with(&py), "starts_with")?, starts, "{} starts with {}", bext(x), bext(y));
        let rooted = must(px.root(&py), "rooting")?;
        let joined: Vec<String> = y.iter().chain(x.iter()).cloned().collect();
        check_path(&rooted, &joined, &format!("{} rooted at {}", bext(x), bext(y)))?;
        same!(must(rooted.starts_with(&py), "starts_with")?, true, "a rooted path starts with its root");
        let back = must(rooted.strip(&py), "stripping")?;
        check_path(&back, x, &format!("{} stripped of {}", bext(&joined), bext(y)))?;
        let st = must(px.strip(&py), "stripping")?;
        check_path(&st, if starts { &x[y.len()..] } else { x }, &format!("{} stripped of {}", bext(x), bext(y)))?;
        cx.class(if starts { "leading" } else { "not leading" });
    }
    // what is no path
    let valid = c.bad.bytes().all(|b| r::val(b).is_some());
    if !valid {
        refuse(Pather::new_with_bext(&c.bad), "text with foreign characters")?;
        refuse(Pather::new_with_path(&D::A(vec![s("a"), s(&c.bad)]).val()), "a part with foreign characters")?;
    } else if !c.bad.starts_with('-') && !c.bad.starts_with('A') {
        ensure!(Pather::new_with_bext(&c.bad).and_then(|p| p.path()).is_err(), "text without leading dash has parts");
    }
    refuse(Pather::new_with_path(&c.doc.val()).and_then(|_| Pather::new_with_path(&D::O(vec![]).val())), "a map as parts")?;
    refuse(Pather::new_with_path(&D::A(vec![s("a"), D::Null]).val()), "a part that is null")?;
    refuse(Pather::new(None, None, None, None, None, None, None), "nothing")?;
    // the tail in an event
    let mut f: Fields = vec![("v".into(), s("KERI10JSON000000_")), ("d".into(), s(&digest_text("E", b"q")))];
    f.push(("x".into(), c.doc.clone()));
    f.push(("y".into(), s(&digest_text("H", &c.cut.to_be_bytes()))));
    let f = fix_size(&f).ok_or("bad case")?;
    let e = must(Serder::new_with_ked(&D::O(f.clone()).val(), None, None), "event")?;
    let mut inx = vec!["x".to_string()];
    inx.extend(led.iter().cloned());
    for w in [inx, vec!["y".into()], vec!["v".into()], parts.clone(), vec![], vec!["1".into()]] {
        let got = path(&w)?.tail(&e);
        let want = match resolve(&D::O(f.clone()), &w) {
            Some(D::S(t)) => match r::mat_read(t.as_bytes()) {
                Some(m) if m.text.len() < t.len() => continue,
                Some(m) if crate::typed::DIGESTS.contains(&m.code.as_str()) => Some(t),
                _ => None,
            },
            Some(d @ (D::O(_) | D::A(_))) => Some(d.text()),
            _ => None,
        };
        match want {
            Some(w2) => same!(must(got, "tail")?, w2, "tail of {}", bext(&w)),
            None => refuse(got, &format!("the tail of {}", bext(&w)))?,
        }
    }
    Ok(())
}
fn part() -> BoxedStrategy<D> {
    prop_oneof![
        3 => select(vec!["a", "b", "ab", "a1", "abc", "k", "x", "_", "A", "AA", "AAAA", "0a", "a0"]).prop_map(s),
        2 => "[a-zA-Z0-9_]{1,5}".prop_map(D::S),
        3 => (0i64..5).prop_map(D::I),
        1 => select(vec!["0", "1", "2", "00", "01", "10", "18446744073709551616"]).prop_map(s),
        1 => (0i64..=i64::MAX).prop_map(D::I),
        1 => dict::u64s(0, i64::MAX as u64).prop_map(|n| D::I(n as i64)),
        1 => dict::strs().prop_filter("label", |s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')).prop_map(D::S),
    ]
    .boxed()
}
fn walk_doc() -> BoxedStrategy<D> {
    let k = prop_oneof![6 => select(vec!["a", "b", "ab", "a1", "abc", "k", "x", "_", "0", "1", "d", "i"]).prop_map(String::from), 1 => key()];
    prop_oneof![3 => leaf(), 1 => crate::event::digest_id().prop_map(D::S)]
        .prop_recursive(5, 40, 5, move |inner| prop_oneof![3 => vec(inner.clone(), 0..5).prop_map(D::A), 1 => (vec(inner.clone(), 1..4), prop_oneof![8 => 1usize..16, 1 => dict::usizes(1, 130)]).prop_map(|(v, n)| D::A(v.iter().cycle().take(n).cloned().collect())), 6 => vec((k.clone(), inner), 0..5).prop_map(|f| D::O(unique(f)))])
        .boxed()
}
/// Lists of parts, seldom long.
fn many(n: usize) -> BoxedStrategy<Vec<D>> {
    prop_oneof![60 => vec(part(), 0..n), 1 => vec(part(), n..40), 1 => dict::usizes(n, 130).prop_flat_map(|n| vec(part(), n))].boxed()
}
/// Documents, seldom at the bottom of many levels.
fn deep() -> BoxedStrategy<D> {
    let levels = vec((select(vec!["a", "b", "k", "0", "x1"]), any::<bool>(), 0u8..3), 5..40);
    let under = (walk_doc(), levels).prop_map(|(d, l)| {
        l.into_iter().fold(d, |d, (k, list, n)| {
            let before = (0..n).map(|i| D::I(i as i64));
            if list {
                D::A(before.chain([d]).collect())
            } else {
                D::O(before.enumerate().map(|(i, v)| (format!("z{i}"), v)).chain([(k.to_string(), d)]).collect())
            }
        })
    });
    let wide = (walk_doc(), any::<u64>(), any::<u16>()).prop_map(|(d, seed, at)| {
        let wide = |d| swell(if matches!(d, D::A(_) | D::O(_)) { d } else { D::O(vec![]) }, seed);
        match d {
            // the whole, or what stands somewhere in it
            D::O(mut o) if at % 2 == 1 && !o.is_empty() => {
                let i = at as usize / 2 % o.len();
                o[i].1 = wide(std::mem::replace(&mut o[i].1, D::Null));
                D::O(o)
            }
            d => wide(d),
        }
    });
    prop_oneof![40 => walk_doc(), 1 => under, 1 => wide].boxed()
}
pub fn c26_subs() -> Vec<Sub> {
    vec![sub(
        "c26_paths",
        "part lists of labels and positions (repeated, prefix-sharing, beyond range; seldom up to 130) in six forms x documents of depth 5 (seldom 40) walked by label and position, overshot and diverted x pairs of paths joined, stripped and compared x tails in events; non-trivial when a path of one part or more resolves",
        20_000,
        400_000,
        || (many(6), many(4), deep(), prop_oneof![30 => vec(any::<u16>(), 0..6), 1 => vec(any::<u16>(), 6..48)], any::<u16>(), any::<u8>(), text()).prop_map(|(parts, more, doc, steps, by_label, cut, bad)| Walk { parts, more, doc, steps, by_label, cut, bad }).boxed(),
        c26,
    )]
}
