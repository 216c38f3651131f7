//! C13: serialised collections come back unchanged.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::traits::Scalar;
use mc::tok::{De, HINTS, StrMode, Tok, to_tokens};
use mc::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, frozen_collections::Scalar)]
enum Col { Red, Green, Blue, Cyan, Pink, Grey }

/// a reader that delivers one byte at a time
struct Drip<'a>(&'a [u8]);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() || b.is_empty() { return Ok(0); }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
fn e<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, String> { r.map_err(|x| format!("{what}: {x}")) }

/// the ordinary map form: exactly one Map token, each entry of the model once, nothing else
fn map_form<K: Serialize, V: Serialize>(name: &str, toks: &[Tok], model: &BTreeMap<K, V>) -> R {
    let Some(Tok::Map(n)) = toks.first() else { return Err(format!("{name}: serialised form does not start with a map: {toks:?}")) };
    ensure!(*n == Some(model.len()), "{name}: announces {n:?} entries, has {} (formats with a length prefix need it, and the standard collections announce it)", model.len());
    let mut exp: Vec<Vec<Tok>> = model.iter().map(|(k, v)| [to_tokens(k).unwrap(), to_tokens(v).unwrap()].concat()).collect();
    let w = exp.first().map_or(1, |x| x.len());
    ensure!(toks.last() == Some(&Tok::End) && (toks.len() - 2) % w == 0, "{name}: malformed token stream {toks:?}");
    let mut got: Vec<Vec<Tok>> = toks[1..toks.len() - 1].chunks(w).map(|c| c.to_vec()).collect();
    exp.sort();
    got.sort();
    ensure_eq!(got, exp, "{name}: serialised entries");
    Ok(())
}
fn set_form<K: Serialize>(name: &str, toks: &[Tok], model: &BTreeSet<K>) -> R {
    let Some(Tok::Seq(n)) = toks.first() else { return Err(format!("{name}: serialised form does not start with a sequence: {toks:?}")) };
    ensure!(*n == Some(model.len()), "{name}: announces {n:?} values, has {} (formats with a length prefix need it, and the standard collections announce it)", model.len());
    let mut exp: Vec<Tok> = model.iter().flat_map(|k| to_tokens(k).unwrap()).collect();
    ensure!(toks.last() == Some(&Tok::End), "{name}: malformed token stream {toks:?}");
    let mut got = toks[1..toks.len() - 1].to_vec();
    exp.sort();
    got.sort();
    ensure_eq!(got, exp, "{name}: serialised values");
    Ok(())
}

fn map_rt<K, V, M>(o: &mut Obs, m: &M, model: &BTreeMap<K, V>, qs: &[K], full: bool) -> R
where
    K: Ord + Debug + Clone + Serialize + DeserializeOwned,
    V: Eq + Debug + Clone + Serialize + DeserializeOwned,
    M: MapUT<K, V> + Serialize + DeserializeOwned + PartialEq,
{
    let toks = e("serialising", to_tokens(m))?;
    map_form(M::NAME, &toks, model)?;
    let text = e("to_string", serde_json::to_string(m))?;
    let mut got: Vec<(&str, M)> = vec![];
    got.push(("from_str", e("from_str", serde_json::from_str(&text))?));
    got.push(("from_slice", e("from_slice", serde_json::from_slice(text.as_bytes()))?));
    got.push(("from_reader", e("from_reader", serde_json::from_reader(text.as_bytes()))?));
    got.push(("from_reader (1 byte at a time)", e("drip", serde_json::from_reader(Drip(text.as_bytes())))?));
    got.push(("from_str of pretty text", e("pretty", serde_json::from_str(&e("pretty", serde_json::to_string_pretty(m))?))?));
    let val = e("to_value", serde_json::to_value(m))?;
    got.push(("&Value", e("&Value", M::deserialize(&val))?));
    got.push(("from_value", e("from_value", serde_json::from_value(val))?));
    let st = e("std text", serde_json::to_string(model))?;
    got.push(("text written by BTreeMap", e("std text", serde_json::from_str(&st))?));
    got.push(("value written by BTreeMap", e("std value", serde_json::from_value(serde_json::to_value(model).unwrap()))?));
    let back: BTreeMap<K, V> = e("BTreeMap from frozen text", serde_json::from_str(&text))?;
    ensure_eq!(&back, model, "{}: BTreeMap read from the serialised text", M::NAME);
    for hint in HINTS {
        for strs in [StrMode::Borrowed, StrMode::Transient, StrMode::Owned] {
            let mut d = De::new(&toks);
            d.hint = hint;
            d.strs = strs;
            got.push(("token stream", M::deserialize(&mut d).map_err(|x| format!("{}: token stream with size hint {hint:?}, strings {strs:?}: {}", M::NAME, x.0))?));
            ensure_eq!(d.pos, toks.len(), "{}: tokens consumed", M::NAME);
        }
    }
    o.t(got.len() as u64 + 3);
    for (n, mut g) in got {
        if g != *m { return Err(format!("{}: {n}: {g:?} != {m:?}", M::NAME)); }
        ensure!(*m == g, "{}: {n}: original != copy", M::NAME);
        audit_contents(o, &g, model).map_err(|x| format!("{n}: {x}"))?;
        audit_lookup_fast(o, &mut g, model, qs).map_err(|x| format!("{n}: {x}"))?;
    }
    if full {
        // fault at every token, truncation at every byte: an error, never a panic or a wrong collection
        for i in 0..toks.len() {
            for hint in HINTS {
                let mut d = De::new(&toks);
                d.hint = hint;
                d.fail_at = Some(i);
                if let Ok(g) = M::deserialize(&mut d) { return Err(format!("{}: read fault at token {i} of {toks:?} gave {g:?}", M::NAME)); }
                let mut d = De::new(&toks[..i]);
                d.hint = hint;
                if let Ok(g) = M::deserialize(&mut d) { return Err(format!("{}: stream cut at token {i} of {toks:?} gave {g:?}", M::NAME)); }
                o.t(2);
            }
            let mut s = mc::tok::Ser { fail_at: Some(i), ..Default::default() };
            ensure!(m.serialize(&mut s).is_err(), "{}: a write fault at token {i} is swallowed", M::NAME);
            ensure!(s.out[..] == toks[..i], "{}: output before the fault", M::NAME);
            o.t(1);
        }
        for i in 0..text.len() {
            if !text.is_char_boundary(i) { continue; }
            if let Ok(g) = serde_json::from_str::<M>(&text[..i]) { return Err(format!("{}: truncated text {:?} gave {g:?}", M::NAME, &text[..i])); }
            if let Ok(g) = serde_json::from_reader::<_, M>(&text.as_bytes()[..i]) { return Err(format!("{}: truncated bytes {:?} gave {g:?}", M::NAME, &text[..i])); }
            o.t(2);
        }
    }
    Ok(())
}
fn set_rt<K, M>(o: &mut Obs, m: &M, model: &BTreeSet<K>, qs: &[K], full: bool) -> R
where
    K: Ord + Debug + Clone + Serialize + DeserializeOwned,
    M: SetUT<K> + Serialize + DeserializeOwned + PartialEq,
{
    let toks = e("serialising", to_tokens(m))?;
    set_form(M::NAME, &toks, model)?;
    let text = e("to_string", serde_json::to_string(m))?;
    let mut got: Vec<(&str, M)> = vec![];
    got.push(("from_str", e("from_str", serde_json::from_str(&text))?));
    got.push(("from_slice", e("from_slice", serde_json::from_slice(text.as_bytes()))?));
    got.push(("from_reader", e("from_reader", serde_json::from_reader(text.as_bytes()))?));
    got.push(("from_reader (1 byte at a time)", e("drip", serde_json::from_reader(Drip(text.as_bytes())))?));
    let val = e("to_value", serde_json::to_value(m))?;
    got.push(("&Value", e("&Value", M::deserialize(&val))?));
    got.push(("from_value", e("from_value", serde_json::from_value(val))?));
    got.push(("text written by BTreeSet", e("std text", serde_json::from_str(&serde_json::to_string(model).unwrap()))?));
    got.push(("text written by Vec", e("vec text", serde_json::from_str(&serde_json::to_string(&model.iter().rev().collect::<Vec<_>>()).unwrap()))?));
    let back: BTreeSet<K> = e("BTreeSet from frozen text", serde_json::from_str(&text))?;
    ensure_eq!(&back, model, "{}: BTreeSet read from the serialised text", M::NAME);
    for hint in HINTS {
        for strs in [StrMode::Borrowed, StrMode::Transient, StrMode::Owned] {
            let mut d = De::new(&toks);
            d.hint = hint;
            d.strs = strs;
            got.push(("token stream", M::deserialize(&mut d).map_err(|x| format!("{}: token stream with size hint {hint:?}, strings {strs:?}: {}", M::NAME, x.0))?));
            ensure_eq!(d.pos, toks.len(), "{}: tokens consumed", M::NAME);
        }
    }
    o.t(got.len() as u64 + 3);
    for (n, g) in got {
        if g != *m { return Err(format!("{}: {n}: {g:?} != {m:?}", M::NAME)); }
        audit_set_contents(o, &g, model).map_err(|x| format!("{n}: {x}"))?;
        audit_set_lookup(o, &g, model, qs).map_err(|x| format!("{n}: {x}"))?;
    }
    if full {
        for i in 0..toks.len() {
            for hint in HINTS {
                let mut d = De::new(&toks);
                d.hint = hint;
                d.fail_at = Some(i);
                if let Ok(g) = M::deserialize(&mut d) { return Err(format!("{}: read fault at token {i} of {toks:?} gave {g:?}", M::NAME)); }
                let mut d = De::new(&toks[..i]);
                d.hint = hint;
                if let Ok(g) = M::deserialize(&mut d) { return Err(format!("{}: stream cut at token {i} of {toks:?} gave {g:?}", M::NAME)); }
                o.t(2);
            }
            let mut s = mc::tok::Ser { fail_at: Some(i), ..Default::default() };
            ensure!(m.serialize(&mut s).is_err(), "{}: a write fault at token {i} is swallowed", M::NAME);
            o.t(1);
        }
        for i in 0..text.len() {
            if !text.is_char_boundary(i) { continue; }
            if let Ok(g) = serde_json::from_str::<M>(&text[..i]) { return Err(format!("{}: truncated text {:?} gave {g:?}", M::NAME, &text[..i])); }
            o.t(1);
        }
    }
    Ok(())
}

/// all round trips for one entry list over a scalar key type
fn scal<K>(o: &mut Obs, es: &[(K, u32)], qs: &[K], full: bool) -> R
where
    K: Scalar + Ord + std::hash::Hash + Debug + Clone + Serialize + DeserializeOwned,
{
    let model: BTreeMap<K, u32> = model_map(es);
    let sm: BTreeSet<K> = model.keys().cloned().collect();
    let ks: Vec<K> = es.iter().map(|x| x.0).collect();
    map_rt(o, &FzHashMap::<K, u32, HF>::with_hasher(es.to_vec(), HF::Fold(3)), &model, qs, full)?;
    map_rt(o, &es.iter().cloned().collect::<FzHashMap<K, u32>>(), &model, qs, false)?;
    map_rt(o, &FzOrderedMap::new(es.to_vec()), &model, qs, full)?;
    map_rt(o, &FzScalarMap::new(es.to_vec()), &model, qs, full)?;
    set_rt(o, &FzHashSet::with_hasher(ks.clone(), HF::Fold(3)), &sm, qs, full)?;
    set_rt(o, &ks.iter().cloned().collect::<FzHashSet<K>>(), &sm, qs, false)?;
    set_rt(o, &FzOrderedSet::new(ks.clone()), &sm, qs, full)?;
    set_rt(o, &FzScalarSet::new(ks.clone()), &sm, qs, full)?;
    Ok(())
}
fn strs(o: &mut Obs, es: &[(String, u32)], qs: &[String], full: bool) -> R {
    let be: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (k.clone().into_boxed_str(), *v)).collect();
    let bq = bx(qs);
    let model: BTreeMap<Box<str>, u32> = model_map(&be);
    let sm: BTreeSet<Box<str>> = model.keys().cloned().collect();
    let oe: BTreeMap<String, u32> = model.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    map_rt(o, &FzStringMap::<Box<str>, u32>::new(be.clone()), &model, &bq, full)?;
    map_rt(o, &FzHashMap::with_hasher(be.clone(), HF::Fnv), &model, &bq, false)?;
    map_rt(o, &FzOrderedMap::new(es.to_vec()), &oe, qs, false)?;
    set_rt(o, &FzStringSet::<Box<str>>::new(be.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), &sm, &bq, full)?;
    set_rt(o, &FzHashSet::with_hasher(be.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), HF::Fnv), &sm, &bq, false)?;
    set_rt(o, &FzOrderedSet::new(es.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), &oe.keys().cloned().collect(), qs, false)?;
    Ok(())
}

/// differential reading: whatever the standard collection makes of a text, the frozen one must make of it
fn read_maps(o: &mut Obs, text: &str) -> R {
    macro_rules! one {
        ($name:literal, $k:ty, $m:ty) => {{
            let exp = serde_json::from_str::<BTreeMap<$k, u8>>(text);
            let got = serde_json::from_str::<$m>(text);
            let gor = serde_json::from_reader::<_, $m>(text.as_bytes());
            match (&exp, &got, &gor) {
                (Ok(e), Ok(g), Ok(h)) => { audit_contents(o, g, e)?; audit_contents(o, h, e)?; }
                (Err(_), Err(_), Err(_)) => {}
                _ => return Err(format!("{} from {text:?}: {:?} from text, {:?} from bytes, BTreeMap gives {:?}", $name, got.as_ref().map_err(|e| e.to_string()), gor.as_ref().map_err(|e| e.to_string()), exp.as_ref().map_err(|e| e.to_string()))),
            }
            let val: Result<serde_json::Value, _> = serde_json::from_str(text);
            if let Ok(v) = val {
                let ve = serde_json::from_value::<BTreeMap<$k, u8>>(v.clone());
                let vg = serde_json::from_value::<$m>(v);
                match (&ve, &vg) {
                    (Ok(e), Ok(g)) => audit_contents(o, g, e)?,
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("{} from value {text:?}: {:?}, BTreeMap gives {:?}", $name, vg.as_ref().map_err(|e| e.to_string()), ve.as_ref().map_err(|e| e.to_string()))),
                }
            }
            o.t(3);
        }};
    }
    one!("FzHashMap", u8, FzHashMap<u8, u8>);
    one!("FzOrderedMap", u8, FzOrderedMap<u8, u8>);
    one!("FzScalarMap", u8, FzScalarMap<u8, u8>);
    one!("FzStringMap", Box<str>, FzStringMap<Box<str>, u8>);
    Ok(())
}
fn read_sets(o: &mut Obs, text: &str) -> R {
    macro_rules! one {
        ($name:literal, $k:ty, $m:ty) => {{
            let exp = serde_json::from_str::<BTreeSet<$k>>(text);
            let got = serde_json::from_str::<$m>(text);
            let gor = serde_json::from_reader::<_, $m>(text.as_bytes());
            match (&exp, &got, &gor) {
                (Ok(e), Ok(g), Ok(h)) => { audit_set_contents(o, g, e)?; audit_set_contents(o, h, e)?; }
                (Err(_), Err(_), Err(_)) => {}
                _ => return Err(format!("{} from {text:?}: {:?} from text, {:?} from bytes, BTreeSet gives {:?}", $name, got.as_ref().map_err(|e| e.to_string()), gor.as_ref().map_err(|e| e.to_string()), exp.as_ref().map_err(|e| e.to_string()))),
            }
            o.t(2);
        }};
    }
    one!("FzHashSet", u8, FzHashSet<u8>);
    one!("FzOrderedSet", u8, FzOrderedSet<u8>);
    one!("FzScalarSet", u8, FzScalarSet<u8>);
    one!("FzStringSet", Box<str>, FzStringSet<Box<str>>);
    Ok(())
}

fn main() {
    let mut r = Run::new("C13");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let nmax = if deepest { 6 } else if deep { 5 } else { 4 };
    for (un, u) in id_universes() {
        r.bound(format!("round trips: every entry list up to length {nmax} over 4 keys ({un}), 8 kinds of collection; text, bytes, one byte at a time, value, token stream with 7 size hints x 3 string modes; a fault at every token and a cut at every byte (lists up to 3)"));
        r.scenario(&format!("round-trip/{un}"), |sc| {
            for n in 0..=nmax {
                sequences(4, n, |s| {
                    let es: Vec<(u32, u32)> = s.iter().enumerate().map(|(i, k)| (u[(*k + un.len()) % u.len()], 100 + i as u32)).collect();
                    sc.case(|| format!("{es:?}"), |o| {
                        o.state(&es);
                        scal(o, &es, &with_neighbours(&u), n <= 3)
                    });
                });
            }
        });
    }
    // every scalar width, extremes
    r.bound("round trips: all subsets of 6 extreme values for each of 10 integer types, and of a 6-variant enum");
    r.scenario("round-trip/types", |sc| {
        macro_rules! int { ($($t:ident)*) => { $({
            let u: [$t; 6] = [$t::MIN, $t::MIN + 1, 0 as $t, 5 as $t, $t::MAX - 1, $t::MAX];
            let mut u = u.to_vec(); u.sort(); u.dedup();
            for mask in 0..1usize << u.len() {
                let es: Vec<($t, u32)> = (0..u.len()).rev().filter(|i| mask >> i & 1 == 1).map(|i| (u[i], i as u32)).collect();
                sc.case(|| format!("{} {es:?}", stringify!($t)), |o| { o.state(&(stringify!($t), mask)); scal(o, &es, &u, true) });
            }
        })* }; }
        int!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
        let u = [Col::Red, Col::Green, Col::Blue, Col::Cyan, Col::Pink, Col::Grey];
        for mask in 0..64usize {
            let es: Vec<(Col, u32)> = (0..6).rev().filter(|i| mask >> i & 1 == 1).map(|i| (u[i], i as u32)).collect();
            sc.case(|| format!("{es:?}"), |o| { o.state(&("Col", mask)); scal(o, &es, &u, true) });
        }
    });
    for (un, u) in string_universes() {
        r.bound(format!("round trips: every entry list up to length {nmax} over 4 strings ({un})"));
        r.scenario(&format!("round-trip/strings/{un}"), |sc| {
            let us: Vec<String> = u.iter().map(|s| s.to_string()).collect();
            let qs = near_misses(&us);
            for n in 0..=nmax {
                sequences(4, n, |s| {
                    let es: Vec<(String, u32)> = s.iter().enumerate().map(|(i, k)| (us[(*k + un.len()) % us.len()].clone(), 100 + i as u32)).collect();
                    sc.case(|| format!("{es:?}"), |o| { o.state(&es); strs(o, &es, if n == nmax { &us } else { &qs }, n <= 3) });
                });
            }
        });
    }
    // strings that need escaping
    r.bound("round trips: all subsets of 9 strings that need escaping or are otherwise special in text formats");
    r.scenario("round-trip/escapes", |sc| {
        let us: Vec<String> = ["", "\"", "\\", "\n", "\0", "\u{1f600}", "\u{7f}\u{80}", "null", "a\tb"].iter().map(|s| s.to_string()).collect();
        for mask in 0..1usize << us.len() {
            let es: Vec<(String, u32)> = (0..us.len()).filter(|i| mask >> i & 1 == 1).map(|i| (us[i].clone(), i as u32)).collect();
            sc.case(|| format!("{es:?}"), |o| { o.state(&es); strs(o, &es, &us, mask.count_ones() <= 2) });
        }
    });
    // all sizes
    let top: usize = if deep { 1400 } else { 300 };
    r.bound(format!("round trips at every size up to {top}, three spreads, and around 4096 and 65536"));
    r.scenario("round-trip/sizes", |sc| {
        for spread in [1u32, 3, 100_003] {
            let big: Vec<usize> = if deep { vec![4095, 4096, 4097, 8192, 65535, 65536, 65537] } else { vec![4095, 4096, 4097] };
            for n in (0..=top).chain(big) {
                sc.case(|| format!("{n} keys, spread {spread}"), |o| {
                    o.state(&(n, spread));
                    let es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i.wrapping_mul(spread), i)).collect();
                    let model = model_map(&es);
                    let q = [0, 1, 2, n as u32, u32::MAX];
                    macro_rules! m { ($t:ty, $m:expr) => {{
                        let m: $t = $m;
                        let toks = to_tokens(&m).map_err(|e| e.0)?;
                        map_form("map", &toks, &model)?;
                        for hint in HINTS {
                            let mut d = De::new(&toks);
                            d.hint = hint;
                            let mut g = <$t>::deserialize(&mut d).map_err(|e| e.0)?;
                            audit_lookup_fast(o, &mut g, &model, &q)?;
                            if n > 400 { break; }
                        }
                        let mut g: $t = serde_json::from_str(&serde_json::to_string(&m).unwrap()).map_err(|e| e.to_string())?;
                        audit_lookup_fast(o, &mut g, &model, &q)?;
                        Run::tick();
                    }}; }
                    m!(FzHashMap<u32, u32>, FzHashMap::new(es.clone()));
                    m!(FzOrderedMap<u32, u32>, FzOrderedMap::new(es.clone()));
                    m!(FzScalarMap<u32, u32>, FzScalarMap::new(es.clone()));
                    let se: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (format!("k{k}").into_boxed_str(), *v)).collect();
                    let sm = model_map(&se);
                    let m = FzStringMap::<Box<str>, u32>::new(se);
                    let mut g: FzStringMap<Box<str>, u32> = serde_json::from_reader(serde_json::to_vec(&m).unwrap().as_slice()).map_err(|e| e.to_string())?;
                    audit_lookup_fast(o, &mut g, &sm, &bx(&["".into(), "k".into(), "k1".into(), "k0 ".into()]))
                });
            }
        }
    });
    // every token text
    let tl = if deep { 8 } else { 6 };
    for (kind, alpha) in [("map", ["{", "}", ":", ",", "\"1\"", "\"\\u0032\"", "3", "\"x\"", "[", "300"]), ("set", ["[", "]", ",", "1", "2", "\"\\u0032\"", "null", "-1", "{", "\"x\""])] {
        let na = if deep { 8 } else { 9 };
        r.bound(format!("reading: every text of up to {tl} tokens from {:?} as a {kind}, judged by BTreeMap/BTreeSet on the same text; from text, bytes and value", &alpha[..na]));
        r.scenario(&format!("reading/{kind}"), |sc| {
            for n in 0..=tl {
                sequences(na, n, |s| {
                    // texts of the full length must at least open correctly; shorter ones are unrestricted
                    if n == tl && s[0] != 0 { return; }
                    let text: String = s.iter().map(|i| alpha[*i]).collect::<Vec<_>>().join(" ");
                    sc.case(|| text.clone(), |o| {
                        o.state(&text);
                        if kind == "map" { read_maps(o, &text) } else { read_sets(o, &text) }
                    });
                });
            }
        });
    }
    // one-byte changes of valid texts
    r.bound("reading: every replacement of one byte of 8 valid texts by each of 20 bytes, every deletion and every insertion, judged by the standard collections");
    r.scenario("reading/damaged", |sc| {
        let maps = ["{}", r#"{"1":2}"#, r#"{"1":2,"7":3,"1":4}"#, r#"{ "10" : 255 , "11":0, "12":1,"13":9 }"#, r#"{"255":1,"0":1,"5":2}"#];
        let sets = ["[]", "[1]", "[1,7,1]", "[10, 11,12,13]", r#"["a","b","a\u00e9"]"#, "[255,0,5]"];
        let bytes = b"{}[],:\"\\019-.en \tax\x00\xff";
        for (set, list) in [(false, &maps[..]), (true, &sets[..])] {
            for t in list {
                let t = t.as_bytes();
                for p in 0..=t.len() {
                    for b in bytes.iter().map(|b| Some(*b)).chain([None]) {
                        for ins in [false, true] {
                            let mut v = t.to_vec();
                            match (b, ins) {
                                (Some(b), true) => v.insert(p, b),
                                (Some(b), false) if p < t.len() => v[p] = b,
                                (None, false) if p < t.len() => { v.remove(p); }
                                _ => continue,
                            }
                            let Ok(text) = String::from_utf8(v) else { continue };
                            sc.case(|| text.clone(), |o| {
                                o.state(&text);
                                if set { read_sets(o, &text) } else { read_maps(o, &text) }
                            });
                        }
                    }
                }
            }
        }
    });
    // every token stream (non-self-describing), including wrong declared lengths
    let sl = if deepest { 8 } else if deep { 7 } else { 6 };
    r.bound(format!("reading: every token stream of up to {sl} tokens from a 7-token alphabet (map/sequence starts with declared lengths, end, number, string), 3 size hints"));
    r.scenario("reading/tokens", |sc| {
        let alpha = [Tok::Map(Some(1)), Tok::Map(None), Tok::Seq(Some(2)), Tok::Seq(None), Tok::End, Tok::U(1), Tok::U(2), Tok::Str("a".into())];
        for n in 0..=sl {
            sequences(8, n, |s| {
                if n == sl && s[0] > 3 { return; }
                let toks: Vec<Tok> = s.iter().map(|i| alpha[*i].clone()).collect();
                sc.case(|| format!("{toks:?}"), |o| {
                    o.state(&toks);
                    macro_rules! one { ($what:literal, $std:ty, $fz:ty, $cmp:expr) => {{
                        for h in [HINTS[0], HINTS[2], HINTS[6]] {
                            let mut d = De::new(&toks);
                            let mut f = De::new(&toks);
                            f.hint = h;
                            let (e, g) = (<$std>::deserialize(&mut d), <$fz>::deserialize(&mut f));
                            match (&e, &g) {
                                (Ok(e), Ok(g)) => { let c: fn(&mut Obs, &$fz, &$std) -> R = $cmp; c(o, g, e)?; ensure_eq!(f.pos, d.pos, "{} tokens consumed", $what); }
                                (Err(_), Err(_)) => {}
                                _ => return Err(format!("{} from {toks:?}: {g:?}, standard {e:?}", $what)),
                            }
                            o.t(1);
                        }
                    }}; }
                    one!("FzHashMap", BTreeMap<u8, u8>, FzHashMap<u8, u8>, |o, g, e| audit_contents(o, g, e));
                    one!("FzOrderedMap", BTreeMap<u8, u8>, FzOrderedMap<u8, u8>, |o, g, e| audit_contents(o, g, e));
                    one!("FzScalarMap", BTreeMap<u8, u8>, FzScalarMap<u8, u8>, |o, g, e| audit_contents(o, g, e));
                    one!("FzStringMap", BTreeMap<Box<str>, u8>, FzStringMap<Box<str>, u8>, |o, g, e| audit_contents(o, g, e));
                    one!("FzHashSet", BTreeSet<u8>, FzHashSet<u8>, |o, g, e| audit_set_contents(o, g, e));
                    one!("FzOrderedSet", BTreeSet<u8>, FzOrderedSet<u8>, |o, g, e| audit_set_contents(o, g, e));
                    one!("FzScalarSet", BTreeSet<u8>, FzScalarSet<u8>, |o, g, e| audit_set_contents(o, g, e));
                    one!("FzStringSet", BTreeSet<Box<str>>, FzStringSet<Box<str>>, |o, g, e| audit_set_contents(o, g, e));
                    Ok(())
                });
            });
        }
    });
    // macro-made collections: serialised form, read back as run-time collections
    r.bound("macro-made collections of every implementation: serialised form, read back as each run-time collection");
    r.scenario("macro-made", |sc| {
        macro_rules! m { ($n:expr, $md:ident) => { sc.case(|| $n.to_string(), |o| {
            let c = mc::inl::maps::$md::make();
            let model: BTreeMap<_, _> = mc::inl::maps::$md::entries().into_iter().collect();
            o.state(&($n, &model));
            map_form($n, &to_tokens(&c).map_err(|e| e.0)?, &model)?;
            let t = serde_json::to_string(&c).map_err(|e| e.to_string())?;
            let v = serde_json::to_value(&c).map_err(|e| e.to_string())?;
            for i in 0..to_tokens(&c).unwrap().len() {
                let mut s = mc::tok::Ser { fail_at: Some(i), ..Default::default() };
                ensure!(c.serialize(&mut s).is_err(), "a write fault at token {i} is swallowed");
            }
            m!(@back o, t, v, model, $md);
            Ok(())
        }); };
        (@back $o:ident, $t:ident, $v:ident, $model:ident, $md:ident) => { back_map($o, &$t, $v, &$model)?; }; }
        fn back_map<K: Scalar + std::hash::Hash + Ord + Clone + Debug + DeserializeOwned>(o: &mut Obs, t: &str, v: serde_json::Value, model: &BTreeMap<K, u32>) -> R {
            audit_contents(o, &serde_json::from_str::<FzHashMap<K, u32>>(t).map_err(|e| e.to_string())?, model)?;
            audit_contents(o, &serde_json::from_str::<FzScalarMap<K, u32>>(t).map_err(|e| e.to_string())?, model)?;
            audit_contents(o, &serde_json::from_value::<FzOrderedMap<K, u32>>(v).map_err(|e| e.to_string())?, model)
        }
        each_inl_int_map!(m);
        macro_rules! ms { ($n:expr, $md:ident) => { sc.case(|| $n.to_string(), |o| {
            let c = mc::inl::maps::$md::make();
            let model: BTreeMap<Box<str>, u32> = mc::inl::maps::$md::entries().into_iter().map(|(k, v)| (k.into(), v)).collect();
            o.state(&($n, &model));
            map_form($n, &to_tokens(&c).map_err(|e| e.0)?, &model)?;
            audit_contents(o, &serde_json::from_str::<FzStringMap<Box<str>, u32>>(&serde_json::to_string(&c).unwrap()).map_err(|e| e.to_string())?, &model)
        }); }; }
        each_inl_str_map!(ms);
        macro_rules! s { ($n:expr, $md:ident) => { sc.case(|| $n.to_string(), |o| {
            let c = mc::inl::sets::$md::make();
            let model: BTreeSet<u32> = mc::inl::sets::$md::entries().into_iter().collect();
            o.state(&($n, &model));
            set_form($n, &to_tokens(&c).map_err(|e| e.0)?, &model)?;
            let t = serde_json::to_string(&c).map_err(|e| e.to_string())?;
            audit_set_contents(o, &serde_json::from_str::<FzHashSet<u32>>(&t).map_err(|e| e.to_string())?, &model)?;
            audit_set_contents(o, &serde_json::from_str::<FzScalarSet<u32>>(&t).map_err(|e| e.to_string())?, &model)?;
            audit_set_contents(o, &serde_json::from_str::<FzOrderedSet<u32>>(&t).map_err(|e| e.to_string())?, &model)
        }); }; }
        each_inl_int_set!(s);
        macro_rules! ss { ($n:expr, $md:ident) => { sc.case(|| $n.to_string(), |o| {
            let c = mc::inl::sets::$md::make();
            let model: BTreeSet<Box<str>> = mc::inl::sets::$md::entries().into_iter().map(Into::into).collect();
            o.state(&($n, &model));
            set_form($n, &to_tokens(&c).map_err(|e| e.0)?, &model)?;
            audit_set_contents(o, &serde_json::from_reader::<_, FzStringSet<Box<str>>>(serde_json::to_vec(&c).unwrap().as_slice()).map_err(|e| e.to_string())?, &model)
        }); }; }
        each_inl_str_set!(ss);
    });
    // nested and borrowed
    r.bound("nested frozen collections as values; borrowed string keys");
    r.scenario("nested", |sc| {
        for n in 0..=6usize {
            sc.case(|| format!("{n} inner maps"), |o| {
                o.state(&n);
                type In = FzStringMap<Box<str>, FzOrderedSet<i16>>;
                let es: Vec<(u32, In)> = (0..n as u32).map(|i| (i * 3, In::new((0..i).map(|j| (format!("{j}").into_boxed_str(), FzOrderedSet::new((0..j as i16).map(|x| -x).collect::<Vec<_>>()))).collect::<Vec<_>>()))).collect();
                let m = FzScalarMap::new(es.clone());
                let t = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                let g: FzScalarMap<u32, In> = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                let h: FzHashMap<u32, In> = serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string())?;
                ensure!(g == m && m == g && h == m, "nested collection changed by a round trip: {t}");
                let toks = to_tokens(&m).map_err(|e| e.0)?;
                let k: FzScalarMap<u32, In> = Deserialize::deserialize(&mut De::new(&toks)).map_err(|e: mc::tok::TErr| e.0)?;
                ensure!(k == m, "nested collection changed by a token round trip: {t}");
                let text = format!("{{{}}}", (0..n).map(|i| format!("\"k{i}\":{i}")).collect::<Vec<_>>().join(","));
                let b: FzHashMap<&str, u32> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                let c: FzOrderedMap<&str, u32> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                ensure!(b == c && b.len() == n && (0..n as u32).all(|i| b.get(&format!("k{i}").as_str()) == Some(&i)), "borrowed keys from {text}");
                o.t(6);
                Ok(())
            });
        }
    });
    // sets and string collections beyond every internal chunk, with and without a size hint
    r.bound("sets, string sets and string maps of 23 sizes 255..10000 and 65535..=65537 (thorough 131073): text, bytes and token stream with 7 size hints, against the contents");
    r.scenario("round-trip/large", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for kind in 0..5 {
                sc.case(|| format!("{n} values, {}", ["hash", "ordered", "scalar", "string set", "string map"][kind]), |o| {
                    o.state(&(n, kind));
                    let ks: Vec<u32> = (0..n as u32).map(|i| 3 * i + 1).collect();
                    let es: Vec<(u32, u32)> = ks.iter().map(|k| (*k, k / 3)).collect();
                    let sv: Vec<Box<str>> = { let mut v: Vec<Box<str>> = ks.iter().map(|k| format!("k{k}").into()).collect(); v.sort(); v };
                    let se: Vec<(Box<str>, u32)> = sv.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect();
                    let (an, sn) = ([0u32, 2, 3, 3 * n as u32 + 1], bx(&["".into(), "k".into(), "k0".into(), "k3".into()]));
                    // each copy, checked by its own lookups
                    macro_rules! rt { ($t:ty, $c:expr, |$g:ident| $audit:expr) => {{
                        let c: $t = $c;
                        let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
                        let toks = to_tokens(&c).map_err(|e| e.0)?;
                        let mut $g: $t = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                        $audit.map_err(|e| format!("from text: {e}"))?;
                        if $g != c { return Err("the copy read from text differs from the original".into()); }
                        let mut $g: $t = serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string())?;
                        $audit.map_err(|e| format!("from bytes: {e}"))?;
                        for hint in HINTS {
                            let mut d = De::new(&toks);
                            d.hint = hint;
                            let mut $g = <$t>::deserialize(&mut d).map_err(|e| format!("token stream with size hint {hint:?}: {}", e.0))?;
                            $audit.map_err(|e| format!("token stream with size hint {hint:?}: {e}"))?;
                            let _ = &mut $g;
                        }
                        let _ = &mut $g;
                    }} }
                    match kind {
                        0 => {
                            rt!(FzHashSet<u32>, FzHashSet::new(ks.clone()), |g| big_set_lookup(o, &g, &ks, &an));
                            rt!(FzHashMap<u32, u32>, FzHashMap::new(es.clone()), |g| big_map_lookup(o, &mut g, &es, &an));
                        }
                        1 => {
                            rt!(FzOrderedSet<u32>, FzOrderedSet::new(ks.clone()), |g| big_set_lookup(o, &g, &ks, &an));
                            rt!(FzOrderedMap<u32, u32>, FzOrderedMap::new(es.clone()), |g| big_map_lookup(o, &mut g, &es, &an));
                        }
                        2 => {
                            rt!(FzScalarSet<u32>, FzScalarSet::new(ks.clone()), |g| big_set_lookup(o, &g, &ks, &an));
                            rt!(FzScalarMap<u32, u32>, FzScalarMap::new(es.clone()), |g| big_map_lookup(o, &mut g, &es, &an));
                        }
                        3 => rt!(FzStringSet<Box<str>>, FzStringSet::new(sv.clone()), |g| big_set_lookup(o, &g, &sv, &sn)),
                        _ => rt!(FzStringMap<Box<str>, u32>, FzStringMap::new(se.clone()), |g| big_map_lookup(o, &mut g, &se, &sn)),
                    }
                    Ok(())
                });
            }
        }
    });
    r.finish()
}
