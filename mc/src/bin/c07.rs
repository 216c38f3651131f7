//! C07: of equal keys, exactly the last entry is kept, whichever way the collection is built.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use serde::de::value::{Error as VErr, MapDeserializer, SeqDeserializer};
use serde::{Deserialize, Deserializer};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// key with a visible part outside its identity; deserialised from one integer
#[derive(Clone, Copy, Debug)]
struct DK {
    id: u32,
    tag: u32,
}
impl DK {
    fn enc(&self) -> u64 {
        (u64::from(self.id) << 32) | u64::from(self.tag)
    }
}
impl PartialEq for DK {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for DK {}
impl PartialOrd for DK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for DK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.id.cmp(&o.id)
    }
}
impl Hash for DK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl frozen_collections_core::traits::Scalar for DK {
    fn index(&self) -> usize {
        self.id as usize
    }
}
impl<'de> Deserialize<'de> for DK {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = u64::deserialize(d)?;
        Ok(DK { id: (v >> 32) as u32, tag: v as u32 })
    }
}

type Model = BTreeMap<u32, (u32, u32)>;

fn check_map<M: MapUT<DK, u32>>(o: &mut Obs, how: &str, m: &M, model: &Model) -> R {
    ensure_eq!(m.u_len(), model.len(), "{} built by {how}: len", M::NAME);
    let mut got: Vec<(u32, u32, u32)> = m.u_iter().map(|(k, v)| (k.id, k.tag, *v)).collect();
    got.sort();
    let exp: Vec<(u32, u32, u32)> = model.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
    ensure_eq!(got, exp, "{} built by {how}: (id, tag, value) entries", M::NAME);
    for (id, (tag, v)) in model {
        let q = DK { id: *id, tag: 4242 };
        ensure_eq!(m.u_get_kv(&q).map(|(k, v)| (k.id, k.tag, *v)), Some((*id, *tag, *v)), "{} built by {how}: get_key_value({id})", M::NAME);
        ensure_eq!(m.u_get(&q), Some(v), "{} built by {how}: get({id})", M::NAME);
    }
    o.t(2 * model.len() as u64 + 2);
    Ok(())
}
fn check_set<S: SetUT<DK>>(o: &mut Obs, how: &str, m: &S, model: &Model) -> R {
    ensure_eq!(m.u_len(), model.len(), "{} built by {how}: len", S::NAME);
    let mut got: Vec<(u32, u32)> = m.u_iter().map(|k| (k.id, k.tag)).collect();
    got.sort();
    let exp: Vec<(u32, u32)> = model.iter().map(|(k, v)| (*k, v.0)).collect();
    ensure_eq!(got, exp, "{} built by {how}: (id, tag) values", S::NAME);
    for (id, (tag, _)) in model {
        ensure_eq!(m.u_get(&DK { id: *id, tag: 4242 }).map(|k| k.tag), Some(*tag), "{} built by {how}: get({id})", S::NAME);
    }
    o.t(model.len() as u64 + 2);
    Ok(())
}

/// every way of building, for one id sequence
fn all_ways(o: &mut Obs, ids: &[u32], full: bool) -> R {
    let es: Vec<(DK, u32)> = ids.iter().enumerate().map(|(p, i)| (DK { id: *i, tag: p as u32 }, 100 + p as u32)).collect();
    let ks: Vec<DK> = es.iter().map(|e| e.0).collect();
    let mut model = Model::new();
    for (k, v) in &es {
        model.insert(k.id, (k.tag, *v));
    }
    o.state(&model);
    let menu = [HF::Const(0), HF::Ident, HF::Fold(7), HF::Shl(4)];
    for h in &menu {
        check_map(o, &format!("with_hasher({h:?})"), &FzHashMap::with_hasher(es.clone(), h.clone()), &model)?;
        check_set(o, &format!("with_hasher({h:?})"), &FzHashSet::with_hasher(ks.clone(), h.clone()), &model)?;
    }
    let json_map = format!("{{{}}}", es.iter().map(|(k, v)| format!("\"{}\":{}", k.enc(), v)).collect::<Vec<_>>().join(","));
    let json_seq = format!("[{}]", ks.iter().map(|k| k.enc().to_string()).collect::<Vec<_>>().join(","));
    macro_rules! ways { ($t:ty, $s:ty) => {
        check_map(o, "new", &<$t>::new(es.clone()), &model)?;
        check_map(o, "collect", &es.iter().copied().collect::<$t>(), &model)?;
        check_set(o, "new", &<$s>::new(ks.clone()), &model)?;
        check_set(o, "collect", &ks.iter().copied().collect::<$s>(), &model)?;
        if full {
            if let Some(m) = from_array!($t, es.clone()) { check_map(o, "from array", &m, &model)?; }
            if let Some(m) = from_array!($s, ks.clone()) { check_set(o, "from array", &m, &model)?; }
            // iterators without an exact size
            check_map(o, "collect from unsized iterator", &es.iter().copied().filter(|_| true).collect::<$t>(), &model)?;
            check_set(o, "collect from unsized iterator", &ks.iter().copied().filter(|_| true).collect::<$s>(), &model)?;
        }
        check_map(o, "deserialising text", &serde_json::from_str::<$t>(&json_map).map_err(|e| e.to_string())?, &model)?;
        check_set(o, "deserialising text", &serde_json::from_str::<$s>(&json_seq).map_err(|e| e.to_string())?, &model)?;
        check_map(o, "deserialising entries", &<$t>::deserialize(MapDeserializer::<_, VErr>::new(es.iter().map(|(k, v)| (k.enc(), *v)))).map_err(|e| e.to_string())?, &model)?;
        check_set(o, "deserialising values", &<$s>::deserialize(SeqDeserializer::<_, VErr>::new(ks.iter().map(|k| k.enc()))).map_err(|e| e.to_string())?, &model)?;
    } }
    ways!(FzHashMap<DK, u32>, FzHashSet<DK>);
    ways!(FzOrderedMap<DK, u32>, FzOrderedSet<DK>);
    ways!(FzScalarMap<DK, u32>, FzScalarSet<DK>);
    // sets made from maps
    let unit: Vec<(DK, ())> = ks.iter().map(|k| (*k, ())).collect();
    check_set(o, "from map", &FzHashSet::from(FzHashMap::with_hasher(unit.clone(), HF::Ident)), &model)?;
    check_set(o, "from map", &FzOrderedSet::from(FzOrderedMap::new(unit.clone())), &model)?;
    check_set(o, "from map", &FzScalarSet::from(FzScalarMap::new(unit.clone())), &model)?;
    Ok(())
}

fn strings_ways(o: &mut Obs, keys: &[&str]) -> R {
    let es: Vec<(&str, u32)> = keys.iter().enumerate().map(|(p, k)| (*k, 100 + p as u32)).collect();
    let model: BTreeMap<&str, u32> = es.iter().copied().collect();
    o.state(&model);
    fn chk<BH: std::hash::BuildHasher>(o: &mut Obs, how: &str, m: &FzStringMap<Box<str>, u32, BH>, model: &BTreeMap<&str, u32>) -> R {
        ensure_eq!(m.len(), model.len(), "FzStringMap by {how}: len");
        let mut got: Vec<(&str, u32)> = m.iter().map(|(k, v)| (k.as_ref(), *v)).collect();
        got.sort();
        ensure_eq!(got, model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "FzStringMap by {how}: entries");
        for (k, v) in model {
            ensure_eq!(m.get(k), Some(v), "FzStringMap by {how}: get({k:?})");
        }
        o.t(model.len() as u64 + 2);
        Ok(())
    }
    fn chks<BH: std::hash::BuildHasher>(o: &mut Obs, how: &str, m: &FzStringSet<Box<str>, BH>, model: &BTreeMap<&str, u32>) -> R {
        ensure_eq!(m.len(), model.len(), "FzStringSet by {how}: len");
        let mut got: Vec<&str> = m.iter().map(|k| k.as_ref()).collect();
        got.sort();
        ensure_eq!(got, model.keys().copied().collect::<Vec<_>>(), "FzStringSet by {how}: values");
        o.t(2);
        Ok(())
    }
    let ks = keys.to_vec();
    chk(o, "new", &FzStringMap::new(es.clone()), &model)?;
    chk(o, "new(String)", &FzStringMap::new(es.iter().map(|(k, v)| (k.to_string(), *v)).collect::<Vec<_>>()), &model)?;
    chk(o, "collect", &es.iter().copied().collect::<FzStringMap<Box<str>, u32>>(), &model)?;
    chks(o, "new", &FzStringSet::new(ks.clone()), &model)?;
    chks(o, "collect", &ks.iter().copied().collect::<FzStringSet<Box<str>>>(), &model)?;
    if let Some(m) = from_array!(FzStringMap<Box<str>, u32>, es.clone()) { chk(o, "from array", &m, &model)?; }
    if let Some(m) = from_array!(FzStringSet<Box<str>>, ks.clone()) { chks(o, "from array", &m, &model)?; }
    for h in [HF::Const(0), HF::First, HF::Len, HF::Fold(3)] {
        chk(o, "with_hasher", &FzStringMap::with_hasher(es.clone(), h.clone()), &model)?;
        chks(o, "with_hasher", &FzStringSet::with_hasher(ks.clone(), h), &model)?;
    }
    let json_map = format!("{{{}}}", es.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let json_seq = format!("[{}]", ks.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    chk(o, "deserialising text", &serde_json::from_str::<FzStringMap<Box<str>, u32>>(&json_map).map_err(|e| e.to_string())?, &model)?;
    chks(o, "deserialising text", &serde_json::from_str::<FzStringSet<Box<str>>>(&json_seq).map_err(|e| e.to_string())?, &model)?;
    chk(o, "deserialising bytes", &serde_json::from_reader::<_, FzStringMap<Box<str>, u32>>(json_map.as_bytes()).map_err(|e| e.to_string())?, &model)?;
    chks(o, "deserialising bytes", &serde_json::from_reader::<_, FzStringSet<Box<str>>>(json_seq.as_bytes()).map_err(|e| e.to_string())?, &model)?;
    // the same strings as keys of the other run-time collections
    let owned: Vec<(String, u32)> = es.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let m2: BTreeMap<String, u32> = owned.iter().cloned().collect();
    audit_contents(o, &FzHashMap::with_hasher(owned.clone(), HF::Fold(1)), &m2)?;
    audit_contents(o, &FzHashMap::with_hasher(owned.clone(), HF::Const(1)), &m2)?;
    audit_contents(o, &FzOrderedMap::new(owned), &m2)
}

/// many entries: the last one of each key survives, in every family and way of building
fn huge_ways(o: &mut Obs, ids: &[u32]) -> R {
    let es: Vec<(DK, u32)> = ids.iter().enumerate().map(|(p, i)| (DK { id: *i, tag: p as u32 }, p as u32)).collect();
    let mut exp = es.clone();
    exp.reverse();
    exp.sort_by_key(|e| e.0.id);
    exp.dedup_by_key(|e| e.0.id);
    fn same<M: MapUT<DK, u32>>(o: &mut Obs, how: &str, m: &M, exp: &[(DK, u32)]) -> R {
        let mut got: Vec<(DK, u32)> = m.u_iter().map(|(k, v)| (*k, *v)).collect();
        got.sort_by_key(|e| e.0.id);
        let wrong = got.iter().zip(exp).find(|(a, b)| (a.0.id, a.0.tag, a.1) != (b.0.id, b.0.tag, b.1));
        ensure!(m.u_len() == exp.len() && got.len() == exp.len() && wrong.is_none(), "{} built by {how}: len {}, {} entries, {} expected; first wrong {wrong:?}", M::NAME, m.u_len(), got.len(), exp.len());
        for (k, v) in exp {
            ensure!(m.u_get_kv(&DK { id: k.id, tag: 7 }).map(|(k, v)| (k.tag, *v)) == Some((k.tag, *v)), "{} built by {how}: key {} has {:?}, expected ({}, {v})", M::NAME, k.id, m.u_get_kv(k), k.tag);
        }
        o.t(2 * exp.len() as u64 + 2);
        Run::tick();
        Ok(())
    }
    fn sames<M: SetUT<DK>>(o: &mut Obs, how: &str, m: &M, exp: &[(DK, u32)]) -> R {
        let mut got: Vec<DK> = m.u_iter().copied().collect();
        got.sort_by_key(|e| e.id);
        let wrong = got.iter().zip(exp).find(|(a, b)| (a.id, a.tag) != (b.0.id, b.0.tag));
        ensure!(m.u_len() == exp.len() && got.len() == exp.len() && wrong.is_none(), "{} built by {how}: len {}, {} values, {} expected; first wrong {wrong:?}", M::NAME, m.u_len(), got.len(), exp.len());
        for (k, _) in exp {
            ensure!(m.u_get(&DK { id: k.id, tag: 7 }).map(|k| k.tag) == Some(k.tag), "{} built by {how}: value {} is {:?}, expected tag {}", M::NAME, k.id, m.u_get(k), k.tag);
        }
        o.t(2 * exp.len() as u64 + 2);
        Run::tick();
        Ok(())
    }
    let ks: Vec<DK> = es.iter().map(|e| e.0).collect();
    same(o, "with_hasher", &FzHashMap::with_hasher(es.clone(), HF::Fold(7)), &exp)?;
    same(o, "collect", &es.iter().copied().filter(|_| true).collect::<FzHashMap<DK, u32>>(), &exp)?;
    same(o, "new", &FzOrderedMap::new(es.clone()), &exp)?;
    same(o, "new", &FzScalarMap::new(es.clone()), &exp)?;
    sames(o, "with_hasher", &FzHashSet::with_hasher(ks.clone(), HF::Ident), &exp)?;
    sames(o, "new", &FzOrderedSet::new(ks.clone()), &exp)?;
    sames(o, "new", &FzScalarSet::new(ks.clone()), &exp)?;
    macro_rules! de { ($t:ty, $s:ty) => {
        same(o, "deserialising entries", &<$t>::deserialize(MapDeserializer::<_, VErr>::new(es.iter().map(|(k, v)| (k.enc(), *v)))).map_err(|e| e.to_string())?, &exp)?;
        sames(o, "deserialising values", &<$s>::deserialize(SeqDeserializer::<_, VErr>::new(ks.iter().map(|k| k.enc()))).map_err(|e| e.to_string())?, &exp)?;
    } }
    de!(FzHashMap<DK, u32>, FzHashSet<DK>);
    de!(FzOrderedMap<DK, u32>, FzOrderedSet<DK>);
    de!(FzScalarMap<DK, u32>, FzScalarSet<DK>);
    // the same repetitions among strings
    let st: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (format!("k{:06}", k.id).into(), *v)).collect();
    let se: Vec<(Box<str>, u32)> = exp.iter().map(|(k, v)| (format!("k{:06}", k.id).into(), *v)).collect();
    let m = FzStringMap::<Box<str>, u32, _>::with_hasher(st.clone(), HF::Fold(3));
    let mut got: Vec<(&str, u32)> = m.iter().map(|(k, v)| (&**k, *v)).collect();
    got.sort();
    let mut want: Vec<(&str, u32)> = se.iter().map(|(k, v)| (&**k, *v)).collect();
    want.sort();
    ensure!(got == want, "FzStringMap: {} entries, {} expected; first wrong {:?}", got.len(), want.len(), got.iter().zip(&want).find(|(a, b)| a != b));
    for (k, v) in &want { ensure!(m.get(*k) == Some(v), "FzStringMap get({k:?}): {:?}, expected {v}", m.get(*k)); }
    let s = FzStringSet::<Box<str>, _>::with_hasher(st.into_iter().map(|e| e.0).collect::<Vec<_>>(), HF::Fold(3));
    let mut got: Vec<&str> = s.iter().map(|k| &**k).collect();
    got.sort();
    ensure!(got.iter().eq(want.iter().map(|e| &e.0)), "FzStringSet: {} values, {} expected", got.len(), want.len());
    o.t(2 * want.len() as u64);
    Run::tick();
    Ok(())
}

fn main() {
    let mut r = Run::new("C07");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    // every repetition pattern over k ids, contiguous and scattered
    for (un, u) in [("contiguous", vec![3u32, 4, 5, 6, 7]), ("gaps", vec![9, 2, 40, 100, 77]), ("scattered", vec![0, u32::MAX, 1 << 20, 5, 1 << 31])] {
        for (k, n) in if deepest { vec![(2usize, 14usize), (3, 11), (4, 9), (5, 8)] } else if deep { vec![(2usize, 11usize), (3, 9), (4, 7), (5, 6)] } else { vec![(2, 9), (3, 7), (4, 6), (5, 5)] } {
            r.bound(format!("all sequences of length <={n} over {k} keys ({un})"));
            r.scenario(&format!("patterns/{un}/{k}"), |sc| {
                for len in 0..=n {
                    sequences(k, len, |s| {
                        sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                            let ids: Vec<u32> = s.iter().map(|i| u[*i]).collect();
                            all_ways(o, &ids, true)
                        });
                    });
                }
            });
        }
    }
    for (un, u) in string_universes() {
        let (k, n) = if deepest { (4, 9) } else if deep { (4, 7) } else { (4, 5) };
        r.scenario(&format!("patterns/strings/{un}"), |sc| {
            for len in 0..=n {
                sequences(k, len, |s| {
                    sc.case(|| format!("keys {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let ks: Vec<&str> = s.iter().map(|i| u[*i]).collect();
                        strings_ways(o, &ks)
                    });
                });
            }
        });
    }
    // many keys, every multiplicity pattern of a menu, around the internal size limits
    r.bound("n keys (up to 1001; thorough 3000) x 8 repetition patterns x 3 id spreads, every way of building");
    r.scenario("large", |sc| {
        let ns: Vec<usize> = if deep { (2..=140).chain([254, 255, 256, 257, 511, 512, 999, 1000, 1001, 3000]).collect() } else { (2..=12).chain([19, 20, 21, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 500, 999, 1000, 1001]).collect() };
        for &n in &ns {
            for pat in 0..8 {
                for spread in [1u32, 3, 100_003] {
                    if n >= 3000 && pat % 3 != 0 { continue; }
                    sc.case(|| format!("{n} keys, repetition pattern {pat}, spread {spread}"), |o| {
                        let b: Vec<u32> = (0..n as u32).map(|i| 5 + i * spread).collect();
                        let mut v: Vec<u32> = match pat {
                            0 => b.iter().chain(b.iter()).copied().collect(),
                            1 => b.iter().flat_map(|x| [*x, *x]).collect(),
                            2 => b.iter().chain(b.iter().rev()).copied().collect(),
                            3 => b.iter().copied().chain([b[0]]).collect(),
                            4 => [b[n - 1]].into_iter().chain(b.iter().copied()).collect(),
                            5 => b.iter().enumerate().flat_map(|(i, x)| vec![*x; i % 4 + 1]).collect(),
                            6 => b.iter().copied().chain(b.iter().copied().step_by(2)).collect(),
                            _ => b.iter().copied().chain(b[n / 2..].iter().copied()).chain(b[..n / 2].iter().copied()).collect(),
                        };
                        if pat == 5 { v.rotate_left(n / 3); }
                        all_ways(o, &v, false)?;
                        if spread == 1 {
                            let st: Vec<String> = v.iter().map(|x| format!("k{x:05}")).collect();
                            strings_ways(o, &st.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // unequal spellings of equal keys: case-insensitive strings, signed zero etc. keep the last spelling
    r.scenario("spellings", |sc| {
        let u = ["a", "A", "b", "B", "ab"];
        for len in 0..=(if deepest { 9 } else if deep { 7 } else { 6 }) {
            sequences(u.len(), len, |s| {
                sc.case(|| format!("keys {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                    let es: Vec<(NC, usize)> = s.iter().enumerate().map(|(p, i)| (NC(u[*i]), p)).collect();
                    let mut model: BTreeMap<String, (&str, usize)> = BTreeMap::new();
                    for (k, p) in &es { model.insert(k.0.to_lowercase(), (k.0, *p)); }
                    o.state(&model);
                    let exp: Vec<(&str, usize)> = model.values().copied().collect();
                    let norm = |v: Vec<(&'static str, usize)>| { let mut v = v; v.sort_by_key(|x| x.0.to_lowercase()); v };
                    ensure_eq!(norm(FzHashMap::with_hasher(es.clone(), HF::Fold(1)).iter().map(|(k, v)| (k.0, *v)).collect()), exp, "FzHashMap last spelling");
                    ensure_eq!(norm(FzHashMap::with_hasher(es.clone(), HF::Const(1)).iter().map(|(k, v)| (k.0, *v)).collect()), exp, "FzHashMap (const hash) last spelling");
                    ensure_eq!(norm(FzOrderedMap::new(es.clone()).iter().map(|(k, v)| (k.0, *v)).collect()), exp, "FzOrderedMap last spelling");
                    ensure_eq!(norm(FzOrderedSet::new(es.iter().map(|e| e.0).collect()).iter().map(|k| (k.0, 0)).collect()), exp.iter().map(|x| (x.0, 0)).collect::<Vec<_>>(), "FzOrderedSet last spelling");
                    ensure_eq!(norm(FzHashSet::with_hasher(es.iter().map(|e| e.0).collect(), HF::Fold(2)).iter().map(|k| (k.0, 0)).collect()), exp.iter().map(|x| (x.0, 0)).collect::<Vec<_>>(), "FzHashSet last spelling");
                    o.t(5);
                    Ok(())
                });
            });
        }
    });
    // beyond every internal width: few repetitions, far apart
    r.bound("sizes 255..70000 (thorough 131073): one repeated key with its two entries at each of ~120 pairs of positions (~25 at sizes above 1100; thorough 2100), everything twice in a row or twice over (up to 16385; level 2 all sizes); every way of building");
    r.scenario("huge", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            let mut pairs: Vec<(usize, usize)> = if n <= 17_000 || deepest { vec![(n, n), (n, 0)] } else { vec![] };
            let ps = some_positions(n, u8::from(deep) + u8::from(deepest));
            for w in ps.windows(2) { pairs.push((w[0], w[1])); }
            for p in &ps { if *p > 0 { pairs.push((0, *p)); } if *p + 1 < n { pairs.push((*p, n - 1)); } }
            pairs.sort();
            pairs.dedup();
            for (a, b) in pairs {
                sc.case(|| if a == n { format!("{n} keys, all {}", if b == 0 { "twice over" } else { "twice in a row" }) } else { format!("{n} entries, the same key at {a} and {b}") }, |o| {
                    o.state(&(n, a, b));
                    let spread = if (a + b) % 2 == 0 { 1u32 } else { 3 };
                    let mut v: Vec<u32> = (0..n as u32).map(|i| 5 + i * spread).collect();
                    if a == n {
                        v = if b == 0 { v.iter().chain(v.iter()).copied().collect() } else { v.iter().flat_map(|x| [*x, *x]).collect() };
                    } else {
                        v[b] = v[a];
                    }
                    huge_ways(o, &v)
                });
            }
        }
    });
    r.finish()
}

#[derive(Clone, Copy, Debug)]
struct NC(&'static str);
impl PartialEq for NC {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for NC {}
impl PartialOrd for NC {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for NC {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.to_lowercase().cmp(&o.0.to_lowercase())
    }
}
impl Hash for NC {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_lowercase().hash(h)
    }
}
