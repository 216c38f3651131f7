//! C19: generic code through the traits sees the same collection as the type's own methods and as any other
//! implementation with the same contents.
use frozen_collections::{Len, Map, MapExtras, MapIteration, MapQuery, Set, SetExtras, SetIteration, SetOps, SetQuery};
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;

/// everything the Map traits offer, on any implementation; `qs` are queries with the key they denote
fn through_map<K, V, Q, M>(o: &mut Obs, n: &str, m: &M, model: &BTreeMap<K, V>, qs: &[(&Q, K)], bump: fn(&mut V)) -> R
where
    K: Ord + Debug + Clone,
    V: Eq + Ord + Debug + Clone,
    Q: ?Sized + Eq + Debug,
    M: Map<K, V, Q> + Clone,
{
    let mut m = m.clone();
    ensure_eq!(Len::len(&m), model.len(), "{n} Len::len");
    ensure_eq!(Len::is_empty(&m), model.is_empty(), "{n} Len::is_empty");
    for (q, k) in qs {
        let e = model.get_key_value(k);
        ensure_eq!(MapQuery::<Q, V>::get(&m, q), e.map(|x| x.1), "{n} MapQuery::get({q:?})");
        ensure_eq!(MapQuery::<Q, V>::contains_key(&m, q), e.is_some(), "{n} MapQuery::contains_key({q:?})");
        ensure_eq!(MapQuery::<Q, V>::get_mut(&mut m, q).map(|v| v.clone()), e.map(|x| x.1.clone()), "{n} MapQuery::get_mut({q:?})");
        let g = MapExtras::<K, V, Q>::get_key_value(&m, q);
        ensure_eq!(g.map(|x| (x.0.repr(), x.1)), e.map(|x| (x.0.repr(), x.1)), "{n} MapExtras::get_key_value({q:?})");
        // through an erased type
        let d: &mut dyn MapQuery<Q, V> = &mut m;
        ensure_eq!(d.len(), model.len(), "{n} dyn len");
        ensure_eq!(d.is_empty(), model.is_empty(), "{n} dyn is_empty");
        ensure_eq!(d.get(q), e.map(|x| x.1), "{n} dyn get({q:?})");
        ensure_eq!(d.contains_key(q), e.is_some(), "{n} dyn contains_key({q:?})");
        ensure_eq!(d.get_mut(q).map(|v| v.clone()), e.map(|x| x.1.clone()), "{n} dyn get_mut({q:?})");
        o.t(9);
        // a write through the trait reaches exactly that entry
        if e.is_some() {
            let mut c = m.clone();
            bump(MapQuery::<Q, V>::get_mut(&mut c, q).ok_or("get_mut")?);
            let mut exp = model.clone();
            bump(exp.get_mut(k).unwrap());
            let mut got: Vec<(K, V)> = MapIteration::iter(&c).map(|(k, v)| (k.clone(), v.clone())).collect();
            got.sort();
            ensure_eq!(got, exp.into_iter().collect::<Vec<_>>(), "{n} contents after a write through get_mut({q:?})");
        }
        let one = MapExtras::<K, V, Q>::get_disjoint_mut(&mut m, [*q]).map(|x| x.cloned());
        ensure_eq!(one, [e.map(|x| x.1.clone())], "{n} MapExtras::get_disjoint_mut([{q:?}])");
        for (q2, k2) in qs {
            if k == k2 { continue; }
            let exp = [e.map(|x| x.1.clone()), model.get(k2).cloned()];
            ensure_eq!(MapExtras::<K, V, Q>::get_disjoint_mut(&mut m, [*q, *q2]).map(|x| x.cloned()), exp, "{n} MapExtras::get_disjoint_mut([{q:?}, {q2:?}])");
            ensure_eq!(unsafe { MapExtras::<K, V, Q>::get_disjoint_unchecked_mut(&mut m, [*q, *q2]) }.map(|x| x.cloned()), exp, "{n} MapExtras::get_disjoint_unchecked_mut([{q:?}, {q2:?}])");
            o.t(2);
        }
        if e.is_some() && model.len() < 6 {
            let r = guarded(|| MapExtras::<K, V, Q>::get_disjoint_mut(&mut m, [*q, *q]).map(|x| x.cloned()));
            ensure!(r.is_err(), "{n} MapExtras::get_disjoint_mut with {q:?} twice returned {r:?}");
        }
    }
    // iteration: one order, seen by every iterator of the trait
    let it: Vec<(K, V)> = MapIteration::iter(&m).map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut s = it.clone();
    s.sort();
    ensure_eq!(s.iter().map(|x| (x.0.repr(), &x.1)).collect::<Vec<_>>(), model.iter().map(|x| (x.0.repr(), x.1)).collect::<Vec<_>>(), "{n} MapIteration::iter as a set of entries");
    let show = |v: &[K]| v.iter().map(Repr::repr).collect::<Vec<_>>();
    let ks: Vec<K> = it.iter().map(|x| x.0.clone()).collect();
    let vs: Vec<V> = it.iter().map(|x| x.1.clone()).collect();
    ensure_eq!(show(&MapIteration::keys(&m).cloned().collect::<Vec<_>>()), show(&ks), "{n} MapIteration::keys");
    ensure_eq!(MapIteration::values(&m).cloned().collect::<Vec<_>>(), vs, "{n} MapIteration::values");
    ensure_eq!(MapIteration::iter_mut(&mut m).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), it, "{n} MapIteration::iter_mut");
    ensure_eq!(MapIteration::values_mut(&mut m).map(|v| v.clone()).collect::<Vec<_>>(), vs, "{n} MapIteration::values_mut");
    ensure_eq!(show(&MapIteration::into_keys(m.clone()).collect::<Vec<_>>()), show(&ks), "{n} MapIteration::into_keys");
    ensure_eq!(MapIteration::into_values(m.clone()).collect::<Vec<_>>(), vs, "{n} MapIteration::into_values");
    ensure_eq!(m.clone().into_iter().collect::<Vec<_>>(), it, "{n} IntoIterator");
    // writes through the mutable iterators of the trait
    let mut c = m.clone();
    MapIteration::iter_mut(&mut c).for_each(|(_, v)| bump(v));
    MapIteration::values_mut(&mut c).for_each(bump);
    let mut exp = it.clone();
    exp.iter_mut().for_each(|x| { bump(&mut x.1); bump(&mut x.1); });
    ensure_eq!(MapIteration::iter(&c).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), exp, "{n} after writes through iter_mut and values_mut");
    o.t(9);
    Ok(())
}

/// own methods against trait methods
fn same_map<K, V, M>(o: &mut Obs, m: &M, qs: &[K]) -> R
where
    K: Ord + Eq + Debug + Clone,
    V: Eq + Debug + Clone,
    M: MapUT<K, V> + Map<K, V>,
{
    let n = M::NAME;
    let mut m = m.clone();
    ensure_eq!(m.u_len(), Len::len(&m), "{n} len / Len::len");
    ensure_eq!(m.u_is_empty(), Len::is_empty(&m), "{n} is_empty / Len::is_empty");
    for q in qs {
        ensure_eq!(m.u_get(q), MapQuery::get(&m, q), "{n} get / MapQuery::get {q:?}");
        ensure_eq!(m.u_contains(q), MapQuery::<K, V>::contains_key(&m, q), "{n} contains_key / MapQuery::contains_key {q:?}");
        ensure_eq!(m.u_get_kv(q).map(|x| (x.0.repr(), x.1)), MapExtras::get_key_value(&m, q).map(|x| (x.0.repr(), x.1)), "{n} get_key_value / MapExtras {q:?}");
        let a = m.u_get_mut(q).map(|v| v as *mut V);
        let b = MapQuery::<K, V>::get_mut(&mut m, q).map(|v| v as *mut V);
        ensure_eq!(a, b, "{n} get_mut / MapQuery::get_mut {q:?} (slot)");
        let a = m.u_disjoint([q]).map(|x| x.map(|v| v as *mut V));
        let b = MapExtras::<K, V>::get_disjoint_mut(&mut m, [q]).map(|x| x.map(|v| v as *mut V));
        ensure_eq!(a, b, "{n} get_disjoint_mut / MapExtras {q:?} (slot)");
        o.t(5);
    }
    fn a<'a, K: 'a, V: 'a>(i: impl Iterator<Item = (&'a K, &'a V)>) -> Vec<(*const K, *const V)> { i.map(|x| (x.0 as *const K, x.1 as *const V)).collect() }
    ensure_eq!(a(m.u_iter()), a(MapIteration::iter(&m)), "{n} iter / MapIteration::iter (slots)");
    ensure_eq!(a(m.u_iter()), a(m.u_ref_iter()), "{n} iter / &map into_iter (slots)");
    ensure_eq!(m.u_keys().map(|k| k as *const K).collect::<Vec<_>>(), MapIteration::keys(&m).map(|k| k as *const K).collect::<Vec<_>>(), "{n} keys / MapIteration::keys");
    ensure_eq!(m.u_values().map(|k| k as *const V).collect::<Vec<_>>(), MapIteration::values(&m).map(|k| k as *const V).collect::<Vec<_>>(), "{n} values / MapIteration::values");
    ensure_eq!(m.u_iter_mut().map(|x| x.1 as *const V).collect::<Vec<_>>(), MapIteration::iter_mut(&mut m.clone()).count_and(&m), "{n} iter_mut (slots)");
    ensure_eq!(m.clone().u_into_keys().map(|k| k.repr()).collect::<Vec<_>>(), MapIteration::into_keys(m.clone()).map(|k| k.repr()).collect::<Vec<_>>(), "{n} into_keys / MapIteration::into_keys");
    ensure_eq!(m.clone().u_into_values().collect::<Vec<_>>(), MapIteration::into_values(m.clone()).collect::<Vec<_>>(), "{n} into_values / MapIteration::into_values");
    o.t(7);
    Ok(())
}
trait CountAnd { fn count_and<K: Debug, V: Debug, M: MapUT<K, V>>(self, m: &M) -> Vec<*const V>; }
impl<I: Iterator> CountAnd for I {
    /// addresses of all values of `m` if the iterator yields as many items as `m` has, else nothing
    fn count_and<K: Debug, V: Debug, M: MapUT<K, V>>(self, m: &M) -> Vec<*const V> {
        if self.count() == m.u_len() { m.u_iter().map(|x| x.1 as *const V).collect() } else { vec![] }
    }
}

fn through_set<T, Q, S>(o: &mut Obs, n: &str, s: &S, model: &BTreeSet<T>, qs: &[(&Q, T)]) -> R
where
    T: Ord + Debug + Clone,
    Q: ?Sized + Debug,
    S: Set<T, Q> + Clone,
{
    ensure_eq!(Len::len(s), model.len(), "{n} Len::len");
    ensure_eq!(Len::is_empty(s), model.is_empty(), "{n} Len::is_empty");
    let d: &dyn SetQuery<Q> = s;
    ensure_eq!(d.len(), model.len(), "{n} dyn len");
    ensure_eq!(d.is_empty(), model.is_empty(), "{n} dyn is_empty");
    for (q, k) in qs {
        let e = model.get(k);
        ensure_eq!(SetQuery::<Q>::contains(s, q), e.is_some(), "{n} SetQuery::contains({q:?})");
        ensure_eq!(d.contains(q), e.is_some(), "{n} dyn contains({q:?})");
        ensure_eq!(SetExtras::<T, Q>::get(s, q).map(Repr::repr), e.map(Repr::repr), "{n} SetExtras::get({q:?})");
        o.t(3);
    }
    let it: Vec<String> = SetIteration::iter(s).map(Repr::repr).collect();
    let mut g: Vec<&T> = SetIteration::iter(s).collect();
    g.sort();
    ensure_eq!(g.iter().map(|x| x.repr()).collect::<Vec<_>>(), model.iter().map(Repr::repr).collect::<Vec<_>>(), "{n} SetIteration::iter");
    ensure_eq!(s.clone().into_iter().map(|x| x.repr()).collect::<Vec<_>>(), it, "{n} IntoIterator");
    o.t(6);
    Ok(())
}
fn same_set<T, S>(o: &mut Obs, s: &S, qs: &[T]) -> R
where
    T: Ord + Debug + Clone,
    S: SetUT<T> + Set<T>,
{
    let n = S::NAME;
    ensure_eq!(s.u_len(), Len::len(s), "{n} len / Len::len");
    ensure_eq!(s.u_is_empty(), Len::is_empty(s), "{n} is_empty / Len::is_empty");
    for q in qs {
        ensure_eq!(s.u_contains(q), SetQuery::contains(s, q), "{n} contains / SetQuery::contains {q:?}");
        ensure_eq!(s.u_get(q).map(|x| x as *const T), SetExtras::get(s, q).map(|x| x as *const T), "{n} get / SetExtras::get {q:?} (slot)");
        o.t(2);
    }
    let a = |i: Vec<&T>| i.into_iter().map(|x| x as *const T).collect::<Vec<_>>();
    ensure_eq!(a(s.u_iter().collect()), a(SetIteration::iter(s).collect()), "{n} iter / SetIteration::iter (slots)");
    ensure_eq!(a(s.u_iter().collect()), a(s.u_ref_iter().collect()), "{n} iter / &set into_iter (slots)");
    o.t(4);
    Ok(())
}
/// generic set algebra across implementations (contents only; C11 looks at the iterators)
fn ops<T: Ord + Debug + Clone, A: Set<T>, B: Set<T>>(o: &mut Obs, n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R {
    let c = |v: Vec<&T>| { let mut v: Vec<T> = v.into_iter().cloned().collect(); v.sort(); v };
    ensure_eq!(c(SetOps::union(a, b).collect()), ma.union(mb).cloned().collect::<Vec<_>>(), "{n} union");
    ensure_eq!(c(SetOps::intersection(a, b).collect()), ma.intersection(mb).cloned().collect::<Vec<_>>(), "{n} intersection");
    ensure_eq!(c(SetOps::difference(a, b).collect()), ma.difference(mb).cloned().collect::<Vec<_>>(), "{n} difference");
    ensure_eq!(c(SetOps::symmetric_difference(a, b).collect()), ma.symmetric_difference(mb).cloned().collect::<Vec<_>>(), "{n} symmetric_difference");
    ensure_eq!(SetOps::is_subset(a, b), ma.is_subset(mb), "{n} is_subset");
    ensure_eq!(SetOps::is_superset(a, b), ma.is_superset(mb), "{n} is_superset");
    ensure_eq!(SetOps::is_disjoint(a, b), ma.is_disjoint(mb), "{n} is_disjoint");
    o.t(7);
    Ok(())
}
fn by_len<L: Len + ?Sized>(o: &mut Obs, n: &str, l: &L, exp: usize) -> R {
    ensure_eq!(Len::len(l), exp, "Len::len of {n}");
    ensure_eq!(Len::is_empty(l), exp == 0, "Len::is_empty of {n}");
    o.t(2);
    Ok(())
}

fn main() {
    let mut r = Run::new("C19");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    for (un, u) in id_universes() {
        let l = if deepest { 7 } else if deep { 6 } else { 4 };
        r.scenario(&format!("maps/{un}"), |sc| {
            for n in 0..=l {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es: Vec<(TK, u32)> = s.iter().enumerate().map(|(p, i)| (TK { id: u[*i], tag: p as u32 }, 100 + p as u32)).collect();
                        let model = model_map(&es);
                        o.state(&model.iter().map(|(k, v)| (k.id, k.tag, *v)).collect::<Vec<_>>());
                        let qk = tk(&with_neighbours(&u));
                        let q0: Vec<(&TK, TK)> = qk.iter().map(|k| (k, *k)).collect();
                        let qq: Vec<QK> = qk.iter().map(|k| QK { id: k.id, alias: 3 }).collect();
                        let q1: Vec<(&QK, TK)> = qq.iter().map(|q| (q, TK { id: q.id, tag: 0 })).collect();
                        let b = |v: &mut u32| *v += 1000;
                        let (h, hc, or, scm) = (FzHashMap::new(es.clone()), FzHashMap::with_hasher(es.clone(), HF::Const(1)), FzOrderedMap::new(es.clone()), FzScalarMap::new(es.clone()));
                        // std maps keep the first key object of equal keys: give them the deduplicated list
                        let dd: Vec<(TK, u32)> = model.iter().map(|(k, v)| (*k, *v)).collect();
                        let sh: HashMap<TK, u32> = dd.iter().copied().collect();
                        let sb: BTreeMap<TK, u32> = dd.iter().copied().collect();
                        let hb: hashbrown::HashMap<TK, u32> = dd.iter().copied().collect();
                        macro_rules! k { ($n:literal, $m:expr) => { through_map(o, $n, $m, &model, &q0, b)?; } }
                        macro_rules! q { ($n:literal, $m:expr) => { through_map(o, $n, $m, &model, &q1, b)?; } }
                        k!("FzHashMap", &h); k!("FzHashMap/const hash", &hc); k!("FzOrderedMap", &or); k!("FzScalarMap", &scm);
                        k!("std HashMap", &sh); k!("BTreeMap", &sb); k!("hashbrown HashMap", &hb);
                        q!("FzHashMap by equivalent key", &h); q!("FzHashMap/const hash by equivalent key", &hc);
                        q!("FzOrderedMap by comparable key", &or); q!("FzScalarMap by equivalent key", &scm);
                        q!("hashbrown HashMap by equivalent key", &hb);
                        same_map(o, &h, &qk)?; same_map(o, &hc, &qk)?; same_map(o, &or, &qk)?; same_map(o, &scm, &qk)
                    });
                });
            }
        });
        r.scenario(&format!("sets/{un}"), |sc| {
            for n in 0..=l {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let ks: Vec<TK> = s.iter().enumerate().map(|(p, i)| TK { id: u[*i], tag: p as u32 }).collect();
                        let model = model_set(&ks);
                        o.state(&model.iter().map(|k| (k.id, k.tag)).collect::<Vec<_>>());
                        let qk = tk(&with_neighbours(&u));
                        let q0: Vec<(&TK, TK)> = qk.iter().map(|k| (k, *k)).collect();
                        let qq: Vec<QK> = qk.iter().map(|k| QK { id: k.id, alias: 3 }).collect();
                        let q1: Vec<(&QK, TK)> = qq.iter().map(|q| (q, TK { id: q.id, tag: 0 })).collect();
                        let (h, hc, or, ss) = (FzHashSet::new(ks.clone()), FzHashSet::with_hasher(ks.clone(), HF::Const(1)), FzOrderedSet::new(ks.clone()), FzScalarSet::new(ks.clone()));
                        let sh: HashSet<TK> = model.iter().copied().collect();
                        let sb: BTreeSet<TK> = model.iter().copied().collect();
                        let hb: hashbrown::HashSet<TK> = model.iter().copied().collect();
                        macro_rules! k { ($n:literal, $m:expr) => { through_set(o, $n, $m, &model, &q0)?; } }
                        macro_rules! q { ($n:literal, $m:expr) => { through_set(o, $n, $m, &model, &q1)?; } }
                        k!("FzHashSet", &h); k!("FzHashSet/const hash", &hc); k!("FzOrderedSet", &or); k!("FzScalarSet", &ss);
                        k!("std HashSet", &sh); k!("BTreeSet", &sb); k!("hashbrown HashSet", &hb);
                        q!("FzHashSet by equivalent", &h); q!("FzHashSet/const hash by equivalent", &hc);
                        q!("FzOrderedSet by comparable", &or); q!("hashbrown HashSet by equivalent", &hb);
                        same_set(o, &h, &qk)?; same_set(o, &hc, &qk)?; same_set(o, &or, &qk)?; same_set(o, &ss, &qk)?;
                        // against every subset of the universe held by a different implementation
                        for mask in 0u32..1 << u.len() {
                            let ot: Vec<TK> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| TK { id: u[i], tag: 77 }).collect();
                            let mo = model_set(&ot);
                            ops(o, "std HashSet x BTreeSet", &sh, &mo, &model, &mo)?;
                            ops(o, "BTreeSet x FzScalarSet", &sb, &FzScalarSet::new(ot.clone()), &model, &mo)?;
                            ops(o, "hashbrown x FzOrderedSet", &hb, &FzOrderedSet::new(ot.clone()), &model, &mo)?;
                            ops(o, "FzHashSet x std HashSet", &h, &ot.iter().copied().collect::<HashSet<TK>>(), &model, &mo)?;
                            ops(o, "FzScalarSet x hashbrown", &ss, &ot.iter().copied().collect::<hashbrown::HashSet<TK>>(), &model, &mo)?;
                        }
                        Ok(())
                    });
                });
            }
        });
    }
    r.bound("all id sequences of length <=4 (thorough 6) over 5 ids in 6 universes: 7 map and 7 set implementations (4 frozen, std hash, std B-tree, hashbrown) through every trait method, by key and by equivalent query, directly and through dyn MapQuery/SetQuery; every pair of queries for disjoint access; own methods against trait methods slot by slot");
    for (un, u) in string_universes() {
        r.scenario(&format!("strings/{un}"), |sc| {
            for mask in 0u32..1 << u.len() {
                sc.case(|| format!("keys {:?}", (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect::<Vec<_>>()), |o| {
                    let ks: Vec<String> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i].to_string()).collect();
                    let es: Vec<(Box<str>, u32)> = ks.iter().enumerate().map(|(i, k)| (k.as_str().into(), i as u32)).collect();
                    let so: Vec<(String, u32)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect();
                    o.state(&ks);
                    let b = |v: &mut u32| *v += 1000;
                    let (mb, ms) = (model_map(&es), model_map(&so));
                    let near = near_misses(&ks);
                    let rs: Vec<&str> = near.iter().map(|s| s.as_str()).collect();
                    let qb: Vec<(&&str, Box<str>)> = rs.iter().map(|s| (s, (*s).into())).collect();
                    let qbs: Vec<(&String, Box<str>)> = near.iter().map(|s| (s, s.as_str().into())).collect();
                    let qs: Vec<(&str, String)> = near.iter().map(|s| (s.as_str(), s.clone())).collect();
                    let qss: Vec<(&String, String)> = near.iter().map(|s| (s, s.clone())).collect();
                    let bk = bx(&near);
                    let qbb: Vec<(&Box<str>, Box<str>)> = bk.iter().map(|s| (s, s.clone())).collect();
                    macro_rules! lim { ($q:expr) => { &$q[..$q.len().min(if deep { 400 } else { 24 })] } }
                    let fs = FzStringMap::new(ks.iter().enumerate().map(|(i, k)| (k.as_str(), i as u32)).collect::<Vec<_>>());
                    through_map(o, "FzStringMap by str", &fs, &mb, lim!(qb), b)?;
                    through_map(o, "FzStringMap by String", &fs, &mb, lim!(qbs), b)?;
                    through_map(o, "FzStringMap by key", &fs, &mb, lim!(qbb), b)?;
                    same_map(o, &fs, &bk)?;
                    through_map(o, "FzHashMap<String> by str", &FzHashMap::new(so.clone()), &ms, lim!(qs), b)?;
                    through_map(o, "FzOrderedMap<String> by str", &FzOrderedMap::new(so.clone()), &ms, lim!(qs), b)?;
                    through_map(o, "std HashMap<String> by str", &so.iter().cloned().collect::<HashMap<_, _>>(), &ms, lim!(qs), b)?;
                    through_map(o, "hashbrown HashMap<String> by str", &so.iter().cloned().collect::<hashbrown::HashMap<_, _>>(), &ms, lim!(qs), b)?;
                    through_map(o, "BTreeMap<String>", &so.iter().cloned().collect::<BTreeMap<_, _>>(), &ms, lim!(qss), b)?;
                    let (sb, st): (BTreeSet<Box<str>>, BTreeSet<String>) = (mb.keys().cloned().collect(), ms.keys().cloned().collect());
                    let fset = FzStringSet::new(ks.iter().map(|k| k.as_str()).collect::<Vec<_>>());
                    through_set(o, "FzStringSet by str", &fset, &sb, &qb)?;
                    through_set(o, "FzStringSet by String", &fset, &sb, &qbs)?;
                    through_set(o, "FzStringSet by key", &fset, &sb, &qbb)?;
                    same_set(o, &fset, &bk)?;
                    through_set(o, "FzHashSet<String> by str", &FzHashSet::new(ks.clone()), &st, &qs)?;
                    through_set(o, "FzOrderedSet<String> by str", &FzOrderedSet::new(ks.clone()), &st, &qs)?;
                    through_set(o, "hashbrown HashSet<String> by str", &ks.iter().cloned().collect::<hashbrown::HashSet<_>>(), &st, &qs)?;
                    through_set(o, "std HashSet<String>", &ks.iter().cloned().collect::<HashSet<_>>(), &st, &qss)?;
                    through_set(o, "BTreeSet<String>", &ks.iter().cloned().collect::<BTreeSet<_>>(), &st, &qss)?;
                    // lengths of strings of every kind
                    for s in &near {
                        let n = s.len();
                        by_len(o, "str", s.as_str(), n)?;
                        by_len(o, "&str", &s.as_str(), n)?;
                        by_len(o, "String", s, n)?;
                        by_len(o, "Box<str>", &s.clone().into_boxed_str(), n)?;
                        by_len(o, "Rc<str>", &std::rc::Rc::<str>::from(s.as_str()), n)?;
                        by_len(o, "Arc<String>", &std::sync::Arc::new(s.clone()), n)?;
                        by_len(o, "OsStr", std::ffi::OsStr::new(s), n)?;
                        by_len(o, "OsString", &std::ffi::OsString::from(s), n)?;
                        if let Ok(c) = std::ffi::CString::new(s.as_str()) {
                            by_len(o, "CStr", c.as_c_str(), n)?;
                            by_len(o, "CString", &c, n)?;
                            by_len(o, "Box<CStr>", &c.into_boxed_c_str(), n)?;
                        }
                    }
                    Ok(())
                });
            }
        });
    }
    r.bound("all subsets of 5 strings in 7 universes (boxed, owned and borrowed keys), near-miss queries by str and by key, 8 map and 7 set implementations; string-like Len implementations on all near misses");
    r.scenario("sizes", |sc| {
        for n in (0..=20u32).chain([31, 63, 127, 128, 129, 200]) { for (step, off) in [(1u32, 0u32), (1, 50), (3, 9), (1 << 20, 5)] {
            sc.case(|| format!("{n} ids from {off} by {step}"), |o| {
                let es: Vec<(TK, u32)> = (0..n).rev().map(|i| (TK { id: off + i * step, tag: i }, i)).collect();
                let ks: Vec<TK> = es.iter().map(|e| e.0).collect();
                let (model, ms) = (model_map(&es), model_set(&ks));
                o.state(&(n, step, off));
                let mut ids: Vec<u32> = ks.iter().map(|k| k.id).collect();
                ids = with_neighbours(&ids);
                if ids.len() > 90 { let l = ids.len(); ids = ids.into_iter().enumerate().filter(|(i, _)| *i < 30 || *i + 30 > l || i % 13 == 0).map(|x| x.1).collect(); }
                let qk = tk(&ids);
                let q0: Vec<(&TK, TK)> = qk.iter().map(|k| (k, *k)).collect();
                let b = |v: &mut u32| *v += 1000;
                let (h, or, scm) = (FzHashMap::new(es.clone()), FzOrderedMap::new(es.clone()), FzScalarMap::new(es.clone()));
                through_map(o, "FzHashMap", &h, &model, &q0, b)?;
                through_map(o, "FzOrderedMap", &or, &model, &q0, b)?;
                through_map(o, "FzScalarMap", &scm, &model, &q0, b)?;
                through_map(o, "std HashMap", &es.iter().copied().collect::<HashMap<_, _>>(), &model, &q0, b)?;
                through_map(o, "BTreeMap", &es.iter().copied().collect::<BTreeMap<_, _>>(), &model, &q0, b)?;
                through_map(o, "hashbrown", &es.iter().copied().collect::<hashbrown::HashMap<_, _>>(), &model, &q0, b)?;
                same_map(o, &h, &qk)?; same_map(o, &or, &qk)?; same_map(o, &scm, &qk)?;
                let (h, or, ss) = (FzHashSet::new(ks.clone()), FzOrderedSet::new(ks.clone()), FzScalarSet::new(ks.clone()));
                through_set(o, "FzHashSet", &h, &ms, &q0)?;
                through_set(o, "FzOrderedSet", &or, &ms, &q0)?;
                through_set(o, "FzScalarSet", &ss, &ms, &q0)?;
                same_set(o, &h, &qk)?; same_set(o, &or, &qk)?; same_set(o, &ss, &qk)
            });
        } }
    });
    r.bound("26 sizes from 0 to 200 x 4 id spacings, 6 map and 3 set implementations");
    r.scenario("macro-made", |sc| {
        macro_rules! im { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::maps::$md::entries();
                let model = model_map(&es);
                let q = with_neighbours(&es.iter().map(|e| e.0).collect::<Vec<_>>());
                o.state(&model);
                through_map(o, $n, &inl::maps::$md::make(), &model, &q.iter().map(|k| (k, *k)).collect::<Vec<_>>(), |v| *v += 1000)?;
                // the same contents in every other implementation
                through_map(o, "FzHashMap", &FzHashMap::new(es.clone()), &model, &q.iter().map(|k| (k, *k)).collect::<Vec<_>>(), |v| *v += 1000)
            });
        } }
        each_inl_int_map!(im);
        macro_rules! sm { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::maps::$md::entries();
                let model = model_map(&es);
                let near = near_misses(&es.iter().map(|e| e.0.to_string()).collect::<Vec<_>>());
                let st: Vec<&'static str> = near.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect();
                o.state(&model);
                through_map(o, $n, &inl::maps::$md::make(), &model, &st.iter().map(|k| (k, *k)).collect::<Vec<_>>(), |v| *v += 1000)
            });
        } }
        each_inl_str_map!(sm);
        macro_rules! is { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::sets::$md::entries();
                let model = model_set(&es);
                let q = with_neighbours(&es);
                o.state(&model);
                let s = inl::sets::$md::make();
                through_set(o, $n, &s, &model, &q.iter().map(|k| (k, *k)).collect::<Vec<_>>())?;
                for mask in 0u32..32 {
                    let ot: BTreeSet<u32> = (0..5).filter(|i| mask >> i & 1 == 1).collect();
                    ops(o, $n, &s, &ot, &model, &ot)?;
                    ops(o, $n, &ot, &s, &ot, &model)?;
                }
                Ok(())
            });
        } }
        each_inl_int_set!(is);
        macro_rules! ss { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::sets::$md::entries();
                let model = model_set(&es);
                let near = near_misses(&es.iter().map(|e| e.to_string()).collect::<Vec<_>>());
                let st: Vec<&'static str> = near.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect();
                o.state(&model);
                through_set(o, $n, &inl::sets::$md::make(), &model, &st.iter().map(|k| (k, *k)).collect::<Vec<_>>())
            });
        } }
        each_inl_str_set!(ss);
    });
    r.bound("Len: every byte string of length 0..=4 over 7 bytes (ASCII, lead and continuation bytes, never-valid bytes) as OsStr, OsString, CStr, CString, byte slices, vectors and deques (all rotations, spare capacity) and their boxes");
    r.scenario("byte-string lengths", |sc| {
        use std::ffi::{CString, OsStr, OsString};
        use std::os::unix::ffi::{OsStrExt, OsStringExt};
        use std::{rc::Rc, sync::Arc};
        let alpha = [b'a', 0xC3, 0xA9, 0xFF, 0x80, 0xED, 0x01];
        for n in 0..=4 {
            sequences(alpha.len(), n, |s| {
                sc.case(|| format!("bytes {:x?}", s.iter().map(|i| alpha[*i]).collect::<Vec<_>>()), |o| {
                    let v: Vec<u8> = s.iter().map(|i| alpha[*i]).collect();
                    o.state(&v);
                    let os = OsStr::from_bytes(&v);
                    by_len(o, "OsStr", os, n)?;
                    by_len(o, "OsString", &OsString::from_vec(v.clone()), n)?;
                    let mut cap = OsString::with_capacity(50);
                    cap.push(os);
                    by_len(o, "OsString with spare capacity", &cap, n)?;
                    by_len(o, "Box<OsStr>", &Box::<OsStr>::from(os), n)?;
                    by_len(o, "Rc<OsStr>", &Rc::<OsStr>::from(os), n)?;
                    by_len(o, "Arc<OsString>", &Arc::new(cap), n)?;
                    let c = CString::new(v.clone()).map_err(|e| e.to_string())?;
                    by_len(o, "CStr", c.as_c_str(), n)?;
                    by_len(o, "CString", &c, n)?;
                    by_len(o, "Arc<CStr>", &Arc::<std::ffi::CStr>::from(c.as_c_str()), n)?;
                    by_len(o, "Box<CString>", &Box::new(c), n)?;
                    by_len(o, "[u8]", v.as_slice(), n)?;
                    let mut big = Vec::with_capacity(64);
                    big.extend_from_slice(&v);
                    by_len(o, "Vec<u8> with spare capacity", &big, n)?;
                    by_len(o, "Box<Vec<u8>>", &Box::new(big), n)?;
                    by_len(o, "Rc<Box<[u8]>>", &Rc::new(v.clone().into_boxed_slice()), n)?;
                    for k in 0..=n + 3 {
                        // a deque whose storage starts anywhere, wrapping around the end of its buffer
                        let mut dq: VecDeque<u8> = VecDeque::with_capacity(n + 3);
                        for _ in 0..k { dq.push_back(9); }
                        for b in &v {
                            dq.push_back(*b);
                            if dq.len() > n { dq.pop_front(); }
                        }
                        while dq.len() > n { dq.pop_front(); }
                        by_len(o, "VecDeque<u8> (rotated storage)", &dq, n)?;
                        by_len(o, "Box<VecDeque<u8>>", &Box::new(dq), n)?;
                    }
                    by_len(o, "Vec<()>", &vec![(); n], n)?;
                    by_len(o, "VecDeque<()>", &(0..n).map(|_| ()).collect::<VecDeque<_>>(), n)?;
                    by_len(o, "LinkedList<()>", &(0..n).map(|_| ()).collect::<LinkedList<_>>(), n)?;
                    // collections that drop duplicates and those that keep them
                    let distinct = v.iter().collect::<BTreeSet<_>>().len();
                    by_len(o, "BinaryHeap with duplicates", &v.iter().collect::<BinaryHeap<_>>(), n)?;
                    by_len(o, "LinkedList with duplicates", &v.iter().collect::<LinkedList<_>>(), n)?;
                    by_len(o, "HashSet", &v.iter().collect::<HashSet<_>>(), distinct)?;
                    by_len(o, "BTreeSet", &v.iter().collect::<BTreeSet<_>>(), distinct)?;
                    by_len(o, "hashbrown HashSet", &v.iter().collect::<hashbrown::HashSet<_>>(), distinct)?;
                    by_len(o, "FzHashSet", &FzHashSet::new(v.clone()), distinct)?;
                    by_len(o, "FzOrderedSet", &FzOrderedSet::new(v.clone()), distinct)?;
                    by_len(o, "FzScalarSet", &FzScalarSet::new(v.clone()), distinct)?;
                    by_len(o, "Arc<FzScalarSet>", &Arc::new(FzScalarSet::new(v.clone())), distinct)
                });
            });
        }
    });
    r.scenario("lengths", |sc| {
        for n in 0..=(if deep { 300usize } else { 40 }) {
            sc.case(|| format!("{n} items"), |o| {
                let v: Vec<u32> = (0..n as u32).collect();
                o.state(&v);
                by_len(o, "[T]", v.as_slice(), n)?;
                by_len(o, "Vec", &v, n)?;
                by_len(o, "Box<[T]>", &v.clone().into_boxed_slice(), n)?;
                by_len(o, "Rc<[T]>", &std::rc::Rc::<[u32]>::from(v.clone()), n)?;
                by_len(o, "Arc<Vec>", &std::sync::Arc::new(v.clone()), n)?;
                let mut dq: VecDeque<u32> = v.iter().copied().collect();
                dq.rotate_left(n / 2);
                by_len(o, "VecDeque", &dq, n)?;
                by_len(o, "BinaryHeap", &v.iter().copied().collect::<BinaryHeap<_>>(), n)?;
                by_len(o, "LinkedList", &v.iter().copied().collect::<LinkedList<_>>(), n)?;
                by_len(o, "BTreeSet", &v.iter().copied().collect::<BTreeSet<_>>(), n)?;
                by_len(o, "HashSet", &v.iter().copied().collect::<HashSet<_>>(), n)?;
                by_len(o, "hashbrown set", &v.iter().copied().collect::<hashbrown::HashSet<_>>(), n)?;
                by_len(o, "BTreeMap", &v.iter().map(|x| (*x, ())).collect::<BTreeMap<_, _>>(), n)?;
                by_len(o, "HashMap", &v.iter().map(|x| (*x, ())).collect::<HashMap<_, _>>(), n)?;
                by_len(o, "hashbrown map", &v.iter().map(|x| (*x, ())).collect::<hashbrown::HashMap<_, _>>(), n)?;
                by_len(o, "FzHashMap", &v.iter().map(|x| (*x, ())).collect::<FzHashMap<_, _>>(), n)?;
                by_len(o, "FzOrderedMap", &v.iter().map(|x| (*x, ())).collect::<FzOrderedMap<_, _>>(), n)?;
                by_len(o, "FzScalarMap", &v.iter().map(|x| (*x, ())).collect::<FzScalarMap<_, _>>(), n)?;
                by_len(o, "FzHashSet", &v.iter().copied().collect::<FzHashSet<_>>(), n)?;
                by_len(o, "FzOrderedSet", &v.iter().copied().collect::<FzOrderedSet<_>>(), n)?;
                by_len(o, "FzScalarSet", &v.iter().copied().collect::<FzScalarSet<_>>(), n)
            });
        }
    });
    r.bound("44 macro-made collections through the same trait checks; 20 Len implementations at sizes 0..=40 (thorough 300)");
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073): 3 frozen and 3 standard map and set families through the traits");
    r.scenario("large", |sc| {
        fn map<K: Ord + Debug + Clone, M: Map<K, u32> + Clone>(o: &mut Obs, n: &str, m: M, exp: &[(K, u32)], absent: &[K]) -> R {
            let mut m = m;
            ensure!(Len::len(&m) == exp.len() && Len::is_empty(&m) == exp.is_empty(), "{n}: Len::len {} of {}", Len::len(&m), exp.len());
            for (k, v) in exp {
                ensure!(MapQuery::get(&m, k) == Some(v) && MapQuery::<K, u32>::contains_key(&m, k), "{n} of {}: MapQuery::get({k:?}) {:?}", exp.len(), MapQuery::get(&m, k));
                ensure!(MapExtras::get_key_value(&m, k) == Some((k, v)), "{n} of {}: MapExtras::get_key_value({k:?})", exp.len());
                ensure!(MapQuery::get_mut(&mut m, k).map(|v: &mut u32| *v) == Some(*v), "{n} of {}: MapQuery::get_mut({k:?})", exp.len());
                ensure!(MapExtras::<K, u32>::get_disjoint_mut(&mut m, [&absent[0], k]).map(|x| x.copied()) == [None, Some(*v)], "{n} of {}: MapExtras::get_disjoint_mut({k:?})", exp.len());
            }
            for k in absent { ensure!(MapQuery::<K, u32>::get(&m, k).is_none() && !MapQuery::<K, u32>::contains_key(&m, k), "{n} of {}: absent {k:?} found", exp.len()); }
            let it: Vec<(K, u32)> = MapIteration::iter(&m).map(|(k, v)| (k.clone(), *v)).collect();
            ensure!(MapIteration::keys(&m).eq(it.iter().map(|x| &x.0)) && MapIteration::values(&m).eq(it.iter().map(|x| &x.1)), "{n} of {}: keys or values in another order than iter", exp.len());
            ensure!(MapIteration::iter_mut(&mut m).map(|(k, v)| (k.clone(), *v)).eq(it.iter().cloned()) && MapIteration::values_mut(&mut m).map(|v| *v).eq(it.iter().map(|x| x.1)), "{n} of {}: iter_mut or values_mut", exp.len());
            ensure!(MapIteration::into_keys(m.clone()).eq(it.iter().map(|x| x.0.clone())) && MapIteration::into_values(m.clone()).eq(it.iter().map(|x| x.1)) && m.clone().into_iter().eq(it.iter().cloned()), "{n} of {}: an owning iterator", exp.len());
            let mut s = it;
            s.sort();
            ensure!(s == exp, "{n} of {}: {} entries", exp.len(), s.len());
            o.t(5 * exp.len() as u64 + 9);
            Run::tick();
            Ok(())
        }
        fn set<K: Ord + Debug + Clone, S: Set<K> + Clone>(o: &mut Obs, n: &str, s: S, exp: &[K], absent: &[K]) -> R {
            ensure!(Len::len(&s) == exp.len() && Len::is_empty(&s) == exp.is_empty(), "{n}: Len::len {} of {}", Len::len(&s), exp.len());
            for k in exp { ensure!(SetQuery::contains(&s, k) && SetExtras::get(&s, k) == Some(k), "{n} of {}: {k:?} not found", exp.len()); }
            for k in absent { ensure!(!SetQuery::contains(&s, k) && SetExtras::get(&s, k).is_none(), "{n} of {}: absent {k:?} found", exp.len()); }
            let it: Vec<K> = SetIteration::iter(&s).cloned().collect();
            ensure!(s.clone().into_iter().eq(it.iter().cloned()), "{n} of {}: the owning iterator", exp.len());
            let mut v = it;
            v.sort();
            ensure!(v == exp, "{n} of {}: {} values", exp.len(), v.len());
            o.t(2 * exp.len() as u64 + 4);
            Run::tick();
            Ok(())
        }
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for spread in [1u32, 3, 60_013] {
                sc.case(|| format!("{n} keys, spread {spread}"), |o| {
                    o.state(&(n, spread));
                    let mut es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i.wrapping_mul(spread), i)).collect();
                    es.reverse();
                    let mut exp = es.clone();
                    exp.sort();
                    let absent: Vec<u32> = [0xffff_fff5u32, 2, 4, 0x1_0001, 0x8000_0000].into_iter().filter(|q| exp.binary_search_by_key(q, |e| e.0).is_err()).collect();
                    map(o, "FzHashMap", FzHashMap::with_hasher(es.clone(), HF::Fold(2)), &exp, &absent)?;
                    map(o, "FzOrderedMap", FzOrderedMap::new(es.clone()), &exp, &absent)?;
                    map(o, "FzScalarMap", FzScalarMap::new(es.clone()), &exp, &absent)?;
                    map(o, "std HashMap", es.iter().copied().collect::<HashMap<_, _>>(), &exp, &absent)?;
                    map(o, "BTreeMap", es.iter().copied().collect::<BTreeMap<_, _>>(), &exp, &absent)?;
                    map(o, "hashbrown HashMap", es.iter().copied().collect::<hashbrown::HashMap<_, _>>(), &exp, &absent)?;
                    let ks: Vec<u32> = es.iter().map(|e| e.0).collect();
                    let ke: Vec<u32> = exp.iter().map(|e| e.0).collect();
                    set(o, "FzHashSet", FzHashSet::with_hasher(ks.clone(), HF::Fold(2)), &ke, &absent)?;
                    set(o, "FzOrderedSet", FzOrderedSet::new(ks.clone()), &ke, &absent)?;
                    set(o, "FzScalarSet", FzScalarSet::new(ks.clone()), &ke, &absent)?;
                    set(o, "std HashSet", ks.iter().copied().collect::<HashSet<_>>(), &ke, &absent)?;
                    set(o, "BTreeSet", ks.iter().copied().collect::<BTreeSet<_>>(), &ke, &absent)?;
                    set(o, "hashbrown HashSet", ks.iter().copied().collect::<hashbrown::HashSet<_>>(), &ke, &absent)
                });
            }
        }
    });
    r.finish();
}
