//! "Under test" adapters: call every collection through its own (inherent) methods, plus the audits
//! that compare a collection with a reference model.
use crate::engine::*;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::traits::{Scalar, SetExtras};

pub trait MapUT<K, V>: Clone + Debug + Sized {
    const NAME: &'static str;
    fn u_get(&self, k: &K) -> Option<&V>;
    fn u_get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn u_contains(&self, k: &K) -> bool;
    fn u_get_kv(&self, k: &K) -> Option<(&K, &V)>;
    fn u_index(&self, k: &K) -> &V;
    fn u_len(&self) -> usize;
    fn u_is_empty(&self) -> bool;
    fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a K, &'a V)> + Clone + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_iter_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a K, &'a mut V)> + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_keys<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a K> + Clone + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_values<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a V> + Clone + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_values_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = &'a mut V> + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_into_keys(self) -> impl ExactSizeIterator<Item = K>;
    fn u_into_values(self) -> impl ExactSizeIterator<Item = V>;
    fn u_into_iter(self) -> impl ExactSizeIterator<Item = (K, V)> + Debug
    where
        K: Debug,
        V: Debug;
    fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a K, &'a V)> + Clone + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_mut_ref_iter<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a K, &'a mut V)> + Debug
    where
        K: Debug + 'a,
        V: Debug + 'a;
    fn u_disjoint<'a, const N: usize>(&'a mut self, keys: [&K; N]) -> [Option<&'a mut V>; N];
    /// # Safety
    /// keys must be pairwise distinct
    unsafe fn u_disjoint_unchecked<'a, const N: usize>(&'a mut self, keys: [&K; N]) -> [Option<&'a mut V>; N];
}

#[macro_export]
macro_rules! map_ut {
    ($name:literal, [$($g:tt)*], $k:ty, $v:ty, $t:ty, [$($w:tt)*]) => {
        impl<$($g)*> $crate::MapUT<$k, $v> for $t where $($w)* {
            const NAME: &'static str = $name;
            fn u_get(&self, k: &$k) -> Option<&$v> { self.get(k) }
            fn u_get_mut(&mut self, k: &$k) -> Option<&mut $v> { self.get_mut(k) }
            fn u_contains(&self, k: &$k) -> bool { self.contains_key(k) }
            fn u_get_kv(&self, k: &$k) -> Option<(&$k, &$v)> { self.get_key_value(k) }
            fn u_index(&self, k: &$k) -> &$v { &self[k] }
            fn u_len(&self) -> usize { self.len() }
            fn u_is_empty(&self) -> bool { self.is_empty() }
            fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a $k, &'a $v)> + Clone + Debug where $k: Debug + 'a, $v: Debug + 'a { self.iter() }
            fn u_iter_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a $k, &'a mut $v)> + Debug where $k: Debug + 'a, $v: Debug + 'a { self.iter_mut() }
            fn u_keys<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + Debug where $k: Debug + 'a, $v: Debug + 'a { self.keys() }
            fn u_values<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $v> + Clone + Debug where $k: Debug + 'a, $v: Debug + 'a { self.values() }
            fn u_values_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = &'a mut $v> + Debug where $k: Debug + 'a, $v: Debug + 'a { self.values_mut() }
            fn u_into_keys(self) -> impl ExactSizeIterator<Item = $k> { self.into_keys() }
            fn u_into_values(self) -> impl ExactSizeIterator<Item = $v> { self.into_values() }
            fn u_into_iter(self) -> impl ExactSizeIterator<Item = ($k, $v)> + Debug where $k: Debug, $v: Debug { IntoIterator::into_iter(self) }
            fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a $k, &'a $v)> + Clone + Debug where $k: Debug + 'a, $v: Debug + 'a { IntoIterator::into_iter(self) }
            fn u_mut_ref_iter<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a $k, &'a mut $v)> + Debug where $k: Debug + 'a, $v: Debug + 'a { IntoIterator::into_iter(self) }
            fn u_disjoint<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut $v>; N] { self.get_disjoint_mut(keys) }
            unsafe fn u_disjoint_unchecked<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut $v>; N] {
                unsafe { self.get_disjoint_unchecked_mut(keys) }
            }
        }
    };
}

map_ut!("FzHashMap", [K, V, BH], K, V, FzHashMap<K, V, BH>, [K: Hash + Eq + Clone + Debug, V: Clone + Debug, BH: BuildHasher + Clone]);
map_ut!("FzOrderedMap", [K, V], K, V, FzOrderedMap<K, V>, [K: Ord + Clone + Debug, V: Clone + Debug]);
map_ut!("FzScalarMap", [K, V], K, V, FzScalarMap<K, V>, [K: Scalar + Clone + Debug, V: Clone + Debug]);
map_ut!("FzStringMap", [V, BH], Box<str>, V, FzStringMap<Box<str>, V, BH>, [V: Clone + Debug, BH: BuildHasher + Clone]);

pub trait SetUT<T>: Clone + Debug + Sized {
    const NAME: &'static str;
    fn u_get(&self, k: &T) -> Option<&T>;
    fn u_contains(&self, k: &T) -> bool;
    fn u_len(&self) -> usize;
    fn u_is_empty(&self) -> bool;
    fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a T> + Clone + Debug
    where
        T: Debug + 'a;
    fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a T> + Clone + Debug
    where
        T: Debug + 'a;
    fn u_into_iter(self) -> impl ExactSizeIterator<Item = T> + Debug
    where
        T: Debug;
}
#[macro_export]
macro_rules! set_ut {
    ($name:literal, [$($g:tt)*], $k:ty, $t:ty, [$($w:tt)*]) => { $crate::set_ut!($name, [$($g)*], $k, $t, [$($w)*], |s, k| s.get(k)); };
    ($name:literal, [$($g:tt)*], $k:ty, $t:ty, [$($w:tt)*], |$s:ident, $q:ident| $get:expr) => {
        impl<$($g)*> $crate::SetUT<$k> for $t where $($w)* {
            const NAME: &'static str = $name;
            fn u_get(&self, $q: &$k) -> Option<&$k> { let $s = self; $get }
            fn u_contains(&self, k: &$k) -> bool { self.contains(k) }
            fn u_len(&self) -> usize { self.len() }
            fn u_is_empty(&self) -> bool { self.is_empty() }
            fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + Debug where $k: Debug + 'a { self.iter() }
            fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + Debug where $k: Debug + 'a { IntoIterator::into_iter(self) }
            fn u_into_iter(self) -> impl ExactSizeIterator<Item = $k> + Debug where $k: Debug { IntoIterator::into_iter(self) }
        }
    };
}
set_ut!("FzHashSet", [T, BH], T, FzHashSet<T, BH>, [T: Hash + Eq + Clone + Debug, BH: BuildHasher + Clone], |s, k| SetExtras::get(s, k));
set_ut!("FzOrderedSet", [T], T, FzOrderedSet<T>, [T: Ord + Clone + Debug]);
set_ut!("FzScalarSet", [T], T, FzScalarSet<T>, [T: Scalar + Clone + Debug]);
set_ut!("FzStringSet", [BH], Box<str>, FzStringSet<Box<str>, BH>, [BH: BuildHasher + Clone]);

/// Reference model of a map: last entry of a key wins, key object included.
pub fn model_map<K: Ord + Clone, V: Clone>(entries: &[(K, V)]) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in entries {
        m.remove(k);
        m.insert(k.clone(), v.clone());
    }
    m
}
pub fn model_set<K: Ord + Clone>(entries: &[K]) -> BTreeSet<K> {
    let mut m = BTreeSet::new();
    for k in entries {
        m.remove(k);
        m.insert(k.clone());
    }
    m
}

/// Representation of a key that also reveals parts not covered by its equality.
pub trait Repr: Clone {
    fn repr(&self) -> String;
}
impl<T: Debug + Clone> Repr for T {
    fn repr(&self) -> String {
        format!("{self:?}")
    }
}

pub fn audit_lookup<K, V, M>(o: &mut Obs, m: &mut M, model: &BTreeMap<K, V>, queries: &[K], absent_index: bool) -> R
where
    K: Ord + Debug + Clone,
    V: Eq + Debug + Clone,
    M: MapUT<K, V>,
{
    ensure_eq!(m.u_len(), model.len(), "{} len", M::NAME);
    ensure_eq!(m.u_is_empty(), model.is_empty(), "{} is_empty", M::NAME);
    o.t(2);
    for q in queries.iter().chain(model.keys()) {
        let e = model.get_key_value(q);
        ensure_eq!(m.u_get(q), e.map(|x| x.1), "{} get({:?})", M::NAME, q);
        ensure_eq!(m.u_contains(q), e.is_some(), "{} contains_key({:?})", M::NAME, q);
        match (m.u_get_kv(q), e) {
            (None, None) => {}
            (Some(g), Some(e)) => {
                if g.1 != e.1 || g.0 != e.0 || g.0.repr() != e.0.repr() {
                    return Err(format!("{} get_key_value({:?}): got {:?}, expected {:?}", M::NAME, q, g, e));
                }
            }
            (g, e) => return Err(format!("{} get_key_value({:?}): got {:?}, expected {:?}", M::NAME, q, g, e)),
        }
        {
            let g = m.u_get_mut(q).map(|v| v.clone());
            ensure_eq!(g.as_ref(), e.map(|x| x.1), "{} get_mut({:?})", M::NAME, q);
        }
        if e.is_some() {
            ensure_eq!(m.u_index(q), e.unwrap().1, "{} index [{:?}]", M::NAME, q);
        } else if absent_index {
            let mm = &*m;
            if let Ok(v) = guarded(|| mm.u_index(q).clone()) {
                return Err(format!("{} indexing with absent key {:?} returned {:?}", M::NAME, q, v));
            }
        }
        o.t(5);
    }
    Ok(())
}

/// cheap variant for large sweeps: get + contains + get_mut + get_key_value only (no repr strings)
pub fn audit_lookup_fast<K, V, M>(o: &mut Obs, m: &mut M, model: &BTreeMap<K, V>, queries: &[K]) -> R
where
    K: Ord + Debug + Clone,
    V: Eq + Debug + Clone,
    M: MapUT<K, V>,
{
    ensure_eq!(m.u_len(), model.len(), "{} len", M::NAME);
    for q in queries.iter().chain(model.keys()) {
        let e = model.get_key_value(q);
        ensure_eq!(m.u_get(q), e.map(|x| x.1), "{} get({:?})", M::NAME, q);
        ensure_eq!(m.u_contains(q), e.is_some(), "{} contains_key({:?})", M::NAME, q);
        ensure_eq!(m.u_get_kv(q), e, "{} get_key_value({:?})", M::NAME, q);
        let g = m.u_get_mut(q).map(|v| v.clone());
        ensure_eq!(g.as_ref(), e.map(|x| x.1), "{} get_mut({:?})", M::NAME, q);
        o.t(4);
    }
    Ok(())
}

pub fn audit_set_lookup<T, S>(o: &mut Obs, s: &S, model: &BTreeSet<T>, queries: &[T]) -> R
where
    T: Ord + Debug + Clone,
    S: SetUT<T>,
{
    ensure_eq!(s.u_len(), model.len(), "{} len", S::NAME);
    ensure_eq!(s.u_is_empty(), model.is_empty(), "{} is_empty", S::NAME);
    o.t(2);
    for q in queries.iter().chain(model.iter()) {
        let e = model.get(q);
        ensure_eq!(s.u_contains(q), e.is_some(), "{} contains({:?})", S::NAME, q);
        let g = s.u_get(q);
        if g != e || g.map(Repr::repr) != e.map(Repr::repr) {
            return Err(format!("{} get({:?}): got {:?}, expected {:?}", S::NAME, q, g, e));
        }
        o.t(2);
    }
    Ok(())
}

/// contents through iteration equal the model as a multiset
pub fn audit_contents<K, V, M>(o: &mut Obs, m: &M, model: &BTreeMap<K, V>) -> R
where
    K: Ord + Debug + Clone,
    V: Eq + Debug + Clone,
    M: MapUT<K, V>,
{
    let mut got: Vec<(&K, &V)> = m.u_iter().collect();
    got.sort_by(|a, b| a.0.cmp(b.0));
    let exp: Vec<(&K, &V)> = model.iter().collect();
    ensure_eq!(got, exp, "{} contents by iter()", M::NAME);
    o.t(exp.len() as u64 + 1);
    Ok(())
}
pub fn audit_set_contents<T, S>(o: &mut Obs, s: &S, model: &BTreeSet<T>) -> R
where
    T: Ord + Debug + Clone,
    S: SetUT<T>,
{
    let mut got: Vec<&T> = s.u_iter().collect();
    got.sort();
    let exp: Vec<&T> = model.iter().collect();
    ensure_eq!(got, exp, "{} contents by iter()", S::NAME);
    o.t(exp.len() as u64 + 1);
    Ok(())
}

/// Full contract of one iterator kind.  `$mk` is an expression creating the iterator from `$fresh` (evaluated
/// anew each time, so mutable and owning iterators are covered), `$conv` maps an item to an owned value.
#[macro_export]
macro_rules! iter_contract {
    ($o:expr, $what:expr, $src:expr, $m:ident, $mk:expr, $conv:expr, $exp:expr, $max:expr) => {{
        let exp = $exp;
        let n = exp.len();
        let mut points: Vec<usize> = (0..=n).collect();
        if n > $max { points = vec![0, 1, 2, n / 2, n - 1, n]; }
        for j in points {
            // size_hint / len / remaining items / exhaustion
            {
                #[allow(unused_mut)]
                let mut $m = $src.clone();
                let mut it = $mk;
                for x in 0..j {
                    let g = it.next().map($conv);
                    if g.as_ref() != Some(&exp[x]) { return Err(format!("{}: item {} is {:?}, expected {:?}", $what, x, g, exp[x])); }
                    let sh = it.size_hint();
                    if sh != (n - x - 1, Some(n - x - 1)) { return Err(format!("{}: size_hint after {} items is {:?}, {} remain", $what, x + 1, sh, n - x - 1)); }
                }
                let sh = it.size_hint();
                if sh != (n - j, Some(n - j)) { return Err(format!("{}: size_hint after {} items is {:?}, {} remain", $what, j, sh, n - j)); }
                if it.len() != n - j { return Err(format!("{}: len after {} items is {}, {} remain", $what, j, it.len(), n - j)); }
                let mut rest = Vec::new();
                while let Some(x) = it.next() { rest.push(($conv)(x)); if rest.len() > n { break; } }
                if rest.as_slice() != &exp[j..] { return Err(format!("{}: items after the first {} are {:?}, expected {:?}", $what, j, rest, &exp[j..])); }
                for _ in 0..2 { if it.next().is_some() { return Err(format!("{}: item after exhaustion", $what)); } }
                if it.size_hint() != (0, Some(0)) || it.len() != 0 { return Err(format!("{}: size_hint after exhaustion {:?}", $what, it.size_hint())); }
            }
            // count
            {
                #[allow(unused_mut)]
                let mut $m = $src.clone();
                let mut it = $mk;
                for _ in 0..j { it.next(); }
                let c = it.count();
                if c != n - j { return Err(format!("{}: count after {} items is {}, {} remain", $what, j, c, n - j)); }
            }
            // fold
            {
                #[allow(unused_mut)]
                let mut $m = $src.clone();
                let mut it = $mk;
                for _ in 0..j { it.next(); }
                let rest = it.fold(Vec::new(), |mut a, x| { a.push(($conv)(x)); a });
                if rest.as_slice() != &exp[j..] { return Err(format!("{}: fold after {} items gives {:?}, expected {:?}", $what, j, rest, &exp[j..])); }
            }
            // collect + last + nth
            {
                #[allow(unused_mut)]
                let mut $m = $src.clone();
                let mut it = $mk;
                for _ in 0..j { it.next(); }
                let l = it.last().map($conv);
                if l.as_ref() != exp[j..].last() { return Err(format!("{}: last after {} items gives {:?}", $what, j, l)); }
            }
            for k in 0..(n - j + 1).min(4) {
                #[allow(unused_mut)]
                let mut $m = $src.clone();
                let mut it = $mk;
                for _ in 0..j { it.next(); }
                let g = it.nth(k).map($conv);
                if g.as_ref() != exp.get(j + k) { return Err(format!("{}: nth({}) after {} items gives {:?}, expected {:?}", $what, k, j, g, exp.get(j + k))); }
                let rem = n.saturating_sub(j + k + 1);
                if it.size_hint() != (rem, Some(rem)) { return Err(format!("{}: size_hint after nth({}) is {:?}, {} remain", $what, k, it.size_hint(), rem)); }
                let rest: Vec<_> = it.map($conv).collect();
                if rest.as_slice() != exp.get(j + k + 1..).unwrap_or(&[]) { return Err(format!("{}: items after nth({}) after {} items are {:?}", $what, k, j, rest)); }
            }
            $o.t((n as u64 + 3) * 4);
        }
    }};
}
/// cloned iterators: remaining items equal and original unaffected; Debug of the iterator stable
#[macro_export]
macro_rules! iter_clone_contract {
    ($o:expr, $what:expr, $m:ident, $mk:expr, $conv:expr, $exp:expr) => {{
        let exp = $exp;
        for j in 0..=exp.len() {
            let mut it = $mk;
            for _ in 0..j { it.next(); }
            let c = it.clone();
            if c.size_hint() != it.size_hint() { return Err(format!("{}: clone after {} items has size_hint {:?}, original {:?}", $what, j, c.size_hint(), it.size_hint())); }
            let mut c2 = c.clone();
            c2.next();
            let a: Vec<_> = c.map($conv).collect();
            let b: Vec<_> = it.map($conv).collect();
            let d: Vec<_> = c2.map($conv).collect();
            if a.as_slice() != &exp[j..] || b != a { return Err(format!("{}: clone after {} items yields {:?}, original {:?}, expected {:?}", $what, j, a, b, &exp[j..])); }
            if d.as_slice() != exp.get(j + 1..).unwrap_or(&[]) { return Err(format!("{}: advanced clone after {} items yields {:?}", $what, j, d)); }
            $o.t(3);
        }
    }};
}

pub fn audit_map_iteration<K, V, M>(o: &mut Obs, m: &M, model: &BTreeMap<K, V>, full: usize) -> R
where
    K: Ord + Debug + Clone,
    V: Eq + Debug + Clone + Hash,
    M: MapUT<K, V>,
{
    audit_contents(o, m, model)?;
    let order: Vec<(String, V)> = m.u_iter().map(|(k, v)| (k.repr(), v.clone())).collect();
    for (k, v) in model {
        ensure!(order.iter().filter(|x| x.0 == k.repr() && x.1 == *v).count() == 1, "{}: entry {:?} not iterated exactly once: {:?}", M::NAME, (k, v), order);
    }
    let ks: Vec<String> = order.iter().map(|x| x.0.clone()).collect();
    let vs: Vec<V> = order.iter().map(|x| x.1.clone()).collect();
    let n = M::NAME;
    iter_contract!(o, format!("{n} iter"), m, mm, mm.u_iter(), |(k, v): (&K, &V)| (k.repr(), v.clone()), &order, full);
    iter_contract!(o, format!("{n} &map into_iter"), m, mm, mm.u_ref_iter(), |(k, v): (&K, &V)| (k.repr(), v.clone()), &order, full);
    iter_contract!(o, format!("{n} iter_mut"), m, mm, mm.u_iter_mut(), |(k, v): (&K, &mut V)| (k.repr(), v.clone()), &order, full);
    iter_contract!(o, format!("{n} &mut map into_iter"), m, mm, mm.u_mut_ref_iter(), |(k, v): (&K, &mut V)| (k.repr(), v.clone()), &order, full);
    iter_contract!(o, format!("{n} into_iter"), m, mm, mm.u_into_iter(), |(k, v): (K, V)| (k.repr(), v), &order, full);
    iter_contract!(o, format!("{n} keys"), m, mm, mm.u_keys(), |k: &K| k.repr(), &ks, full);
    iter_contract!(o, format!("{n} values"), m, mm, mm.u_values(), |v: &V| v.clone(), &vs, full);
    iter_contract!(o, format!("{n} values_mut"), m, mm, mm.u_values_mut(), |v: &mut V| v.clone(), &vs, full);
    iter_contract!(o, format!("{n} into_keys"), m, mm, mm.u_into_keys(), |k: K| k.repr(), &ks, full);
    iter_contract!(o, format!("{n} into_values"), m, mm, mm.u_into_values(), |v: V| v, &vs, full);
    if order.len() <= full {
        iter_clone_contract!(o, format!("{n} iter"), m, m.u_iter(), |(k, v): (&K, &V)| (k.repr(), v.clone()), &order);
        iter_clone_contract!(o, format!("{n} &map into_iter"), m, m.u_ref_iter(), |(k, v): (&K, &V)| (k.repr(), v.clone()), &order);
        iter_clone_contract!(o, format!("{n} keys"), m, m.u_keys(), |k: &K| k.repr(), &ks);
        iter_clone_contract!(o, format!("{n} values"), m, m.u_values(), |v: &V| v.clone(), &vs);
        // Debug of iterators lists exactly what remains, at every consumption point
        for j in 0..=order.len() {
            let (mut a, mut b, mut c, mut e) = (m.u_iter(), m.u_keys(), m.u_values(), m.u_ref_iter());
            let mut mm1 = m.clone();
            let mut mm2 = m.clone();
            let mut d1 = mm1.u_iter_mut();
            let mut d2 = mm2.u_values_mut();
            let mut d3 = m.clone().u_into_iter();
            for _ in 0..j {
                a.next();
                b.next();
                c.next();
                e.next();
                d1.next();
                d2.next();
                d3.next();
            }
            let rest: Vec<(&K, &V)> = m.u_iter().skip(j).collect();
            let rk: Vec<&K> = rest.iter().map(|x| x.0).collect();
            let rv: Vec<&V> = rest.iter().map(|x| x.1).collect();
            ensure_eq!(format!("{a:?}"), format!("{rest:?}"), "{n} Debug of iter after {j}");
            ensure_eq!(format!("{e:?}"), format!("{rest:?}"), "{n} Debug of &map iter after {j}");
            ensure_eq!(format!("{b:?}"), format!("{rk:?}"), "{n} Debug of keys after {j}");
            ensure_eq!(format!("{c:?}"), format!("{rv:?}"), "{n} Debug of values after {j}");
            // Debug of the owning and mutable iterators: shape is not promised; it must mention each remaining
            // key and must not panic
            for (what, s) in [("iter_mut", format!("{d1:?}")), ("into_iter", format!("{d3:?}"))] {
                for k in &rk {
                    ensure!(s.contains(&k.repr()), "{n} Debug of {what} after {j} lacks {k:?}: {s}");
                }
            }
            let s = format!("{d2:?}");
            for v in &rv {
                ensure!(s.contains(&format!("{v:?}")), "{n} Debug of values_mut after {j} lacks {v:?}: {s}");
            }
            o.t(7);
        }
    }
    // Debug of the collection = a debug map of the entries in iteration order
    struct D<'a, K, V>(Vec<(&'a K, &'a V)>);
    impl<K: Debug, V: Debug> Debug for D<'_, K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entries(self.0.iter().map(|x| (x.0, x.1))).finish()
        }
    }
    let e = format!("{:?}", D(m.u_iter().collect()));
    ensure_eq!(format!("{m:?}"), e, "{n} Debug");
    o.t(1);
    Ok(())
}

pub fn audit_set_iteration<T, S>(o: &mut Obs, s: &S, model: &BTreeSet<T>, full: usize) -> R
where
    T: Ord + Debug + Clone,
    S: SetUT<T>,
{
    audit_set_contents(o, s, model)?;
    let order: Vec<String> = s.u_iter().map(Repr::repr).collect();
    for k in model {
        ensure!(order.iter().filter(|x| **x == k.repr()).count() == 1, "{}: value {:?} not iterated exactly once: {:?}", S::NAME, k, order);
    }
    let n = S::NAME;
    iter_contract!(o, format!("{n} iter"), s, mm, mm.u_iter(), |k: &T| k.repr(), &order, full);
    iter_contract!(o, format!("{n} &set into_iter"), s, mm, mm.u_ref_iter(), |k: &T| k.repr(), &order, full);
    iter_contract!(o, format!("{n} into_iter"), s, mm, mm.u_into_iter(), |k: T| k.repr(), &order, full);
    if order.len() <= full {
        iter_clone_contract!(o, format!("{n} iter"), s, s.u_iter(), |k: &T| k.repr(), &order);
        iter_clone_contract!(o, format!("{n} &set into_iter"), s, s.u_ref_iter(), |k: &T| k.repr(), &order);
        for j in 0..=order.len() {
            let mut a = s.u_iter();
            let mut d = s.clone().u_into_iter();
            for _ in 0..j {
                a.next();
                d.next();
            }
            let rest: Vec<&T> = s.u_iter().skip(j).collect();
            ensure_eq!(format!("{a:?}"), format!("{rest:?}"), "{n} Debug of iter after {j}");
            let ds = format!("{d:?}");
            for k in &rest {
                ensure!(ds.contains(&k.repr()), "{n} Debug of into_iter after {j} lacks {k:?}: {ds}");
            }
            o.t(2);
        }
    }
    struct D<'a, T>(Vec<&'a T>);
    impl<T: Debug> Debug for D<'_, T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_set().entries(self.0.iter()).finish()
        }
    }
    ensure_eq!(format!("{s:?}"), format!("{:?}", D(s.u_iter().collect())), "{n} Debug");
    o.t(1);
    Ok(())
}
