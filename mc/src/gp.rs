//! Run-time side of the generated programs (macro uses, emitted collections, derived enums): compares one collection
//! with the entries its source text lists.
use crate::engine::*;
use crate::{ensure, ensure_eq, model_map, model_set};
use frozen_collections::{Map, MapIteration, MapQuery, Set, SetIteration, SetQuery};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// keys of generated programs: which queries are interesting next to these keys
pub trait GK: Ord + Clone + Debug + 'static {
    fn near(keys: &[Self]) -> Vec<Self>;
}
macro_rules! gk_int { ($($t:ty),*) => { $(impl GK for $t {
    fn near(keys: &[Self]) -> Vec<Self> {
        let mut q: Vec<$t> = vec![0, 1, 2, 3, <$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1];
        for k in keys {
            q.extend([*k, k.wrapping_add(1), k.wrapping_sub(1), k.wrapping_add(7), !*k, *k ^ 1, *k ^ 64, k.wrapping_mul(2)]);
            for b in 0..<$t>::BITS { q.push(*k ^ ((1 as $t) << b)); }
        }
        q.sort();
        q.dedup();
        q
    }
})* } }
gk_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
impl GK for &'static str {
    fn near(keys: &[Self]) -> Vec<Self> {
        let ks: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
        crate::near_misses(&ks).into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
    }
}
impl GK for String {
    fn near(keys: &[Self]) -> Vec<Self> {
        crate::near_misses(keys)
    }
}
impl GK for Box<str> {
    fn near(keys: &[Self]) -> Vec<Self> {
        crate::near_misses(&keys.iter().map(|k| k.to_string()).collect::<Vec<_>>()).into_iter().map(Into::into).collect()
    }
}
impl GK for bool {
    fn near(_: &[Self]) -> Vec<Self> {
        vec![false, true]
    }
}
impl GK for char {
    fn near(keys: &[Self]) -> Vec<Self> {
        let mut q = vec!['\0', 'a', 'b', 'z', '\u{10ffff}'];
        q.extend(keys.iter().flat_map(|k| [*k, char::from_u32(*k as u32 + 1).unwrap_or('?')]));
        q
    }
}
impl<A: GK, B: GK> GK for (A, B) {
    fn near(keys: &[Self]) -> Vec<Self> {
        let a = A::near(&keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>());
        let b = B::near(&keys.iter().map(|k| k.1.clone()).collect::<Vec<_>>());
        let mut q: Vec<Self> = keys.to_vec();
        for k in keys {
            q.extend(a.iter().take(40).map(|x| (x.clone(), k.1.clone())));
            q.extend(b.iter().take(40).map(|x| (k.0.clone(), x.clone())));
        }
        q
    }
}
impl<T: GK> GK for Option<T> {
    fn near(keys: &[Self]) -> Vec<Self> {
        let mut q: Vec<Self> = T::near(&keys.iter().flatten().cloned().collect::<Vec<_>>()).into_iter().map(Some).collect();
        q.push(None);
        q
    }
}

struct Seen<K, V> {
    items: Vec<(K, V)>,
    keys: Vec<K>,
    values: Vec<V>,
    owned: Vec<(K, V)>,
    debug: String,
}

fn audit_map<K: GK, V: Eq + Debug + Clone>(o: &mut Obs, d: &dyn MapQuery<K, V>, s: &Seen<K, V>, es: &[(K, V)]) -> R {
    let model: BTreeMap<K, V> = model_map(es);
    o.state(&format!("{model:?}"));
    ensure_eq!(d.len(), model.len(), "len");
    ensure_eq!(d.is_empty(), model.is_empty(), "is_empty");
    let ks: Vec<K> = es.iter().map(|e| e.0.clone()).collect();
    for q in K::near(&ks).iter().chain(ks.iter()) {
        ensure_eq!(d.get(q), model.get(q), "get({q:?})");
        ensure_eq!(d.contains_key(q), model.contains_key(q), "contains_key({q:?})");
        o.t(2);
    }
    let mut got = s.items.clone();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    ensure_eq!(got, model.into_iter().collect::<Vec<_>>(), "iterated contents");
    ensure_eq!(s.keys, s.items.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "keys()");
    ensure_eq!(s.values, s.items.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "values()");
    ensure_eq!(s.owned, s.items, "into_iter()");
    for (k, v) in &s.items {
        ensure!(s.debug.contains(&format!("{k:?}: {v:?}")), "Debug lacks {k:?}: {v:?}: {}", s.debug);
    }
    o.t(6);
    Ok(())
}
/// a map made by a generated program holds exactly `es` (last one wins)
pub fn map<K: GK, V: Eq + Debug + Clone, M: Map<K, V> + Clone + Debug>(o: &mut Obs, m: &M, es: Vec<(K, V)>) -> R {
    let s = Seen {
        items: MapIteration::iter(m).map(|(k, v)| (k.clone(), v.clone())).collect(),
        keys: MapIteration::keys(m).cloned().collect(),
        values: MapIteration::values(m).cloned().collect(),
        owned: m.clone().into_iter().collect(),
        debug: format!("{m:?}"),
    };
    audit_map(o, m, &s, &es)
}
/// exactly these entries, in whatever order
pub fn same<T: Ord + Debug>(o: &mut Obs, what: &str, got: impl Iterator<Item = T>, mut want: Vec<T>) -> R {
    let mut got: Vec<T> = got.collect();
    got.sort();
    want.sort();
    o.state(&format!("{what} {want:?}"));
    o.t(got.len() as u64);
    ensure_eq!(got, want, "{what}: entries");
    Ok(())
}
/// the binding is really mutable: every value can be replaced, nothing else changes
pub fn map_mut<K: GK, V: Eq + Debug + Clone, M: Map<K, V> + Clone + Debug>(o: &mut Obs, m: &mut M, es: Vec<(K, V)>, bump: fn(&mut V)) -> R {
    map(o, m, es.clone())?;
    let mut es = es;
    for k in es.iter().map(|e| e.0.clone()).collect::<BTreeSet<_>>() {
        bump(MapQuery::<K, V>::get_mut(m, &k).ok_or_else(|| format!("get_mut({k:?}) is None"))?);
        es.iter_mut().filter(|e| e.0 == k).for_each(|e| bump(&mut e.1));
    }
    map(o, m, es.clone()).map_err(|e| format!("after writing through get_mut: {e}"))?;
    MapIteration::values_mut(m).for_each(bump);
    es.iter_mut().for_each(|e| bump(&mut e.1));
    map(o, m, es).map_err(|e| format!("after writing through values_mut: {e}"))
}
fn audit_set<K: GK>(o: &mut Obs, d: &dyn SetQuery<K>, items: &[K], owned: &[K], debug: &str, ks: &[K]) -> R {
    let model = model_set(ks);
    o.state(&format!("{model:?}"));
    ensure_eq!(d.len(), model.len(), "len");
    ensure_eq!(d.is_empty(), model.is_empty(), "is_empty");
    for q in K::near(ks).iter().chain(ks.iter()) {
        ensure_eq!(d.contains(q), model.contains(q), "contains({q:?})");
        o.t(1);
    }
    let mut got = items.to_vec();
    got.sort();
    ensure_eq!(got, model.into_iter().collect::<Vec<_>>(), "iterated contents");
    ensure_eq!(owned, items, "into_iter()");
    for k in items {
        ensure!(debug.contains(&format!("{k:?}")), "Debug lacks {k:?}: {debug}");
    }
    o.t(4);
    Ok(())
}
pub fn set<K: GK, S: Set<K> + Clone + Debug>(o: &mut Obs, s: &S, ks: Vec<K>) -> R {
    let items: Vec<K> = SetIteration::iter(s).cloned().collect();
    let owned: Vec<K> = s.clone().into_iter().collect();
    let d = format!("{s:?}");
    audit_set(o, s, &items, &owned, &d, &ks)
}
/// lookups by `str` agree with the listed entries
pub fn by_str<V: PartialEq + Debug + Clone>(o: &mut Obs, es: &[(String, V)], get: &dyn Fn(&str) -> Option<V>) -> R {
    let model = model_map(es);
    for q in crate::near_misses(&es.iter().map(|e| e.0.clone()).collect::<Vec<_>>()) {
        ensure_eq!(get(&q), model.get(&q).cloned(), "lookup by str {q:?}");
        o.t(1);
    }
    Ok(())
}
pub type Case = (&'static str, &'static str, fn(&mut Obs) -> R);
/// run a table of generated cases as the scenarios of one exploration
pub fn run(prop: &str, cases: &'static [Case], bound: &str) -> ! {
    let mut r = Run::new(prop);
    let mut names: Vec<&str> = vec![];
    for c in cases {
        if !names.contains(&c.0) {
            names.push(c.0);
        }
    }
    for n in names {
        r.scenario(n, |sc| {
            for c in cases.iter().filter(|c| c.0 == n) {
                sc.case(|| c.1.to_string(), c.2);
            }
        });
    }
    r.bound(bound);
    r.finish()
}

/// a derived enum for generated programs
#[derive(frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[rustfmt::skip]
pub enum Shade { S00, S01, S02, S03, S04, S05, S06, S07, S08, S09, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19 }
pub const SHADES: [Shade; 20] = {
    use Shade::*;
    [S00, S01, S02, S03, S04, S05, S06, S07, S08, S09, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19]
};
impl GK for Shade {
    fn near(_: &[Self]) -> Vec<Self> {
        SHADES.to_vec()
    }
}
macro_rules! gk_nz { ($($n:ident $t:ty),*) => { $(impl GK for std::num::$n {
    fn near(keys: &[Self]) -> Vec<Self> {
        <$t as GK>::near(&keys.iter().map(|k| k.get()).collect::<Vec<_>>()).into_iter().filter_map(Self::new).collect()
    }
})* } }
gk_nz!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroUsize usize, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroIsize isize);

/// the same checks as methods, so that a `LazyLock` around the collection is looked through
pub trait MapCk<K, V> {
    fn ck(&self, o: &mut Obs, e: Vec<(K, V)>) -> R;
}
impl<K: GK, V: Eq + Debug + Clone, M: Map<K, V> + Clone + Debug> MapCk<K, V> for M {
    fn ck(&self, o: &mut Obs, e: Vec<(K, V)>) -> R {
        map(o, self, e)
    }
}
pub trait SetCk<K> {
    fn sck(&self, o: &mut Obs, e: Vec<K>) -> R;
}
impl<K: GK, S: Set<K> + Clone + Debug> SetCk<K> for S {
    fn sck(&self, o: &mut Obs, e: Vec<K>) -> R {
        set(o, self, e)
    }
}

/// `all` lists the variants of a derived enum in declaration order
pub fn indices<E: frozen_collections::Scalar + std::hash::Hash + Debug + 'static>(o: &mut Obs, all: &[E]) -> R {
    use frozen_collections::*;
    o.state(&all.len());
    for (i, a) in all.iter().enumerate() {
        ensure_eq!(a.index(), i, "index of variant #{i} {a:?}");
        o.t(1);
    }
    if all.len() <= 258 {
        for a in all {
            for b in all {
                ensure_eq!(a.index().cmp(&b.index()), a.cmp(b), "order of {a:?} and {b:?}");
                o.t(1);
            }
        }
    }
    // and the collections keyed by the enum, with every variant and with every third one
    for step in [1, 3] {
        let es: Vec<(E, usize)> = all.iter().copied().enumerate().map(|(i, e)| (e, i)).step_by(step).collect();
        let m = FzScalarMap::new(es.clone());
        ensure_eq!(m.len(), es.len(), "len");
        for (i, a) in all.iter().enumerate() {
            ensure_eq!(m.get(a).copied(), (i % step == 0).then_some(i), "get({a:?}) with every {step}th variant stored");
            o.t(1);
        }
    }
    Ok(())
}
