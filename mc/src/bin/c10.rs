//! C10: disjoint mutable access is exact and never aliases.
use frozen_collections::MapExtras;
use frozen_collections_core::fz_maps::*;
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

trait Val: Clone + Eq + Debug {
    const ZST: bool;
    fn mk(n: u32) -> Self;
}
impl Val for u32 {
    const ZST: bool = false;
    fn mk(n: u32) -> u32 {
        n
    }
}
impl Val for u8 {
    const ZST: bool = false;
    fn mk(n: u32) -> u8 {
        n as u8
    }
}
impl Val for [u64; 4] {
    const ZST: bool = false;
    fn mk(n: u32) -> Self {
        [u64::from(n); 4]
    }
}
impl Val for String {
    const ZST: bool = false;
    fn mk(n: u32) -> String {
        format!("value {n}")
    }
}
impl Val for () {
    const ZST: bool = true;
    fn mk(_: u32) {}
}

/// what one call must do.  `keys[i]` = (denoted id or None when absent, identity under the query type's equality)
#[derive(Debug, PartialEq)]
enum Must {
    Panic,
    Answer,
    Either,
}
fn oracle(q: &[(u32, u32, bool)], zst: bool) -> Must {
    // (denoted id, alias, present)
    let mut e = Must::Answer;
    for i in 0..q.len() {
        for j in 0..i {
            if q[i].0 == q[j].0 {
                if q[i].1 == q[j].1 {
                    return Must::Panic; // the very same query twice
                }
                if q[i].2 && !zst {
                    return Must::Panic; // two spellings of one stored key
                }
                e = Must::Either; // two spellings of one absent key, or of a zero-sized value: no overlap either way
            }
        }
    }
    e
}

/// Runs one call against a fresh map and compares answer, writes and remaining contents.
fn one<M: Clone, K: Ord + Debug + Clone, V: Val, const N: usize>(
    o: &mut Obs,
    what: &str,
    m: &M,
    model: &BTreeMap<K, V>,
    must: Must,
    denoted: &[K; N],
    call: impl for<'a> Fn(&'a mut M) -> [Option<&'a mut V>; N],
    dump: impl Fn(&M) -> Vec<(K, V)>,
) -> R {
    let mut c = m.clone();
    o.t(1);
    let r = guarded(|| {
        let rs = call(&mut c);
        let mut ptrs: Vec<*const V> = vec![];
        let mut out: Vec<Option<V>> = vec![];
        let mut refs: Vec<Option<&mut V>> = rs.into_iter().collect();
        for x in &refs {
            out.push(x.as_ref().map(|v| (**v).clone()));
            if let Some(v) = x {
                ptrs.push(&raw const **v);
            }
        }
        let mut alias = false;
        if !V::ZST {
            for i in 0..ptrs.len() {
                for j in 0..i {
                    alias |= ptrs[i] == ptrs[j];
                }
            }
        }
        // write through all of them, then read all back
        if !alias {
            for (i, x) in refs.iter_mut().enumerate() {
                if let Some(v) = x {
                    **v = V::mk(900 + i as u32);
                }
            }
            for (i, x) in refs.iter().enumerate() {
                if let Some(v) = x {
                    if **v != V::mk(900 + i as u32) {
                        alias = true;
                    }
                }
            }
        }
        (out, alias)
    });
    match (r, &must) {
        (Err(_), Must::Panic | Must::Either) => {
            // a refused call changes nothing
            let exp: Vec<(K, V)> = model.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ensure_eq!(dump(&c), exp, "{what}: contents after a refused call");
        }
        (Err(e), Must::Answer) => return Err(format!("{what}: panicked on distinct keys: {e}")),
        (Ok((out, _)), Must::Panic) => return Err(format!("{what}: overlapping keys accepted, returned {out:?}")),
        (Ok((out, alias)), _) => {
            ensure!(!alias, "{what}: two of the returned references alias");
            let exp: Vec<Option<V>> = denoted.iter().map(|k| model.get(k).cloned()).collect();
            ensure_eq!(out, exp, "{what}: returned values");
            let mut m2 = model.clone();
            for (i, k) in denoted.iter().enumerate() {
                if let Some(v) = m2.get_mut(k) {
                    *v = V::mk(900 + i as u32);
                }
            }
            ensure_eq!(dump(&c), m2.into_iter().collect::<Vec<_>>(), "{what}: contents after writing");
        }
    }
    Ok(())
}

macro_rules! dumper {
    ($o:ident) => {
        |m| {
            let mut v: Vec<_> = m.u_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v
        }
    };
}

/// queries: indices into `u` (present ids and absent ids) x aliases
fn tk_map<M, V: Val, const N: usize>(o: &mut Obs, m: &M, model: &BTreeMap<TK, V>, u: &[u32], s: &[usize], inherent: impl for<'a, 'b> Fn(&'a mut M, [&'b QK; N]) -> [Option<&'a mut V>; N]) -> R
where
    M: MapUT<TK, V> + MapExtras<TK, V, QK>,
{
    let pres = |id: u32| model.contains_key(&TK { id, tag: 0 });
    // by the key type itself
    let ks: [TK; N] = std::array::from_fn(|i| TK { id: u[s[i] / 2], tag: 7 * i as u32 });
    let desc: Vec<(u32, u32, bool)> = ks.iter().map(|k| (k.id, 0, pres(k.id))).collect();
    one(o, &format!("{} get_disjoint_mut", M::NAME), m, model, oracle(&desc, V::ZST), &ks, |c| c.u_disjoint(std::array::from_fn(|i| &ks[i])), dumper!(o))?;
    if oracle(&desc, V::ZST) == Must::Answer {
        one(o, &format!("{} get_disjoint_unchecked_mut", M::NAME), m, model, Must::Answer, &ks, |c| unsafe { c.u_disjoint_unchecked(std::array::from_fn(|i| &ks[i])) }, dumper!(o))?;
    }
    // by an equivalent query type with two spellings per key
    let qs: [QK; N] = std::array::from_fn(|i| QK { id: u[s[i] / 2], alias: (s[i] % 2) as u8 });
    let desc: Vec<(u32, u32, bool)> = qs.iter().map(|k| (k.id, u32::from(k.alias), pres(k.id))).collect();
    one(o, &format!("{} get_disjoint_mut by equivalent keys", M::NAME), m, model, oracle(&desc, V::ZST), &ks, |c| inherent(c, std::array::from_fn(|i| &qs[i])), dumper!(o))?;
    one(o, &format!("{} MapExtras::get_disjoint_mut by equivalent keys", M::NAME), m, model, oracle(&desc, V::ZST), &ks, |c| MapExtras::get_disjoint_mut(c, std::array::from_fn(|i| &qs[i])), dumper!(o))
}

fn run_tk<V: Val + 'static>(sc: &mut Sc, name: &str, u: &[u32], npres: usize, deep: bool) {
    let es: Vec<(TK, V)> = u[..npres].iter().enumerate().map(|(i, id)| (TK { id: *id, tag: i as u32 }, V::mk(i as u32))).collect();
    let model = model_map(&es);
    let h = FzHashMap::with_hasher(es.clone(), HF::Ident);
    let hc = FzHashMap::with_hasher(es.clone(), HF::Const(0));
    let od = FzOrderedMap::new(es.clone());
    let s = FzScalarMap::new(es.clone());
    macro_rules! n { ($n:literal) => {
        sequences(2 * u.len(), $n, |q| {
            sc.case(|| format!("{name}, present {:?}, queries (id, spelling) {:?}", &u[..npres], q.iter().map(|i| (u[i / 2], i % 2)).collect::<Vec<_>>()), |o| {
                o.state(&(name, q));
                tk_map::<_, V, $n>(o, &h, &model, u, q, |c, k| c.get_disjoint_mut(k))?;
                tk_map::<_, V, $n>(o, &hc, &model, u, q, |c, k| c.get_disjoint_mut(k))?;
                tk_map::<_, V, $n>(o, &od, &model, u, q, |c, k| c.get_disjoint_mut(k))?;
                tk_map::<_, V, $n>(o, &s, &model, u, q, |c, k| c.get_disjoint_mut(k))
            });
        });
    } }
    n!(0);
    n!(1);
    n!(2);
    n!(3);
    if deep {
        n!(4);
    }
}

fn main() {
    let mut r = Run::new("C10");
    let (deep, r_level) = (r.thorough, r.level);
    r.bound("all query arrays of length <=4 (thorough: 5 for keys) over 5 ids x 2 spellings, for 4 map layouts, value types u32/u8/[u64;4]/String/()");
    for (un, u, np) in [("contiguous", vec![4u32, 5, 6, 2, 7], 3usize), ("contiguous-run4", vec![4, 5, 6, 7, 9], 4), ("gaps", vec![4, 9, 20, 5, 0], 3), ("scattered", vec![0, 1 << 30, u32::MAX, 5, 1 << 20], 3), ("none", vec![1, 2], 0), ("one", vec![1, 2], 1)] {
        r.scenario(&format!("u32/{un}"), |sc| run_tk::<u32>(sc, un, &u, np, true));
        if un != "scattered" || deep {
            r.scenario(&format!("u8/{un}"), |sc| run_tk::<u8>(sc, un, &u, np, deep));
            r.scenario(&format!("words/{un}"), |sc| run_tk::<[u64; 4]>(sc, un, &u, np, deep));
            r.scenario(&format!("String/{un}"), |sc| run_tk::<String>(sc, un, &u, np, deep));
            r.scenario(&format!("unit/{un}"), |sc| run_tk::<()>(sc, un, &u, np, deep));
        }
    }
    // longer arrays: all permutations of distinct keys, and every pair of positions made equal
    r.scenario("long-arrays", |sc| {
        for spread in [1u32, 3, 1 << 24] {
            let ids: Vec<u32> = (0..8).map(|i| 10 + i * spread).collect();
            let es: Vec<(TK, u32)> = ids.iter().take(6).map(|i| (TK { id: *i, tag: 0 }, *i)).collect();
            let model = model_map(&es);
            let h = FzHashMap::new(es.clone());
            let od = FzOrderedMap::new(es.clone());
            let s = FzScalarMap::new(es.clone());
            macro_rules! go { ($n:literal, $idx:expr, $al:expr, $d:expr) => {{
                let q: Vec<usize> = $idx.iter().enumerate().map(|(p, i): (usize, &usize)| 2 * i + if Some(p) == $al { 1 } else { 0 }).collect();
                sc.case(|| format!("{} queries {:?} spread {spread}", $d, q), |o| {
                    o.state(&(spread, &q));
                    tk_map::<_, u32, $n>(o, &h, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))?;
                    tk_map::<_, u32, $n>(o, &od, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))?;
                    tk_map::<_, u32, $n>(o, &s, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))
                });
            }} }
            for a in 0..8usize {
                for b in 0..8usize {
                    if a == b { continue; }
                    let mut v: Vec<usize> = (0..8).collect();
                    v[a] = v[b];
                    go!(8, v, None::<usize>, "pair equal");
                    go!(8, v, Some(a), "pair equivalent");
                    if a < 7 && b < 7 { go!(7, v[..7].to_vec(), Some(b), "pair equivalent"); }
                }
            }
            permutations(if deep { 8 } else { 6 }, |p| {
                if p.len() == 8 { go!(8, p.to_vec(), None::<usize>, "permutation"); } else { go!(6, p.to_vec(), None::<usize>, "permutation"); }
            });
        }
    });
    // arrays of up to 257 queries: all different in several orders, and one pair equal at every (bounded: for more than 33
    // queries, at every position against 20 others) pair of positions
    r.bound("arrays of 9..257 queries with one equal or equivalent pair at every pair of positions, present and absent");
    r.scenario("very-long-arrays", |sc| {
        macro_rules! size { ($($n:literal)*) => { $({
            const N: usize = $n;
            for have in [N / 2, N + 3] {
                let ids: Vec<u32> = (0..N as u32 + 4).map(|i| 10 + i * 3).collect();
                let es: Vec<(TK, u32)> = ids.iter().take(have).map(|i| (TK { id: *i, tag: 0 }, *i)).collect();
                let model = model_map(&es);
                let hs = FzHashMap::with_hasher(es.clone(), HF::Fold(3));
                let od = FzOrderedMap::new(es.clone());
                let s = FzScalarMap::new(es.clone());
                let strs: Vec<Box<str>> = ids.iter().map(|i| format!("key {i:04}").into()).collect();
                let ses: Vec<(Box<str>, u32)> = strs.iter().take(have).zip(&ids).map(|(k, i)| (k.clone(), *i)).collect();
                let smodel = model_map(&ses);
                let sm = FzStringMap::new(ses);
                let mut run = |idx: &[usize], al: Option<usize>, d: &dyn Fn() -> String| {
                    let q: Vec<usize> = idx.iter().enumerate().map(|(p, i): (usize, &usize)| 2 * i + if Some(p) == al { 1 } else { 0 }).collect();
                    sc.case(|| format!("{N} of {} queries, {have} keys", d()), |o| {
                        o.state(&(have, &q));
                        tk_map::<_, u32, N>(o, &hs, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))?;
                        tk_map::<_, u32, N>(o, &od, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))?;
                        tk_map::<_, u32, N>(o, &s, &model, &ids, &q, |c, k| c.get_disjoint_mut(k))?;
                        let ks: [Box<str>; N] = std::array::from_fn(|i| strs[q[i] / 2].clone());
                        let mut d: Vec<usize> = q.iter().map(|x| x / 2).collect();
                        d.sort();
                        d.dedup();
                        one(o, "FzStringMap get_disjoint_mut", &sm, &smodel, if d.len() == N { Must::Answer } else { Must::Panic }, &ks, |c| c.get_disjoint_mut::<N>(std::array::from_fn(|i| &*ks[i])), dumper!(o))
                    });
                };
                macro_rules! go { ($idx:expr, $al:expr, $d:expr) => { run(&$idx[..], $al, &|| $d.to_string()) } }
                let base: Vec<usize> = (0..N).collect();
                go!(base, None::<usize>, "increasing");
                go!(base.iter().rev().copied().collect::<Vec<_>>(), None::<usize>, "decreasing");
                go!((0..N).map(|i| (i * 7 + 3) % (N + 4)).collect::<std::collections::BTreeSet<_>>().into_iter().rev().chain(0..N + 4).fold(vec![], |mut v: Vec<usize>, x| { if v.len() < N && !v.contains(&x) { v.push(x) } v }), None::<usize>, "mixed");
                for a in 0..N {
                    if !deep && N > 33 && !(a < 4 || a + 4 > N || a.is_power_of_two() || (a + 1).is_power_of_two() || a == N / 2) { continue; }
                    for b in 0..N {
                        if a == b { continue; }
                        let mut v = base.clone();
                        v[a] = v[b];
                        go!(v, None::<usize>, format!("{a} = {b}"));
                        if N <= 33 { go!(v, Some(a), format!("{a} equivalent to {b}")); }
                    }
                }
            }
        })* } }
        size!(9 16 17 33 64 65 129 257);
    });
    // string maps
    for (un, u) in string_universes() {
        r.scenario(&format!("strings/{un}"), |sc| {
            for np in [0usize, 3, 5] {
                let es: Vec<(Box<str>, u32)> = u[..np].iter().enumerate().map(|(i, k)| ((*k).into(), i as u32)).collect();
                let model = model_map(&es);
                let maps = [FzStringMap::with_hasher(es.clone(), HF::Fold(1)), FzStringMap::with_hasher(es.clone(), HF::Const(1)), FzStringMap::with_hasher(es.clone(), HF::First)];
                macro_rules! n { ($n:literal) => {
                    sequences(u.len() + 1, $n, |q| {
                        sc.case(|| format!("present {:?} queries {:?}", &u[..np], q.iter().map(|i| u.get(*i).copied().unwrap_or("zz")).collect::<Vec<_>>()), |o| {
                            o.state(&(np, q));
                            let ks: [Box<str>; $n] = std::array::from_fn(|i| u.get(q[i]).copied().unwrap_or("zz").into());
                            let must = || if (0..$n).any(|i| (0..i).any(|j| q[i] == q[j])) { Must::Panic } else { Must::Answer };
                            for m in &maps {
                                one(o, "FzStringMap get_disjoint_mut(&str)", m, &model, must(), &ks, |c| c.get_disjoint_mut::<$n>(std::array::from_fn(|i| &*ks[i])), dumper!(o))?;
                                one(o, "FzStringMap get_disjoint_mut(String)", m, &model, must(), &ks, |c| c.get_disjoint_mut::<$n>(std::array::from_fn(|i| ks[i].to_string())), dumper!(o))?;
                                one(o, "FzStringMap MapExtras::get_disjoint_mut", m, &model, must(), &ks, |c| MapExtras::<Box<str>, u32, Box<str>>::get_disjoint_mut(c, std::array::from_fn(|i| &ks[i])), dumper!(o))?;
                                if must() == Must::Answer {
                                    one(o, "FzStringMap get_disjoint_unchecked_mut", m, &model, must(), &ks, |c| unsafe { c.get_disjoint_unchecked_mut::<$n>(std::array::from_fn(|i| &*ks[i])) }, dumper!(o))?;
                                }
                            }
                            Ok(())
                        });
                    });
                } }
                n!(0);
                n!(1);
                n!(2);
                n!(3);
                if deep { n!(4); }
            }
        });
    }
    // macro-made maps: all arrays of <=3 over present keys and two absent ones
    r.scenario("macro-made", |sc| {
        macro_rules! body { ($n:expr, $md:ident, $absent:expr, $k:ty) => {
            let es = inl::maps::$md::entries();
            let model = model_map(&es);
            let mut u: Vec<$k> = es.iter().map(|e| e.0.clone()).take(5).collect();
            u.extend($absent);
            let m = inl::maps::$md::wrap();
            macro_rules! arr { ($len:literal) => {
                sequences(u.len(), $len, |q| {
                    sc.case(|| format!("{} queries {:?}", $n, q.iter().map(|i| u[*i].clone()).collect::<Vec<_>>()), |o| {
                        o.state(&($n, q));
                        let ks: [$k; $len] = std::array::from_fn(|i| u[q[i]].clone());
                        let must = || if (0..$len).any(|i| (0..i).any(|j| q[i] == q[j])) { Must::Panic } else { Must::Answer };
                        one(o, &format!("{} get_disjoint_mut", $n), &m, &model, must(), &ks, |c| c.u_disjoint(std::array::from_fn(|i| &ks[i])), dumper!(o))?;
                        if must() == Must::Answer {
                            one(o, &format!("{} get_disjoint_unchecked_mut", $n), &m, &model, must(), &ks, |c| unsafe { c.u_disjoint_unchecked(std::array::from_fn(|i| &ks[i])) }, dumper!(o))?;
                        }
                        Ok(())
                    });
                });
            } }
            arr!(0);
            arr!(1);
            arr!(2);
            arr!(3);
            if deep { arr!(4); }
        } }
        macro_rules! m { ($n:expr, $md:ident) => { body!($n, $md, [3u32, 123_456u32], u32); } }
        each_inl_int_map!(m);
        macro_rules! m { ($n:expr, $md:ident) => { body!($n, $md, ["zz", "x"], &'static str); } }
        each_inl_str_map!(m);
    });
    // standard and hashbrown maps through the trait
    r.scenario("other-maps", |sc| {
        let u = [4u32, 5, 6, 2, 7];
        let es: Vec<(u32, u32)> = u[..3].iter().map(|i| (*i, i * 10)).collect();
        let model: BTreeMap<u32, u32> = es.iter().copied().collect();
        let sm: std::collections::HashMap<u32, u32> = es.iter().copied().collect();
        let bm: BTreeMap<u32, u32> = model.clone();
        let hm: hashbrown::HashMap<u32, u32> = es.iter().copied().collect();
        macro_rules! arr { ($len:literal) => {
            sequences(u.len(), $len, |q| {
                sc.case(|| format!("queries {:?}", q.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                    o.state(q);
                    let ks: [u32; $len] = std::array::from_fn(|i| u[q[i]]);
                    let dup = |present: bool| (0..$len).any(|i| (0..i).any(|j| q[i] == q[j] && (!present || q[i] < 3)));
                    let must = || if dup(false) { Must::Panic } else { Must::Answer };
                    // these delegate to the other library where two absent queries may be accepted
                    let must_hb = || if dup(true) { Must::Panic } else if dup(false) { Must::Either } else { Must::Answer };
                    macro_rules! d { () => { |m| { let mut v: Vec<(u32, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect(); v.sort(); v } } }
                    one(o, "std HashMap get_disjoint_mut", &sm, &model, must_hb(), &ks, |c| MapExtras::<u32, u32, u32>::get_disjoint_mut(c, std::array::from_fn(|i| &ks[i])), d!())?;
                    one(o, "BTreeMap get_disjoint_mut", &bm, &model, must(), &ks, |c| MapExtras::<u32, u32, u32>::get_disjoint_mut(c, std::array::from_fn(|i| &ks[i])), d!())?;
                    one(o, "hashbrown HashMap get_disjoint_mut", &hm, &model, must_hb(), &ks, |c| MapExtras::<u32, u32, u32>::get_disjoint_mut(c, std::array::from_fn(|i| &ks[i])), d!())?;
                    if must() == Must::Answer {
                        one(o, "std HashMap unchecked", &sm, &model, must(), &ks, |c| unsafe { MapExtras::<u32, u32, u32>::get_disjoint_unchecked_mut(c, std::array::from_fn(|i| &ks[i])) }, d!())?;
                        one(o, "BTreeMap unchecked", &bm, &model, must(), &ks, |c| unsafe { MapExtras::<u32, u32, u32>::get_disjoint_unchecked_mut(c, std::array::from_fn(|i| &ks[i])) }, d!())?;
                        one(o, "hashbrown HashMap unchecked", &hm, &model, must(), &ks, |c| unsafe { MapExtras::<u32, u32, u32>::get_disjoint_unchecked_mut(c, std::array::from_fn(|i| &ks[i])) }, d!())?;
                    }
                    Ok(())
                });
            });
        } }
        arr!(0);
        arr!(1);
        arr!(2);
        arr!(3);
        arr!(4);
    });
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073) x 3 spreads x 4 families: pairs of positions around every width with an absent key between, and the same key twice");
    r.scenario("large", |sc| {
        for n in big_sizes(r_level) {
            for spread in [1u32, 3, 60_013] {
                for kind in 0..4 {
                    sc.case(|| format!("{n} keys, spread {spread}, {}", ["hash", "ordered", "scalar", "string"][kind]), |o| {
                        o.state(&(n, spread, kind));
                        let mut es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i.wrapping_mul(spread), i)).collect();
                        es.rotate_left(n / 3);
                        let mut exp = es.clone();
                        exp.sort();
                        match kind {
                            0 => big_disjoint(o, &FzHashMap::with_hasher(es, HF::Fold(1)), &exp, &0xffff_fff5),
                            1 => big_disjoint(o, &FzOrderedMap::new(es), &exp, &0xffff_fff5),
                            2 => big_disjoint(o, &FzScalarMap::new(es), &exp, &0xffff_fff5),
                            _ => {
                                let mut se: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (format!("{k}v").into(), *v)).collect();
                                let m = FzStringMap::new(se.clone());
                                se.sort();
                                big_disjoint(o, &m, &se, &"5w".into())
                            }
                        }
                    });
                }
            }
        }
    });
    r.finish()
}
