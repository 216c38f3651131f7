//! C08: iteration yields every entry exactly once; iterators keep their contracts at every point of consumption.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::collections::BTreeMap;

fn maps_over<V: Clone + Eq + std::fmt::Debug + std::hash::Hash>(o: &mut Obs, es: &[(TK, V)], full: usize) -> R {
    let model = model_map(es);
    audit_map_iteration(o, &FzHashMap::with_hasher(es.to_vec(), HF::Ident), &model, full)?;
    audit_map_iteration(o, &FzHashMap::with_hasher(es.to_vec(), HF::Const(9)), &model, full)?;
    audit_map_iteration(o, &FzHashMap::new(es.to_vec()), &model, full)?;
    audit_map_iteration(o, &FzOrderedMap::new(es.to_vec()), &model, full)?;
    audit_map_iteration(o, &FzScalarMap::new(es.to_vec()), &model, full)
}
fn sets_over(o: &mut Obs, ks: &[TK], full: usize) -> R {
    let model = model_set(ks);
    audit_set_iteration(o, &FzHashSet::with_hasher(ks.to_vec(), HF::Ident), &model, full)?;
    audit_set_iteration(o, &FzHashSet::with_hasher(ks.to_vec(), HF::Const(9)), &model, full)?;
    audit_set_iteration(o, &FzOrderedSet::new(ks.to_vec()), &model, full)?;
    audit_set_iteration(o, &FzScalarSet::new(ks.to_vec()), &model, full)
}

/// iterators obtained through mutable access really reach every slot exactly once
fn writes<M: MapUT<TK, u32>>(o: &mut Obs, m: &M, model: &BTreeMap<TK, u32>) -> R {
    for how in 0..3 {
        for stop in 0..=model.len() {
            let mut c = m.clone();
            let mut exp = model.clone();
            let order: Vec<TK> = c.u_keys().copied().collect();
            match how {
                0 => c.u_iter_mut().take(stop).for_each(|(k, v)| *v += 1000 + k.id % 7),
                1 => c.u_mut_ref_iter().take(stop).for_each(|(k, v)| *v += 1000 + k.id % 7),
                _ => c.u_values_mut().take(stop).for_each(|v| *v += 1000),
            }
            for k in order.iter().take(stop) {
                *exp.get_mut(k).unwrap() += 1000 + if how < 2 { k.id % 7 } else { 0 };
            }
            audit_contents(o, &c, &exp).map_err(|e| format!("after mutating {stop} entries by way {how}: {e}"))?;
            for (k, v) in &exp { ensure_eq!(c.u_get(k), Some(v), "{} get({:?}) after mutating {stop} entries by way {how}", M::NAME, k); }
        }
    }
    Ok(())
}

fn main() {
    let mut r = Run::new("C08");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    for (un, u) in id_universes() {
        let l = if deepest { 6 } else if deep { 5 } else { 4 };
        r.scenario(&format!("seqs/{un}"), |sc| {
            for n in 0..=l {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es: Vec<(TK, u32)> = s.iter().enumerate().map(|(p, i)| (TK { id: u[*i], tag: p as u32 }, 100 + p as u32)).collect();
                        let ks: Vec<TK> = es.iter().map(|e| e.0).collect();
                        let model = model_map(&es);
                        o.state(&model.keys().map(|k| (k.id, k.tag)).collect::<Vec<_>>());
                        maps_over(o, &es, 8)?;
                        sets_over(o, &ks, 8)?;
                        writes(o, &FzHashMap::with_hasher(es.clone(), HF::Ident), &model)?;
                        writes(o, &FzOrderedMap::new(es.clone()), &model)?;
                        writes(o, &FzScalarMap::new(es.clone()), &model)?;
                        // values with no size and values that own memory
                        let unit: Vec<(TK, ())> = ks.iter().map(|k| (*k, ())).collect();
                        maps_over(o, &unit, 8)?;
                        let st: Vec<(TK, String)> = ks.iter().map(|k| (*k, format!("v{}", k.tag))).collect();
                        maps_over(o, &st, 8)
                    });
                });
            }
        });
    }
    r.bound("all id sequences of length <=4 (thorough 5) over 5 ids in 6 universes x 4 map and 3 set implementations, all 10 map and 3 set iterator kinds, every point of consumption; value types u32, (), String");
    for (un, u) in string_universes() {
        r.scenario(&format!("strings/{un}"), |sc| {
            for mask in 0u32..1 << u.len() {
                sc.case(|| format!("keys {:?}", (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect::<Vec<_>>()), |o| {
                    let ks: Vec<Box<str>> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i].into()).collect();
                    let es: Vec<(Box<str>, u32)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect();
                    o.state(&ks);
                    for h in [HF::Const(0), HF::Fold(3), HF::First] {
                        audit_map_iteration(o, &FzStringMap::with_hasher(es.clone(), h.clone()), &model_map(&es), 8)?;
                        audit_set_iteration(o, &FzStringSet::with_hasher(ks.clone(), h), &model_set(&ks), 8)?;
                    }
                    Ok(())
                });
            }
        });
    }
    r.scenario("sizes", |sc| {
        let ns: Vec<usize> = if deep { (0..=70).chain([127, 128, 129, 255, 256, 257, 1000, 1001]).collect() } else { (0..=20).chain([31, 32, 33, 127, 128, 129, 255, 256, 257]).collect() };
        for &n in &ns {
            for spread in [1u32, 5, 100_003] {
                sc.case(|| format!("{n} keys, spread {spread}"), |o| {
                    o.state(&(n, spread));
                    let es: Vec<(TK, u32)> = (0..n as u32).map(|i| (TK { id: i * spread, tag: i }, i)).collect();
                    let ks: Vec<TK> = es.iter().map(|e| e.0).collect();
                    maps_over(o, &es, 40)?;
                    sets_over(o, &ks, 40)?;
                    let ss: Vec<(Box<str>, u32)> = (0..n as u32).map(|i| (format!("{}k{i}", "w".repeat(i as usize % 3)).into(), i)).collect();
                    audit_map_iteration(o, &FzStringMap::new(ss.clone()), &model_map(&ss), 40)?;
                    let sk: Vec<Box<str>> = ss.into_iter().map(|e| e.0).collect();
                    audit_set_iteration(o, &FzStringSet::new(sk.clone()), &model_set(&sk), 40)
                });
            }
        }
    });
    r.scenario("macro-made", |sc| {
        macro_rules! m { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::maps::$md::entries();
                o.state($n);
                audit_map_iteration(o, &inl::maps::$md::wrap(), &model_map(&es), 16)
            });
        } }
        macro_rules! s { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::sets::$md::entries();
                o.state($n);
                audit_set_iteration(o, &inl::sets::$md::wrap(), &model_set(&es), 16)
            });
        } }
        each_inl_int_map!(m);
        each_inl_str_map!(m);
        each_inl_int_set!(s);
        each_inl_str_set!(s);
    });
    // default and empty collections
    r.scenario("empty", |sc| {
        macro_rules! e { ($t:ty, $k:ty) => {
            sc.case(|| format!("{}::default()", stringify!($t)), |o| { o.state(stringify!($t)); audit_map_iteration::<$k, u32, $t>(o, &<$t>::default(), &BTreeMap::new(), 4) });
        } }
        macro_rules! es { ($t:ty, $k:ty) => {
            sc.case(|| format!("{}::default()", stringify!($t)), |o| { o.state(stringify!($t)); audit_set_iteration::<$k, $t>(o, &<$t>::default(), &Default::default(), 4) });
        } }
        e!(FzHashMap<TK, u32>, TK);
        e!(FzOrderedMap<TK, u32>, TK);
        e!(FzScalarMap<TK, u32>, TK);
        e!(FzStringMap<Box<str>, u32>, Box<str>);
        es!(FzHashSet<TK>, TK);
        es!(FzOrderedSet<TK>, TK);
        es!(FzScalarSet<TK>, TK);
        es!(FzStringSet<Box<str>>, Box<str>);
    });
    // beyond every internal width
    r.bound("sizes 255..70000 (thorough 131073) on both sides of the powers of two, 2 id spacings: 5 map, 4 set layouts and the string collections; every iterator kind straight through, jumping to and from the 30 positions around every width, and past the end");
    r.scenario("large", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for spread in [1u32, 100_003] {
                for kind in 0..6 {
                    sc.case(|| format!("{n} keys, spread {spread}, {}", ["hash map", "ordered map", "scalar map", "string map", "sets", "hash map of strings"][kind]), |o| {
                        o.state(&(n, spread, kind));
                        let mut es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i.wrapping_mul(spread), i)).collect();
                        es.rotate_left(n / 3);
                        let mut exp = es.clone();
                        exp.sort();
                        match kind {
                            0 => big_map_iteration(o, &FzHashMap::with_hasher(es, HF::Fold(1)), &exp),
                            1 => big_map_iteration(o, &FzOrderedMap::new(es), &exp),
                            2 => big_map_iteration(o, &FzScalarMap::new(es), &exp),
                            4 => {
                                let ks: Vec<u32> = es.iter().map(|e| e.0).collect();
                                let exp: Vec<u32> = exp.iter().map(|e| e.0).collect();
                                big_set_iteration(o, &FzHashSet::with_hasher(ks.clone(), HF::Ident), &exp)?;
                                big_set_iteration(o, &FzOrderedSet::new(ks.clone()), &exp)?;
                                big_set_iteration(o, &FzScalarSet::new(ks.clone()), &exp)?;
                                let mut se: Vec<Box<str>> = ks.iter().map(|k| format!("v{k}").into()).collect();
                                let s = FzStringSet::new(se.clone());
                                se.sort();
                                big_set_iteration(o, &s, &se)
                            }
                            _ => {
                                let mut se: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (format!("v{k}").into(), *v)).collect();
                                let sorted = |v: &Vec<(Box<str>, u32)>| { let mut v = v.clone(); v.sort(); v };
                                if kind == 5 && n > 5000 { se.truncate(5000 + n % 7); }
                                if kind == 3 { big_map_iteration(o, &FzStringMap::new(se.clone()), &sorted(&se)) } else { big_map_iteration(o, &FzHashMap::new(se.clone()), &sorted(&se)) }
                            }
                        }
                    });
                }
            }
        }
    });
    r.finish()
}
