//! C02: run-time sets answer membership exactly.
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::traits::SetExtras;
use mc::*;
use std::sync::Arc;

macro_rules! ctors {
    ($o:expr, $t:ty, $es:expr, $model:expr, $qs:expr) => {{
        let m = <$t>::new($es.clone());
        audit_set_lookup($o, &m, $model, $qs)?;
        audit_set_contents($o, &m, $model)?;
        let m: $t = $es.iter().cloned().collect();
        audit_set_lookup($o, &m, $model, $qs)?;
        if $es.len() <= 4 {
            for k in 0..HINTS {
                let m: $t = hinted($es.clone(), k).collect();
                audit_set_lookup($o, &m, $model, $qs)?;
            }
        }
        if let Some(m) = from_array!($t, $es.clone()) {
            audit_set_lookup($o, &m, $model, $qs)?;
        }
        let m = <$t>::new($es.clone()).clone();
        audit_set_lookup($o, &m, $model, $qs)?;
    }};
}

fn main() {
    let mut r = Run::new("C02");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let l = if deepest { 8 } else if deep { 7 } else { 5 };
    r.bound(format!("collecting from iterators with 8 kinds of truthful size hints, all sequences of length 0..=4 and sizes beyond"));
    r.bound(format!("all value sequences of length 0..={l} over 5 values, for each of 6 integer universes and 7 string universes; queries: every value, its neighbours and the extremes"));
    for (un, u) in id_universes() {
        let lim = if deep || un == "contiguous" || un == "gaps" { l } else { l - 1 };
        let qs = tk(&with_neighbours(&u));
        let menu = [HF::Const(0), HF::Ident, HF::Shl(4), HF::Table(Arc::new(vec![0, 1])), HF::Fold(7)];
        r.scenario(&format!("seqs/{un}"), |sc| {
            for n in 0..=lim {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es: Vec<TK> = s.iter().enumerate().map(|(p, i)| TK { id: u[*i], tag: p as u32 }).collect();
                        let model = model_set(&es);
                        o.state(&model.iter().map(|k| (k.id, k.tag)).collect::<Vec<_>>());
                        ctors!(o, FzHashSet<TK>, es, &model, &qs);
                        ctors!(o, FzOrderedSet<TK>, es, &model, &qs);
                        ctors!(o, FzScalarSet<TK>, es, &model, &qs);
                        for h in &menu {
                            let m = FzHashSet::with_hasher(es.clone(), h.clone());
                            audit_set_lookup(o, &m, &model, &qs)?;
                        }
                        let m: FzHashSet<TK, HF> = es.iter().cloned().collect();
                        audit_set_lookup(o, &m, &model, &qs)?;
                        // sets converted from maps
                        let unit = |v: &Vec<TK>| v.iter().map(|k| (*k, ())).collect::<Vec<_>>();
                        audit_set_lookup(o, &FzHashSet::from(frozen_collections_core::fz_maps::FzHashMap::<TK, (), HF>::from_iter(unit(&es))), &model, &qs)?;
                        audit_set_lookup(o, &FzOrderedSet::from(frozen_collections_core::fz_maps::FzOrderedMap::new(unit(&es))), &model, &qs)?;
                        audit_set_lookup(o, &FzScalarSet::from(frozen_collections_core::fz_maps::FzScalarMap::new(unit(&es))), &model, &qs)?;
                        Ok(())
                    });
                });
            }
        });
    }
    for (un, u) in string_universes() {
        let lim = if deepest { 7 } else if deep { 6 } else if un == "mixed-lengths" { 5 } else { 4 };
        let us: Vec<String> = u.iter().map(|s| s.to_string()).collect();
        let qs = bx(&near_misses(&us));
        r.scenario(&format!("string/seqs/{un}"), |sc| {
            let menu = [HF::Const(0), HF::Ident, HF::Len, HF::Fold(7)];
            for n in 0..=lim {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("values {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es: Vec<Box<str>> = s.iter().map(|i| u[*i].into()).collect();
                        let model = model_set(&es);
                        o.state(&model);
                        ctors!(o, FzStringSet<Box<str>>, es, &model, &qs);
                        for h in &menu {
                            let m = FzStringSet::with_hasher(es.clone(), h.clone());
                            audit_set_lookup(o, &m, &model, &qs)?;
                        }
                        let m = FzStringSet::new(es.iter().map(|k| k.as_ref()).collect::<Vec<&str>>());
                        let m2 = FzStringSet::new(es.iter().map(|k| k.to_string()).collect());
                        let hs = FzHashSet::new(es.iter().map(|k| k.to_string()).collect());
                        let os = FzOrderedSet::new(es.iter().map(|k| k.to_string()).collect());
                        for q in &qs {
                            let e = model.get(q);
                            let q: &str = q;
                            ensure_eq!(m.get(q), e, "FzStringSet get(&str {:?})", q);
                            ensure_eq!(m2.get(q.to_string()), e, "FzStringSet get(String {:?})", q);
                            ensure_eq!(m.contains(q), e.is_some(), "FzStringSet contains(&str {:?})", q);
                            ensure_eq!(hs.contains(q), e.is_some(), "FzHashSet<String> contains(&str {:?})", q);
                            ensure_eq!(SetExtras::<String, str>::get(&hs, q).map(|x| x.as_str()), e.map(|x| &**x), "FzHashSet<String> get(&str {:?})", q);
                            ensure_eq!(os.contains(q), e.is_some(), "FzOrderedSet<String> contains(&str {:?})", q);
                            ensure_eq!(os.get(q).map(|x| x.as_str()), e.map(|x| &**x), "FzOrderedSet<String> get(&str {:?})", q);
                            o.t(7);
                        }
                        Ok(())
                    });
                });
            }
        });
    }
    r.scenario("query-types", |sc| {
        for mask in 0u32..(1 << 8) {
            sc.case(|| format!("ids mask {mask:b}"), |o| {
                let es: Vec<TK> = (0..8).filter(|i| mask >> i & 1 == 1).map(|i| TK { id: i * 3, tag: i }).collect();
                let model = model_set(&es);
                o.state(&mask);
                let h = FzHashSet::new(es.clone());
                let d = FzOrderedSet::new(es.clone());
                for id in 0..26 {
                    let q = QK { id, alias: 1 };
                    let e = model.get(&TK { id, tag: 0 });
                    ensure_eq!(h.contains(&q), e.is_some(), "FzHashSet contains({q:?})");
                    ensure_eq!(d.contains(&q), e.is_some(), "FzOrderedSet contains({q:?})");
                    ensure_eq!(SetExtras::<TK, QK>::get(&h, &q), e, "FzHashSet get({q:?})");
                    ensure_eq!(d.get(&q), e, "FzOrderedSet get({q:?})");
                    o.t(4);
                }
                Ok(())
            });
        }
    });
    let u: Vec<u32> = vec![0, 1, 2, 4, 7, 30, 64, 100, 127, 129, 1000];
    let qs = tk(&with_neighbours(&u));
    r.bound("all subsets of an 11-value universe x 3 insertion orders");
    r.scenario("subsets", |sc| {
        let menu = hash_menu();
        for mask in 0u32..(1 << u.len()) {
            for ord in 0..3 {
                sc.case(|| format!("ids mask {mask:b} of {u:?} order {ord}"), |o| {
                    let mut ids: Vec<u32> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect();
                    match ord {
                        1 => ids.reverse(),
                        2 => {
                            let k = ids.len() / 2;
                            ids.rotate_left(k)
                        }
                        _ => {}
                    }
                    let es: Vec<TK> = ids.iter().enumerate().map(|(p, i)| TK { id: *i, tag: p as u32 }).collect();
                    let model = model_set(&es);
                    o.state(&mask);
                    audit_set_lookup(o, &FzOrderedSet::new(es.clone()), &model, &qs)?;
                    audit_set_lookup(o, &FzScalarSet::new(es.clone()), &model, &qs)?;
                    let h = menu[(mask as usize + ord) % menu.len()].clone();
                    audit_set_lookup(o, &FzHashSet::with_hasher(es.clone(), h), &model, &qs)?;
                    Ok(())
                });
            }
        }
    });
    let maxn = if deepest { 4200 } else if deep { 1200 } else { 270 };
    r.bound(format!("every size 0..={maxn} x 4 value shapes x 4 set families"));
    r.scenario("sizes", |sc| {
        let shapes: [(&str, fn(u32) -> u32); 4] = [("i", |i| i), ("3i+5", |i| 3 * i + 5), ("i*7919", |i| i.wrapping_mul(7919)), ("bitmix", |i| i.wrapping_mul(2_654_435_761))];
        for n in 0..=maxn {
            for (sn, f) in shapes {
                sc.case(|| format!("n={n} values {sn}"), |o| {
                    let ids: Vec<u32> = (0..n).map(f).collect();
                    let es: Vec<TK> = ids.iter().map(|i| TK { id: *i, tag: 0 }).collect();
                    let model = model_set(&es);
                    o.state(&(n, sn));
                    let qs = tk(&with_neighbours(&ids));
                    audit_set_lookup(o, &FzOrderedSet::new(es.clone()), &model, &qs)?;
                    audit_set_lookup(o, &FzScalarSet::new(es.clone()), &model, &qs)?;
                    audit_set_lookup(o, &FzHashSet::new(es.clone()), &model, &qs)?;
                    let ss: Vec<Box<str>> = ids.iter().map(|i| format!("v{i}").into()).collect();
                    let sq: Vec<Box<str>> = qs.iter().map(|q| format!("v{}", q.id).into()).chain(qs.iter().take(20).map(|q| format!("{}", q.id).into())).collect();
                    audit_set_lookup(o, &FzStringSet::new(ss.clone()), &model_set(&ss), &sq)?;
                    if n <= 40 || n % 16 < 2 {
                        let k = n as usize % HINTS;
                        audit_set_lookup(o, &hinted(es.clone(), k).collect::<FzOrderedSet<_>>(), &model, &qs)?;
                        audit_set_lookup(o, &hinted(es.clone(), k).collect::<FzScalarSet<_>>(), &model, &qs)?;
                        audit_set_lookup(o, &hinted(es.clone(), k).collect::<FzHashSet<_>>(), &model, &qs)?;
                        audit_set_lookup(o, &hinted(ss.clone(), k).collect::<FzStringSet<_>>(), &model_set(&ss), &sq)?;
                    }
                    Ok(())
                });
            }
        }
    });
    // the compile-time sets: every member, neighbours
    r.scenario("macro-made", |sc| {
        macro_rules! ints {
            ($n:expr, $md:ident) => {
                sc.case(|| $n.to_string(), |o| {
                    let es = inl::sets::$md::entries();
                    let model = model_set(&es);
                    o.state(&(1, &model));
                    audit_set_lookup(o, &inl::sets::$md::wrap(), &model, &with_neighbours(&es))?;
                    audit_set_contents(o, &inl::sets::$md::wrap(), &model)
                })
            };
        }
        each_inl_int_set!(ints);
        macro_rules! strs {
            ($n:expr, $md:ident) => {
                sc.case(|| $n.to_string(), |o| {
                    let es = inl::sets::$md::entries();
                    let model = model_set(&es);
                    o.state(&(2, &model));
                    let q: Vec<&'static str> = near_misses(&es.iter().map(|s| s.to_string()).collect::<Vec<_>>()).into_iter().map(|s| &*s.leak()).collect();
                    audit_set_lookup(o, &inl::sets::$md::wrap(), &model, &q)?;
                    audit_set_contents(o, &inl::sets::$md::wrap(), &model)
                })
            };
        }
        each_inl_str_set!(strs);
    });
    r.scenario("default", |sc| {
        sc.case(|| "default sets".into(), |o| {
            let none: std::collections::BTreeSet<TK> = Default::default();
            let qs = tk(&[0, 1, 2, u32::MAX]);
            audit_set_lookup(o, &FzHashSet::<TK>::default(), &none, &qs)?;
            audit_set_lookup(o, &FzHashSet::<TK, HF>::default(), &none, &qs)?;
            audit_set_lookup(o, &FzOrderedSet::<TK>::default(), &none, &qs)?;
            audit_set_lookup(o, &FzScalarSet::<TK>::default(), &none, &qs)?;
            let nos: std::collections::BTreeSet<Box<str>> = Default::default();
            let sq: Vec<Box<str>> = vec!["".into(), "a".into(), "abc".into()];
            audit_set_lookup(o, &FzStringSet::<Box<str>>::default(), &nos, &sq)?;
            audit_set_lookup(o, &FzStringSet::<Box<str>, HF>::default(), &nos, &sq)?;
            o.state(&0);
            Ok(())
        });
    });
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073) x 4 value shapes x 4 set families: every value, and as many absent ones");
    r.scenario("large", |sc| {
        let shapes: [(&str, fn(u32) -> u32); 4] = [("i", |i| i), ("3i+5", |i| 3 * i + 5), ("i*65521", |i| i.wrapping_mul(65_521)), ("bitmix", |i| i.wrapping_mul(2_654_435_761))];
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for (sn, f) in shapes {
                sc.case(|| format!("n={n} values {sn}"), |o| {
                    o.state(&(n, sn));
                    let given: Vec<u32> = (0..n as u32).map(f).collect();
                    let mut es = given.clone();
                    es.sort();
                    let absent: Vec<u32> = es.iter().flat_map(|e| [e.wrapping_add(1), e ^ 0x8000_0000, e ^ 0x1_0000, e ^ 0x100]).filter(|q| es.binary_search(q).is_err()).collect();
                    big_set_lookup(o, &FzOrderedSet::new(given.clone()), &es, &absent)?;
                    big_set_lookup(o, &FzScalarSet::new(given.clone()), &es, &absent)?;
                    big_set_lookup(o, &FzHashSet::new(given.clone()), &es, &absent)?;
                    big_set_lookup(o, &FzHashSet::with_hasher(given.clone(), HF::Fold(5)), &es, &absent)?;
                    let mut ss: Vec<Box<str>> = given.iter().map(|e| format!("v{e}").into()).collect();
                    let s = FzStringSet::new(ss.clone());
                    ss.sort();
                    let absent: Vec<Box<str>> = absent.iter().step_by(3).map(|q| format!("v{q}").into()).chain(es.iter().step_by(5).map(|e| format!("{e}").into())).collect();
                    big_set_lookup(o, &s, &ss, &absent)
                });
            }
        }
    });
    r.finish()
}
