//! C01: run-time maps answer every lookup like the association list they were built from.
use frozen_collections_core::fz_maps::*;
use mc::*;
use std::sync::Arc;

fn entries(u: &[u32], s: &[usize]) -> Vec<(TK, u32)> {
    s.iter().enumerate().map(|(p, i)| (TK { id: u[*i], tag: p as u32 }, 100 + p as u32)).collect()
}

macro_rules! ctors {
    // every constructor of a type that has new/From array/FromIterator
    ($o:expr, $t:ty, $es:expr, $model:expr, $qs:expr, $absent:expr) => {{
        let mut m = <$t>::new($es.clone());
        audit_lookup($o, &mut m, $model, $qs, $absent)?;
        let mut m: $t = $es.iter().cloned().collect();
        audit_lookup($o, &mut m, $model, $qs, false)?;
        if $es.len() <= 4 {
            for k in 0..HINTS {
                let mut m: $t = hinted($es.clone(), k).collect();
                audit_lookup_fast($o, &mut m, $model, $qs)?;
            }
        }
        if let Some(mut m) = from_array!($t, $es.clone()) {
            audit_lookup($o, &mut m, $model, $qs, false)?;
        }
        let mut m = <$t>::new($es.clone()).clone();
        audit_lookup($o, &mut m, $model, $qs, false)?;
    }};
}

fn main() {
    let mut r = Run::new("C01");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let l = if deepest { 8 } else if deep { 7 } else { 5 };
    r.bound(format!("collecting from iterators with 8 kinds of truthful size hints, all sequences of length 0..=4 and sizes beyond"));
    r.bound(format!("all entry sequences of length 0..={l} over 5 keys, for each of 6 integer universes and 7 string universes; queries: every key, its neighbours and the extremes"));

    for (un, u) in id_universes() {
        let lim = if deep || un == "contiguous" || un == "gaps" { l } else { l - 1 };
        let qs = tk(&with_neighbours(&u));
        r.scenario(&format!("hash/seqs/{un}"), |sc| {
            let menu = [HF::Const(0), HF::Ident, HF::Shl(4), HF::Table(Arc::new(vec![0, 1])), HF::Fold(7)];
            for n in 0..=lim.min(6) {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es = entries(&u, s);
                        let model = model_map(&es);
                        o.state(&model.iter().map(|(k, v)| (k.id, k.tag, *v)).collect::<Vec<_>>());
                        ctors!(o, FzHashMap<TK, u32>, es, &model, &qs, n <= 3);
                        for h in &menu {
                            let mut m = FzHashMap::with_hasher(es.clone(), h.clone());
                            audit_lookup(o, &mut m, &model, &qs, false)?;
                        }
                        let mut m: FzHashMap<TK, u32, HF> = es.iter().cloned().collect();
                        audit_lookup(o, &mut m, &model, &qs, false)?;
                        Ok(())
                    });
                });
            }
        });
        r.scenario(&format!("ordered/seqs/{un}"), |sc| {
            for n in 0..=lim {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es = entries(&u, s);
                        let model = model_map(&es);
                        o.state(&model.iter().map(|(k, v)| (k.id, k.tag, *v)).collect::<Vec<_>>());
                        ctors!(o, FzOrderedMap<TK, u32>, es, &model, &qs, n <= 3);
                        Ok(())
                    });
                });
            }
        });
        r.scenario(&format!("scalar/seqs/{un}"), |sc| {
            for n in 0..=lim {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("ids {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es = entries(&u, s);
                        let model = model_map(&es);
                        o.state(&model.iter().map(|(k, v)| (k.id, k.tag, *v)).collect::<Vec<_>>());
                        ctors!(o, FzScalarMap<TK, u32>, es, &model, &qs, n <= 3);
                        Ok(())
                    });
                });
            }
        });
    }

    for (un, u) in string_universes() {
        let lim = if deepest { 7 } else if deep { 6 } else if un == "mixed-lengths" { 5 } else { 4 };
        let us: Vec<String> = u.iter().map(|s| s.to_string()).collect();
        let qs = bx(&near_misses(&us));
        r.scenario(&format!("string/seqs/{un}"), |sc| {
            let menu = [HF::Const(0), HF::Ident, HF::Len, HF::Fold(7)];
            for n in 0..=lim {
                sequences(u.len(), n, |s| {
                    sc.case(|| format!("keys {:?}", s.iter().map(|i| u[*i]).collect::<Vec<_>>()), |o| {
                        let es: Vec<(Box<str>, u32)> = s.iter().enumerate().map(|(p, i)| (u[*i].into(), 100 + p as u32)).collect();
                        let model = model_map(&es);
                        o.state(&model);
                        ctors!(o, FzStringMap<Box<str>, u32>, es, &model, &qs, n <= 2);
                        for h in &menu {
                            let mut m = FzStringMap::with_hasher(es.clone(), h.clone());
                            audit_lookup(o, &mut m, &model, &qs, false)?;
                        }
                        // keys given as &str and String, looked up as &str and String
                        let m = FzStringMap::new(es.iter().map(|(k, v)| (k.as_ref(), *v)).collect());
                        let m2 = FzStringMap::new(es.iter().map(|(k, v)| (k.to_string(), *v)).collect());
                        for q in &qs {
                            let e = model.get(q);
                            ensure_eq!(m.get(q.as_ref()), e, "FzStringMap get(&str {:?})", q);
                            ensure_eq!(m2.get(q.to_string()), e, "FzStringMap get(String {:?})", q);
                            ensure_eq!(m.contains_key(&**q), e.is_some(), "FzStringMap contains_key(&str {:?})", q);
                            o.t(3);
                        }
                        Ok(())
                    });
                });
            }
        });
        // the same string keys in hash and ordered maps, queried as &str (heterogeneous lookup)
        r.scenario(&format!("hash+ordered-of-string/subsets/{un}"), |sc| {
            for mask in 0u32..(1 << u.len()) {
                sc.case(|| format!("mask {mask:b} of {u:?}"), |o| {
                    let es: Vec<(String, u32)> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| (u[i].to_string(), i as u32)).collect();
                    let model = model_map(&es);
                    o.state(&model);
                    let mut h = FzHashMap::new(es.clone());
                    let mut hc = FzHashMap::with_hasher(es.clone(), HF::Const(1));
                    let mut d = FzOrderedMap::new(es.clone());
                    for q in &qs {
                        let q: &str = q;
                        let e = model.get_key_value(q);
                        ensure_eq!(h.get(q), e.map(|x| x.1), "FzHashMap<String> get(&str {q:?})");
                        ensure_eq!(hc.get(q), e.map(|x| x.1), "FzHashMap<String,const hasher> get(&str {q:?})");
                        ensure_eq!(d.get(q), e.map(|x| x.1), "FzOrderedMap<String> get(&str {q:?})");
                        ensure_eq!(h.get_key_value(q), e, "FzHashMap<String> get_key_value(&str {q:?})");
                        ensure_eq!(d.get_key_value(q), e, "FzOrderedMap<String> get_key_value(&str {q:?})");
                        ensure_eq!(h.contains_key(q), e.is_some(), "FzHashMap<String> contains_key(&str {q:?})");
                        ensure_eq!(d.contains_key(q), e.is_some(), "FzOrderedMap<String> contains_key(&str {q:?})");
                        ensure_eq!(h.get_mut(q).cloned(), e.map(|x| *x.1), "FzHashMap<String> get_mut(&str {q:?})");
                        ensure_eq!(hc.get_mut(q).cloned(), e.map(|x| *x.1), "FzHashMap<String,const> get_mut(&str {q:?})");
                        ensure_eq!(d.get_mut(q).cloned(), e.map(|x| *x.1), "FzOrderedMap<String> get_mut(&str {q:?})");
                        if let Some(e) = e {
                            ensure_eq!(&h[q], e.1, "FzHashMap<String>[&str {q:?}]");
                            ensure_eq!(&d[q], e.1, "FzOrderedMap<String>[&str {q:?}]");
                        }
                        o.t(10);
                    }
                    Ok(())
                });
            }
        });
    }

    // equivalent/comparable query types
    r.scenario("query-types", |sc| {
        for mask in 0u32..(1 << 8) {
            sc.case(|| format!("ids mask {mask:b}"), |o| {
                let es: Vec<(TK, u32)> = (0..8).filter(|i| mask >> i & 1 == 1).map(|i| (TK { id: i * 3, tag: 0 }, i)).collect();
                let model = model_map(&es);
                o.state(&mask);
                let mut h = FzHashMap::new(es.clone());
                let mut d = FzOrderedMap::new(es.clone());
                for id in 0..26 {
                    let q = QK { id, alias: 1 };
                    let e = model.get(&TK { id, tag: 0 });
                    ensure_eq!(h.get(&q), e, "FzHashMap get({q:?})");
                    ensure_eq!(d.get(&q), e, "FzOrderedMap get({q:?})");
                    ensure_eq!(h.get_mut(&q).cloned(), e.cloned(), "FzHashMap get_mut({q:?})");
                    ensure_eq!(d.get_mut(&q).cloned(), e.cloned(), "FzOrderedMap get_mut({q:?})");
                    ensure_eq!(h.contains_key(&q), e.is_some(), "FzHashMap contains_key({q:?})");
                    ensure_eq!(d.contains_key(&q), e.is_some(), "FzOrderedMap contains_key({q:?})");
                    ensure_eq!(h.get_key_value(&q).map(|x| x.1), e, "FzHashMap get_key_value({q:?})");
                    ensure_eq!(d.get_key_value(&q).map(|x| x.1), e, "FzOrderedMap get_key_value({q:?})");
                    if let Some(e) = e {
                        ensure_eq!(&h[&q], e, "FzHashMap[{q:?}]");
                        ensure_eq!(&d[&q], e, "FzOrderedMap[{q:?}]");
                    }
                    o.t(8);
                }
                Ok(())
            });
        }
    });

    // all subsets of 11 ids (mixed spacing), three orders
    let u: Vec<u32> = vec![0, 1, 2, 4, 7, 30, 64, 100, 127, 129, 1000];
    let qs = tk(&with_neighbours(&u));
    r.bound("all subsets of an 11-key universe x 3 insertion orders, hash (13 hash functions), ordered and scalar maps");
    r.scenario("subsets", |sc| {
        let menu = hash_menu();
        for mask in 0u32..(1 << u.len()) {
            for ord in 0..3 {
                sc.case(|| format!("ids mask {mask:b} of {u:?} order {ord}"), |o| {
                    let mut ids: Vec<u32> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect();
                    match ord {
                        1 => ids.reverse(),
                        2 => {
                            let k = ids.len() / 2;
                            ids.rotate_left(k)
                        }
                        _ => {}
                    }
                    let es: Vec<(TK, u32)> = ids.iter().enumerate().map(|(p, i)| (TK { id: *i, tag: p as u32 }, i ^ 0x55)).collect();
                    let model = model_map(&es);
                    o.state(&mask);
                    audit_lookup_fast(o, &mut FzOrderedMap::new(es.clone()), &model, &qs)?;
                    audit_lookup_fast(o, &mut FzScalarMap::new(es.clone()), &model, &qs)?;
                    let h = menu[(mask as usize + ord) % menu.len()].clone();
                    audit_lookup_fast(o, &mut FzHashMap::with_hasher(es.clone(), h), &model, &qs)?;
                    Ok(())
                });
            }
        }
    });

    // every size, four key shapes
    let maxn = if deepest { 4200 } else if deep { 1500 } else { 300 };
    r.bound(format!("every size 0..={maxn} x 4 key shapes x 4 map families, every key and its neighbours queried"));
    r.scenario("sizes", |sc| {
        let shapes: [(&str, fn(u32) -> u32); 4] = [("i", |i| i), ("3i+5", |i| 3 * i + 5), ("i*7919", |i| i.wrapping_mul(7919)), ("bitmix", |i| i.wrapping_mul(2_654_435_761))];
        for n in 0..=maxn {
            for (sn, f) in shapes {
                sc.case(|| format!("n={n} keys {sn}"), |o| {
                    let ids: Vec<u32> = (0..n).map(f).collect();
                    let es: Vec<(TK, u32)> = ids.iter().enumerate().map(|(p, i)| (TK { id: *i, tag: 0 }, p as u32)).collect();
                    let model = model_map(&es);
                    o.state(&(n, sn));
                    let qs = tk(&with_neighbours(&ids));
                    audit_lookup_fast(o, &mut FzOrderedMap::new(es.clone()), &model, &qs)?;
                    audit_lookup_fast(o, &mut FzScalarMap::new(es.clone()), &model, &qs)?;
                    audit_lookup_fast(o, &mut FzHashMap::new(es.clone()), &model, &qs)?;
                    audit_lookup_fast(o, &mut FzHashMap::with_hasher(es.clone(), HF::Ident), &model, &qs)?;
                    let ss: Vec<(Box<str>, u32)> = ids.iter().enumerate().map(|(p, i)| (format!("key{i}").into(), p as u32)).collect();
                    let sm = model_map(&ss);
                    let sq: Vec<Box<str>> = qs.iter().map(|q| format!("key{}", q.id).into()).chain(qs.iter().take(20).map(|q| format!("{}", q.id).into())).collect();
                    audit_lookup_fast(o, &mut FzStringMap::new(ss.clone()), &sm, &sq)?;
                    if n <= 40 || n % 16 < 2 {
                        let k = n as usize % HINTS;
                        audit_lookup_fast(o, &mut hinted(es.clone(), k).collect::<FzOrderedMap<_, _>>(), &model, &qs)?;
                        audit_lookup_fast(o, &mut hinted(es.clone(), k).collect::<FzScalarMap<_, _>>(), &model, &qs)?;
                        audit_lookup_fast(o, &mut hinted(es.clone(), k).collect::<FzHashMap<_, _>>(), &model, &qs)?;
                        audit_lookup_fast(o, &mut hinted(ss.clone(), k).collect::<FzStringMap<_, _>>(), &sm, &sq)?;
                    }
                    Ok(())
                });
            }
        }
    });
    r.scenario("default", |sc| {
        sc.case(|| "default maps".into(), |o| {
            let none: std::collections::BTreeMap<TK, u32> = Default::default();
            let qs = tk(&[0, 1, 2, u32::MAX]);
            audit_lookup(o, &mut FzHashMap::<TK, u32>::default(), &none, &qs, true)?;
            audit_lookup(o, &mut FzHashMap::<TK, u32, HF>::default(), &none, &qs, true)?;
            audit_lookup(o, &mut FzOrderedMap::<TK, u32>::default(), &none, &qs, true)?;
            audit_lookup(o, &mut FzScalarMap::<TK, u32>::default(), &none, &qs, true)?;
            let nos: std::collections::BTreeMap<Box<str>, u32> = Default::default();
            let sq: Vec<Box<str>> = vec!["".into(), "a".into(), "abc".into()];
            audit_lookup(o, &mut FzStringMap::<Box<str>, u32>::default(), &nos, &sq, true)?;
            audit_lookup(o, &mut FzStringMap::<Box<str>, u32, HF>::default(), &nos, &sq, true)?;
            o.state(&0);
            Ok(())
        });
    });
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073) x 4 key shapes x 4 map families: every key, and as many absent ones");
    r.scenario("large", |sc| {
        let shapes: [(&str, fn(u32) -> u32); 4] = [("i", |i| i), ("3i+5", |i| 3 * i + 5), ("i*65521", |i| i.wrapping_mul(65_521)), ("bitmix", |i| i.wrapping_mul(2_654_435_761))];
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for (sn, f) in shapes {
                sc.case(|| format!("n={n} keys {sn}"), |o| {
                    o.state(&(n, sn));
                    let mut es: Vec<(u32, u32)> = (0..n as u32).map(|i| (f(i), i)).collect();
                    let given = es.clone();
                    es.sort();
                    let absent: Vec<u32> = es.iter().flat_map(|e| [e.0.wrapping_add(1), e.0 ^ 0x8000_0000, e.0 ^ 0x1_0000, e.0 ^ 0x100]).filter(|q| es.binary_search_by_key(q, |e| e.0).is_err()).collect();
                    big_map_lookup(o, &mut FzOrderedMap::new(given.clone()), &es, &absent)?;
                    big_map_lookup(o, &mut FzScalarMap::new(given.clone()), &es, &absent)?;
                    big_map_lookup(o, &mut FzHashMap::new(given.clone()), &es, &absent)?;
                    big_map_lookup(o, &mut FzHashMap::with_hasher(given.clone(), HF::Fold(5)), &es, &absent)?;
                    let mut ss: Vec<(Box<str>, u32)> = given.iter().map(|e| (format!("key{}", e.0).into(), e.1)).collect();
                    let mut m = FzStringMap::new(ss.clone());
                    ss.sort();
                    let absent: Vec<Box<str>> = absent.iter().step_by(3).map(|q| format!("key{q}").into()).chain(es.iter().step_by(5).map(|e| format!("{}", e.0).into())).collect();
                    big_map_lookup(o, &mut m, &ss, &absent)
                });
            }
        }
    });
    r.finish()
}
