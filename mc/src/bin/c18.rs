//! C18: collections stay exact at every size, in particular around the limits where the representation changes.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::hashers::BridgeHasher;
use frozen_collections_core::maps::HashMap as RawHashMap;
use frozen_collections_core::traits::{CollectionMagnitude, LargeCollection, MediumCollection, SmallCollection};
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// id families: n distinct ids each
fn ids(fam: usize, n: usize) -> Vec<u32> {
    let n = n as u32;
    match fam {
        0 => (0..n).collect(),
        1 => (0..n).rev().map(|i| i + 1000).collect(),
        2 => (0..n).map(|i| i * 2 + 7).collect(),
        3 => (0..n).map(|i| i * 9 + 3).collect(),
        4 => (0..n).rev().map(|i| i.wrapping_mul(65_521)).collect(),
        5 => (0..n).map(|i| i.wrapping_mul(2_654_435_761)).collect(),
        6 => (0..n).map(|i| u32::MAX - i).collect(),
        // contiguous but for one hole in the middle
        7 => (0..n).map(|i| if i >= n / 2 { i + 1 } else { i }).collect(),
        _ => unreachable!(),
    }
}
const FAMS: usize = 8;
fn strs(fam: usize, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| match fam {
            0 => format!("k{i}"),
            1 => format!("{i:06}"),
            2 => "a".repeat(i),
            3 => format!("prefix_{i}_suffix"),
            4 => format!("{:06}tail", i.wrapping_mul(7919) % 1_000_003),
            5 => char::from_u32(0x100 + i as u32 * 3 + if i * 3 + 0x100 >= 0xd800 { 0x1_0000 } else { 0 }).unwrap().to_string(),
            _ => unreachable!(),
        })
        .collect()
}
const SFAMS: usize = 6;

fn map_all<K: Ord + Debug + Clone, M: MapUT<K, u32>>(o: &mut Obs, m: M, model: &BTreeMap<K, u32>, qs: &[K]) -> R {
    let mut m = m;
    audit_lookup_fast(o, &mut m, model, qs)?;
    audit_contents(o, &m, model)?;
    ensure_eq!(m.u_keys().count(), model.len(), "{} keys().count()", M::NAME);
    ensure_eq!(m.u_values_mut().count(), model.len(), "{} values_mut().count()", M::NAME);
    // the key a lookup reports is the key asked for and its slot is reached by iteration exactly once
    for (_, v) in m.u_iter_mut() { *v = v.wrapping_add(1); }
    for (k, v) in model { ensure_eq!(m.u_get(k), Some(&v.wrapping_add(1)), "{} get({k:?}) after iter_mut", M::NAME); }
    ensure_eq!(m.u_into_iter().count(), model.len(), "{} into_iter().count()", M::NAME);
    Ok(())
}
fn set_all<T: Ord + Debug + Clone, S: SetUT<T>>(o: &mut Obs, s: S, model: &std::collections::BTreeSet<T>, qs: &[T]) -> R {
    ensure_eq!(s.u_len(), model.len(), "{} len", S::NAME);
    for q in qs.iter().chain(model.iter()) {
        ensure_eq!(s.u_contains(q), model.contains(q), "{} contains({q:?})", S::NAME);
        ensure_eq!(s.u_get(q), model.get(q), "{} get({q:?})", S::NAME);
        o.t(2);
    }
    audit_set_contents(o, &s, model)?;
    ensure_eq!(s.u_into_iter().count(), model.len(), "{} into_iter().count()", S::NAME);
    Ok(())
}

fn limited<CM: CollectionMagnitude>(o: &mut Obs, name: &str, es: &[(TK, u32)], qs: &[TK], hf: HF) -> R {
    let model = model_map(es);
    match RawHashMap::<TK, u32, CM, BridgeHasher<HF>>::with_hasher(es.to_vec(), BridgeHasher::new(hf.clone())) {
        Err(e) => {
            ensure!(model.len() > CM::MAX_CAPACITY || es.len() > CM::MAX_CAPACITY, "{name} of capacity {} refuses {} entries: {e}", CM::MAX_CAPACITY, model.len());
            o.t(1);
            Ok(())
        }
        Ok(m) => {
            ensure_eq!(m.len(), model.len(), "{name} ({hf:?}) len");
            let mut seen = 0;
            for q in qs.iter().chain(model.keys()) {
                ensure_eq!(m.get(q), model.get(q), "{name} ({hf:?}) with {} entries: get({q:?})", model.len());
                ensure_eq!(m.contains_key(q), model.contains_key(q), "{name} ({hf:?}) with {} entries: contains_key({q:?})", model.len());
                o.t(2);
            }
            for (k, v) in m.iter() {
                ensure_eq!(model.get(k), Some(v), "{name} ({hf:?}) iterates {k:?}");
                seen += 1;
            }
            ensure_eq!(seen, model.len(), "{name} ({hf:?}) iterated entries");
            Ok(())
        }
    }
}

fn main() {
    let mut r = Run::new("C18");
    let deep = r.thorough;
    let top = if deep { 2100 } else { 300 };
    let mut sizes: Vec<usize> = (0..=top).collect();
    sizes.extend([500, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537]);
    if deep { sizes.extend([8191, 8192, 8193, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 100_000, 131_071, 131_072, 131_073, 262_143, 262_145]); }
    sizes.sort();
    sizes.dedup();
    // order big sizes first so that the shards are balanced
    sizes.reverse();
    for fam in 0..FAMS {
        r.scenario(&format!("ids/{fam}"), |sc| {
            for &n in &sizes { for dup in [false, true] {
                if dup && n > 1100 && (fam > 1 || !deep || n > 70_000) { continue; }
                if n > 5000 && !deep && fam > 5 { continue; }
                sc.case(|| format!("{n} ids of family {fam}{}", if dup { ", every id listed twice" } else { "" }), |o| {
                    let u = ids(fam, n);
                    let mut es: Vec<(TK, u32)> = u.iter().enumerate().map(|(i, x)| (TK { id: *x, tag: 0 }, i as u32)).collect();
                    if dup { es.extend(u.iter().enumerate().map(|(i, x)| (TK { id: *x, tag: 1 }, 1_000_000 + i as u32)).collect::<Vec<_>>()); }
                    let ks: Vec<TK> = es.iter().map(|e| e.0).collect();
                    let (mm, ms) = (model_map(&es), model_set(&ks));
                    let qs = tk(&with_neighbours(&u));
                    o.state(&(fam, n, dup));
                    Run::tick();
                    map_all(o, FzHashMap::with_hasher(es.clone(), HF::Ident), &mm, &qs)?;
                    map_all(o, FzHashMap::with_hasher(es.clone(), HF::Fnv), &mm, &qs)?;
                    if n <= 300 { map_all(o, FzHashMap::with_hasher(es.clone(), HF::Const(5)), &mm, &qs)?; }
                    if n <= 4000 { map_all(o, FzHashMap::with_hasher(es.clone(), HF::Table(std::sync::Arc::new((0..61).map(|x| x * 3).collect()))), &mm, &qs)?; }
                    map_all(o, FzHashMap::new(es.clone()), &mm, &qs)?;
                    Run::tick();
                    map_all(o, FzOrderedMap::new(es.clone()), &mm, &qs)?;
                    map_all(o, FzScalarMap::new(es.clone()), &mm, &qs)?;
                    Run::tick();
                    set_all(o, FzHashSet::with_hasher(ks.clone(), HF::Ident), &ms, &qs)?;
                    set_all(o, FzHashSet::new(ks.clone()), &ms, &qs)?;
                    set_all(o, FzOrderedSet::new(ks.clone()), &ms, &qs)?;
                    set_all(o, FzScalarSet::new(ks), &ms, &qs)
                });
            } }
        });
    }
    r.bound(format!("every size 0..={top} and 22 (thorough 37) larger sizes on both sides of each internal limit up to 65537 (thorough 262145), 8 id families, with and without every id repeated: 3 map and 3 set families, 5 hash functions; every key, every neighbour, all entries"));
    for fam in 0..SFAMS {
        r.scenario(&format!("strings/{fam}"), |sc| {
            for &n in &sizes {
                if (fam == 2 && n > 700) || (n > 5000 && !deep && fam > 1) { continue; }
                sc.case(|| format!("{n} strings of family {fam}"), |o| {
                    let u = strs(fam, n);
                    let es: Vec<(Box<str>, u32)> = u.iter().enumerate().map(|(i, x)| (x.as_str().into(), i as u32)).collect();
                    let ks: Vec<Box<str>> = es.iter().map(|e| e.0.clone()).collect();
                    let (mm, ms) = (model_map(&es), model_set(&ks));
                    let mut qs: Vec<Box<str>> = vec!["".into()];
                    for (i, k) in u.iter().enumerate() {
                        if n > 500 && i % 7 != 0 && i + 20 < n { continue; }
                        for q in [format!("{k}x"), format!("x{k}"), k.chars().skip(1).collect(), k.chars().rev().collect()] { qs.push(q.into()); }
                    }
                    o.state(&(fam, n));
                    Run::tick();
                    let refs: Vec<(&str, u32)> = u.iter().enumerate().map(|(i, x)| (x.as_str(), i as u32)).collect();
                    map_all(o, FzStringMap::new(refs.clone()), &mm, &qs)?;
                    map_all(o, FzStringMap::with_hasher(refs, HF::Ident), &mm, &qs)?;
                    map_all(o, FzHashMap::new(es.clone()), &mm, &qs)?;
                    map_all(o, FzOrderedMap::new(es), &mm, &qs)?;
                    Run::tick();
                    set_all(o, FzStringSet::new(u.iter().map(|x| x.as_str()).collect::<Vec<_>>()), &ms, &qs)?;
                    set_all(o, FzOrderedSet::new(ks), &ms, &qs)
                });
            }
        });
    }
    r.bound("the same sizes for 6 string families (numbered, padded, by length up to 700, common prefix and suffix, scattered, single code points)");
    r.scenario("limited capacity", |sc| {
        let mut ns: Vec<usize> = (0..=300).collect();
        ns.extend([511, 512, 65_534, 65_535, 65_536, 65_537]);
        if deep { ns.extend(300..1100); ns.extend([131_071, 131_072]); }
        for n in ns { for fam in [0, 4, 5] { for dup in [false, true] { for h in 0..4 {
            if n > 1000 && (h == 0 || ((fam != 0 || dup) && !deep) || (dup && n > 70_000)) { continue; }
            let hf = [HF::Const(0), HF::Ident, HF::Fnv, HF::Shl(3)][h].clone();
            sc.case(|| format!("{n} ids of family {fam}, dup {dup}, hash {hf:?}"), |o| {
                let u = ids(fam, n);
                let mut es: Vec<(TK, u32)> = u.iter().enumerate().map(|(i, x)| (TK { id: *x, tag: 0 }, i as u32)).collect();
                if dup { es.extend(u.iter().enumerate().rev().map(|(i, x)| (TK { id: *x, tag: 1 }, 1_000_000 + i as u32)).collect::<Vec<_>>()); }
                let qs = tk(&with_neighbours(&u));
                o.state(&(n, fam, dup, h));
                if n <= 1000 { limited::<SmallCollection>(o, "small hash map", &es, &qs, hf.clone())?; }
                limited::<MediumCollection>(o, "medium hash map", &es, &qs, hf.clone())?;
                limited::<LargeCollection>(o, "large hash map", &es, &qs, hf.clone())
            });
        } } } }
    });
    r.bound("limited-capacity hash map: sizes 0..=300 (thorough 1100) and 65534..=65537 at the three magnitudes, 3 id families, 4 hash functions, with repeated keys");
    r.finish();
}
