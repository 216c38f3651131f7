//! C05: answers never depend on the hash function.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::sync::Arc;

fn tkv(ids: &[u32]) -> Vec<(TK, u32)> {
    ids.iter().enumerate().map(|(i, id)| (TK { id: *id, tag: i as u32 }, 1000 + i as u32)).collect()
}

fn audit_ints(o: &mut Obs, es: &[(TK, u32)], qs: &[TK], h: &HF) -> R {
    let model = model_map(es);
    let mut m = FzHashMap::with_hasher(es.to_vec(), h.clone());
    audit_lookup_fast(o, &mut m, &model, qs)?;
    audit_contents(o, &m, &model)?;
    let ks: Vec<TK> = es.iter().map(|e| e.0).collect();
    let ms = model_set(&ks);
    let s = FzHashSet::with_hasher(ks, h.clone());
    ensure_eq!(s.len(), ms.len(), "FzHashSet len");
    for q in qs.iter().chain(ms.iter()) {
        ensure_eq!(s.contains(q), ms.contains(q), "FzHashSet contains({q:?})");
        // queries of another type
        let k = QK { id: q.id, alias: 1 };
        ensure_eq!(m.get(&k), model.get(q), "FzHashMap get by equivalent {k:?}");
        ensure_eq!(s.contains(&k), ms.contains(q), "FzHashSet contains by equivalent {k:?}");
    }
    o.t(3 * (qs.len() + ms.len()) as u64);
    audit_set_contents(o, &s, &ms)
}

fn main() {
    let mut r = Run::new("C05");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let codes: Vec<u64> = vec![0, 1, 2, 3, 16, 1 << 63, u64::MAX, 0x1_0000_0000];

    // every function from the key universe to the code menu, for all key sequences (with repetition) of each length
    {
        let (nk, nc) = if deepest { (8, 6) } else if deep { (7, 6) } else { (6, 6) };
        r.bound(format!("all {nc}^{nk} hash functions from {nk} keys to {nc} codes, for every prefix length of the key list (with and without a repeated key); absent queries take every code"));
        r.scenario("tables/int", |sc| {
            for n in 0..=nk {
                sequences(nc, nk, |f| {
                    // keys beyond n are absent queries with their own codes; +8 wraps onto present codes
                    sc.case(|| format!("{n} keys, codes {:?}", f.iter().map(|c| codes[*c]).collect::<Vec<_>>()), |o| {
                        o.state(&(n, f));
                        let h = HF::Table(Arc::new(f.iter().map(|c| codes[*c]).collect()));
                        let ids: Vec<u32> = (0..n as u32).collect();
                        let qs = tk(&(0..(2 * nk) as u32).collect::<Vec<_>>());
                        audit_ints(o, &tkv(&ids), &qs, &h)?;
                        if n >= 2 {
                            let mut dup = ids.clone();
                            dup.push(0);
                            dup.push(ids[n - 1]);
                            dup.insert(0, ids[n / 2]);
                            audit_ints(o, &tkv(&dup), &qs, &h)?;
                        }
                        Ok(())
                    });
                });
            }
        });
    }
    // larger key counts: families of hash functions at every number of distinct codes, around the table-sizing limits
    {
        let ns: Vec<usize> = if deep { (1..=140).chain((250..=260).step_by(1)).chain([511, 512, 513, 998, 999, 1000, 1001, 1024, 1025, 2000, 3000]).collect() } else { (1..=24).chain([31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 999, 1000, 1001]).collect() };
        r.bound(format!("key counts {}..={} ({} of them) x hash families id%m, id/m, (id%m)<<s, reversed bits, constant", ns[0], ns[ns.len() - 1], ns.len()));
        r.scenario("families/int", |sc| {
            for &n in &ns {
                let mut fs: Vec<(String, Box<dyn Fn(u64) -> u64>)> = vec![];
                for m in [1u64, 2, 3, 4, 7, 8, 16, 20, 64, 100, 127, 128, 500, 1024] {
                    if m > 2 * n as u64 { continue; }
                    if n > 500 && m < 4 && !deep { continue; }
                    fs.push((format!("id%{m}"), Box::new(move |i| i % m)));
                    fs.push((format!("id/{m}"), Box::new(move |i| i / m)));
                    fs.push((format!("(id%{m})<<60"), Box::new(move |i| (i % m) << 60)));
                    fs.push((format!("!id/{m}<<11"), Box::new(move |i| !(i / m) << 11)));
                    // mostly perfect: one in m collides (5% rule)
                    fs.push((format!("1-in-{m}-collides"), Box::new(move |i| if i % m == 0 { 0 } else { i })));
                    fs.push((format!("first-{m}-collide"), Box::new(move |i| if i < m { 0 } else { i })));
                }
                fs.push(("id".into(), Box::new(|i| i)));
                fs.push(("reverse bits".into(), Box::new(u64::reverse_bits)));
                fs.push(("id^MAX".into(), Box::new(|i| !i)));
                for (fnm, f) in &fs {
                    sc.case(|| format!("{n} keys, hash {fnm}"), |o| {
                        o.state(&(n, fnm));
                        let h = HF::Table(Arc::new((0..2 * n as u64).map(|i| f(i)).collect()));
                        let ids: Vec<u32> = (0..n as u32).rev().collect();
                        let mut q: Vec<u32> = (n as u32..2 * n as u32 + 2).collect();
                        q.extend([u32::MAX, 1 << 20]);
                        audit_ints(o, &tkv(&ids), &tk(&q), &h)
                    });
                }
            }
        });
    }
    // strings: hash functions given by tables over byte sums, by length, by first/last byte, for all subsets
    {
        let u: Vec<String> = vec!["", "a", "b", "ab", "ba", "aab", "abb", "bba", "xab", "xba"].into_iter().map(String::from).collect();
        let qs = bx(&near_misses(&u));
        let nc = if deep { 5 } else { 4 };
        r.bound(format!("all subsets of 10 strings x all {nc}^3 tables over byte sums + fixed menu of hash functions"));
        r.scenario("tables/string", |sc| {
            for mask in 0u32..1 << u.len() {
                if !deep && mask.count_ones() > 6 { continue; }
                let mut hs = hash_menu();
                sequences(nc, 3, |f| hs.push(HF::Table(Arc::new(f.iter().map(|c| codes[*c]).collect()))));
                let lim = if deep { hs.len() } else { 13 + 64 };
                for (hi, h) in hs.iter().take(lim).enumerate() {
                    if !deep && hi >= 13 && mask % 4 != hi as u32 % 4 { continue; }
                    sc.case(|| format!("keys {:?} hash {h:?}", (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| &u[i]).collect::<Vec<_>>()), |o| {
                        o.state(&(mask, h));
                        let es: Vec<(Box<str>, u32)> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| (u[i].clone().into_boxed_str(), i as u32)).collect();
                        let model = model_map(&es);
                        let mut m = FzStringMap::with_hasher(es.clone(), h.clone());
                        audit_lookup_fast(o, &mut m, &model, &qs)?;
                        audit_contents(o, &m, &model)?;
                        let ks: Vec<Box<str>> = es.iter().map(|e| e.0.clone()).collect();
                        let s = FzStringSet::with_hasher(ks.clone(), h.clone());
                        for q in &qs { ensure_eq!(s.contains(q), model.contains_key(q), "FzStringSet contains({q:?})"); }
                        o.t(qs.len() as u64);
                        audit_set_contents(o, &s, &model_set(&ks))?;
                        // the same strings as plain hash keys
                        let mut m = FzHashMap::with_hasher(es.clone(), h.clone());
                        audit_lookup_fast(o, &mut m, &model, &qs)?;
                        audit_contents(o, &m, &model)
                    });
                }
            }
        });
    }
    // many strings with bad hash functions (collision tables, tolerated duplicate subslices)
    r.scenario("families/string", |sc| {
        for n in [4usize, 5, 19, 20, 21, 40, 41, 100, 127, 128, 129, 300, 1000] {
            for shape in 0..4 {
                for h in hash_menu().into_iter().chain((1..=8).map(|m| HF::Table(Arc::new((0..m).map(|i| i * 3).collect())))) {
                    if !deep && n > 300 && shape > 1 { continue; }
                    sc.case(|| format!("{n} strings of shape {shape}, hash {h:?}"), |o| {
                        o.state(&(n, shape, &h));
                        let mk = |i: usize| -> Box<str> {
                            match shape { 0 => format!("k{i}"), 1 => format!("{i:05}suffix"), 2 => format!("prefix{i:05}"), _ => format!("{}{}", "z".repeat(i % 40), i) }.into()
                        };
                        let es: Vec<(Box<str>, u32)> = (0..n).map(|i| (mk(i), i as u32)).collect();
                        let model = model_map(&es);
                        let qs: Vec<Box<str>> = (n..n + 40).map(mk).chain(["", "k", "prefix", "suffix"].iter().map(|s| (*s).into())).collect();
                        let mut m = FzStringMap::with_hasher(es.clone(), h.clone());
                        audit_lookup_fast(o, &mut m, &model, &qs)?;
                        audit_contents(o, &m, &model)?;
                        let ks: Vec<Box<str>> = es.iter().map(|e| e.0.clone()).collect();
                        let s = FzStringSet::with_hasher(ks.clone(), h.clone());
                        let ms = model_set(&ks);
                        for q in qs.iter().chain(&ks) { ensure_eq!(s.contains(q), ms.contains(q), "FzStringSet contains({q:?})"); }
                        audit_set_contents(o, &s, &ms)
                    });
                }
            }
        }
    });
    // compound keys: several hash writes per key, in every hash function
    r.scenario("compound-keys", |sc| {
        let ks: Vec<(u8, Box<str>, Vec<u8>)> = vec![(0, "".into(), vec![]), (0, "a".into(), vec![]), (1, "a".into(), vec![0]), (1, "".into(), vec![0, 0]), (1, "a".into(), vec![])];
        for h in hash_menu() {
            for mask in 0u32..32 {
                sc.case(|| format!("hash {h:?} keys mask {mask:05b}"), |o| {
                    o.state(&(&h, mask));
                    let es: Vec<_> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| (ks[i].clone(), i as u32)).collect();
                    let model = model_map(&es);
                    let mut m = FzHashMap::with_hasher(es, h.clone());
                    audit_lookup(o, &mut m, &model, &ks, true)?;
                    audit_contents(o, &m, &model)
                });
            }
        }
    });
    // more keys than any slot number fits: hash functions that collide a little, everywhere
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073): hash codes id, id/2, id/8, id with the low or the high 8 bits cleared, id<<16, id<<44, reversed bits (up to 5000 keys), multiples; integers and strings");
    r.scenario("families/large", |sc| {
        let fs: [(&str, fn(u64) -> u64); 9] = [("id", |i| i), ("id/2", |i| i / 2), ("id/8", |i| i / 8), ("low bits cleared", |i| i & !7), ("id<<16", |i| i << 16), ("id<<44", |i| i << 44), ("reversed", u64::reverse_bits), ("id*3^MAX", |i| !(i * 3)), ("1 in 16 shares its successor's", |i| if i % 16 == 0 { i + 1 } else { i })];
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            let mut tables: Vec<std::sync::OnceLock<HF>> = vec![];
            tables.resize_with(fs.len(), Default::default);
            for (fi, (fnm, f)) in fs.iter().enumerate() {
                // codes without low bits end up in few slots: right, but slow to search
                if n > 20_000 && !deep && fi % 3 != n % 3 || n > 5000 && (4..=6).contains(&fi) { continue; }
                sc.case(|| format!("{n} keys, hash {fnm}"), |o| {
                    o.state(&(n, fnm));
                    let h = tables[fi].get_or_init(|| HF::Table(Arc::new((0..2 * n as u64).map(f).collect())));
                    let es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i, i ^ 0x5555)).collect();
                    let absent: Vec<u32> = (n as u32..2 * n as u32 + 3).chain([u32::MAX, 1 << 31]).collect();
                    let mut rev = es.clone();
                    rev.reverse();
                    big_map_lookup(o, &mut FzHashMap::with_hasher(rev, h.clone()), &es, &absent)?;
                    let ks: Vec<u32> = es.iter().map(|e| e.0).collect();
                    big_set_lookup(o, &FzHashSet::with_hasher(ks.clone(), h.clone()), &ks, &absent)?;
                    // strings whose byte sum runs through few codes only would make long chains: a real string hash here
                    let mut se: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (match fi % 3 { 0 => format!("k{k}"), 1 => format!("{k:06}suffix"), _ => format!("prefix{k:06}") }.into(), *v)).collect();
                    let sa: Vec<Box<str>> = absent.iter().map(|k| match fi % 3 { 0 => format!("k{k}"), 1 => format!("{k:06}suffix"), _ => format!("prefix{k:06}") }.into()).chain(["", "k", "suffix", "prefix"].iter().map(|s| (*s).into())).collect();
                    let mut m = FzStringMap::with_hasher(se.clone(), if fi % 2 == 0 { HF::Fnv } else { HF::Fold(fi as u64) });
                    se.sort();
                    big_map_lookup(o, &mut m, &se, &sa)?;
                    let ss: Vec<Box<str>> = se.into_iter().map(|e| e.0).collect();
                    big_set_lookup(o, &FzStringSet::with_hasher(ss.clone(), HF::Fnv), &ss, &sa)
                });
            }
        }
    });
    r.finish()
}
