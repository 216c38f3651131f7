//! C04: string keyed collections find exactly the stored strings.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

fn menu() -> Vec<HF> {
    vec![HF::Fold(3), HF::Const(7), HF::Ident, HF::First, HF::Len]
}

/// one key set against one query list, in maps and sets, over several hash functions
fn audit(o: &mut Obs, keys: &[&str], qs: &[&str], hf: &[HF]) -> R {
    let model: BTreeMap<&str, u32> = keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
    let es: Vec<(&str, u32)> = keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
    fn q<BH: std::hash::BuildHasher>(o: &mut Obs, m: &FzStringMap<Box<str>, u32, BH>, s: &FzStringSet<Box<str>, BH>, model: &BTreeMap<&str, u32>, qs: &[&str]) -> R {
        ensure_eq!(m.len(), model.len(), "FzStringMap len");
        ensure_eq!(s.len(), model.len(), "FzStringSet len");
        for x in qs.iter().chain(model.keys()) {
            let e = model.get(x);
            ensure_eq!(m.get(x), e, "FzStringMap get({x:?})");
            ensure_eq!(m.contains_key(x), e.is_some(), "FzStringMap contains_key({x:?})");
            ensure_eq!(m.get_key_value(x).map(|kv| (kv.0.as_ref(), kv.1)), e.map(|v| (*x, v)), "FzStringMap get_key_value({x:?})");
            ensure_eq!(s.contains(x), e.is_some(), "FzStringSet contains({x:?})");
            ensure_eq!(s.get(x).map(|b| b.as_ref()), e.map(|_| *x), "FzStringSet get({x:?})");
        }
        o.t(5 * (qs.len() + model.len()) as u64);
        let mut got: Vec<(&str, u32)> = m.iter().map(|(k, v)| (k.as_ref(), *v)).collect();
        got.sort();
        ensure_eq!(got, model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "FzStringMap contents");
        let mut got: Vec<&str> = s.iter().map(|k| k.as_ref()).collect();
        got.sort();
        ensure_eq!(got, model.keys().copied().collect::<Vec<_>>(), "FzStringSet contents");
        Ok(())
    }
    let m = FzStringMap::new(es.clone());
    let s = FzStringSet::new(keys.to_vec());
    q(o, &m, &s, &model, qs)?;
    for h in hf {
        let m = FzStringMap::with_hasher(es.clone(), h.clone());
        let s = FzStringSet::with_hasher(keys.to_vec(), h.clone());
        q(o, &m, &s, &model, qs).map_err(|e| format!("hash function {h:?}: {e}"))?;
    }
    Ok(())
}

fn near(keys: &[String]) -> Vec<String> {
    near_misses(keys)
}
fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

fn main() {
    let mut r = Run::new("C04");
    let (deep, deepest, r_level) = (r.thorough, r.deepest, r.level);
    let _ = deepest;

    // every subset of every short string
    for (an, alpha, hi) in [("ab", vec!["a", "b"], 3usize), ("utf8", vec!["e", "\u{e9}", "\u{6f22}"], 2), ("nul", vec!["\0", "\u{7f}", "\u{10ffff}"], 2), ("same-low-bits", vec!["A", "a", "\u{81}"], 2)] {
        let u = strings(&alpha, 0, hi);
        let mut qa = alpha.clone();
        qa.push("c");
        let qs = strings(&qa, 0, hi + 1);
        r.bound(format!("all {} subsets of the {} strings of length <={hi} over {alpha:?}, queried with all {} strings of length <={} over {qa:?}", 1u64 << u.len(), u.len(), qs.len(), hi + 1));
        r.scenario(&format!("subsets/{an}"), |sc| {
            let hf = menu();
            let hf = if deep { hf } else { hf[..2].to_vec() };
            let qr = refs(&qs);
            for mask in 0u32..1 << u.len() {
                sc.case(|| format!("keys {:?}", (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| &u[i]).collect::<Vec<_>>()), |o| {
                    let mut keys: Vec<&str> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i].as_str()).collect();
                    o.state(&keys);
                    if mask % 3 == 0 { keys.reverse(); }
                    audit(o, &keys, &qr, if mask.count_ones() <= 6 || deep { &hf } else { &hf[..1] })
                });
            }
        });
    }

    // padded cores: shared prefixes and suffixes up to well past the analysis limit
    {
        let cores = ["a", "b", "ab", "ba", "aab", "\u{e9}"];
        let hi = if deepest { 40 } else if deep { 20 } else { 18 };
        r.bound(format!("prefix length 0..={hi} x suffix length 0..={hi} x all subsets of >=2 of the cores {cores:?}"));
        r.scenario("padded", |sc| {
            for p in 0..=hi {
                for s in 0..=hi {
                    if !deep && p > 3 && s > 3 && (p + s) % 5 != 0 { continue; }
                    for mask in 0u32..64 {
                        if mask.count_ones() < 2 { continue; }
                        sc.case(|| format!("prefix {p} suffix {s} cores {:?}", (0..6).filter(|i| mask >> i & 1 == 1).map(|i| cores[i]).collect::<Vec<_>>()), |o| {
                            o.state(&(p, s, mask));
                            let keys: Vec<String> = (0..6).filter(|i| mask >> i & 1 == 1).map(|i| format!("{}{}{}", "p".repeat(p), cores[i], "s".repeat(s))).collect();
                            let mut q: Vec<String> = vec![];
                            for dp in [p.saturating_sub(1), p, p + 1] {
                                for ds in [s.saturating_sub(1), s, s + 1] {
                                    for c in cores.iter().chain(&["", "c"]) {
                                        q.push(format!("{}{}{}", "p".repeat(dp), c, "s".repeat(ds)));
                                    }
                                }
                            }
                            // one wrong byte anywhere outside the core
                            for k in keys.iter().take(2) {
                                let cs: Vec<char> = k.chars().collect();
                                for i in 0..cs.len() {
                                    let mut d = cs.clone();
                                    d[i] = 'z';
                                    q.push(d.iter().collect());
                                    let mut d = cs.clone();
                                    d.remove(i);
                                    q.push(d.iter().collect());
                                    q.push(cs[i..].iter().collect());
                                    q.push(cs[..i].iter().collect());
                                }
                            }
                            audit(o, &refs(&keys), &refs(&q), &[HF::Fold(1), HF::Const(0)])
                        });
                    }
                }
            }
        });
    }

    // enough keys for the analysis to tolerate duplicates (1 in 20)
    {
        r.bound("families of 18..=45 (and 60, 80, 100) keys in which lengths, left parts or right parts coincide for 0..=5 keys");
        r.scenario("tolerated-duplicates", |sc| {
            let ns: Vec<usize> = if deepest { (2..=300).collect() } else if deep { (15..=64).chain([79, 80, 81, 99, 100, 101, 200]).collect() } else { (18..=23).chain(38..=43).chain([60, 80, 100]).collect() };
            for n in ns {
                for d in 0..=5usize {
                    for fam in 0..6 {
                        sc.case(|| format!("family {fam} with {n} keys, {d} coinciding"), |o| {
                            o.state(&(n, d, fam));
                            let mut keys: Vec<String> = vec![];
                            for i in 0..n {
                                let j = if i < d { 0 } else { i }; // the coinciding feature
                                keys.push(match fam {
                                    // lengths coincide for d keys; contents differ
                                    0 => format!("{}{}", char::from_u32(0x21 + (i as u32 % 90)).unwrap(), "x".repeat(j)) + if i < d { ["", "y", "yy", "yyy", "yyyy", "yyyyy"][0] } else { "" },
                                    // equal lengths, left 2 chars coincide for d keys, right part distinct
                                    1 => format!("{:02}--{:03}", j % 100, i),
                                    // different lengths, right part coincides
                                    2 => format!("{}{:03}-{:03}", "w".repeat(i % 3), i, j),
                                    // left coincides, lengths vary
                                    3 => format!("{:03}{}{:03}", j, "w".repeat(i % 4), i),
                                    // pairs coincide all over
                                    4 => format!("{:03}{}", i / 2, if i % 2 == 0 { "a" } else { "b" }),
                                    // a few short keys among long ones
                                    _ => if i < d { "q".repeat(i) } else { format!("{:04}longer", i) },
                                });
                            }
                            keys.sort();
                            keys.dedup();
                            let q = near(&keys[..keys.len().min(12)]);
                            let mut q2 = q.clone();
                            q2.extend(keys.iter().map(|k| format!("{k}x")));
                            q2.extend(keys.iter().map(|k| k.chars().rev().collect::<String>()));
                            q2.extend(keys.iter().map(|k| "x".repeat(k.len())));
                            q2.extend(keys.iter().map(|k| if k.is_empty() { k.clone() } else { k[1..].to_string() }));
                            audit(o, &refs(&keys), &refs(&q2), &menu())
                        });
                    }
                }
            }
        });
    }

    // length-only differences and long strings
    {
        r.scenario("lengths", |sc| {
            let lens: Vec<usize> = (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536, 65537]).collect();
            for c in ["a", "\u{e9}"] {
                for w in 1..=8usize {
                    for st in 0..lens.len() {
                        sc.case(|| format!("{w} keys of char {c:?} with lengths {:?}", &lens[st..(st + w).min(lens.len())]), |o| {
                            o.state(&(c, w, st));
                            let keys: Vec<String> = lens[st..(st + w).min(lens.len())].iter().map(|n| c.repeat(*n)).collect();
                            let mut q: Vec<String> = vec![];
                            for k in &lens[st.saturating_sub(1)..(st + w + 1).min(lens.len())] {
                                for d in [k.saturating_sub(1), *k, k + 1] {
                                    q.push(c.repeat(d));
                                    if d > 0 {
                                        q.push(format!("{}b", c.repeat(d - 1)));
                                        q.push(format!("b{}", c.repeat(d - 1)));
                                        q.push(format!("{}b{}", c.repeat(d / 2), c.repeat(d - d / 2 - 1)));
                                    }
                                }
                            }
                            audit(o, &refs(&keys), &refs(&q), &menu()[..3])
                        });
                    }
                }
            }
        });
    }

    // every string-like query type, every string-capable collection
    for (un, u) in string_universes() {
        let us: Vec<String> = u.iter().map(|s| s.to_string()).collect();
        let qs = near_misses(&us);
        r.scenario(&format!("query-types/{un}"), |sc| {
            for mask in 0u32..1 << u.len() {
                sc.case(|| format!("keys {:?}", (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect::<Vec<_>>()), |o| {
                    let keys: Vec<&str> = (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect();
                    o.state(&keys);
                    let es: Vec<(String, u32)> = keys.iter().enumerate().map(|(i, k)| (k.to_string(), i as u32)).collect();
                    let model: BTreeMap<String, u32> = es.iter().cloned().collect();
                    let mut a = FzStringMap::new(es.clone());
                    let sa = FzStringSet::new(keys.clone());
                    let b = FzHashMap::new(es.clone());
                    let bs = FzHashMap::new(keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect());
                    let c = FzOrderedMap::new(es.clone());
                    let cs = FzOrderedMap::new(keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect());
                    for q in &qs {
                        let e = model.get(q);
                        macro_rules! one { ($q:expr) => {
                            ensure_eq!(a.get($q), e, "FzStringMap get({} of {:?})", stringify!($q), q);
                            ensure_eq!(a.contains_key($q), e.is_some(), "FzStringMap contains_key({} of {:?})", stringify!($q), q);
                            ensure_eq!(a.get_key_value($q).map(|x| x.1), e, "FzStringMap get_key_value({} of {:?})", stringify!($q), q);
                            ensure_eq!(a.get_mut($q).map(|x| *x), e.copied(), "FzStringMap get_mut({} of {:?})", stringify!($q), q);
                            ensure_eq!(sa.contains($q), e.is_some(), "FzStringSet contains({} of {:?})", stringify!($q), q);
                            ensure_eq!(sa.get($q).is_some(), e.is_some(), "FzStringSet get({} of {:?})", stringify!($q), q);
                            o.t(6);
                        } }
                        one!(q);
                        one!(q.as_str());
                        one!(q.clone());
                        one!(q.clone().into_boxed_str());
                        one!(&q.clone().into_boxed_str());
                        one!(Cow::Borrowed(q.as_str()));
                        one!(Cow::<str>::Owned(q.clone()));
                        one!(Rc::<str>::from(q.as_str()));
                        one!(Arc::<str>::from(q.as_str()));
                        one!(&&q.as_str());
                        ensure_eq!(b.get(q.as_str()), e, "FzHashMap<String>.get(&str {q:?})");
                        ensure_eq!(b.get(q), e, "FzHashMap<String>.get(&String {q:?})");
                        ensure_eq!(bs.get(&q.as_str()), e, "FzHashMap<&str>.get {q:?}");
                        ensure_eq!(c.get(q.as_str()), e, "FzOrderedMap<String>.get(&str {q:?})");
                        ensure_eq!(c.get(q), e, "FzOrderedMap<String>.get(&String {q:?})");
                        ensure_eq!(cs.get(&q.as_str()), e, "FzOrderedMap<&str>.get {q:?}");
                        if let Some(e) = e {
                            ensure_eq!(&a[q], e, "FzStringMap index {q:?}");
                            ensure_eq!(&b[q.as_str()], e, "FzHashMap index {q:?}");
                            ensure_eq!(&c[q.as_str()], e, "FzOrderedMap index {q:?}");
                        }
                        o.t(8);
                    }
                    Ok(())
                });
            }
        });
    }

    // macro-made string collections against every short string and every near miss
    r.scenario("macro-made", |sc| {
        let mut all = strings(&["a", "b", "x", "c"], 0, if deep { 7 } else { 5 });
        all.extend(strings(&["x", "e", "\u{e9}"], 0, 5));
        macro_rules! m { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::maps::$md::entries();
                let mut q = all.clone();
                q.extend(near_misses(&es.iter().map(|e| e.0.to_string()).collect::<Vec<_>>()));
                let q: Vec<&'static str> = q.into_iter().map(|s| &*s.leak()).collect();
                let model = model_map(&es);
                o.state($n);
                let mut w = inl::maps::$md::wrap();
                audit_lookup_fast(o, &mut w, &model, &q)
            });
        } }
        macro_rules! s { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::sets::$md::entries();
                let mut q = all.clone();
                q.extend(near_misses(&es.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
                let q: Vec<&'static str> = q.into_iter().map(|s| &*s.leak()).collect();
                let model = model_set(&es);
                o.state($n);
                audit_set_lookup(o, &inl::sets::$md::wrap(), &model, &q)
            });
        } }
        each_inl_str_map!(m);
        each_inl_str_set!(s);
    });
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073) x 7 shapes of strings (numbered, fixed width, common prefix, common suffix, both, differing in the middle of long strings, non-ASCII): every key and as many near misses");
    r.scenario("large", |sc| {
        fn mk(shape: usize, i: usize) -> String {
            match shape {
                0 => format!("k{i}"),
                1 => format!("{i:07}"),
                2 => format!("a/common/prefix/{i}"),
                3 => format!("{i:07}.example.com"),
                4 => format!("<{:05}-{:02}>", i / 100, i % 100),
                5 => format!("{}{i:07}{}", "x".repeat(140), "y".repeat(140)),
                _ => format!("\u{e9}{}\u{5b57}", char::from_u32(0x100 + i as u32 * 3 + if i * 3 + 0x100 >= 0xd800 { 0x1_0000 } else { 0 }).unwrap()),
            }
        }
        for n in big_sizes(r_level) {
            for shape in 0..7 {
                sc.case(|| format!("{n} strings of shape {shape}, such as {:?}", mk(shape, 0)), |o| {
                    o.state(&(n, shape));
                    let mut es: Vec<(Box<str>, u32)> = (0..n).map(|i| (mk(shape, i).into(), i as u32)).collect();
                    let absent: Vec<Box<str>> = (n..n + n / 2 + 20).map(|i| mk(shape, i)).chain((0..n).step_by(3).flat_map(|i| { let k = mk(shape, i); [format!("{k}!"), format!("!{k}"), k.chars().skip(1).collect::<String>() + "\u{1}"] })).map(Into::into).collect();
                    let given = es.clone();
                    es.sort();
                    let ks: Vec<Box<str>> = es.iter().map(|e| e.0.clone()).collect();
                    for h in [HF::Fold(1), HF::Fnv] {
                        big_map_lookup(o, &mut FzStringMap::with_hasher(given.clone(), h.clone()), &es, &absent)?;
                        big_set_lookup(o, &FzStringSet::with_hasher(given.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), h), &ks, &absent)?;
                    }
                    big_map_lookup(o, &mut FzStringMap::new(given), &es, &absent)
                });
            }
        }
    });
    r.finish()
}
