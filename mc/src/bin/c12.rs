//! C12: equality is equality of contents.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet};

type SM<K, V> = std::collections::HashMap<K, V>;
type SS<T> = std::collections::HashSet<T>;
type HM<K, V> = hashbrown::HashMap<K, V>;
type HS<T> = hashbrown::HashSet<T>;

macro_rules! eqs {
    ($o:expr, $e:expr, $d:expr, $( ($n:literal, $a:expr, $b:expr) ),* $(,)?) => {
        $(
            if (*$a == *$b) != $e { return Err(format!("{}: == says {} for {}", $n, !$e, $d)); }
            if (*$a != *$b) == $e { return Err(format!("{}: != says {} for {}", $n, $e, $d)); }
            $o.t(2);
        )*
    };
}

fn sub(u: &[u32], mask: usize) -> Vec<u32> {
    (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect()
}

fn main() {
    let mut r = Run::new("C12");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    // sets: all pairs of subsets, all pairs of implementations
    for (un, u) in [("contiguous", vec![1u32, 2, 3, 4, 5, 6, 7]), ("gaps", vec![0, 2, 3, 9, 20, 21, 40]), ("scattered", vec![0, 1 << 30, u32::MAX, 7, 1 << 16, 8, 9])] {
        let n = if deepest { 8 } else if deep { 7 } else { 6 };
        r.bound(format!("all pairs of subsets of {n} values ({un}), all pairs of implementations"));
        r.scenario(&format!("sets/{un}"), |sc| {
            for x in 0..1usize << n {
                for y in 0..1usize << n {
                    sc.case(|| format!("{:?} vs {:?}", sub(&u, x), sub(&u, y)), |o| {
                        o.state(&(x, y));
                        let (va, mut vb) = (sub(&u, x), sub(&u, y));
                        let e = x == y;
                        vb.reverse();
                        let d = format!("{va:?} and {vb:?}");
                        let (h, hc, od, s) = (&FzHashSet::with_hasher(va.clone(), HF::Fold(1)), &FzHashSet::with_hasher(va.clone(), HF::Const(1)), &FzOrderedSet::new(va.clone()), &FzScalarSet::new(va.clone()));
                        let (h2, hc2, od2, s2) = (&FzHashSet::new(vb.clone()), &FzHashSet::with_hasher(vb.clone(), HF::Const(5)), &FzOrderedSet::new(vb.clone()), &FzScalarSet::new(vb.clone()));
                        let (st, bt, hb) = (&vb.iter().copied().collect::<SS<u32>>(), &vb.iter().copied().collect::<BTreeSet<u32>>(), &vb.iter().copied().collect::<HS<u32>>());
                        eqs!(o, e, d,
                            ("FzHashSet==FzHashSet", h, h2), ("FzHashSet==FzHashSet(colliding)", h, hc2), ("FzHashSet==FzOrderedSet", h, od2), ("FzHashSet==FzScalarSet", h, s2),
                            ("FzHashSet==std HashSet", h, st), ("FzHashSet==BTreeSet", h, bt), ("FzHashSet==hashbrown", h, hb),
                            ("FzHashSet(colliding)==FzHashSet", hc, h2), ("FzHashSet(colliding)==FzHashSet(colliding)", hc, hc2), ("FzHashSet(colliding)==BTreeSet", hc, bt),
                            ("FzOrderedSet==FzHashSet", od, h2), ("FzOrderedSet==FzOrderedSet", od, od2), ("FzOrderedSet==FzScalarSet", od, s2), ("FzOrderedSet==std HashSet", od, st), ("FzOrderedSet==BTreeSet", od, bt), ("FzOrderedSet==hashbrown", od, hb),
                            ("FzScalarSet==FzHashSet", s, h2), ("FzScalarSet==FzOrderedSet", s, od2), ("FzScalarSet==FzScalarSet", s, s2), ("FzScalarSet==std HashSet", s, st), ("FzScalarSet==BTreeSet", s, bt), ("FzScalarSet==hashbrown", s, hb),
                            ("FzHashSet==FzHashSet swapped", h2, h), ("FzOrderedSet==FzHashSet swapped", od2, h), ("FzScalarSet==FzOrderedSet swapped", s2, od),
                            ("clone of FzHashSet", &h.clone(), h2), ("clone of FzOrderedSet", od, &od2.clone()), ("clone of FzScalarSet", &s.clone(), &s2.clone()),
                        );
                        Ok(())
                    });
                }
            }
        });
    }
    // maps: all pairs of partial functions from 4 keys to {absent, v0, v1}
    for (un, u) in [("contiguous", vec![1u32, 2, 3, 4, 5]), ("gaps", vec![0, 2, 3, 9, 20]), ("scattered", vec![0, 1 << 30, u32::MAX, 7, 1 << 16])] {
        let n = if deepest { 6 } else if deep { 5 } else { 4 };
        r.bound(format!("all pairs of partial functions from {n} keys ({un}) to 2 values, all pairs of map implementations"));
        r.scenario(&format!("maps/{un}"), |sc| {
            let mut fs: Vec<Vec<usize>> = vec![];
            sequences(3, n, |s| fs.push(s.to_vec()));
            let ent = |f: &[usize]| -> Vec<(u32, u32)> { f.iter().enumerate().filter(|(_, v)| **v > 0).map(|(i, v)| (u[i], *v as u32)).collect() };
            for x in &fs {
                for y in &fs {
                    sc.case(|| format!("{:?} vs {:?}", ent(x), ent(y)), |o| {
                        o.state(&(x, y));
                        let (va, mut vb) = (ent(x), ent(y));
                        let e = x == y;
                        vb.reverse();
                        let d = format!("{va:?} and {vb:?}");
                        let (h, hc, od, s) = (&FzHashMap::with_hasher(va.clone(), HF::Fold(1)), &FzHashMap::with_hasher(va.clone(), HF::Const(1)), &FzOrderedMap::new(va.clone()), &FzScalarMap::new(va.clone()));
                        let (h2, hc2, od2, s2) = (&FzHashMap::new(vb.clone()), &FzHashMap::with_hasher(vb.clone(), HF::Const(5)), &FzOrderedMap::new(vb.clone()), &FzScalarMap::new(vb.clone()));
                        let (st, bt, hb) = (&vb.iter().copied().collect::<SM<u32, u32>>(), &vb.iter().copied().collect::<BTreeMap<u32, u32>>(), &vb.iter().copied().collect::<HM<u32, u32>>());
                        eqs!(o, e, d,
                            ("FzHashMap==FzHashMap", h, h2), ("FzHashMap==FzHashMap(colliding)", h, hc2), ("FzHashMap==FzOrderedMap", h, od2), ("FzHashMap==FzScalarMap", h, s2),
                            ("FzHashMap==std HashMap", h, st), ("FzHashMap==BTreeMap", h, bt), ("FzHashMap==hashbrown", h, hb),
                            ("FzHashMap(colliding)==FzHashMap", hc, h2), ("FzHashMap(colliding)==BTreeMap", hc, bt),
                            ("FzOrderedMap==FzHashMap", od, h2), ("FzOrderedMap==FzOrderedMap", od, od2), ("FzOrderedMap==FzScalarMap", od, s2), ("FzOrderedMap==std HashMap", od, st), ("FzOrderedMap==BTreeMap", od, bt), ("FzOrderedMap==hashbrown", od, hb),
                            ("FzScalarMap==FzHashMap", s, h2), ("FzScalarMap==FzOrderedMap", s, od2), ("FzScalarMap==FzScalarMap", s, s2), ("FzScalarMap==std HashMap", s, st), ("FzScalarMap==BTreeMap", s, bt), ("FzScalarMap==hashbrown", s, hb),
                            ("FzHashMap==FzHashMap swapped", h2, h), ("FzOrderedMap==FzHashMap swapped", od2, h), ("FzScalarMap==FzOrderedMap swapped", s2, od),
                            ("clone of FzHashMap", &h.clone(), h2), ("clone of FzOrderedMap", od, &od2.clone()), ("clone of FzScalarMap", &s.clone(), &s2.clone()),
                        );
                        Ok(())
                    });
                }
            }
        });
    }
    // one difference anywhere, at many sizes
    r.bound("sizes up to 40 (and 127..=130, 255..=257, 1000): identical, one value changed, one key replaced, one entry removed, at every position");
    r.scenario("one-difference", |sc| {
        for n in (1usize..=40).chain([127, 128, 129, 130, 255, 256, 257, 1000]) {
            for spread in [1u32, 5, 100_003] {
                let ps: Vec<usize> = if n <= 40 || deep { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
                for p in ps {
                    for kind in 0..4 {
                        sc.case(|| format!("{n} keys spread {spread} position {p} change {}", ["none", "value", "key", "removed"][kind]), |o| {
                            o.state(&(n, spread, p, kind));
                            let va: Vec<(u32, u32)> = (0..n as u32).map(|i| (10 + i * spread, i)).collect();
                            let mut vb = va.clone();
                            match kind { 0 => {}, 1 => vb[p].1 ^= 1 << 31, 2 => vb[p].0 = 10 + n as u32 * spread, _ => { vb.remove(p); } }
                            let l = vb.len(); vb.rotate_left(p.min(l));
                            let e = kind == 0;
                            let d = format!("maps differing as described (n={n}, p={p}, kind={kind})");
                            let (h, od, s) = (&FzHashMap::with_hasher(va.clone(), HF::Fold(1)), &FzOrderedMap::new(va.clone()), &FzScalarMap::new(va.clone()));
                            let (h2, od2, s2) = (&FzHashMap::with_hasher(vb.clone(), HF::Fold(2)), &FzOrderedMap::new(vb.clone()), &FzScalarMap::new(vb.clone()));
                            let bt = &vb.iter().copied().collect::<BTreeMap<u32, u32>>();
                            eqs!(o, e, d, ("FzHashMap==FzHashMap", h, h2), ("FzHashMap==FzScalarMap", h, s2), ("FzOrderedMap==FzOrderedMap", od, od2), ("FzOrderedMap==FzHashMap", od, h2), ("FzScalarMap==FzScalarMap", s, s2), ("FzScalarMap==FzOrderedMap", s, od2),
                                ("FzHashMap==BTreeMap", h, bt), ("FzOrderedMap==BTreeMap", od, bt), ("FzScalarMap==BTreeMap", s, bt), ("swapped hash", h2, h), ("swapped ordered", od2, od), ("swapped scalar", s2, s));
                            // sets of the keys; a changed value alone leaves the key sets equal
                            let e = kind <= 1;
                            let (ka, kb): (Vec<u32>, Vec<u32>) = (va.iter().map(|x| x.0).collect(), vb.iter().map(|x| x.0).collect());
                            let (h, od, s) = (&FzHashSet::with_hasher(ka.clone(), HF::Fold(1)), &FzOrderedSet::new(ka.clone()), &FzScalarSet::new(ka.clone()));
                            let (h2, od2, s2) = (&FzHashSet::with_hasher(kb.clone(), HF::Fold(2)), &FzOrderedSet::new(kb.clone()), &FzScalarSet::new(kb.clone()));
                            eqs!(o, e, d, ("FzHashSet==FzHashSet", h, h2), ("FzHashSet==FzScalarSet", h, s2), ("FzOrderedSet==FzOrderedSet", od, od2), ("FzOrderedSet==FzHashSet", od, h2), ("FzScalarSet==FzScalarSet", s, s2), ("FzScalarSet==FzOrderedSet", s, od2), ("swapped set", s2, h));
                            Ok(())
                        });
                    }
                }
            }
        }
    });
    for (un, u) in string_universes() {
        r.scenario(&format!("strings/{un}"), |sc| {
            let mut fs: Vec<Vec<usize>> = vec![];
            sequences(3, 4, |s| fs.push(s.to_vec()));
            let ent = |f: &[usize]| -> Vec<(Box<str>, u32)> { f.iter().enumerate().filter(|(_, v)| **v > 0).map(|(i, v)| (u[i].into(), *v as u32)).collect() };
            for x in &fs {
                for y in &fs {
                    sc.case(|| format!("{:?} vs {:?}", ent(x), ent(y)), |o| {
                        o.state(&(x, y));
                        let (va, mut vb) = (ent(x), ent(y));
                        vb.reverse();
                        let e = x == y;
                        let d = format!("{va:?} and {vb:?}");
                        let (a, ac) = (&FzStringMap::with_hasher(va.clone(), HF::Fold(1)), &FzStringMap::with_hasher(va.clone(), HF::Const(1)));
                        let (b, bc) = (&FzStringMap::new(vb.clone()), &FzStringMap::with_hasher(vb.clone(), HF::First));
                        let (h, od) = (&FzHashMap::new(vb.clone()), &FzOrderedMap::new(vb.clone()));
                        let (st, bt, hb) = (&vb.iter().cloned().collect::<SM<Box<str>, u32>>(), &vb.iter().cloned().collect::<BTreeMap<Box<str>, u32>>(), &vb.iter().cloned().collect::<HM<Box<str>, u32>>());
                        eqs!(o, e, d, ("FzStringMap==FzStringMap", a, b), ("FzStringMap==FzStringMap(first)", a, bc), ("FzStringMap(colliding)==FzStringMap", ac, b), ("FzStringMap==FzHashMap", a, h), ("FzStringMap==FzOrderedMap", a, od), ("FzHashMap==FzStringMap", h, a), ("FzOrderedMap==FzStringMap", od, a),
                            ("FzStringMap==std HashMap", a, st), ("FzStringMap==BTreeMap", a, bt), ("FzStringMap==hashbrown", a, hb), ("swapped", b, a), ("clone", &a.clone(), &b.clone()));
                        let e = x.iter().zip(y).all(|(p, q)| (*p > 0) == (*q > 0));
                        let (ka, kb): (Vec<Box<str>>, Vec<Box<str>>) = (va.into_iter().map(|v| v.0).collect(), vb.into_iter().map(|v| v.0).collect());
                        let (a, b) = (&FzStringSet::with_hasher(ka.clone(), HF::Fold(1)), &FzStringSet::new(kb.clone()));
                        let (h, od) = (&FzHashSet::new(kb.clone()), &FzOrderedSet::new(kb.clone()));
                        let (st, bt, hb) = (&kb.iter().cloned().collect::<SS<Box<str>>>(), &kb.iter().cloned().collect::<BTreeSet<Box<str>>>(), &kb.iter().cloned().collect::<HS<Box<str>>>());
                        eqs!(o, e, d, ("FzStringSet==FzStringSet", a, b), ("FzStringSet==FzHashSet", a, h), ("FzStringSet==FzOrderedSet", a, od), ("FzHashSet==FzStringSet", h, a), ("FzOrderedSet==FzStringSet", od, a), ("FzStringSet==std", a, st), ("FzStringSet==BTreeSet", a, bt), ("FzStringSet==hashbrown", a, hb), ("swapped", b, a));
                        Ok(())
                    });
                }
            }
        });
    }
    // macro-made maps and sets against every one-step variation of their contents
    r.scenario("macro-made", |sc| {
        macro_rules! variations { ($es:expr, $fresh:expr) => {{
            let es = $es;
            let mut out = vec![(es.clone(), true)];
            for p in 0..es.len() {
                let mut v = es.clone(); v[p].1 ^= 0x4000; out.push((v, false));
                let mut v = es.clone(); v[p].0 = $fresh; out.push((v, false));
                let mut v = es.clone(); v.remove(p); out.push((v, false));
                let mut v = es.clone(); v.rotate_left(p); out.push((v, true));
            }
            let mut v = es.clone(); v.push(($fresh, 5)); out.push((v, false));
            out.push((vec![], false));
            out
        }} }
        macro_rules! m { ($n:expr, $md:ident) => {
            for (v, e) in variations!(inl::maps::$md::entries(), 3u32) {
                sc.case(|| format!("{} vs {v:?}", $n), |o| {
                    o.state(&($n, &v));
                    let a = &inl::maps::$md::make();
                    let d = format!("{} {:?} and {v:?}", $n, a);
                    let (h, od, s) = (&FzHashMap::new(v.clone()), &FzOrderedMap::new(v.clone()), &FzScalarMap::new(v.clone()));
                    let (bt, st, hb) = (&v.iter().copied().collect::<BTreeMap<_, _>>(), &v.iter().copied().collect::<SM<_, _>>(), &v.iter().copied().collect::<HM<_, _>>());
                    eqs!(o, e, d, ("inline==FzHashMap", a, h), ("inline==FzOrderedMap", a, od), ("inline==FzScalarMap", a, s), ("inline==BTreeMap", a, bt), ("inline==std", a, st), ("inline==hashbrown", a, hb), ("FzHashMap==inline", h, a), ("FzOrderedMap==inline", od, a), ("FzScalarMap==inline", s, a));
                    eqs!(o, true, d, ("inline==itself", a, a), ("inline==clone", a, &a.clone()));
                    Ok(())
                });
            }
        } }
        each_inl_int_map!(m);
        macro_rules! m { ($n:expr, $md:ident) => {
            for (v, e) in variations!(inl::maps::$md::entries(), "zz") {
                sc.case(|| format!("{} vs {v:?}", $n), |o| {
                    o.state(&($n, &v));
                    let a = &inl::maps::$md::make();
                    let d = format!("{} {:?} and {v:?}", $n, a);
                    let (h, od, bt) = (&FzHashMap::new(v.clone()), &FzOrderedMap::new(v.clone()), &v.iter().copied().collect::<BTreeMap<_, _>>());
                    eqs!(o, e, d, ("inline==FzHashMap", a, h), ("inline==FzOrderedMap", a, od), ("inline==BTreeMap", a, bt), ("FzHashMap==inline", h, a), ("FzOrderedMap==inline", od, a));
                    eqs!(o, true, d, ("inline==itself", a, a), ("inline==clone", a, &a.clone()));
                    Ok(())
                });
            }
        } }
        each_inl_str_map!(m);
        macro_rules! svariations { ($es:expr, $fresh:expr) => {{
            let es = $es;
            let mut out = vec![(es.clone(), true)];
            for p in 0..es.len() {
                let mut v = es.clone(); v[p] = $fresh; out.push((v, false));
                let mut v = es.clone(); v.remove(p); out.push((v, false));
                let mut v = es.clone(); v.rotate_left(p); out.push((v, true));
            }
            let mut v = es.clone(); v.push($fresh); out.push((v, false));
            out.push((vec![], false));
            out
        }} }
        macro_rules! s { ($n:expr, $md:ident) => {
            for (v, e) in svariations!(inl::sets::$md::entries(), 33u32) {
                sc.case(|| format!("{} vs {v:?}", $n), |o| {
                    o.state(&($n, &v));
                    let a = &inl::sets::$md::make();
                    let d = format!("{} {:?} and {v:?}", $n, a);
                    let (h, od, s) = (&FzHashSet::new(v.clone()), &FzOrderedSet::new(v.clone()), &FzScalarSet::new(v.clone()));
                    let (bt, st, hb) = (&v.iter().copied().collect::<BTreeSet<_>>(), &v.iter().copied().collect::<SS<_>>(), &v.iter().copied().collect::<HS<_>>());
                    eqs!(o, e, d, ("inline==FzHashSet", a, h), ("inline==FzOrderedSet", a, od), ("inline==FzScalarSet", a, s), ("inline==BTreeSet", a, bt), ("inline==std", a, st), ("inline==hashbrown", a, hb), ("FzHashSet==inline", h, a), ("FzOrderedSet==inline", od, a), ("FzScalarSet==inline", s, a));
                    eqs!(o, true, d, ("inline==itself", a, a), ("inline==clone", a, &a.clone()));
                    Ok(())
                });
            }
        } }
        each_inl_int_set!(s);
        macro_rules! s { ($n:expr, $md:ident) => {
            for (v, e) in svariations!(inl::sets::$md::entries(), "zz") {
                sc.case(|| format!("{} vs {v:?}", $n), |o| {
                    o.state(&($n, &v));
                    let a = &inl::sets::$md::make();
                    let d = format!("{} {:?} and {v:?}", $n, a);
                    let (h, od) = (&FzHashSet::new(v.clone()), &FzOrderedSet::new(v.clone()));
                    eqs!(o, e, d, ("inline==FzHashSet", a, h), ("inline==FzOrderedSet", a, od), ("FzHashSet==inline", h, a), ("FzOrderedSet==inline", od, a));
                    Ok(())
                });
            }
        } }
        each_inl_str_set!(s);
    });
    // values whose equality is partial or coarse
    r.scenario("value-equality", |sc| {
        let vals = [0.0f64, -0.0, 1.0, f64::NAN];
        for a in 0..4 {
            for b in 0..4 {
                sc.case(|| format!("values {} and {}", vals[a], vals[b]), |o| {
                    o.state(&(a, b));
                    let e = vals[a] == vals[b];
                    let (va, vb) = (vec![(1u32, vals[a]), (2, 5.0)], vec![(2u32, 5.0), (1, vals[b])]);
                    let d = format!("{va:?} {vb:?}");
                    eqs!(o, e, d, ("FzHashMap", &FzHashMap::new(va.clone()), &FzHashMap::new(vb.clone())), ("FzOrderedMap", &FzOrderedMap::new(va.clone()), &FzOrderedMap::new(vb.clone())), ("FzScalarMap", &FzScalarMap::new(va.clone()), &FzScalarMap::new(vb.clone())));
                    Ok(())
                });
            }
        }
    });
    // values that carry no information, or less than their bits: only the keys decide
    r.bound("maps whose values are (), zero-sized structs, booleans or coarse-equality values: all pairs of subsets of 5 keys");
    r.scenario("value-types", |sc| {
        #[derive(Clone, Copy, Debug)]
        struct Coarse(u32);
        impl PartialEq for Coarse {
            fn eq(&self, o: &Self) -> bool { self.0 % 10 == o.0 % 10 }
        }
        #[derive(Clone, Copy, Debug, PartialEq)]
        struct Zst;
        for u in [[1u32, 2, 3, 4, 5], [0, 3, 1 << 20, u32::MAX, 77]] {
            for x in 0..32usize {
                for y in 0..32usize {
                    sc.case(|| format!("{:?} vs {:?}", sub(&u, x), sub(&u, y)), |o| {
                        o.state(&(u, x, y));
                        macro_rules! with { ($n:literal, $a:expr, $b:expr) => {{
                            let va: Vec<_> = sub(&u, x).into_iter().map(|k| (k, $a)).collect();
                            let vb: Vec<_> = sub(&u, y).into_iter().rev().map(|k| (k, $b)).collect();
                            let e = x == y && (x == 0 || $a == $b);
                            let d = format!("{} {va:?} and {vb:?}", $n);
                            let (h, hc, od, s) = (&FzHashMap::with_hasher(va.clone(), HF::Fold(1)), &FzHashMap::with_hasher(va.clone(), HF::Const(1)), &FzOrderedMap::new(va.clone()), &FzScalarMap::new(va.clone()));
                            let (h2, hc2, od2, s2) = (&FzHashMap::new(vb.clone()), &FzHashMap::with_hasher(vb.clone(), HF::Const(5)), &FzOrderedMap::new(vb.clone()), &FzScalarMap::new(vb.clone()));
                            let (st, bt, hb) = (&vb.iter().copied().collect::<SM<_, _>>(), &vb.iter().copied().collect::<BTreeMap<_, _>>(), &vb.iter().copied().collect::<HM<_, _>>());
                            eqs!(o, e, d, ("FzHashMap==FzHashMap", h, h2), ("FzHashMap==FzHashMap(colliding)", h, hc2), ("FzHashMap==FzOrderedMap", h, od2), ("FzHashMap==FzScalarMap", h, s2), ("FzHashMap==std", h, st), ("FzHashMap==BTreeMap", h, bt), ("FzHashMap==hashbrown", h, hb),
                                ("FzHashMap(colliding)==FzHashMap", hc, h2), ("FzOrderedMap==FzHashMap", od, h2), ("FzOrderedMap==FzOrderedMap", od, od2), ("FzOrderedMap==FzScalarMap", od, s2), ("FzOrderedMap==std", od, st), ("FzOrderedMap==BTreeMap", od, bt), ("FzOrderedMap==hashbrown", od, hb),
                                ("FzScalarMap==FzHashMap", s, h2), ("FzScalarMap==FzOrderedMap", s, od2), ("FzScalarMap==FzScalarMap", s, s2), ("FzScalarMap==std", s, st), ("FzScalarMap==BTreeMap", s, bt), ("FzScalarMap==hashbrown", s, hb));
                            let ks = |v: &Vec<(u32, _)>| v.iter().map(|(k, v)| (Box::<str>::from(format!("k{k}")), *v)).collect::<Vec<_>>();
                            let (sa, sb) = (&FzStringMap::new(ks(&va)), &FzStringMap::new(ks(&vb)));
                            let sh = &FzHashMap::new(ks(&vb));
                            let sbt = &ks(&vb).into_iter().collect::<BTreeMap<_, _>>();
                            // the very same instance, through any kind of reference
                            let e_self = x == 0 || $a == $a;
                            eqs!(o, e_self, format!("{} {va:?} with itself", $n), ("FzHashMap==itself", h, h), ("FzHashMap(colliding)==itself", hc, hc), ("FzOrderedMap==itself", od, od), ("FzScalarMap==itself", s, s), ("FzStringMap==itself", sa, sa),
                                ("FzHashMap==its clone", h, &h.clone()), ("FzOrderedMap==its clone", od, &od.clone()), ("FzScalarMap==its clone", s, &s.clone()), ("FzStringMap==its clone", sa, &sa.clone()));
                            eqs!(o, e, d, ("FzStringMap==FzStringMap", sa, sb), ("FzStringMap==FzHashMap", sa, sh), ("FzStringMap==BTreeMap", sa, sbt), ("FzHashMap==FzStringMap", sh, sa));
                        }} }
                        with!("()", (), ());
                        with!("zero-sized struct", Zst, Zst);
                        with!("[u8; 0]", [0u8; 0], [0u8; 0]);
                        with!("bool", true, true);
                        with!("Option", None::<u8>, None::<u8>);
                        with!("Option/Some", None::<u8>, Some(0u8));
                        with!("NaN", f64::NAN, f64::NAN);
                        with!("coarse equality", Coarse(3), Coarse(13));
                        with!("coarse inequality", Coarse(3), Coarse(14));
                        with!("str", "x", "x");
                        Ok(())
                    });
                }
            }
        }
    });
    // beyond every internal block: one difference at each position worth singling out
    r.bound("sizes 255..70000 (thorough 131073): identical contents in another order, one value changed, one key replaced, one entry removed or moved between two keys, at each of ~35 positions (9 at sizes above 1100; thorough 2100); maps and sets, 3 families and strings against each other and the standard collections");
    r.scenario("large", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for spread in [1u32, 100_003] {
                let ent = |n: usize| -> Vec<(u32, u32)> { (0..n as u32).map(|i| (10 + i.wrapping_mul(spread), i)).collect() };
                type Base = (FzHashMap<u32, u32, HF>, FzOrderedMap<u32, u32>, FzScalarMap<u32, u32>, FzHashSet<u32, HF>, FzOrderedSet<u32>, FzScalarSet<u32>);
                let base: std::sync::OnceLock<Base> = std::sync::OnceLock::new();
                let mut kinds = vec![(0usize, 0usize)];
                for p in some_positions(n, u8::from(deep) + u8::from(deepest)) {
                    kinds.extend((1..5).map(|k| (k, p)));
                }
                for (kind, p) in kinds {
                    sc.case(|| format!("{n} keys, spread {spread}, position {p}: {}", ["no change", "value changed", "key replaced", "entry removed", "value exchanged with the last"][kind]), |o| {
                        o.state(&(n, spread, p, kind));
                        let (h, od, s, hs, os, ss) = base.get_or_init(|| {
                            let va = ent(n);
                            let ka: Vec<u32> = va.iter().map(|x| x.0).collect();
                            (FzHashMap::with_hasher(va.clone(), HF::Fold(1)), FzOrderedMap::new(va.clone()), FzScalarMap::new(va), FzHashSet::with_hasher(ka.clone(), HF::Fold(1)), FzOrderedSet::new(ka.clone()), FzScalarSet::new(ka))
                        });
                        let mut vb = ent(n);
                        match kind {
                            0 => {}
                            1 => vb[p].1 ^= 1 << 31,
                            2 => vb[p].0 = 10 + (n as u32).wrapping_mul(spread),
                            3 => { vb.remove(p); }
                            _ => { let l = vb[n - 1].1; vb[n - 1].1 = vb[p].1; vb[p].1 = l; }
                        }
                        let l = vb.len();
                        vb.rotate_left((p + n / 3) % l.max(1));
                        let e = kind == 0 || kind == 4 && p == n - 1;
                        let d = format!("maps of {n} entries (position {p}, change {kind})");
                        let kb: Vec<u32> = vb.iter().map(|x| x.0).collect();
                        let (h2, od2, s2) = (&FzHashMap::with_hasher(vb.clone(), HF::Ident), &FzOrderedMap::new(vb.clone()), &FzScalarMap::new(vb.clone()));
                        let bt = &vb.iter().copied().collect::<BTreeMap<u32, u32>>();
                        Run::tick();
                        eqs!(o, e, d, ("FzHashMap==FzHashMap", h, h2), ("FzHashMap==FzOrderedMap", h, od2), ("FzHashMap==FzScalarMap", h, s2), ("FzHashMap==BTreeMap", h, bt),
                            ("FzOrderedMap==FzHashMap", od, h2), ("FzOrderedMap==FzOrderedMap", od, od2), ("FzOrderedMap==FzScalarMap", od, s2), ("FzOrderedMap==BTreeMap", od, bt),
                            ("FzScalarMap==FzHashMap", s, h2), ("FzScalarMap==FzOrderedMap", s, od2), ("FzScalarMap==FzScalarMap", s, s2), ("FzScalarMap==BTreeMap", s, bt),
                            ("swapped hash", h2, h), ("swapped ordered", od2, od), ("swapped scalar", s2, s));
                        let ek = kind != 2 && kind != 3;
                        let d = format!("sets of {n} values (position {p}, change {kind})");
                        let (hs2, os2, ss2) = (&FzHashSet::with_hasher(kb.clone(), HF::Ident), &FzOrderedSet::new(kb.clone()), &FzScalarSet::new(kb.clone()));
                        let bs = &kb.iter().copied().collect::<BTreeSet<u32>>();
                        eqs!(o, ek, d, ("FzHashSet==FzHashSet", hs, hs2), ("FzHashSet==FzOrderedSet", hs, os2), ("FzHashSet==FzScalarSet", hs, ss2), ("FzHashSet==BTreeSet", hs, bs),
                            ("FzOrderedSet==FzHashSet", os, hs2), ("FzOrderedSet==FzOrderedSet", os, os2), ("FzOrderedSet==FzScalarSet", os, ss2), ("FzOrderedSet==BTreeSet", os, bs),
                            ("FzScalarSet==FzHashSet", ss, hs2), ("FzScalarSet==FzOrderedSet", ss, os2), ("FzScalarSet==FzScalarSet", ss, ss2), ("FzScalarSet==BTreeSet", ss, bs),
                            ("swapped hash set", hs2, hs), ("swapped ordered set", os2, os), ("swapped scalar set", ss2, ss));
                        if n < 5000 || p % 16 == 0 {
                            let st = |v: &[(u32, u32)]| v.iter().map(|(k, v)| (Box::<str>::from(format!("v{k}")), *v)).collect::<Vec<_>>();
                            let (ta, tb) = (st(&ent(n)), st(&vb));
                            let (x, y) = (&FzStringMap::new(ta.clone()), &FzStringMap::new(tb.clone()));
                            let bt = &tb.iter().cloned().collect::<BTreeMap<_, _>>();
                            eqs!(o, e, d, ("FzStringMap==FzStringMap", x, y), ("FzStringMap==FzStringMap swapped", y, x), ("FzStringMap==BTreeMap", x, bt));
                            let ks = |v: Vec<(Box<str>, u32)>| v.into_iter().map(|e| e.0).collect::<Vec<_>>();
                            let (x, y) = (&FzStringSet::new(ks(ta)), &FzStringSet::new(ks(tb)));
                            eqs!(o, ek, d, ("FzStringSet==FzStringSet", x, y), ("FzStringSet==FzStringSet swapped", y, x));
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    r.finish()
}
