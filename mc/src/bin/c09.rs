//! C09: keys are frozen, values change only as told, reads and clones do not interfere.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

const OPS: usize = 13;
const NAMES: [&str; OPS] = [
    "A.get_mut(k0)=n", "A.values_mut() first=n", "A.iter_mut() last=n", "for v in &mut A: v+=n", "swap A[k0],A[klast] by get_disjoint_mut", "B=A.clone()",
    "swap(A,B)", "read A", "A.get_disjoint_unchecked_mut([k1,absent])=n", "B.get_mut(k1)=n", "A.clone_from(&B)", "A.get_mut(absent)", "mem::take value of k1 / replace",
];

trait Val: Clone + Eq + Debug + std::hash::Hash + Default {
    fn mk(n: u32) -> Self;
    fn bump(&mut self, n: u32);
}
impl Val for u32 {
    fn mk(n: u32) -> u32 {
        n
    }
    fn bump(&mut self, n: u32) {
        *self = self.wrapping_mul(31).wrapping_add(n)
    }
}
impl Val for Vec<String> {
    fn mk(n: u32) -> Self {
        vec![n.to_string()]
    }
    fn bump(&mut self, n: u32) {
        self.push(n.to_string())
    }
}

fn same<K: Ord + Debug + Clone, V: Val, M: MapUT<K, V>>(o: &mut Obs, who: &str, m: &M, model: &BTreeMap<K, V>, absent: &K) -> R {
    ensure_eq!(m.u_len(), model.len(), "{who} ({}) len", M::NAME);
    for (k, v) in model {
        ensure_eq!(m.u_get(k), Some(v), "{who} ({}) get({k:?})", M::NAME);
    }
    ensure_eq!(m.u_get(absent), None, "{who} ({}) get(absent {absent:?})", M::NAME);
    let mut got: Vec<(&K, &V)> = m.u_iter().collect();
    got.sort_by(|a, b| a.0.cmp(b.0));
    ensure_eq!(got, model.iter().collect::<Vec<_>>(), "{who} ({}) contents", M::NAME);
    o.t(model.len() as u64 + 3);
    Ok(())
}

fn history<K: Ord + Debug + Clone + std::hash::Hash, V: Val, M: MapUT<K, V>>(o: &mut Obs, start: &M, init: &BTreeMap<K, V>, absent: &K, ops: &[usize]) -> R {
    let mut a = start.clone();
    let mut b = start.clone();
    let (mut ma, mut mb) = (init.clone(), init.clone());
    let keys: Vec<K> = init.keys().cloned().collect();
    let n = keys.len();
    let (k0, k1, kl) = (keys[0].clone(), keys[1 % n].clone(), keys[n - 1].clone());
    for (step, op) in ops.iter().enumerate() {
        let x = V::mk(1000 + step as u32);
        match op {
            0 => {
                *a.u_get_mut(&k0).ok_or("get_mut(k0) is None")? = x.clone();
                ma.insert(k0.clone(), x);
            }
            1 => {
                let k = a.u_keys().next().ok_or("no first key")?.clone();
                *a.u_values_mut().next().ok_or("no first value")? = x.clone();
                ensure!(ma.insert(k.clone(), x).is_some(), "keys() yielded {k:?}, never inserted");
            }
            2 => {
                let (k, v) = a.u_iter_mut().last().ok_or("no last entry")?;
                *v = x.clone();
                let k = k.clone();
                ensure!(ma.insert(k.clone(), x).is_some(), "iter_mut() yielded {k:?}, never inserted");
            }
            3 => {
                for (_, v) in a.u_mut_ref_iter() {
                    v.bump(step as u32 + 1);
                }
                ma.values_mut().for_each(|v| v.bump(step as u32 + 1));
            }
            4 => {
                if n > 1 {
                    let [p, q] = a.u_disjoint([&k0, &kl]);
                    std::mem::swap(p.ok_or("disjoint k0 None")?, q.ok_or("disjoint klast None")?);
                    let (p, q) = (ma[&k0].clone(), ma[&kl].clone());
                    ma.insert(k0.clone(), q);
                    ma.insert(kl.clone(), p);
                }
            }
            5 => {
                b = a.clone();
                mb = ma.clone();
            }
            6 => {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ma, &mut mb);
            }
            7 => {
                // reads, including abandoned iterators; the snapshot before and after must agree
                let before = format!("{a:?}");
                let mut it = a.u_iter();
                it.next();
                drop(it);
                let mut it = a.u_keys();
                it.next();
                let _ = it.size_hint();
                drop(it);
                let _ = a.u_values().count();
                let _ = a.u_ref_iter().last();
                for k in &keys {
                    let _ = (a.u_contains(k), a.u_get_kv(k), a.u_index(k));
                }
                let _ = a.u_contains(absent);
                // consuming a clone half-way leaves the original alone
                let mut c = a.clone().u_into_iter();
                c.next();
                drop(c);
                drop(a.clone().u_into_values());
                drop(a.clone().u_into_keys().next());
                ensure_eq!(format!("{a:?}"), before, "{} after reads", M::NAME);
                o.t(12);
            }
            8 => {
                let [p, q] = unsafe { a.u_disjoint_unchecked([&k1, absent]) };
                ensure!(q.is_none(), "disjoint access found the absent key");
                *p.ok_or("disjoint k1 None")? = x.clone();
                ma.insert(k1.clone(), x);
            }
            9 => {
                *b.u_get_mut(&k1).ok_or("B.get_mut(k1) is None")? = x.clone();
                mb.insert(k1.clone(), x);
            }
            10 => {
                a.clone_from(&b);
                ma = mb.clone();
            }
            11 => ensure!(a.u_get_mut(absent).is_none(), "get_mut(absent) is Some"),
            _ => {
                let v = std::mem::take(a.u_get_mut(&k1).ok_or("get_mut(k1) is None")?);
                let w = std::mem::take(ma.get_mut(&k1).unwrap());
                ensure_eq!(v, w, "value taken from k1");
            }
        }
        same(o, "A", &a, &ma, absent).map_err(|e| format!("after step {step} ({}): {e}", NAMES[*op]))?;
        same(o, "B", &b, &mb, absent).map_err(|e| format!("after step {step} ({}): {e}", NAMES[*op]))?;
    }
    o.state(&(&ma, &mb));
    // values as told, also when moved out
    let mut got: Vec<(K, V)> = a.u_into_iter().collect();
    got.sort_by(|x, y| x.0.cmp(&y.0));
    ensure_eq!(got, ma.into_iter().collect::<Vec<_>>(), "A ({}) moved out", M::NAME);
    let order: Vec<K> = b.u_keys().cloned().collect();
    let mut got: Vec<(K, V)> = order.into_iter().zip(b.u_into_values()).collect();
    got.sort_by(|x, y| x.0.cmp(&y.0));
    ensure_eq!(got, mb.into_iter().collect::<Vec<_>>(), "B ({}) moved out by into_values", M::NAME);
    Ok(())
}

fn explore<K: Ord + Debug + Clone + std::hash::Hash + Sync, V: Val, M: MapUT<K, V>>(r: &mut Run, name: &str, depth: usize, mk: impl Fn() -> M + Sync, init: BTreeMap<K, V>, absent: K)
where
    V: Sync,
{
    r.scenario(name, |sc| {
        let start = mk();
        for d in 0..=depth {
            // shorter histories are prefixes of longer ones: only the full depth is needed, and 0 for the initial state
            if d != 0 && d != depth { continue; }
            sequences(OPS, d, |s| {
                sc.case(|| s.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join("; "), |o| history(o, &start, &init, &absent, s));
            });
        }
    });
}

fn main() {
    let mut r = Run::new("C09");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let (d, di) = if deepest { (7, 5) } else if deep { (6, 5) } else { (5, 4) };
    r.bound(format!("all histories of {d} operations out of {OPS} on a pair (original, clone), for each run-time map in several layouts ({di} for macro-made maps), values u32 and Vec<String>"));
    for (un, ids) in [("contiguous", vec![5u32, 6, 7, 8, 9]), ("gaps", vec![5, 9, 12, 40, 41]), ("scattered", vec![0, 77, 1 << 20, u32::MAX - 3, 900])] {
        let es: Vec<(TK, u32)> = ids.iter().enumerate().map(|(i, id)| (TK { id: *id, tag: i as u32 }, i as u32)).collect();
        let absent = TK { id: 10, tag: 0 };
        let model = model_map(&es);
        // TK is not Hash by tag, fine for state counting
        if un == "contiguous" || deep {
            explore(&mut r, &format!("hash/{un}"), d, || FzHashMap::with_hasher(es.clone(), HF::Ident), model.clone(), absent);
            explore(&mut r, &format!("hash-colliding/{un}"), di, || FzHashMap::with_hasher(es.clone(), HF::Const(0)), model.clone(), absent);
            explore(&mut r, &format!("ordered/{un}"), d, || FzOrderedMap::new(es.clone()), model.clone(), absent);
        }
        explore(&mut r, &format!("scalar/{un}"), d, || FzScalarMap::new(es.clone()), model.clone(), absent);
        let vs: Vec<(TK, Vec<String>)> = es.iter().map(|(k, v)| (*k, Vec::<String>::mk(*v))).collect();
        let model = model_map(&vs);
        explore(&mut r, &format!("owned-values/hash/{un}"), di, || FzHashMap::new(vs.clone()), model.clone(), absent);
        explore(&mut r, &format!("owned-values/ordered/{un}"), di, || FzOrderedMap::new(vs.clone()), model.clone(), absent);
        explore(&mut r, &format!("owned-values/scalar/{un}"), di, || FzScalarMap::new(vs.clone()), model, absent);
    }
    for n in [1usize, 2, 3] {
        let es: Vec<(TK, u32)> = (0..n as u32).map(|i| (TK { id: i * 3, tag: i }, i)).collect();
        let model = model_map(&es);
        let absent = TK { id: 10, tag: 0 };
        explore(&mut r, &format!("small/hash/{n}"), di, || FzHashMap::new(es.clone()), model.clone(), absent);
        explore(&mut r, &format!("small/ordered/{n}"), di, || FzOrderedMap::new(es.clone()), model.clone(), absent);
        explore(&mut r, &format!("small/scalar/{n}"), di, || FzScalarMap::new(es.clone()), model.clone(), absent);
    }
    for (un, u) in string_universes() {
        let es: Vec<(Box<str>, u32)> = u.iter().enumerate().map(|(i, k)| ((*k).into(), i as u32)).collect();
        let model = model_map(&es);
        let absent: Box<str> = "zz".into();
        explore(&mut r, &format!("string/{un}"), di, || FzStringMap::new(es.clone()), model.clone(), absent.clone());
        explore(&mut r, &format!("string-colliding/{un}"), di.min(3), || FzStringMap::with_hasher(es.clone(), HF::Const(0)), model.clone(), absent);
    }
    macro_rules! m { ($n:expr, $md:ident) => {
        explore(&mut r, &format!("macro-made/{}", $n), di, inl::maps::$md::wrap, model_map(&inl::maps::$md::entries()), 123_456u32);
    } }
    each_inl_int_map!(m);
    macro_rules! m { ($n:expr, $md:ident) => {
        explore(&mut r, &format!("macro-made/{}", $n), di, inl::maps::$md::wrap, model_map(&inl::maps::$md::entries()), "zz");
    } }
    each_inl_str_map!(m);

    // sets: reads and consumption of clones leave every value in place
    r.scenario("sets", |sc| {
        for n in 0..=6usize {
            for spread in [1u32, 3, 1 << 20] {
                for perm in 0..6 {
                    sc.case(|| format!("{n} values, spread {spread}, read order {perm}"), |o| {
                        o.state(&(n, spread, perm));
                        let ks: Vec<TK> = (0..n as u32).map(|i| TK { id: i * spread, tag: i }).collect();
                        fn go<S: SetUT<TK>>(o: &mut Obs, s: &S, perm: usize, model: &std::collections::BTreeSet<TK>) -> R {
                            let steps: [usize; 3] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
                            for st in steps {
                                match st {
                                    0 => { let mut it = s.u_iter(); it.next(); drop(it); let _ = s.u_ref_iter().count(); }
                                    1 => { let mut c = s.clone().u_into_iter(); c.next(); drop(c); }
                                    _ => { for k in model { let _ = (s.u_get(k), s.u_contains(k)); } let _ = format!("{s:?}"); }
                                }
                                audit_set_contents(o, s, model)?;
                                let absent = TK { id: 2_000_000_007, tag: 0 };
                                audit_set_lookup(o, s, model, &[absent])?;
                            }
                            Ok(())
                        }
                        let model = model_set(&ks);
                        go(o, &FzHashSet::new(ks.clone()), perm, &model)?;
                        go(o, &FzOrderedSet::new(ks.clone()), perm, &model)?;
                        go(o, &FzScalarSet::new(ks.clone()), perm, &model)
                    });
                }
            }
        }
    });
    // every pair of contents and layouts: overwriting one instance by another with clone_from
    r.bound("clone_from over every ordered pair of 31 integer and 50 string contents (all layouts, sizes 0..7 and 40), maps and sets, then diverging updates");
    r.scenario("clone_from", |sc| {
        let mut lists: Vec<Vec<u32>> = vec![vec![], vec![7], vec![u32::MAX]];
        for n in [2u32, 3, 5, 7] {
            for (base, step) in [(0u32, 1u32), (1, 1), (10, 1), (u32::MAX - 6, 1), (0, 3), (20, 5), (5, 60_000_000)] {
                lists.push((0..n).map(|i| base.wrapping_add(i * step)).collect());
            }
        }
        lists.push((0..40).map(|i| 100 + i).collect());
        for x in &lists {
            for y in &lists {
                sc.case(|| format!("{x:?}.clone_from({y:?})"), |o| {
                    o.state(&(x, y));
                    let ea: Vec<(TK, Vec<u32>)> = x.iter().enumerate().map(|(i, id)| (TK { id: *id, tag: i as u32 }, vec![i as u32])).collect();
                    let eb: Vec<(TK, Vec<u32>)> = y.iter().enumerate().map(|(i, id)| (TK { id: *id, tag: 100 + i as u32 }, vec![1000 + i as u32])).collect();
                    let q: Vec<TK> = tk(&with_neighbours(&[x.clone(), y.clone()].concat()));
                    fn go<M: MapUT<TK, Vec<u32>>>(o: &mut Obs, mut a: M, mut b: M, mb: &BTreeMap<TK, Vec<u32>>, q: &[TK]) -> R {
                        a.clone_from(&b);
                        overwritten(o, &mut a, &mut b, mb, q)
                    }
                    let mb = model_map(&eb);
                    go(o, FzHashMap::with_hasher(ea.clone(), HF::Ident), FzHashMap::with_hasher(eb.clone(), HF::Ident), &mb, &q)?;
                    go(o, FzHashMap::with_hasher(ea.clone(), HF::Ident), FzHashMap::with_hasher(eb.clone(), HF::Shl(3)), &mb, &q)?;
                    go(o, FzHashMap::with_hasher(ea.clone(), HF::Const(3)), FzHashMap::with_hasher(eb.clone(), HF::Fold(9)), &mb, &q)?;
                    go(o, FzOrderedMap::new(ea.clone()), FzOrderedMap::new(eb.clone()), &mb, &q)?;
                    go(o, FzScalarMap::new(ea.clone()), FzScalarMap::new(eb.clone()), &mb, &q)?;
                    fn sets<S: SetUT<TK>>(o: &mut Obs, mut a: S, b: S, mb: &std::collections::BTreeSet<TK>, q: &[TK]) -> R {
                        a.clone_from(&b);
                        for s in [&a, &b] {
                            audit_set_contents(o, s, mb)?;
                            audit_set_lookup(o, s, mb, q)?;
                        }
                        drop(b);
                        audit_set_contents(o, &a, mb)
                    }
                    let (ka, kb): (Vec<TK>, Vec<TK>) = (ea.iter().map(|e| e.0).collect(), eb.iter().map(|e| e.0).collect());
                    let mb = model_set(&kb);
                    sets(o, FzHashSet::with_hasher(ka.clone(), HF::Ident), FzHashSet::with_hasher(kb.clone(), HF::Mul(7)), &mb, &q)?;
                    sets(o, FzOrderedSet::new(ka.clone()), FzOrderedSet::new(kb.clone()), &mb, &q)?;
                    sets(o, FzScalarSet::new(ka), FzScalarSet::new(kb), &mb, &q)
                });
            }
        }
    });
    r.scenario("clone_from/strings", |sc| {
        let mut lists: Vec<Vec<String>> = vec![vec![]];
        for (_, u) in string_universes() {
            for n in [1, 2, 3, 4, 5] {
                lists.push(u[..n].iter().map(|s| (*s).to_string()).collect());
            }
        }
        for n in [4usize, 20] {
            for p in ["", "p", "pp"] {
                lists.push((0..n).map(|i| format!("{p}{i:03}")).collect());
                lists.push((0..n).map(|i| format!("{}{i:03}{p}", "x".repeat(i % 3))).collect());
            }
        }
        for x in &lists {
            for y in &lists {
                sc.case(|| format!("{x:?}.clone_from({y:?})"), |o| {
                    o.state(&(x, y));
                    let e = |v: &[String], off: u32| -> Vec<(Box<str>, Vec<u32>)> { v.iter().enumerate().map(|(i, k)| (k.clone().into(), vec![off + i as u32])).collect() };
                    let (ea, eb) = (e(x, 0), e(y, 1000));
                    let q: Vec<Box<str>> = bx(&[x.clone(), y.clone(), vec!["".into(), "zz".into(), "p000p".into()]].concat());
                    let mb = model_map(&eb);
                    for (h1, h2) in [(HF::Fold(1), HF::Fold(2)), (HF::Len, HF::First), (HF::Fnv, HF::Const(0))] {
                        let (mut a, mut b) = (FzStringMap::with_hasher(ea.clone(), h1.clone()), FzStringMap::with_hasher(eb.clone(), h2.clone()));
                        a.clone_from(&b);
                        overwritten(o, &mut a, &mut b, &mb, &q)?;
                        let (mut a, b) = (FzStringSet::with_hasher(x.clone(), h1), FzStringSet::with_hasher(y.clone(), h2));
                        a.clone_from(&b);
                        let ms = model_set(&bx(y));
                        audit_set_contents(o, &a, &ms)?;
                        audit_set_lookup(o, &a, &ms, &q)?;
                        audit_set_contents(o, &b, &ms)?;
                    }
                    Ok(())
                });
            }
        }
    });
    r.bound("25 sizes 255..70000 (thorough 41 up to 131073) x 3 spreads x 4 families: clone, ~40 (9 at the larger sizes) writes through get_mut, iter_mut, values_mut and get_disjoint_mut at positions around every width, clone_from, consumption of a clone; contents of all instances after each stage");
    r.scenario("large", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for spread in [1u32, 3, 60_013] {
                for kind in 0..4 {
                    sc.case(|| format!("{n} keys, spread {spread}, {}", ["hash", "ordered", "scalar", "string"][kind]), |o| {
                        o.state(&(n, spread, kind));
                        let mut es: Vec<(u32, u32)> = (0..n as u32).map(|i| (i.wrapping_mul(spread), i)).collect();
                        es.rotate_left(n / 3);
                        let mut exp = es.clone();
                        exp.sort();
                        match kind {
                            0 => big_history(o, &FzHashMap::with_hasher(es, HF::Fold(1)), &exp, &0xffff_fff5, u8::from(deep) + u8::from(deepest)),
                            1 => big_history(o, &FzOrderedMap::new(es), &exp, &0xffff_fff5, u8::from(deep) + u8::from(deepest)),
                            2 => big_history(o, &FzScalarMap::new(es), &exp, &0xffff_fff5, u8::from(deep) + u8::from(deepest)),
                            _ => {
                                let mut se: Vec<(Box<str>, u32)> = es.iter().map(|(k, v)| (format!("{k}v").into(), *v)).collect();
                                let m = FzStringMap::new(se.clone());
                                se.sort();
                                big_history(o, &m, &se, &"5w".into(), u8::from(deep) + u8::from(deepest))
                            }
                        }
                    });
                }
            }
        }
    });
    r.finish()
}

/// `a` was made a copy of `b`: both hold `mb`, and updates of one do not reach the other
fn overwritten<K: Ord + Debug + Clone, M: MapUT<K, Vec<u32>>>(o: &mut Obs, a: &mut M, b: &mut M, mb: &BTreeMap<K, Vec<u32>>, q: &[K]) -> R {
    audit_contents(o, a, mb)?;
    audit_lookup(o, a, mb, q, true)?;
    audit_contents(o, b, mb)?;
    let mut ma = mb.clone();
    for (i, k) in mb.keys().enumerate() {
        if i % 2 == 0 {
            a.u_get_mut(k).ok_or("get_mut is None in the copy")?.push(7);
            ma.get_mut(k).ok_or("model")?.push(7);
        }
    }
    audit_contents(o, b, mb)?;
    for v in b.u_values_mut() {
        v.push(9);
    }
    audit_contents(o, a, &ma)?;
    audit_lookup(o, a, &ma, q, true)
}
