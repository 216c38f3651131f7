//! C17: safe use is memory safe and every key and value is dropped exactly once.
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::traits::{MapExtras, MapQuery, SetExtras, SetOps, SetQuery};
use mc::ledger::*;
use mc::mem::*;
use mc::ut::{MapUT, SetUT};
use mc::tok::{De, HINTS, Tok};
use mc::*;
use serde::Deserialize;

/// run `body` with a panic injected at every callback in turn, until it runs through
fn every_panic(o: &mut Obs, body: &dyn Fn()) -> R {
    for k in 0.. {
        reset(k);
        let r = guarded(body);
        if let Err(m) = &r {
            ensure!(m.contains("injected panic"), "panic that user code did not raise (injection point {k}): {m}");
        }
        settle().map_err(|e| if k == 0 { e } else { format!("{e} (after a panic in user code at callback {k}: {})", r.as_ref().err().map_or("it was swallowed", |s| s)) })?;
        o.t(1);
        if k > 0 {
            if calls() < k { return Ok(()); }
            ensure!(r.is_err(), "a panic of user code at callback {k} was swallowed");
        } else {
            ensure!(r.is_ok(), "panic: {:?}", r);
        }
    }
    Ok(())
}

macro_rules! maps {
    ($sc:ident, $name:literal, $seq:ident, $t:ty, $new:expr, $key:expr) => {
        for ctor in 0..CTORS.len() {
            for (op, (on, ps)) in MAP_OPS.iter().enumerate() {
                if ctor > 0 && op > 0 { continue; }
                for p in 0..=(if *ps { $seq.len() } else { 0 }) {
                    $sc.case(|| format!("{} by {} from keys {:?}: {on}, p={p}", $name, CTORS[ctor], $seq), |o| {
                        o.state(&($name, &$seq, ctor, op, p));
                        every_panic(o, &|| {
                            let qs: Vec<_> = (0..4u32).map($key).collect();
                            map_op(op, p, &|| mc::build_by!(ctor, $t, $new, $seq.iter().enumerate().map(|(i, k)| ($key(*k as u32), LV::new(i as u32))).collect::<Vec<_>>()), &qs);
                        })
                    });
                }
            }
        }
    };
}
macro_rules! sets {
    ($sc:ident, $name:literal, $seq:ident, $t:ty, $new:expr, $key:expr) => {
        for ctor in 0..CTORS.len() {
            for (op, (on, ps)) in SET_OPS.iter().enumerate() {
                if ctor > 0 && op > 0 { continue; }
                for p in 0..=(if *ps { $seq.len() } else { 0 }) {
                    $sc.case(|| format!("{} by {} from values {:?}: {on}, p={p}", $name, CTORS[ctor], $seq), |o| {
                        o.state(&($name, &$seq, ctor, op, p));
                        every_panic(o, &|| {
                            let qs: Vec<_> = (0..4u32).map($key).collect();
                            set_op(op, p, &|| mc::build_by!(ctor, $t, $new, $seq.iter().map(|k| $key(*k as u32)).collect::<Vec<_>>()), &qs);
                        })
                    });
                }
            }
        }
    };
}
/// panics only at the callbacks after building (`mark`)
fn every_late_panic(o: &mut Obs, body: &dyn Fn()) -> R {
    let mut k = 0;
    loop {
        reset(k);
        let r = guarded(body);
        if let Err(m) = &r { ensure!(m.contains("injected panic"), "panic that user code did not raise (injection point {k}): {m}"); }
        settle().map_err(|e| if k == 0 { e } else { format!("{e} (after a panic in user code at callback {k})") })?;
        o.t(1);
        if k == 0 {
            ensure!(r.is_ok(), "panic: {r:?}");
            k = marked();
        } else {
            if calls() < k { return Ok(()); }
            ensure!(r.is_err(), "a panic of user code at callback {k} was swallowed");
        }
        k += 1;
    }
}
macro_rules! drains {
    ($sc:ident, $name:literal, $seq:ident, $set:expr, $map:expr) => {
        for how in 0..DRAINS {
            for p in 0..=$seq.len() {
                $sc.case(|| format!("{} from {:?}: owning iterators finished in way {how} after {p}", $name, $seq), |o| {
                    o.state(&($name, &$seq, how, p));
                    every_late_panic(o, &|| { let m = $map; mark(); drain(m.u_into_iter(), p, how, |x| { x.0.touch_it(); x.1.touch_it() }) })?;
                    every_late_panic(o, &|| { let m = $map; mark(); drain(m.u_into_keys(), p, how, |x| x.touch_it()) })?;
                    every_late_panic(o, &|| { let m = $map; mark(); drain(m.u_into_values(), p, how, |x| x.touch_it()) })?;
                    every_late_panic(o, &|| { let m = $set; mark(); drain(m.u_into_iter(), p, how, |x| x.touch_it()) })
                });
            }
        }
    };
}
fn bs(i: u32) -> Box<str> { ["", "ab", "ba", "漢", "abcd", "x"][i as usize % 6].into() }
fn cs(i: u32) -> CS { CS(i) }
fn cw(i: u32) -> CS { CS([5, 9, 6, 14, 77, 100][i as usize % 6]) }
fn cg(i: u32) -> CS { CS([5, 9000, 6, u32::MAX, 77, 100][i as usize % 6]) }

/// depth-first over every answer the callbacks can give (first `depth` answers; 0 afterwards)
fn every_answer(o: &mut Obs, depth: usize, body: &dyn Fn()) -> R {
    let mut script: Vec<u8> = vec![];
    loop {
        script_start(&script, depth);
        let r = guarded(body);
        settle().map_err(|e| format!("{e}; callback answers {script:?}"))?;
        if let Err(m) = r {
            ensure!(!m.contains("disagree") && !m.contains("aliased"), "{m}; callback answers {script:?}");
        }
        o.t(1);
        if o.transitions % 4096 == 0 { Run::tick(); }
        match script_next() {
            Some(s) => script = s,
            None => return Ok(()),
        }
    }
}
fn distinct<const N: usize>(vs: [Option<&mut LV>; N]) {
    let ps: Vec<*mut LV> = vs.into_iter().flatten().map(|v| { v.touch(); v.val += 1; v as *mut LV }).collect();
    for i in 0..ps.len() {
        for j in 0..i {
            assert!(ps[i] != ps[j], "aliased mutable references from disjoint access");
        }
    }
}

fn main() {
    let mut r = Run::new("C17");
    let deep = r.thorough;
    let nmax = if deep { 5 } else { 4 };
    r.bound(format!("ledger: every list of up to {nmax} entries over 3 keys and of 6 distinct keys, 4 ways of building, {} map and {} set operations at every position, a panic injected at every callback in turn (hash, equality, order, index, clone, iterator, closure)", MAP_OPS.len(), SET_OPS.len()));
    let mut seqs: Vec<Vec<usize>> = vec![];
    for n in 0..=nmax {
        sequences(3, n, |s| seqs.push(s.to_vec()));
    }
    seqs.push(vec![5, 4, 3, 2, 1, 0]);
    seqs.push(vec![0, 1, 2, 3, 0, 4, 5]);
    let seqs = &seqs;
    r.scenario("ledger/hash", |sc| for s in seqs {
        maps!(sc, "FzHashMap", s, FzHashMap<LK, LV, Cnt>, |v| FzHashMap::with_hasher(v, Cnt), LK::new);
        sets!(sc, "FzHashSet", s, FzHashSet<LK, Cnt>, |v| FzHashSet::with_hasher(v, Cnt), LK::new);
    });
    r.scenario("ledger/ordered", |sc| for s in seqs {
        maps!(sc, "FzOrderedMap", s, FzOrderedMap<LK, LV>, FzOrderedMap::new, LK::new);
        sets!(sc, "FzOrderedSet", s, FzOrderedSet<LK>, FzOrderedSet::new, LK::new);
    });
    r.scenario("ledger/scalar", |sc| for s in seqs {
        maps!(sc, "FzScalarMap contiguous", s, FzScalarMap<CS, LV>, FzScalarMap::new, cs);
        maps!(sc, "FzScalarMap gaps", s, FzScalarMap<CS, LV>, FzScalarMap::new, cw);
        maps!(sc, "FzScalarMap scattered", s, FzScalarMap<CS, LV>, FzScalarMap::new, cg);
        sets!(sc, "FzScalarSet contiguous", s, FzScalarSet<CS>, FzScalarSet::new, cs);
        sets!(sc, "FzScalarSet scattered", s, FzScalarSet<CS>, FzScalarSet::new, cg);
    });
    r.scenario("ledger/string", |sc| for s in seqs {
        // conversions from arrays and iterators exist for the default hasher only
        for (op, (on, ps)) in MAP_OPS.iter().enumerate() {
            for p in 0..=(if *ps { s.len() } else { 0 }) {
                sc.case(|| format!("FzStringMap from {s:?}: {on}, p={p}"), |o| {
                    o.state(&("str", s, op, p));
                    every_panic(o, &|| map_op(op, p, &|| FzStringMap::with_hasher(s.iter().enumerate().map(|(i, k)| (bs(*k as u32), LV::new(i as u32))).collect::<Vec<_>>(), Cnt), &(0..4).map(bs).collect::<Vec<_>>()))
                });
            }
        }
    });
    r.bound(format!("ledger: owning iterators over entries, keys, values and members finished in {DRAINS} ways (next or nth first; then count, fold, for_each, last, collect, nth past the end, take, try_fold, reduce, partition) from every position, a panic at every step of the closures"));
    r.scenario("ledger/owning-iterators", |sc| for s in seqs {
        let es = |k: fn(u32) -> LK| s.iter().enumerate().map(|(i, x)| (k(*x as u32), LV::new(i as u32))).collect::<Vec<_>>();
        drains!(sc, "hash", s, FzHashSet::with_hasher(s.iter().map(|k| LK::new(*k as u32)).collect::<Vec<_>>(), Cnt), FzHashMap::with_hasher(es(LK::new), Cnt));
        drains!(sc, "ordered", s, FzOrderedSet::new(s.iter().map(|k| LK::new(*k as u32)).collect::<Vec<_>>()), FzOrderedMap::new(es(LK::new)));
        for key in [cs, cw, cg] {
            drains!(sc, "scalar", s, FzScalarSet::new(s.iter().map(|k| key(*k as u32)).collect::<Vec<_>>()), FzScalarMap::new(s.iter().enumerate().map(|(i, x)| (key(*x as u32), LV::new(i as u32))).collect::<Vec<_>>()));
        }
        drains!(sc, "string", s, FzStringSet::with_hasher(s.iter().map(|k| bs(*k as u32)).collect::<Vec<_>>(), Cnt), FzStringMap::with_hasher(s.iter().enumerate().map(|(i, x)| (bs(*x as u32), LV::new(i as u32))).collect::<Vec<_>>(), Cnt));
    });
    // comparisons and set algebra
    r.bound("ledger: equality of maps and sets, |, &, ^, -, subset tests for all pairs of subsets of 3 tracked values with a panic at every callback; sets built from maps; deserialisation cut or failing at every token");
    r.scenario("ledger/pairs", |sc| {
        for x in 0..8u32 {
            for y in 0..8u32 {
                for kind in 0..4 {
                    sc.case(|| format!("subsets {x:03b} and {y:03b}, kind {kind}"), |o| {
                        o.state(&(x, y, kind));
                        let sub = |m: u32| (0..3u32).filter(move |i| m >> i & 1 == 1).map(|i| LK::new(i));
                        every_panic(o, &|| {
                            macro_rules! ops { ($a:expr, $b:expr) => {{
                                let (a, b) = ($a, $b);
                                let e = a == b;
                                assert!(e == (x == y), "equality disagrees");
                                for k in a.union(&b).chain(a.intersection(&b)).chain(a.difference(&b)).chain(a.symmetric_difference(&b)) { k.touch() }
                                let u = &a | &b;
                                let i = &a & &b;
                                let d = &a - &b;
                                let s = &a ^ &b;
                                for k in u.iter().chain(i.iter()).chain(d.iter()).chain(s.iter()) { k.touch() }
                                let _ = (a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b));
                                drop(a);
                                for k in u.iter() { k.touch() }
                                drop(b);
                                for k in u.into_iter() { k.touch() }
                            }}; }
                            match kind {
                                0 => ops!(FzHashSet::with_hasher(sub(x).collect::<Vec<_>>(), Cnt), FzHashSet::with_hasher(sub(y).collect::<Vec<_>>(), Cnt)),
                                1 => ops!(FzOrderedSet::new(sub(x).collect::<Vec<_>>()), FzOrderedSet::new(sub(y).collect::<Vec<_>>())),
                                2 => ops!(FzHashSet::with_hasher(sub(x).collect::<Vec<_>>(), Cnt), FzOrderedSet::new(sub(y).collect::<Vec<_>>())),
                                _ => {
                                    let a = FzHashMap::with_hasher(sub(x).map(|k| (k, LV::new(1))).collect::<Vec<_>>(), Cnt);
                                    let b = FzOrderedMap::new(sub(y).map(|k| (k, LV::new(1))).collect::<Vec<_>>());
                                    assert!((a == b) == (x == y), "equality disagrees");
                                    assert!((b == a) == (x == y), "equality disagrees");
                                    let c = FzScalarMap::new((0..3).filter(|i| x >> i & 1 == 1).map(|i| (CS(i), LV::new(i))).collect::<Vec<_>>());
                                    let d = FzScalarMap::new((0..3).filter(|i| y >> i & 1 == 1).map(|i| (CS(i), LV::new(i))).collect::<Vec<_>>());
                                    assert!((c == d) == (x == y), "equality disagrees");
                                    let s = FzHashSet::from(FzHashMap::with_hasher(sub(x).map(|k| (k, ())).collect::<Vec<_>>(), Cnt));
                                    for k in &s { k.touch() }
                                    let s = FzOrderedSet::from(FzOrderedMap::new(sub(y).map(|k| (k, ())).collect::<Vec<_>>()));
                                    for k in s { k.touch() }
                                }
                            }
                        })
                    });
                }
            }
        }
    });
    r.scenario("ledger/deserialise", |sc| {
        impl<'de> Deserialize<'de> for DK {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(|i| DK(LK::new(i))) }
        }
        #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug)]
        struct DK(LK);
        #[derive(Debug)]
        struct DV(LV);
        impl<'de> Deserialize<'de> for DV {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u32::deserialize(d).map(|i| DV(LV::new(i))) }
        }
        for s in seqs {
            for cut in 0..=2 * s.len() + 2 {
                for h in HINTS {
                    sc.case(|| format!("keys {s:?}, read fault at token {cut}, size hint {h:?}"), |o| {
                        o.state(&(s, cut, h));
                        let mt: Vec<Tok> = [Tok::Map(None)].into_iter().chain(s.iter().flat_map(|k| [Tok::U(*k as u64), Tok::U(7)])).chain([Tok::End]).collect();
                        let st: Vec<Tok> = [Tok::Seq(None)].into_iter().chain(s.iter().map(|k| Tok::U(*k as u64))).chain([Tok::End]).collect();
                        every_panic(o, &|| {
                            macro_rules! rd { ($t:ty, $toks:expr) => {{
                                let mut d = De::new($toks);
                                d.fail_at = Some(cut);
                                d.hint = h;
                                let r = <$t>::deserialize(&mut d);
                                assert!(r.is_err() == (cut < $toks.len()), "read fault and result disagree");
                            }}; }
                            rd!(FzHashMap<DK, DV, Cnt>, &mt);
                            rd!(FzOrderedMap<DK, DV>, &mt);
                            rd!(FzScalarMap<u32, DV>, &mt);
                            rd!(FzHashSet<DK, Cnt>, &st);
                            rd!(FzOrderedSet<DK>, &st);
                        })
                    });
                }
            }
        }
    });
    // adversarial user code: every answer of every callback
    let (d1, d2, d3) = if deep { (11, 12, 9) } else { (8, 9, 7) };
    r.bound(format!("adversary: keys whose equality/order/hash/index answer arbitrarily; all answer sequences (depth-first) for the first {d1} (hash), {d2} (order), {d3} (scalar) callbacks of build / lookup / disjoint access / clone, up to 4 keys; monitored: aborts of unchecked accesses, ledger, aliasing, len vs iteration"));
    r.scenario("adversary/hash", |sc| {
        for n in 0..=4usize {
            for phase in 0..4 {
                for off in [0usize, 4, 10] {
                    sc.case(|| format!("{n} keys, phase {phase}, build callbacks fixed: {off}"), |o| {
                        o.state(&(n, phase, off));
                        every_answer(o, d1, &|| {
                            let mk = || (0..n).map(|i| (AK::new(), LV::new(i as u32))).collect::<Vec<_>>();
                            // well-behaved during part of the construction, so that the scripted answers also reach the lookups
                            let mut m = if off == 0 { FzHashMap::with_hasher(mk(), Pass) } else { mc::ledger::script_pause(off, || FzHashMap::with_hasher(mk(), Pass)) };
                            assert_eq!(m.len(), m.iter().count(), "len and iteration disagree");
                            let q = AK::new();
                            match phase {
                                0 => { if let Some(v) = m.get(&q) { v.touch() } m.contains_key(&q); if let Some((k, v)) = m.get_key_value(&q) { k.touch(); v.touch() } }
                                1 => { let q2 = AK::new(); distinct(m.get_disjoint_mut([&q, &q2])) }
                                2 => { let c = m.clone(); let _ = c == m; drop(m); for (k, v) in c { k.touch(); v.touch() } }
                                _ => { let s = FzHashSet::with_hasher((0..n).map(|_| AK::new()).collect::<Vec<_>>(), Pass); let t = FzHashSet::with_hasher(vec![AK::new()], Pass); let u = &s | &t; for k in u.iter() { k.touch() } let _ = s == t; if let Some(k) = SetExtras::get(&s, &q) { k.touch() } }
                            }
                        })
                    });
                }
            }
        }
    });
    r.scenario("adversary/ordered", |sc| {
        for n in 0..=4usize {
            for phase in 0..4 {
                for off in [0usize, 3, 8] {
                    sc.case(|| format!("{n} keys, phase {phase}, build callbacks fixed: {off}"), |o| {
                        o.state(&(n, phase, off));
                        every_answer(o, d2, &|| {
                            let mk = || (0..n).map(|i| (AK::new(), LV::new(i as u32))).collect::<Vec<_>>();
                            let mut m = if off == 0 { FzOrderedMap::new(mk()) } else { mc::ledger::script_pause(off, || FzOrderedMap::new(mk())) };
                            assert_eq!(m.len(), m.iter().count(), "len and iteration disagree");
                            let q = AK::new();
                            match phase {
                                0 => { if let Some(v) = m.get(&q) { v.touch() } if let Some(v) = m.get_mut(&q) { v.touch() } if let Some((k, v)) = m.get_key_value(&q) { k.touch(); v.touch() } }
                                1 => { let q2 = AK::new(); distinct(m.get_disjoint_mut([&q, &q2])) }
                                2 => { let a = AQ(0); let b = AQ(1); distinct(m.get_disjoint_mut([&a, &b])) }
                                _ => { let c = m.clone(); let _ = c == m; drop(m); for (k, v) in c { k.touch(); v.touch() } }
                            }
                        })
                    });
                }
            }
        }
    });
    r.scenario("adversary/scalar", |sc| {
        for n in 0..=4usize {
            for phase in 0..3 {
                for off in [0usize, 1, 2, 3, 4, 6, 8] {
                    sc.case(|| format!("{n} keys, phase {phase}, callbacks answering 0 first: {off}"), |o| {
                        o.state(&(n, phase, off));
                        every_answer(o, d3, &|| {
                            mc::ledger::script_skip(off);
                            let mut m = FzScalarMap::new((0..n).map(|i| (AS, LV::new(i as u32))).collect::<Vec<_>>());
                            assert_eq!(m.len(), m.iter().count(), "len and iteration disagree");
                            match phase {
                                0 => { if let Some(v) = m.get(&AS) { v.touch() } if let Some(v) = m.get_mut(&AS) { v.touch() } if let Some((_, v)) = m.get_key_value(&AS) { v.touch() } }
                                1 => distinct(m.get_disjoint_mut([&AS, &AS])),
                                _ => { let s = FzScalarSet::new(vec![AS; n]); let _ = s.contains(&AS); let c = m.clone(); drop(m); for (_, v) in c { v.touch() } }
                            }
                        })
                    });
                }
            }
        }
    });
    r.bound("adversary: scalars whose index is a fixed but arbitrary function (not order preserving, colliding, huge): all functions from 4 keys to 6 indices, all insertion subsets, all queries");
    r.scenario("adversary/scalar-functions", |sc| {
        use std::cell::Cell;
        thread_local! { static TAB: Cell<[usize; 4]> = const { Cell::new([0; 4]) }; }
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct FS(u8);
        impl frozen_collections_core::traits::Scalar for FS {
            fn index(&self) -> usize { TAB.with(Cell::get)[self.0 as usize] }
        }
        let idx = [0, 1, 2, 3, 9, usize::MAX];
        sequences(6, 4, |f| {
            for change in [false, true] {
                sc.case(|| format!("index table {:?}, {}", f.iter().map(|i| idx[*i]).collect::<Vec<_>>(), if change { "built under another table" } else { "fixed" }), |o| {
                    o.state(&(f, change));
                    for mask in 0..16usize {
                        reset(0);
                        let t: [usize; 4] = std::array::from_fn(|i| idx[f[i]]);
                        TAB.with(|x| x.set(if change { [5, 6, 7, 8] } else { t }));
                        let m = guarded(|| FzScalarMap::new((0..4u8).filter(|i| mask >> i & 1 == 1).map(|i| (FS(i), LV::new(i.into()))).collect::<Vec<_>>()));
                        TAB.with(|x| x.set(t));
                        if let Ok(mut m) = m {
                            for q in 0..4u8 {
                                let _ = guarded(|| { if let Some(v) = m.get(&FS(q)) { v.touch() } });
                                let _ = guarded(|| { if let Some(v) = m.get_mut(&FS(q)) { v.touch() } });
                                let _ = guarded(|| { if let Some((_, v)) = m.get_key_value(&FS(q)) { v.touch() } });
                                for p in 0..4u8 {
                                    if let Err(e) = guarded(|| distinct(m.get_disjoint_mut([&FS(q), &FS(p)]))) { ensure!(!e.contains("aliased"), "{e}"); }
                                    o.t(1);
                                }
                                o.t(3);
                            }
                            ensure_eq!(m.iter().count(), m.len(), "len and iteration");
                            drop(m);
                        }
                        settle()?;
                    }
                    Ok(())
                });
            }
        });
    });
    r.bound("adversary: string collections with a hasher that answers arbitrarily, all answer sequences");
    r.scenario("adversary/string", |sc| {
        for keys in [vec!["a", "b"], vec!["ab", "ba", "aa", "bb"], vec!["axx", "bxx", "cxx"], vec!["a", "aa", "aaa"], vec!["abba", "baab", "ab", "ba", "bb", "aaaa"]] {
            for phase in 0..3 {
                sc.case(|| format!("{keys:?} phase {phase}"), |o| {
                    o.state(&(&keys, phase));
                    every_answer(o, d3 - 1, &|| {
                        let mut m = FzStringMap::with_hasher(keys.iter().map(|k| ((*k).into(), LV::new(1))).collect::<Vec<(Box<str>, LV)>>(), Whim);
                        for q in ["a", "ab", "zz", ""] { if let Some(v) = m.get(&q) { v.touch() } }
                        match phase {
                            0 => distinct(m.get_disjoint_mut([&keys[0], &keys[1]])),
                            1 => { let s = FzStringSet::with_hasher(keys.iter().map(|k| (*k).into()).collect::<Vec<Box<str>>>(), Whim); for k in s.iter() { k.touch_it() } let _ = s.contains(&"ab"); }
                            _ => { let c = m.clone(); drop(m); for (k, v) in c { k.touch_it(); v.touch() } }
                        }
                    })
                });
            }
        }
    });
    // macro-made collections of tracked values
    r.bound("macro-made maps with tracked values, one per implementation: every operation, every position, a panic at every callback");
    r.scenario("ledger/macro-made", |sc| {
        macro_rules! inl {
            ($name:literal, $mac:ident, $kt:ty, $qs:expr, { $($k:tt : $v:tt),* }) => {{
                let n = [$($v),*].len();
                for (op, (on, ps)) in TR_OPS.iter().enumerate() {
                    for p in 0..=(if *ps { n } else { 0 }) {
                        sc.case(|| format!("{}: {on}, p={p}", $name), |o| {
                            o.state(&($name, op, p));
                            every_panic(o, &|| {
                                let mut m = frozen_collections::$mac!({ $($k : LV::new($v)),* });
                                let qs: Vec<$kt> = $qs;
                                tr_op!(m, op, p, qs);
                            })
                        });
                    }
                }
            }};
        }
        const TR_OPS: [(&str, bool); 8] = [("drop", false), ("lookup", false), ("clone", false), ("replace", false), ("disjoint", false), ("into_iter", true), ("into_keys", true), ("into_values", true)];
        macro_rules! tr_op {
            ($m:ident, $op:ident, $p:ident, $qs:ident) => {
                match $op {
                    0 => {}
                    1 => for q in &$qs { if let Some(v) = MapQuery::get(&$m, q) { v.touch() } if let Some((_, v)) = MapExtras::get_key_value(&$m, q) { v.touch() } if let Some(v) = MapQuery::get_mut(&mut $m, q) { v.touch(); v.val += 1 } },
                    2 => { let c = $m.clone(); for (_, v) in &c { v.touch() } drop($m); for (_, v) in &c { v.touch() } return; }
                    3 => { for (_, v) in &mut $m { *v = LV::new(5) } for q in &$qs { if let Some(v) = MapQuery::get_mut(&mut $m, q) { *v = LV::new(6) } } }
                    4 => { distinct(MapExtras::get_disjoint_mut(&mut $m, [&$qs[0], &$qs[1], &$qs[2]])); }
                    5 => { let mut it = $m.into_iter(); let mut kept = vec![]; for _ in 0..$p { kept.extend(it.next()) } drop(it); for (_, v) in &kept { v.touch() } return; }
                    6 => { let mut it = frozen_collections::MapIteration::into_keys($m); for _ in 0..$p { it.next(); } return; }
                    _ => { let mut it = frozen_collections::MapIteration::into_values($m); let mut kept = vec![]; for _ in 0..$p { kept.extend(it.next()) } drop(it); for v in &kept { v.touch() } return; }
                }
                for (_, v) in &$m { v.touch() }
            };
        }
        inl!("inline scan", fz_hash_map, u32, vec![7, 1, 99], { 7u32: 1, 1u32: 2, 4000u32: 3 });
        inl!("inline hash", fz_hash_map, u32, vec![7, 1, 99], { 7u32: 1, 1u32: 2, 4000u32: 3, 2u32: 4, 900000u32: 5, 12u32: 6, 13u32: 7, 70u32: 8, 71u32: 9 });
        inl!("inline dense", fz_scalar_map, u32, vec![7, 8, 99], { 7u32: 1, 8u32: 2, 9u32: 3, 6u32: 4 });
        inl!("inline sparse", fz_scalar_map, u32, vec![7, 8, 99], { 7u32: 1, 8u32: 2, 19u32: 3, 60u32: 4 });
        inl!("inline ordered expr", fz_ordered_map, u32, vec![7, 8, 99], { (7u32 + 0): 1, (8u32 + 0): 2, (19u32 + 0): 3, (60u32 + 0): 4, (1u32 + 0): 5 });
        inl!("hash expr", fz_hash_map, u32, vec![7, 8, 99], { (7u32 + 0): 1, (8u32 + 0): 2, (19u32 + 0): 3, (60u32 + 0): 4, (1u32 + 0): 5 });
        inl!("inline string", fz_string_map, &str, vec!["ab", "ba", "zz"], { "ab": 1, "ba": 2, "aa": 3, "bb": 4, "abba": 5 });
        inl!("inline string left", fz_string_map, &str, vec!["axx", "bxx", "zz"], { "axx": 1, "bxx": 2, "cxx": 3, "dxx": 4, "exx": 5 });
    });
    r.finish()
}
