//! C17 under Miri: the same tracked operations, each execution checked for undefined behaviour by the interpreter
//! (out-of-bounds, dangling, uninitialised, aliasing under Tree Borrows, leaks).  Arguments: SHARD NSHARDS quick|thorough
use frozen_collections::{MapExtras, MapIteration, MapQuery};
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::ledger::*;
use mc::mem::*;
use mc::{HF, QK, TK};
use std::panic::{AssertUnwindSafe, catch_unwind};

struct Sh { me: usize, n: usize, idx: usize, ran: usize }
impl Sh {
    fn case(&mut self, d: impl Fn() -> String, body: impl Fn()) {
        self.idx += 1;
        if self.idx % self.n != self.me { return; }
        self.ran += 1;
        println!("CASE {}", d());
        reset(0);
        body();
        if let Err(e) = settle() {
            println!("BAD {e}");
            std::process::exit(1);
        }
    }
}
fn dis<const N: usize>(vs: [Option<&mut u32>; N]) {
    let mut vs = vs;
    for v in vs.iter_mut().flatten() { **v += 1 }
    for v in vs.into_iter().flatten() { *v += 1 }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut sh = Sh { me: a[1].parse().unwrap(), n: a[2].parse().unwrap(), idx: 0, ran: 0 };
    let deep = a[3] == "thorough";
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); if !m.contains("duplicate keys") { println!("PANIC {m}") } }));
    let mut seqs: Vec<Vec<usize>> = vec![vec![], vec![0], vec![0, 0], vec![1, 0], vec![2, 0, 1], vec![0, 1, 0], vec![4, 1, 0, 3, 2, 1], vec![0, 1, 2, 3, 4, 5, 6, 7, 8]];
    if deep {
        for n in 2..=3 { mc::sequences(3, n, |s| seqs.push(s.to_vec())); }
        seqs.push((0..20).collect());
    }
    let sh = &mut sh;
    fn bs(i: u32) -> Box<str> { ["", "ab", "ba", "漢", "abcd", "x", "yy", "q1", "q2"].get(i as usize).map_or_else(|| format!("k{i}"), |s| s.to_string()).into() }
    fn be(i: u32) -> Box<str> { format!("{}xx", (b'a' + i as u8) as char).into() }
    fn cw(i: u32) -> CS { CS(5 + i * 3) }
    fn cg(i: u32) -> CS { CS(i.wrapping_mul(900_000_001)) }
    for s in &seqs {
        macro_rules! m { ($name:literal, $t:ty, $new:expr, $key:expr, $ctors:expr) => {
            for ctor in 0..$ctors {
                if ctor > 0 && s.len() > 8 { continue; }
                for (op, (on, ps)) in MAP_OPS.iter().enumerate() {
                    if ctor > 0 && op > 0 { continue; }
                    for p in if *ps { vec![0, 1, s.len() / 2, s.len()] } else { vec![0] } {
                        if p > s.len() { continue; }
                        sh.case(|| format!("{} ctor {ctor} {s:?} {on} p={p}", $name), || {
                            let qs: Vec<_> = (0..4u32).map($key).collect();
                            map_op(op, p, &|| $new(ctor, s.iter().enumerate().map(|(i, k)| ($key(*k as u32), LV::new(i as u32))).collect::<Vec<_>>()), &qs);
                        });
                    }
                }
            }
        }; }
        macro_rules! st { ($name:literal, $t:ty, $new:expr, $key:expr) => {
            for (op, (on, ps)) in SET_OPS.iter().enumerate() {
                for p in if *ps { vec![0, 1, s.len()] } else { vec![0] } {
                    if p > s.len() { continue; }
                    sh.case(|| format!("{} {s:?} {on} p={p}", $name), || {
                        let qs: Vec<_> = (0..4u32).map($key).collect();
                        set_op(op, p, &|| $new(s.iter().map(|k| $key(*k as u32)).collect::<Vec<_>>()), &qs);
                    });
                }
            }
        }; }
        m!("FzHashMap", FzHashMap<LK, LV, Cnt>, |c, v| mc::build_by!(c, FzHashMap<LK, LV, Cnt>, |v| FzHashMap::with_hasher(v, Cnt), v), LK::new, 3);
        m!("FzOrderedMap", FzOrderedMap<LK, LV>, |c, v| mc::build_by!(c, FzOrderedMap<LK, LV>, FzOrderedMap::new, v), LK::new, 3);
        m!("FzScalarMap dense", FzScalarMap<CS, LV>, |c, v| mc::build_by!(c, FzScalarMap<CS, LV>, FzScalarMap::new, v), CS, 3);
        m!("FzScalarMap sparse", FzScalarMap<CS, LV>, |c, v| mc::build_by!(c, FzScalarMap<CS, LV>, FzScalarMap::new, v), cw, 1);
        m!("FzScalarMap general", FzScalarMap<CS, LV>, |c, v| mc::build_by!(c, FzScalarMap<CS, LV>, FzScalarMap::new, v), cg, 1);
        m!("FzStringMap", FzStringMap<Box<str>, LV>, |_, v| FzStringMap::<Box<str>, LV, _>::with_hasher(v, HF::Fnv), bs, 1);
        m!("FzStringMap range", FzStringMap<Box<str>, LV>, |_, v| FzStringMap::<Box<str>, LV, _>::with_hasher(v, HF::Fnv), be, 1);
        st!("FzHashSet", FzHashSet<LK, Cnt>, |v| FzHashSet::with_hasher(v, Cnt), LK::new);
        st!("FzOrderedSet", FzOrderedSet<LK>, FzOrderedSet::new, LK::new);
        st!("FzScalarSet", FzScalarSet<CS>, FzScalarSet::new, CS);
        st!("FzStringSet", FzStringSet<Box<str>>, |v| FzStringSet::<Box<str>, _>::with_hasher(v, HF::Fnv), bs);
    }
    // disjoint access through unequal but equivalent queries must never hand out aliasing references
    for n in [1usize, 3, 5, 9] {
        for (x, y) in [(0u32, 0u32), (0, 1), (1, 0), (0, 77), (77, 0)] {
            for al in 0..2u8 {
                sh.case(|| format!("disjoint {n} keys, queries {x}/{y} alias {al}"), || {
                    let es: Vec<(TK, u32)> = (0..n as u32).map(|i| (TK { id: i, tag: 0 }, i)).collect();
                    let (p, q) = (QK { id: x, alias: 0 }, QK { id: y, alias: al });
                    macro_rules! d { ($m:expr) => {{ let mut m = $m; let _ = catch_unwind(AssertUnwindSafe(|| dis(m.get_disjoint_mut([&p, &q])))); std::hint::black_box(&m); }}; }
                    d!(FzHashMap::with_hasher(es.clone(), HF::Fnv));
                    d!(FzOrderedMap::new(es.clone()));
                    d!(FzScalarMap::new(es.clone()));
                    d!(FzScalarMap::new(es.iter().map(|(k, v)| (TK { id: k.id * 5, tag: 0 }, *v)).collect::<Vec<_>>()));
                });
            }
        }
    }
    // macro-made
    macro_rules! im { ($n:expr, $md:ident) => { sh.case(|| $n.to_string(), || {
        let mut m = mc::inl::maps::$md::make();
        let es = mc::inl::maps::$md::entries();
        for (k, _) in &es { let _ = MapQuery::get(&m, k); *MapQuery::get_mut(&mut m, k).unwrap() += 1; let _ = MapExtras::get_key_value(&m, k); }
        let _ = catch_unwind(AssertUnwindSafe(|| dis(MapExtras::get_disjoint_mut(&mut m, [&es[0].0, &es[es.len() - 1].0]))));
        for v in MapIteration::values_mut(&mut m) { *v += 1 }
        for (_, v) in &mut m { *v += 1 }
        let c = m.clone();
        let mut it = c.into_iter();
        it.next();
        drop(it);
        assert!(m == m);
        let _ = format!("{m:?}");
    }); }; }
    mc::each_inl_int_map!(im);
    mc::each_inl_str_map!(im);
    // all sizes of the unchecked tables, every key and its neighbours
    for n in if deep { (0..=40usize).collect::<Vec<_>>() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17] } {
        for spread in [1u32, 3, 1_000_003] {
            sh.case(|| format!("{n} keys spread {spread}"), || {
                let es: Vec<(u32, u32)> = (0..n as u32).map(|i| ((i * spread).wrapping_add(7), i)).collect();
                let (h, o, s) = (FzHashMap::with_hasher(es.clone(), HF::Ident), FzOrderedMap::new(es.clone()), FzScalarMap::new(es.clone()));
                for q in es.iter().flat_map(|e| [e.0 - 1, e.0, e.0 + 1]).chain([0, 6, u32::MAX]) {
                    let e = es.iter().find(|e| e.0 == q).map(|e| &e.1);
                    assert!(h.get(&q) == e && o.get(&q) == e && s.get(&q) == e);
                }
                let st = FzStringMap::<Box<str>, u32, _>::with_hasher(es.iter().map(|(k, v)| (format!("k{k}").into_boxed_str(), *v)).collect::<Vec<_>>(), HF::Fnv);
                for (k, v) in &es { assert!(st.get(&format!("k{k}")) == Some(v)); }
                for q in ["", "k", "k7k", "漢字漢字"] { assert!(st.get(&q).is_none()); }
            });
        }
    }
    println!("DONE {}", sh.ran);
}
