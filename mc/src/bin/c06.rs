//! C06: ordered collections are right for every size and every total order.
use equivalent::{Comparable, Equivalent};
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::cmp::{Ordering, Reverse};
use std::collections::BTreeMap;

/// a key ordered only by `rank`
#[derive(Clone, Copy, Debug)]
struct RK {
    rank: i64,
    id: u32,
}
impl PartialEq for RK {
    fn eq(&self, o: &Self) -> bool {
        self.rank == o.rank
    }
}
impl Eq for RK {}
impl PartialOrd for RK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for RK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.rank.cmp(&o.rank)
    }
}
/// a query that sits at, or between, ranks
#[derive(Clone, Copy, Debug, PartialEq)]
struct Half(i64);
impl Equivalent<RK> for Half {
    fn equivalent(&self, k: &RK) -> bool {
        self.0 == 2 * k.rank
    }
}
impl Comparable<RK> for Half {
    fn compare(&self, k: &RK) -> Ordering {
        self.0.cmp(&(2 * k.rank))
    }
}

fn audit_rk(o: &mut Obs, es: &[(RK, u32)], lo: i64, hi: i64) -> R {
    let mut model: BTreeMap<i64, (u32, u32)> = BTreeMap::new();
    for (k, v) in es {
        model.insert(k.rank, (k.id, *v));
    }
    let mut m = FzOrderedMap::new(es.to_vec());
    let s = FzOrderedSet::new(es.iter().map(|e| e.0).collect());
    ensure_eq!(m.len(), model.len(), "FzOrderedMap len");
    ensure_eq!(s.len(), model.len(), "FzOrderedSet len");
    for h in 2 * lo - 1..=2 * hi + 1 {
        let q = Half(h);
        let e = if h % 2 == 0 { model.get(&(h / 2)) } else { None };
        ensure_eq!(m.get(&q).copied(), e.map(|x| x.1), "FzOrderedMap get(rank {}/2)", h);
        ensure_eq!(m.contains_key(&q), e.is_some(), "FzOrderedMap contains_key(rank {}/2)", h);
        ensure_eq!(m.get_key_value(&q).map(|kv| (kv.0.rank * 2, kv.0.id, *kv.1)), e.map(|x| (h, x.0, x.1)), "FzOrderedMap get_key_value(rank {}/2)", h);
        ensure_eq!(m.get_mut(&q).map(|x| *x), e.map(|x| x.1), "FzOrderedMap get_mut(rank {}/2)", h);
        ensure_eq!(s.contains(&q), e.is_some(), "FzOrderedSet contains(rank {}/2)", h);
        ensure_eq!(s.get(&q).map(|k| k.id), e.map(|x| x.0), "FzOrderedSet get(rank {}/2)", h);
        o.t(6);
    }
    let mut got: Vec<(i64, u32, u32)> = m.iter().map(|(k, v)| (k.rank, k.id, *v)).collect();
    got.sort();
    ensure_eq!(got, model.iter().map(|(k, v)| (*k, v.0, v.1)).collect::<Vec<_>>(), "FzOrderedMap contents");
    let mut got: Vec<(i64, u32)> = s.iter().map(|k| (k.rank, k.id)).collect();
    got.sort();
    ensure_eq!(got, model.iter().map(|(k, v)| (*k, v.0)).collect::<Vec<_>>(), "FzOrderedSet contents");
    Ok(())
}

fn generic<K: Ord + Clone + std::fmt::Debug>(o: &mut Obs, all: &[K], pick: impl Fn(usize) -> bool) -> R {
    let es: Vec<(K, u32)> = all.iter().enumerate().filter(|(i, _)| pick(*i)).map(|(i, k)| (k.clone(), i as u32)).collect();
    let model = model_map(&es);
    let mut m = FzOrderedMap::new(es.clone());
    audit_lookup_fast(o, &mut m, &model, all)?;
    audit_contents(o, &m, &model)?;
    let s = FzOrderedSet::new(es.iter().map(|e| e.0.clone()).collect());
    audit_set_lookup(o, &s, &model.keys().cloned().collect(), all)
}

#[derive(Clone, Debug)]
struct NoCase(String);
impl PartialEq for NoCase {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for NoCase {}
impl PartialOrd for NoCase {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for NoCase {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.to_lowercase().cmp(&o.0.to_lowercase())
    }
}

fn main() {
    let mut r = Run::new("C06");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;

    // every size, queried at, between, below and above every key
    {
        let max = if deepest { 14_000 } else if deep { 6000 } else { 2500 };
        r.bound(format!("every size 0..={max}, 5 insertion orders for sizes <=70 and around powers of two (2 otherwise), every rank and every gap queried"));
        r.scenario("sizes", |sc| {
            for n in 0..=max {
                let near_pow = (0..12).any(|p| (n as i64 - (1i64 << p)).abs() <= 2);
                for ord in 0..5 {
                    if ord > 1 && !(n <= 70 || near_pow || deep && n % 7 == 0) { continue; }
                    sc.case(|| format!("{n} keys, insertion order {ord}"), |o| {
                        o.state(&(n, ord));
                        let f = |i: usize| -> i64 {
                            (match ord { 0 => i, 1 => n - 1 - i, 2 => (i + n / 2) % n, 3 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }, _ => { let mut s = 1; while gcd(s * 2 + 1, n) != 1 { s += 1; } (i * (s * 2 + 1)) % n } }) as i64
                        };
                        let es: Vec<(RK, u32)> = (0..n).map(|i| (RK { rank: f(i), id: i as u32 }, 7 * i as u32)).collect();
                        audit_rk(o, &es, 0, n as i64)
                    });
                }
            }
        });
    }
    // every insertion order of small collections
    {
        let max = if deepest { 11 } else if deep { 10 } else { 9 };
        r.bound(format!("every insertion order (all permutations) of up to {max} distinct keys"));
        r.scenario("permutations", |sc| {
            for n in 0..=max {
                permutations(n, |p| {
                    sc.case(|| format!("insertion order {p:?}"), |o| {
                        o.state(p);
                        let es: Vec<(RK, u32)> = p.iter().enumerate().map(|(i, r)| (RK { rank: *r as i64, id: i as u32 }, i as u32 + 50)).collect();
                        audit_rk(o, &es, 0, n as i64)
                    });
                });
            }
        });
    }
    // every total preorder on a list of keys (equal ranks = equal keys) 
    {
        let max = if deepest { 9 } else if deep { 8 } else { 7 };
        r.bound(format!("every assignment of ranks 0..n to n<=7 (thorough 8) listed keys, i.e. every total preorder in every insertion order"));
        r.scenario("preorders", |sc| {
            for n in 0..=max {
                sequences(n, n, |p| {
                    sc.case(|| format!("ranks {p:?}"), |o| {
                        o.state(p);
                        let es: Vec<(RK, u32)> = p.iter().enumerate().map(|(i, r)| (RK { rank: *r as i64, id: i as u32 }, i as u32 + 50)).collect();
                        audit_rk(o, &es, -1, n as i64)
                    });
                });
            }
        });
    }
    // subsets of key universes under assorted natural orders
    r.bound("all subsets of 10-element universes of Reverse<i8>, i128 extremes, tuples, strings, case-insensitive strings, Option, arrays, char, bool, unit");
    r.scenario("key-types", |sc| {
        for mask in 0u32..1024 {
            sc.case(|| format!("subset mask {mask:010b}"), |o| {
                o.state(&mask);
                let p = |i: usize| mask >> i & 1 == 1;
                generic(o, &[5i8, -5, 0, 1, -128, 127, 126, -1, 7, -127].map(Reverse), p)?;
                generic(o, &[0i128, 1, -1, i128::MAX, i128::MIN, i128::MAX - 1, i128::MIN + 1, 1 << 64, -(1 << 64), 5], p)?;
                generic(o, &[(0u8, "b"), (0, "a"), (1, ""), (1, "a"), (255, "z"), (0, ""), (1, "b"), (2, "a"), (2, ""), (7, "q")], p)?;
                generic(o, &["", "a", "b", "ab", "aB", "B", "\u{e9}", "z", "aa", "aaa"].map(String::from), p)?;
                generic(o, &["", "a", "A", "ab", "aB", "B", "\u{c9}", "\u{e9}", "aa", "AA"].map(|s| NoCase(s.into())), p)?;
                generic(o, &[None, Some(0u64), Some(1), Some(u64::MAX), Some(2), Some(3), Some(9), Some(8), Some(1 << 40), Some(77)], p)?;
                generic(o, &[[0u8, 0], [0, 1], [1, 0], [255, 255], [255, 0], [3, 4], [4, 3], [9, 9], [9, 8], [7, 7]], p)?;
                generic(o, &['a', 'b', '\0', '\u{10ffff}', 'é', 'Z', '0', ' ', '字', '~'], p)?;
                generic(o, &[true, false, true, false, true, false, true, false, true, false], p)?;
                generic(o, &[(); 10], p)?;
                generic(o, &[1.5f64, -0.0, 0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-300, 2.0, 3.0, -7.5].map(|f| F(f)), p)
            });
        }
    });
    // queries of another type: &str for String keys, equivalent keys with aliases
    r.scenario("query-types", |sc| {
        for n in 0..=40usize {
            sc.case(|| format!("{n} keys"), |o| {
                o.state(&n);
                let es: Vec<(String, usize)> = (0..n).map(|i| (format!("{:03}", 2 * i + 1), i)).collect();
                let m = FzOrderedMap::new(es.clone());
                let s = FzOrderedSet::new(es.iter().map(|e| e.0.clone()).collect());
                for q in 0..2 * n + 3 {
                    let k = format!("{q:03}");
                    let e = if q % 2 == 1 && q / 2 < n { Some(q / 2) } else { None };
                    ensure_eq!(m.get(k.as_str()).copied(), e, "get(&str {k})");
                    ensure_eq!(m.contains_key(k.as_str()), e.is_some(), "contains_key(&str {k})");
                    ensure_eq!(s.contains(k.as_str()), e.is_some(), "contains(&str {k})");
                    o.t(3);
                }
                let es: Vec<(TK, usize)> = (0..n).map(|i| (TK { id: 2 * i as u32 + 1, tag: i as u32 }, i)).collect();
                let m = FzOrderedMap::new(es);
                for q in 0..2 * n + 3 {
                    let e = if q % 2 == 1 && q / 2 < n { Some(q / 2) } else { None };
                    for alias in 0..2 {
                        ensure_eq!(m.get(&QK { id: q as u32, alias }).copied(), e, "get(QK {q})");
                        o.t(1);
                    }
                }
                Ok(())
            });
        }
    });
    // macro-made ordered collections
    r.scenario("macro-made", |sc| {
        macro_rules! m { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::maps::$md::entries();
                let model = model_map(&es);
                let mut q: Vec<u32> = (0..300).collect();
                q.extend(u32::MAX - 300..=u32::MAX);
                q.extend((0..32).map(|i| 1u32 << i));
                o.state($n);
                audit_lookup_fast(o, &mut inl::maps::$md::wrap(), &model, &q)
            });
        } }
        macro_rules! s { ($n:expr, $md:ident) => {
            sc.case(|| $n.to_string(), |o| {
                let es = inl::sets::$md::entries();
                let mut q: Vec<u32> = (0..300).collect();
                q.extend(u32::MAX - 300..=u32::MAX);
                o.state($n);
                audit_set_lookup(o, &inl::sets::$md::wrap(), &model_set(&es), &q)
            });
        } }
        each_inl_int_map!(m);
        each_inl_int_set!(s);
    });
    // beyond every internal width: every rank found, every gap refused
    r.bound("31 sizes between 2500 and 131073 (thorough 1000001), 3 insertion orders: every key and every gap queried");
    r.scenario("large", |sc| {
        let mut ns = vec![4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 20_000, 32_766, 32_767, 32_768, 32_769, 40_000, 50_000, 65_534, 65_535, 65_536, 65_537, 65_538, 70_000, 80_000, 99_999, 100_000, 110_000, 131_070, 131_071, 131_072, 131_073];
        if deep { ns.extend([200_000, 262_143, 262_144, 262_145, 300_000, 524_287, 524_288, 524_289]); }
        if deepest { ns.extend([1_000_000, 1_048_575, 1_048_576, 1_048_577]); }
        for n in ns {
            for ord in 0..3 {
                sc.case(|| format!("{n} keys, insertion order {ord}"), |o| {
                    o.state(&(n, ord));
                    let mut es: Vec<(i64, u32)> = (0..n as i64).map(|i| (2 * i, i as u32)).collect();
                    match ord { 0 => {}, 1 => es.reverse(), _ => es.rotate_left(n / 2) }
                    let ks: Vec<i64> = es.iter().map(|e| e.0).collect();
                    let mut m = FzOrderedMap::new(es.clone());
                    es.sort();
                    let absent: Vec<i64> = (0..=n as i64).map(|i| 2 * i - 1).chain([i64::MIN, i64::MAX, 2 * n as i64]).collect();
                    big_map_lookup(o, &mut m, &es, &absent)?;
                    let exp: Vec<i64> = es.iter().map(|e| e.0).collect();
                    big_set_lookup(o, &FzOrderedSet::new(ks), &exp, &absent)
                });
            }
        }
    });
    r.finish()
}

#[derive(Clone, Copy, Debug)]
struct F(f64);
impl PartialEq for F {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for F {}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for F {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.total_cmp(&o.0)
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
