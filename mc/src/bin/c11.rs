//! C11: set algebra is exact for every pair of set implementations.
use frozen_collections::{Set, SetOps};
use frozen_collections_core::fz_sets::*;
use mc::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::ops::{BitAnd, BitOr, BitXor, Sub};

type HB<T> = hashbrown::HashSet<T>;

/// contract of one lazily produced result
fn lazy<'a, T: Ord + Debug + 'a, I: Iterator<Item = &'a T> + Clone + Debug>(o: &mut Obs, what: &str, it: I, exp: &BTreeSet<&T>) -> R {
    let mut got: Vec<&T> = vec![];
    let mut i = it.clone();
    let total = exp.len();
    for step in 0..=total {
        let (lo, hi) = i.size_hint();
        let left = total - step;
        ensure!(lo <= left, "{what}: size_hint lower bound {lo} but only {left} items remain after {step}");
        if let Some(hi) = hi {
            ensure!(hi >= left, "{what}: size_hint upper bound {hi} but {left} items remain after {step}");
        }
        let c = i.clone();
        ensure_eq!(c.clone().count(), left, "{what}: count after {step}");
        let shown = format!("{c:?}");
        ensure_eq!(c.clone().fold(0usize, |n, _| n + 1), left, "{what}: fold length after {step}");
        let rest: BTreeSet<&T> = c.collect();
        ensure_eq!(rest.len(), left, "{what}: distinct items left after {step}");
        for r in &rest {
            ensure!(!got.contains(r), "{what}: {r:?} yielded twice");
            ensure!(shown.contains(&format!("{r:?}")), "{what}: Debug after {step} lacks {r:?}: {shown}");
        }
        match i.next() {
            Some(x) => got.push(x),
            None => ensure_eq!(step, total, "{what}: ended early, got {got:?}, expected {exp:?}; items"),
        }
        o.t(5);
    }
    ensure_eq!(got.len(), total, "{what}: number of items ({got:?}, expected {exp:?})");
    ensure!(i.next().is_none() && i.next().is_none(), "{what}: item after the end");
    ensure_eq!(i.size_hint().0, 0, "{what}: size_hint after the end");
    let g: BTreeSet<&T> = got.into_iter().collect();
    ensure_eq!(g, *exp, "{what}");
    // the other ways to drain
    let g: BTreeSet<&T> = it.clone().collect();
    ensure_eq!(g, *exp, "{what} collected");
    if total > 0 {
        ensure!(exp.contains(it.clone().last().ok_or("no last")?), "{what}: last");
        for k in 0..total.min(3) {
            let mut j = it.clone();
            ensure!(j.nth(k).is_some(), "{what}: nth({k})");
            ensure_eq!(j.count(), total - k - 1, "{what}: count after nth({k})");
        }
    }
    ensure!(it.clone().nth(total).is_none(), "{what}: nth past the end");
    Ok(())
}

fn algebra<T: Ord + Debug + Clone + 'static, A: Set<T> + Debug + 'static, B: Set<T> + Debug + 'static>(o: &mut Obs, n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R
where
    for<'x> A::Iterator<'x>: Clone,
    for<'x> B::Iterator<'x>: Clone,
{
    let w = |op: &str| format!("{n} {op} of {ma:?} and {mb:?}");
    lazy(o, &w("union"), SetOps::union(a, b), &ma.union(mb).collect())?;
    lazy(o, &w("intersection"), SetOps::intersection(a, b), &ma.intersection(mb).collect())?;
    lazy(o, &w("difference"), SetOps::difference(a, b), &ma.difference(mb).collect())?;
    lazy(o, &w("symmetric_difference"), SetOps::symmetric_difference(a, b), &ma.symmetric_difference(mb).collect())?;
    ensure_eq!(SetOps::is_disjoint(a, b), ma.is_disjoint(mb), "{}", w("is_disjoint"));
    ensure_eq!(SetOps::is_subset(a, b), ma.is_subset(mb), "{}", w("is_subset"));
    ensure_eq!(SetOps::is_superset(a, b), ma.is_superset(mb), "{}", w("is_superset"));
    o.t(3);
    Ok(())
}
fn operators<T: Ord + Debug + Clone + std::hash::Hash, A, B>(o: &mut Obs, n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R
where
    for<'x> &'x A: BitOr<&'x B, Output = HB<T>> + BitAnd<&'x B, Output = HB<T>> + BitXor<&'x B, Output = HB<T>> + Sub<&'x B, Output = HB<T>>,
{
    let s = |x: HB<T>| x.into_iter().collect::<BTreeSet<T>>();
    let c = |x: &BTreeSet<&T>| x.iter().map(|y| (*y).clone()).collect::<BTreeSet<T>>();
    ensure_eq!(s(a | b), c(&ma.union(mb).collect()), "{n} {ma:?} | {mb:?}");
    ensure_eq!(s(a & b), c(&ma.intersection(mb).collect()), "{n} {ma:?} & {mb:?}");
    ensure_eq!(s(a ^ b), c(&ma.symmetric_difference(mb).collect()), "{n} {ma:?} ^ {mb:?}");
    ensure_eq!(s(a - b), c(&ma.difference(mb).collect()), "{n} {ma:?} - {mb:?}");
    o.t(4);
    Ok(())
}

macro_rules! both {
    ($o:expr, $n:expr, $a:expr, $b:expr, $ma:expr, $mb:expr) => {
        algebra($o, $n, $a, $b, $ma, $mb)?;
        operators($o, $n, $a, $b, $ma, $mb)?;
    };
}

/// the relations, both ways round
fn big_rel<T: Ord + Debug, A: Set<T>, B: Set<T>>(o: &mut Obs, n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R {
    let (sub, sup, dis) = (ma.is_subset(mb), ma.is_superset(mb), ma.is_disjoint(mb));
    for (op, got, exp) in [("is_subset", SetOps::is_subset(a, b), sub), ("is_superset", SetOps::is_superset(a, b), sup), ("is_disjoint", SetOps::is_disjoint(a, b), dis),
        ("is_subset, swapped", SetOps::is_subset(b, a), sup), ("is_superset, swapped", SetOps::is_superset(b, a), sub), ("is_disjoint, swapped", SetOps::is_disjoint(b, a), dis)]
    {
        ensure!(got == exp, "{n}: {op} of {} and {} values is {got}", ma.len(), mb.len());
    }
    o.t(6);
    Run::tick();
    Ok(())
}
/// the relations and the four results: every item once, exactly the right ones; counts, hints and jumps on the way
fn big_pair<T: Ord + Debug + Clone + std::hash::Hash + 'static, A: Set<T> + Debug + 'static, B: Set<T> + Debug + 'static>(o: &mut Obs, n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R
where
    for<'x> A::Iterator<'x>: Clone,
    for<'x> B::Iterator<'x>: Clone,
    for<'x> &'x A: BitOr<&'x B, Output = HB<T>> + BitAnd<&'x B, Output = HB<T>> + BitXor<&'x B, Output = HB<T>> + Sub<&'x B, Output = HB<T>>,
{
    big_rel(o, n, a, b, ma, mb)?;
    fn res<'a, T: Ord + Debug + 'a, I: Iterator<Item = &'a T> + Clone>(o: &mut Obs, what: String, it: I, exp: Vec<&'a T>, op: HB<T>) -> R
    where
        T: std::hash::Hash,
    {
        let total = exp.len();
        let order: Vec<&T> = it.clone().collect();
        let mut s = order.clone();
        s.sort();
        ensure!(s == exp, "{what}: {} items, {total} expected; first wrong {:?}", s.len(), s.iter().zip(&exp).find(|(a, b)| a != b));
        ensure!(op.len() == total && exp.iter().all(|x| op.contains(*x)), "{what}: operator gives {} items, {total} expected", op.len());
        ensure!(it.clone().count() == total, "{what}: count {} of {total}", it.clone().count());
        ensure!(it.clone().last() == order.last().copied(), "{what}: last");
        let (lo, hi) = it.size_hint();
        ensure!(lo <= total && hi.is_none_or(|h| h >= total), "{what}: size_hint ({lo}, {hi:?}) for {total} items");
        for p in big_positions(total).into_iter().step_by(4) {
            let mut j = it.clone();
            ensure!(j.nth(p) == Some(order[p]), "{what}: nth({p}) of {total}");
            let (lo, hi) = j.size_hint();
            let left = total - p - 1;
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: size_hint ({lo}, {hi:?}) with {left} items left");
            ensure!(j.count() == left, "{what}: count with {left} items left");
        }
        ensure!(it.clone().nth(total).is_none(), "{what}: item past the end");
        o.t(total as u64);
        Run::tick();
        Ok(())
    }
    let w = |op: &str| format!("{n} {op} of {} and {} values", ma.len(), mb.len());
    res(o, w("union"), SetOps::union(a, b), ma.union(mb).collect(), a | b)?;
    res(o, w("intersection"), SetOps::intersection(a, b), ma.intersection(mb).collect(), a & b)?;
    res(o, w("difference"), SetOps::difference(a, b), ma.difference(mb).collect(), a - b)?;
    res(o, w("symmetric_difference"), SetOps::symmetric_difference(a, b), ma.symmetric_difference(mb).collect(), a ^ b)
}

fn subset(u: &[u32], mask: usize) -> Vec<u32> {
    (0..u.len()).filter(|i| mask >> i & 1 == 1).map(|i| u[i]).collect()
}

macro_rules! against_all {
    // library set on the left, everything on the right, and everything on the left through the trait
    ($o:expr, $n:expr, $a:expr, $va:expr, $vb:expr) => {{
        let ma: BTreeSet<u32> = $va.iter().copied().collect();
        let mb: BTreeSet<u32> = $vb.iter().copied().collect();
        let v: Vec<u32> = $vb.to_vec();
        both!($o, &format!("{} x FzHashSet", $n), $a, &FzHashSet::with_hasher(v.clone(), HF::Fold(1)), &ma, &mb);
        both!($o, &format!("{} x FzHashSet(colliding)", $n), $a, &FzHashSet::with_hasher(v.clone(), HF::Const(1)), &ma, &mb);
        both!($o, &format!("{} x FzOrderedSet", $n), $a, &FzOrderedSet::new(v.clone()), &ma, &mb);
        both!($o, &format!("{} x FzScalarSet", $n), $a, &FzScalarSet::new(v.clone()), &ma, &mb);
        both!($o, &format!("{} x std HashSet", $n), $a, &v.iter().copied().collect::<std::collections::HashSet<u32>>(), &ma, &mb);
        both!($o, &format!("{} x BTreeSet", $n), $a, &v.iter().copied().collect::<BTreeSet<u32>>(), &ma, &mb);
        both!($o, &format!("{} x hashbrown HashSet", $n), $a, &v.iter().copied().collect::<HB<u32>>(), &ma, &mb);
        algebra($o, &format!("std HashSet x {}", $n), &v.iter().copied().collect::<std::collections::HashSet<u32>>(), $a, &mb, &ma)?;
        algebra($o, &format!("BTreeSet x {}", $n), &v.iter().copied().collect::<BTreeSet<u32>>(), $a, &mb, &ma)?;
        algebra($o, &format!("hashbrown HashSet x {}", $n), &v.iter().copied().collect::<HB<u32>>(), $a, &mb, &ma)?;
    }};
}

fn main() {
    let mut r = Run::new("C11");
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    for (un, u) in [("contiguous", vec![1u32, 2, 3, 4, 5, 6]), ("gaps", vec![0, 2, 3, 9, 20, 21]), ("scattered", vec![0, 1 << 30, u32::MAX, 7, 1 << 16, 8])] {
        let n = if deepest { 7 } else if deep { 6 } else { 5 };
        r.bound(format!("all pairs of subsets of {n} values ({un}) x 4 frozen layouts x 7 partners, both operand orders"));
        r.scenario(&format!("pairs/{un}"), |sc| {
            for x in 0..1usize << n {
                for y in 0..1usize << n {
                    sc.case(|| format!("{:?} with {:?}", subset(&u, x), subset(&u, y)), |o| {
                        let (va, vb) = (subset(&u, x), subset(&u, y));
                        o.state(&(x, y));
                        against_all!(o, "FzHashSet", &FzHashSet::with_hasher(va.clone(), HF::Fold(2)), va, vb);
                        against_all!(o, "FzHashSet(colliding)", &FzHashSet::with_hasher(va.clone(), HF::Const(2)), va, vb);
                        against_all!(o, "FzOrderedSet", &FzOrderedSet::new(va.clone()), va, vb);
                        against_all!(o, "FzScalarSet", &FzScalarSet::new(va.clone()), va, vb);
                        Ok(())
                    });
                }
            }
        });
    }
    // duplicates in the inputs, empty defaults
    r.scenario("std-pairs", |sc| {
        let u = [1u32, 2, 3, 4];
        for x in 0..16usize {
            for y in 0..16usize {
                sc.case(|| format!("{:?} with {:?}", subset(&u, x), subset(&u, y)), |o| {
                    o.state(&(x, y));
                    let (va, vb) = (subset(&u, x), subset(&u, y));
                    let ma: BTreeSet<u32> = va.iter().copied().collect();
                    let mb: BTreeSet<u32> = vb.iter().copied().collect();
                    let sa: std::collections::HashSet<u32> = va.iter().copied().collect();
                    let ha: HB<u32> = va.iter().copied().collect();
                    let sb: std::collections::HashSet<u32> = vb.iter().copied().collect();
                    let hb: HB<u32> = vb.iter().copied().collect();
                    algebra(o, "std x std", &sa, &sb, &ma, &mb)?;
                    algebra(o, "std x hashbrown", &sa, &hb, &ma, &mb)?;
                    algebra(o, "std x BTreeSet", &sa, &mb, &ma, &mb)?;
                    algebra(o, "hashbrown x hashbrown", &ha, &hb, &ma, &mb)?;
                    algebra(o, "hashbrown x BTreeSet", &ha, &mb, &ma, &mb)?;
                    algebra(o, "BTreeSet x BTreeSet", &ma, &mb, &ma, &mb)?;
                    algebra(o, "BTreeSet x std", &ma, &sb, &ma, &mb)
                });
            }
        }
    });
    // sizes: all (|A|, |B|, |A and B|) with |A|,|B| <= bound
    {
        let m = if deepest { 40 } else if deep { 26 } else { 14 };
        r.bound(format!("all size triples |A|,|B|<={m} with every overlap, 3 spreads"));
        r.scenario("sizes", |sc| {
            for na in 0..=m as u32 {
                for nb in 0..=m as u32 {
                    for ov in 0..=na.min(nb) {
                        for spread in [1u32, 7, 1_000_003] {
                            sc.case(|| format!("|A|={na} |B|={nb} overlap={ov} spread={spread}"), |o| {
                                o.state(&(na, nb, ov, spread));
                                let va: Vec<u32> = (0..na).map(|i| i * spread).collect();
                                let vb: Vec<u32> = (na - ov..na - ov + nb).map(|i| i * spread).collect();
                                let ma: BTreeSet<u32> = va.iter().copied().collect();
                                let mb: BTreeSet<u32> = vb.iter().copied().collect();
                                both!(o, "FzScalarSet x FzHashSet", &FzScalarSet::new(va.clone()), &FzHashSet::with_hasher(vb.clone(), HF::Fold(1)), &ma, &mb);
                                both!(o, "FzHashSet x FzOrderedSet", &FzHashSet::with_hasher(va.clone(), HF::Fold(1)), &FzOrderedSet::new(vb.clone()), &ma, &mb);
                                both!(o, "FzOrderedSet x FzScalarSet", &FzOrderedSet::new(va.clone()), &FzScalarSet::new(vb.clone()), &ma, &mb);
                                Ok(())
                            });
                        }
                    }
                }
            }
        });
    }
    for (un, u) in string_universes() {
        r.scenario(&format!("strings/{un}"), |sc| {
            for x in 0..32usize {
                for y in 0..32usize {
                    sc.case(|| format!("masks {x:05b} with {y:05b} of {u:?}"), |o| {
                        o.state(&(x, y));
                        let pick = |m: usize| (0..5).filter(|i| m >> i & 1 == 1).map(|i| Box::<str>::from(u[i])).collect::<Vec<_>>();
                        let (va, vb) = (pick(x), pick(y));
                        let ma: BTreeSet<Box<str>> = va.iter().cloned().collect();
                        let mb: BTreeSet<Box<str>> = vb.iter().cloned().collect();
                        let a = FzStringSet::with_hasher(va.clone(), HF::Fold(1));
                        let b = FzStringSet::with_hasher(vb.clone(), HF::First);
                        both!(o, "FzStringSet x FzStringSet", &a, &b, &ma, &mb);
                        both!(o, "FzStringSet x FzHashSet", &a, &FzHashSet::new(vb.clone()), &ma, &mb);
                        both!(o, "FzStringSet x FzOrderedSet", &a, &FzOrderedSet::new(vb.clone()), &ma, &mb);
                        both!(o, "FzStringSet x BTreeSet", &a, &mb, &ma, &mb);
                        both!(o, "FzStringSet x std HashSet", &a, &vb.iter().cloned().collect::<std::collections::HashSet<_>>(), &ma, &mb);
                        both!(o, "FzOrderedSet x FzStringSet", &FzOrderedSet::new(va.clone()), &b, &ma, &mb);
                        both!(o, "FzHashSet x FzStringSet", &FzHashSet::new(va.clone()), &b, &ma, &mb);
                        algebra(o, "BTreeSet x FzStringSet", &ma, &b, &ma, &mb)
                    });
                }
            }
        });
    }
    r.scenario("macro-made", |sc| {
        macro_rules! s { ($n:expr, $md:ident) => {{
            let va = inl::sets::$md::entries();
            let a = inl::sets::$md::make();
            let mut u: Vec<u32> = va.iter().copied().take(4).collect();
            u.extend([6u32, 77]);
            for y in 0..1usize << u.len() {
                sc.case(|| format!("{} with {:?}", $n, subset(&u, y)), |o| {
                    o.state(&($n, y));
                    let vb = subset(&u, y);
                    let ma: BTreeSet<u32> = va.iter().copied().collect();
                    let mb: BTreeSet<u32> = vb.iter().copied().collect();
                    both!(o, &format!("{} x FzHashSet", $n), &a, &FzHashSet::with_hasher(vb.clone(), HF::Fold(1)), &ma, &mb);
                    both!(o, &format!("{} x FzScalarSet", $n), &a, &FzScalarSet::new(vb.clone()), &ma, &mb);
                    both!(o, &format!("{} x BTreeSet", $n), &a, &mb, &ma, &mb);
                    both!(o, &format!("FzOrderedSet x {}", $n), &FzOrderedSet::new(vb.clone()), &a, &mb, &ma);
                    algebra(o, &format!("BTreeSet x {}", $n), &mb, &a, &mb, &ma)?;
                    both!(o, &format!("{} x dense5", $n), &a, &inl::sets::dense5::make(), &ma, &inl::sets::dense5::entries().into_iter().collect());
                    both!(o, &format!("{} x itself", $n), &a, &a, &ma, &ma);
                    Ok(())
                });
            }
        }} }
        each_inl_int_set!(s);
        macro_rules! s { ($n:expr, $md:ident) => {{
            let va = inl::sets::$md::entries();
            let a = inl::sets::$md::make();
            let mut u: Vec<&'static str> = va.iter().copied().take(4).collect();
            u.extend(["zz", "x"]);
            for y in 0..1usize << u.len() {
                sc.case(|| format!("{} with mask {y:b} of {u:?}", $n), |o| {
                    o.state(&($n, y));
                    let vb: Vec<&'static str> = (0..u.len()).filter(|i| y >> i & 1 == 1).map(|i| u[i]).collect();
                    let ma: BTreeSet<&'static str> = va.iter().copied().collect();
                    let mb: BTreeSet<&'static str> = vb.iter().copied().collect();
                    both!(o, &format!("{} x FzHashSet", $n), &a, &FzHashSet::with_hasher(vb.clone(), HF::Fold(1)), &ma, &mb);
                    both!(o, &format!("{} x BTreeSet", $n), &a, &mb, &ma, &mb);
                    both!(o, &format!("FzOrderedSet x {}", $n), &FzOrderedSet::new(vb.clone()), &a, &mb, &ma);
                    Ok(())
                });
            }
        }} }
        each_inl_str_set!(s);
    });
    // beyond every internal block: one value missing or added at each position worth singling out
    r.bound("sizes 255..10000 and around 65536 (thorough: 131073): equal sets, one value missing at each of ~35 positions (9 at sizes above 1100; thorough 2100), disjoint sets sharing one value, halves; all ordered pairs of 3 frozen and 2 standard sets; counts, contents and relations");
    r.scenario("large", |sc| {
        for n in big_sizes(u8::from(deep) + u8::from(deepest)) {
            for spread in [1u32, 100_003] {
                let base: std::sync::OnceLock<(Vec<u32>, FzHashSet<u32, HF>, FzOrderedSet<u32>, FzScalarSet<u32>, BTreeSet<u32>)> = std::sync::OnceLock::new();
                let mut kinds: Vec<(usize, usize)> = vec![(0, 0), (3, 0), (4, 0)];
                for p in some_positions(n, u8::from(deep) + u8::from(deepest)) {
                    kinds.push((1, p));
                    kinds.push((2, p));
                }
                for (kind, p) in kinds {
                    sc.case(|| format!("{n} values, spread {spread}, {} {p}", ["the same set", "without the value at position", "disjoint but for the value at position", "the lower half and a disjoint tail of", "nothing in common"][kind]), |o| {
                        o.state(&(n, spread, kind, p));
                        let at = |i: usize| (i as u32).wrapping_mul(spread);
                        let (va, ha, oa, sa, ba) = base.get_or_init(|| {
                            let va: Vec<u32> = (0..n).map(at).collect();
                            (va.clone(), FzHashSet::with_hasher(va.clone(), HF::Fold(1)), FzOrderedSet::new(va.clone()), FzScalarSet::new(va.clone()), va.iter().copied().collect())
                        });
                        let far = |i: usize| ((n + i) as u32).wrapping_mul(spread);
                        let vb: Vec<u32> = match kind {
                            0 => va.clone(),
                            1 => va.iter().enumerate().filter(|(i, _)| *i != p).map(|x| *x.1).collect(),
                            2 => (0..n).map(|i| if i == p { at(p) } else { far(i) }).collect(),
                            3 => (0..n / 2).map(at).chain((0..5).map(far)).collect(),
                            _ => (0..n).map(far).collect(),
                        };
                        let (hb, ob, sb, bb): (_, _, _, BTreeSet<u32>) = (FzHashSet::with_hasher(vb.clone(), HF::Ident), FzOrderedSet::new(vb.clone()), FzScalarSet::new(vb.clone()), vb.iter().copied().collect());
                        let whole = n < 20_000 || kind == 0 || kind > 2 || p == n / 2 || deepest;
                        let tb: std::collections::HashSet<u32> = vb.iter().copied().collect();
                        if whole { big_pair(o, "FzHashSet x FzOrderedSet", ha, &ob, ba, &bb)? } else { big_rel(o, "FzHashSet x FzOrderedSet", ha, &ob, ba, &bb)? }
                        if whole { big_pair(o, "FzOrderedSet x FzScalarSet", oa, &sb, ba, &bb)? } else { big_rel(o, "FzOrderedSet x FzScalarSet", oa, &sb, ba, &bb)? }
                        if whole { big_pair(o, "FzScalarSet x FzHashSet", sa, &hb, ba, &bb)? } else { big_rel(o, "FzScalarSet x FzHashSet", sa, &hb, ba, &bb)? }
                        big_rel(o, "FzHashSet x FzHashSet", ha, &hb, ba, &bb)?;
                        big_rel(o, "FzHashSet x FzScalarSet", ha, &sb, ba, &bb)?;
                        big_rel(o, "FzHashSet x std", ha, &tb, ba, &bb)?;
                        big_rel(o, "FzOrderedSet x FzHashSet", oa, &hb, ba, &bb)?;
                        big_rel(o, "FzOrderedSet x FzOrderedSet", oa, &ob, ba, &bb)?;
                        big_rel(o, "FzOrderedSet x BTreeSet", oa, &bb, ba, &bb)?;
                        big_rel(o, "FzScalarSet x FzOrderedSet", sa, &ob, ba, &bb)?;
                        big_rel(o, "FzScalarSet x FzScalarSet", sa, &sb, ba, &bb)?;
                        big_rel(o, "FzScalarSet x std", sa, &tb, ba, &bb)?;
                        big_rel(o, "std x FzHashSet", &tb, ha, &bb, ba)?;
                        big_rel(o, "BTreeSet x FzScalarSet", &bb, sa, &bb, ba)?;
                        if whole && (kind != 1 || p % 8 == 0 || n < 2000) {
                            let s = |x: &BTreeSet<u32>| x.iter().map(|k| Box::<str>::from(format!("v{k}"))).collect::<BTreeSet<_>>();
                            let (ma, mb) = (s(ba), s(&bb));
                            let (x, y) = (FzStringSet::new(ma.iter().cloned().collect::<Vec<_>>()), FzStringSet::new(mb.iter().cloned().collect::<Vec<_>>()));
                            big_pair(o, "FzStringSet x FzStringSet", &x, &y, &ma, &mb)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    r.finish()
}
