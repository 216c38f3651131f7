//! C03: scalar maps and sets are exact over the whole range of every scalar type.
use frozen_collections::Scalar as DeriveScalar;
use frozen_collections_core::fz_maps::FzScalarMap;
use frozen_collections_core::fz_sets::FzScalarSet;
use frozen_collections_core::traits::Scalar;
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::num::*;

/// A scalar type whose values are enumerated in increasing order by `rank`.
trait Ranked: Scalar + Debug + 'static {
    const NAME: &'static str;
    const MAX: u64;
    fn at(rank: u64) -> Option<Self>;
}
macro_rules! uns { ($($t:ty, $nz:ty);*) => { $(
    impl Ranked for $t { const NAME: &'static str = stringify!($t); const MAX: u64 = <$t>::MAX as u64; fn at(r: u64) -> Option<Self> { Some(r as $t) } }
    impl Ranked for $nz { const NAME: &'static str = stringify!($nz); const MAX: u64 = <$t>::MAX as u64; fn at(r: u64) -> Option<Self> { <$nz>::new(r as $t) } }
)* } }
macro_rules! sig { ($($t:ty, $u:ty, $nz:ty);*) => { $(
    impl Ranked for $t { const NAME: &'static str = stringify!($t); const MAX: u64 = <$u>::MAX as u64; fn at(r: u64) -> Option<Self> { Some((r as $u as $t).wrapping_add(<$t>::MIN)) } }
    impl Ranked for $nz { const NAME: &'static str = stringify!($nz); const MAX: u64 = <$u>::MAX as u64; fn at(r: u64) -> Option<Self> { <$nz>::new((r as $u as $t).wrapping_add(<$t>::MIN)) } }
)* } }
uns!(u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; usize, NonZeroUsize);
sig!(i8, u8, NonZeroI8; i16, u16, NonZeroI16; i32, u32, NonZeroI32; i64, u64, NonZeroI64; isize, usize, NonZeroIsize);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, DeriveScalar)]
enum E12 { A, B, C, D, E, F, G, H, I, J, K, L }
impl Ranked for E12 {
    const NAME: &'static str = "enum of 12";
    const MAX: u64 = 11;
    fn at(r: u64) -> Option<Self> {
        use E12::*;
        [A, B, C, D, E, F, G, H, I, J, K, L].get(r as usize).copied()
    }
}

/// query type distinct from the key type
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Q64(i64);
impl Scalar for Q64 {
    fn index(&self) -> usize {
        self.0.index()
    }
}
impl equivalent::Equivalent<i64> for Q64 {
    fn equivalent(&self, k: &i64) -> bool {
        self.0 == *k
    }
}
impl equivalent::Comparable<i64> for Q64 {
    fn compare(&self, k: &i64) -> std::cmp::Ordering {
        self.0.cmp(k)
    }
}

/// keys given by rank; every query rank checked by all lookups of both the map and the set
fn audit<T: Ranked>(o: &mut Obs, ranks: &[u64], qs: &[u64]) -> R {
    let keys: Vec<T> = ranks.iter().filter_map(|r| T::at(*r)).collect();
    let model: BTreeMap<T, u32> = keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
    let mut m = FzScalarMap::new(keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect());
    let s = FzScalarSet::new(keys.clone());
    ensure_eq!(m.len(), model.len(), "len");
    ensure_eq!(s.len(), model.len(), "set len");
    for r in qs.iter().chain(ranks) {
        let Some(q) = T::at(*r) else { continue };
        let e = model.get_key_value(&q);
        ensure_eq!(m.get(&q), e.map(|x| x.1), "FzScalarMap get({q:?})");
        ensure_eq!(m.get_key_value(&q), e, "FzScalarMap get_key_value({q:?})");
        ensure_eq!(m.contains_key(&q), e.is_some(), "FzScalarMap contains_key({q:?})");
        ensure_eq!(m.get_mut(&q).cloned(), e.map(|x| *x.1), "FzScalarMap get_mut({q:?})");
        ensure_eq!(s.contains(&q), e.is_some(), "FzScalarSet contains({q:?})");
        ensure_eq!(s.get(&q), e.map(|x| x.0), "FzScalarSet get({q:?})");
        o.t(6);
    }
    Ok(())
}

fn show<T: Ranked>(ranks: &[u64]) -> String {
    let v: Vec<Option<T>> = ranks.iter().map(|r| T::at(*r)).collect();
    if v.len() > 24 { format!("{} {} keys {:?} .. {:?}", T::NAME, v.len(), &v[..4], &v[v.len() - 4..]) } else { format!("{} keys {:?}", T::NAME, v.iter().flatten().collect::<Vec<_>>()) }
}

fn near<T: Ranked>(ranks: &[u64]) -> Vec<u64> {
    let mut q = vec![0, 1, 2, T::MAX / 2 - 1, T::MAX / 2, T::MAX / 2 + 1, T::MAX / 2 + 2, T::MAX - 1, T::MAX];
    for r in ranks {
        for d in [1u64, 2, 64, 127, 128, 129, 256] {
            q.push(r.wrapping_sub(d) & T::MAX);
            q.push(r.wrapping_add(d) & T::MAX);
        }
        q.push(r ^ (T::MAX / 2 + 1));
        q.push(r ^ T::MAX);
        if T::MAX > 0x1_0000 { q.push((r ^ (1 << 31)) & T::MAX); q.push((r ^ (1 << 16)) & T::MAX); q.push((r ^ (1 << 8)) & T::MAX); }
        if T::MAX > 0x1_0000_0000 { q.push(r ^ (1 << 32)); }
    }
    q.sort();
    q.dedup();
    q
}

/// 8-bit types: complete
fn bytes<T: Ranked>(r: &mut Run) {
    let all: Vec<u64> = (0..=255).collect();
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    r.scenario(&format!("8-bit/ranges/{}", T::NAME), |sc| {
        for a in 0..=255u64 {
            for b in a..=255 {
                // every contiguous range
                sc.case(|| format!("{} range {:?}..={:?}", T::NAME, T::at(a), T::at(b)), |o| {
                    o.state(&(a, b));
                    audit::<T>(o, &(a..=b).collect::<Vec<_>>(), &all)
                });
                // every pair
                sc.case(|| show::<T>(&[b, a]), |o| {
                    o.state(&(0, a, b));
                    audit::<T>(o, &[b, a], &all)
                });
                // every range with one interior hole, hole at both ends and in the middle
                if b > a + 1 {
                    for h in [a + 1, (a + b) / 2, b - 1] {
                        sc.case(|| format!("{} range {:?}..={:?} without {:?}", T::NAME, T::at(a), T::at(b), T::at(h)), |o| {
                            o.state(&(1, a, b, h));
                            audit::<T>(o, &(a..=b).filter(|x| *x != h).collect::<Vec<_>>(), &all)
                        });
                    }
                }
            }
        }
        // all 3-subsets (step 1 when thorough, else on a grid that contains every boundary)
        let g: Vec<u64> = if deep { all.clone() } else { (0..=255).filter(|x| x % 16 == 0 || x % 16 == 15 || [1, 2, 126, 127, 128, 129, 130, 253, 254].contains(x)).collect() };
        for (i, a) in g.iter().enumerate() {
            for (j, b) in g.iter().enumerate().skip(i + 1) {
                for c in &g[j + 1..] {
                    sc.case(|| show::<T>(&[*b, *c, *a]), |o| {
                        o.state(&(2, a, b, c));
                        audit::<T>(o, &[*b, *c, *a], &if deep { near::<T>(&[*a, *b, *c]) } else { all.clone() })
                    });
                }
            }
        }
    });
}

/// wide types: all small subsets of the boundary menu; all span/count combinations around the thresholds
fn wide<T: Ranked>(r: &mut Run) {
    let (deep, deepest) = (r.thorough, r.deepest);
    let _ = deepest;
    let mut menu: Vec<u64> = vec![0, 1, 2, 3, 126, 127, 128, 129, 255, 256, T::MAX / 2 - 1, T::MAX / 2, T::MAX / 2 + 1, T::MAX / 2 + 2, T::MAX - 129, T::MAX - 128, T::MAX - 127, T::MAX - 1, T::MAX];
    if T::MAX > 0xffff { menu.extend([65534, 65535, 65536, 65537]); }
    if T::MAX > 0xffff_ffff { menu.extend([0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001]); }
    let k = if deepest { 6 } else if deep { 5 } else { 4 };
    r.scenario(&format!("wide/extremes/{}", T::NAME), |sc| {
        fn rec<T: Ranked>(sc: &mut Sc, menu: &[u64], from: usize, left: usize, cur: &mut Vec<u64>) {
            let c = cur.clone();
            sc.case(|| show::<T>(&c), |o| {
                o.state(&c);
                // unsorted order
                let mut v = c.clone();
                v.reverse();
                audit::<T>(o, &v, &near::<T>(&c))
            });
            if left == 0 { return; }
            for i in from..menu.len() {
                cur.push(menu[i]);
                rec::<T>(sc, menu, i + 1, left - 1, cur);
                cur.pop();
            }
        }
        rec::<T>(sc, &menu, 0, k, &mut vec![]);
    });
    r.scenario(&format!("wide/spans/{}", T::NAME), |sc| {
        let nmax = if deepest { 130 } else if deep { 40 } else { 22 };
        for n in 1..=nmax as u64 {
            let mut spans: Vec<u64> = (n..=10 * n + 3).collect();
            spans.extend(120..=136);
            spans.extend([255, 256, 257, 400]);
            for span in spans {
                if span < n { continue; }
                if n == 1 && span != 1 { continue; }
                for base in [0u64, 1, 5, T::MAX / 2 - span / 2, T::MAX / 2 + 1, T::MAX - span + 1] {
                    for shape in 0..3 {
                        // n keys, first = base, last = base+span-1, the others packed low / packed high / spread
                        sc.case(|| format!("{} {n} keys span {span} first {:?} shape {shape}", T::NAME, T::at(base)), |o| {
                            o.state(&(n, span, base, shape));
                            let mut v: Vec<u64> = (0..n)
                                .map(|i| {
                                    if i == n - 1 { base + (span - 1) } else {
                                        match shape { 0 => base + i, 1 => if i == 0 { base } else { base + (span - n) + i }, _ => base + i * (span - 1) / n.max(2).saturating_sub(1) }
                                    }
                                })
                                .collect();
                            v.reverse();
                            let mut q: Vec<u64> = (0..span + 2).map(|d| base.wrapping_sub(1).wrapping_add(d) & T::MAX).collect();
                            q.extend(near::<T>(&v[..1]));
                            audit::<T>(o, &v, &q)
                        });
                    }
                }
            }
        }
    });
    // ranges longer than any offset table or narrow index
    let level = u8::from(deep) + u8::from(deepest);
    r.scenario(&format!("wide/long/{}", T::NAME), |sc| {
        for n in big_sizes(level) {
            let n = n as u64;
            if n - 1 > T::MAX { continue; }
            for base in [0u64, 1, (T::MAX / 2).saturating_sub(n / 2), T::MAX - (n - 1)] {
                for shape in 0..4 {
                    let what = ["without a gap", "without its middle", "and one far below or above", "every second"][shape];
                    sc.case(|| format!("{} {n} keys from {:?} {what}", T::NAME, T::at(base)), |o| {
                        let mut v: Vec<u64> = (0..n).map(|i| base + i).collect();
                        match shape { 0 => {}, 1 => { v.remove(n as usize / 2); }, 2 => v.push(base ^ (T::MAX / 2 + 1)), _ => v.retain(|x| x % 2 == 0) }
                        v.sort();
                        v.dedup();
                        o.state(&(n, base, shape));
                        let at = |i: u64| v[i.min(v.len() as u64 - 1) as usize];
                        let mut q = near::<T>(&[v[0], at(1), at(255), at(256), at(65_535), at(65_536), at(n / 2), at(n)]);
                        q.extend([base.wrapping_sub(1), base + n / 2].map(|r| r & T::MAX));
                        v.rotate_left(n as usize / 3);
                        Run::tick();
                        audit::<T>(o, &v, &q)
                    });
                }
            }
        }
    });
}

fn main() {
    let mut r = Run::new("C03");
    r.bound("16-bit and wider types: ranges of 25 lengths 255..70000 (thorough 41 up to 131073) from the lowest, second lowest, middle and highest possible start: complete, with a hole, with an outlier, every second value");
    r.bound("8-bit types: every contiguous range, every range with a hole (3 positions), every pair, 3-subsets; all 256 values queried. 16/32/64-bit and pointer-size types: all subsets up to size 4 (thorough 5) of the boundary menu, and every (count<=22/40, span<=10*count+3 and around 128/256, base, shape)");
    bytes::<u8>(&mut r);
    bytes::<i8>(&mut r);
    bytes::<NonZeroU8>(&mut r);
    bytes::<NonZeroI8>(&mut r);
    wide::<u16>(&mut r);
    wide::<i16>(&mut r);
    wide::<u32>(&mut r);
    wide::<i32>(&mut r);
    wide::<u64>(&mut r);
    wide::<i64>(&mut r);
    wide::<usize>(&mut r);
    wide::<isize>(&mut r);
    wide::<NonZeroU16>(&mut r);
    wide::<NonZeroI16>(&mut r);
    wide::<NonZeroU32>(&mut r);
    wide::<NonZeroI32>(&mut r);
    wide::<NonZeroU64>(&mut r);
    wide::<NonZeroI64>(&mut r);
    wide::<NonZeroUsize>(&mut r);
    wide::<NonZeroIsize>(&mut r);
    r.bound("all 4096 subsets of a derived enum of 12 variants");
    r.scenario("enum/subsets", |sc| {
        for mask in 0u64..4096 {
            let v: Vec<u64> = (0..12).filter(|i| mask >> i & 1 == 1).collect();
            sc.case(|| show::<E12>(&v), |o| {
                o.state(&mask);
                let mut w = v.clone();
                w.reverse();
                audit::<E12>(o, &w, &(0..12).collect::<Vec<_>>())
            });
        }
    });
    r.scenario("query-type", |sc| {
        let menu = [i64::MIN, i64::MIN + 1, -130, -2, -1, 0, 1, 126, 127, i64::MAX - 1, i64::MAX];
        for mask in 0u32..(1 << menu.len()) {
            sc.case(|| format!("i64 keys mask {mask:b} of {menu:?}, queried by a comparable scalar type"), |o| {
                o.state(&mask);
                let es: Vec<(i64, u32)> = (0..menu.len()).filter(|i| mask >> i & 1 == 1).map(|i| (menu[i], i as u32)).collect();
                let model: BTreeMap<i64, u32> = es.iter().cloned().collect();
                let mut m = FzScalarMap::new(es.clone());
                let s = FzScalarSet::new(es.iter().map(|x| x.0).collect());
                for k in menu.iter().flat_map(|k| [k.wrapping_sub(1), *k, k.wrapping_add(1), k.wrapping_add(128), !k]) {
                    let q = Q64(k);
                    ensure_eq!(m.get(&q), model.get(&k), "get({q:?})");
                    ensure_eq!(m.get_mut(&q).cloned(), model.get(&k).cloned(), "get_mut({q:?})");
                    ensure_eq!(m.get_key_value(&q), model.get_key_value(&k), "get_key_value({q:?})");
                    ensure_eq!(m.contains_key(&q), model.contains_key(&k), "contains_key({q:?})");
                    ensure_eq!(s.contains(&q), model.contains_key(&k), "set contains({q:?})");
                    o.t(5);
                }
                Ok(())
            });
        }
    });
    r.finish()
}
