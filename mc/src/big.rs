//! Collections larger than any internal table, block or index width: the same guarantees, judged with audits whose
//! cost is linear in the size.
use crate::engine::*;
use crate::ut::*;
use crate::{ensure, ensure_eq};
use std::fmt::Debug;

/// sizes on both sides of the powers of two at which an 8- or 16-bit count, a block or a chunk would end
pub fn big_sizes(level: u8) -> Vec<usize> {
    let mut v = vec![255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2048, 4095, 4096, 4097, 5000, 8193, 10_000, 16_385, 32_769, 65_535, 65_536, 65_537, 70_000];
    if level >= 1 {
        v.extend([767, 768, 769, 2047, 2049, 3000, 8191, 8192, 16_383, 16_384, 32_767, 32_768, 100_000, 131_071, 131_072, 131_073]);
    }
    if level >= 2 {
        v.extend([200_000, 262_143, 262_144, 262_145, 524_289, 1_000_000]);
    }
    v.sort();
    v
}
/// positions of a sequence of n items worth singling out: both ends, the middle, and around every width
pub fn big_positions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0usize, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537, 131_071, 131_072]
        .into_iter()
        .chain([n / 4, n / 2, 3 * (n / 4), n.saturating_sub(257), n.saturating_sub(33), n.saturating_sub(9), n.saturating_sub(4), n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)])
        .filter(|p| *p < n)
        .collect();
    v.sort();
    v.dedup();
    v
}
/// a handful of the same positions, for sizes at which each one is dear
pub fn few_positions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 255, 256, 4096, 65_535, 65_536, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|p| *p < n).collect();
    v.sort();
    v.dedup();
    v
}
/// all positions at the smaller sizes, a handful at the larger ones
pub fn some_positions(n: usize, level: u8) -> Vec<usize> {
    if n <= [1100, 2100, 20_000][usize::from(level.min(2))] { big_positions(n) } else { few_positions(n) }
}
/// integer keys: dense, spaced, spread over the whole range
pub const SPREADS: [u32; 3] = [1, 3, 100_003];

/// one iterator kind of a large collection: `mk` makes a fresh one, `exp` is the order it must have
fn one<X: PartialEq + Debug, I: ExactSizeIterator>(o: &mut Obs, what: &str, exp: &[X], mut mk: impl FnMut() -> I, conv: impl Fn(I::Item) -> X) -> R {
    let n = exp.len();
    let ps = big_positions(n);
    // straight through, sizes at every step
    let mut it = mk();
    for (i, x) in exp.iter().enumerate() {
        ensure!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "{what}: len {} / size_hint {:?} after {i} of {n} items", it.len(), it.size_hint());
        let g = it.next().map(&conv);
        ensure!(g.as_ref() == Some(x), "{what}: item {i} of {n} is {g:?}, expected {x:?}");
    }
    ensure!(it.next().is_none() && it.next().is_none() && it.len() == 0, "{what}: does not end after {n} items");
    // jump from every position to every position
    for &p in &ps {
        let mut it = mk();
        let g = it.nth(p).map(&conv);
        ensure!(g.as_ref() == exp.get(p), "{what}: nth({p}) of {n} is {g:?}, expected {:?}", exp.get(p));
        ensure!(it.len() == n - p - 1, "{what}: len after nth({p}) is {}, {} remain", it.len(), n - p - 1);
        match p % 4 {
            0 => ensure!(it.count() == n - p - 1, "{what}: count after nth({p}) of {n}"),
            1 => {
                let (k, ok) = it.fold((p + 1, true), |(k, ok), x| (k + 1, ok && k < n && conv(x) == exp[k]));
                ensure!(k == n && ok, "{what}: fold after nth({p}) of {n} visits {} items, right: {ok}", k - p - 1);
            }
            2 => {
                let mut k = p + 1;
                for x in it {
                    let x = conv(x);
                    ensure!(k < n && x == exp[k], "{what}: item {k} after nth({p}) of {n} is {x:?}");
                    k += 1;
                }
                ensure!(k == n, "{what}: ends after {k} of {n}");
            }
            _ => {
                let l = it.last().map(&conv);
                ensure!(l.as_ref() == exp[p + 1..].last(), "{what}: last after nth({p}) of {n} is {l:?}");
            }
        }
        o.t(3);
    }
    for w in ps.windows(2) {
        let mut it = mk();
        it.nth(w[0]);
        let g = it.nth(w[1] - w[0] - 1).map(&conv);
        ensure!(g.as_ref() == Some(&exp[w[1]]), "{what}: nth({}) after nth({}) of {n} is {g:?}, expected {:?}", w[1] - w[0] - 1, w[0], exp[w[1]]);
        o.t(1);
    }
    for p in [n, n + 1, n + 255, n + 256, n + 65_536, usize::MAX] {
        let mut it = mk();
        ensure!(it.nth(p).is_none(), "{what}: nth({p}) of {n} is an item");
        ensure!(it.len() == 0 && it.next().is_none(), "{what}: items left after nth({p}) of {n}");
        o.t(2);
    }
    ensure!(mk().count() == n, "{what}: count of {n} items");
    for step in [255usize, 256, 65_535] {
        let got = mk().step_by(step).map(&conv).zip(exp.iter().step_by(step)).all(|(a, b)| a == *b);
        ensure!(got && mk().step_by(step).count() == n.div_ceil(step), "{what}: every {step}th of {n} items");
    }
    o.t(n as u64 + 4);
    Run::tick();
    Ok(())
}

/// every iterator kind of a map; `exp` = its sorted entries
pub fn big_map_iteration<K: Ord + Debug + Clone, V: Ord + Debug + Clone, M: MapUT<K, V>>(o: &mut Obs, m: &M, exp: &[(K, V)]) -> R {
    let n = M::NAME;
    let order: Vec<(K, V)> = m.u_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut s = order.clone();
    s.sort();
    ensure!(s == exp, "{n}: the entries iterated are not the entries inserted ({} and {})", s.len(), exp.len());
    let ks: Vec<K> = order.iter().map(|x| x.0.clone()).collect();
    let vs: Vec<V> = order.iter().map(|x| x.1.clone()).collect();
    one(o, &format!("{n} iter"), &order, || m.u_iter(), |(k, v)| (k.clone(), v.clone()))?;
    one(o, &format!("{n} &map into_iter"), &order, || m.u_ref_iter(), |(k, v)| (k.clone(), v.clone()))?;
    one(o, &format!("{n} keys"), &ks, || m.u_keys(), |k| k.clone())?;
    one(o, &format!("{n} values"), &vs, || m.u_values(), |v| v.clone())?;
    one(o, &format!("{n} into_iter"), &order, || m.clone().u_into_iter(), |x| x)?;
    one(o, &format!("{n} into_keys"), &ks, || m.clone().u_into_keys(), |x| x)?;
    one(o, &format!("{n} into_values"), &vs, || m.clone().u_into_values(), |x| x)?;
    let mut c = m.clone();
    let c: *mut M = &mut c;
    // SAFETY: `one` drops each iterator before it asks for the next
    one(o, &format!("{n} iter_mut"), &order, || unsafe { &mut *c }.u_iter_mut(), |(k, v)| (k.clone(), v.clone()))?;
    one(o, &format!("{n} &mut map into_iter"), &order, || unsafe { &mut *c }.u_mut_ref_iter(), |(k, v)| (k.clone(), v.clone()))?;
    one(o, &format!("{n} values_mut"), &vs, || unsafe { &mut *c }.u_values_mut(), |v| v.clone())?;
    // clones taken along the way
    for p in big_positions(order.len()) {
        let mut i = m.u_keys();
        i.nth(p);
        let mut j = i.clone();
        ensure!(j.len() == i.len() && j.next() == i.next() && j.last() == i.last(), "{n}: keys cloned after {} items", p + 1);
        let mut i = m.u_iter();
        i.nth(p);
        let j = i.clone();
        ensure!(j.eq(i), "{n}: iter cloned after {} items", p + 1);
        o.t(2);
    }
    Ok(())
}
pub fn big_set_iteration<T: Ord + Debug + Clone, S: SetUT<T>>(o: &mut Obs, s: &S, exp: &[T]) -> R {
    let n = S::NAME;
    let order: Vec<T> = s.u_iter().cloned().collect();
    let mut srt = order.clone();
    srt.sort();
    ensure!(srt == exp, "{n}: the values iterated are not the values inserted ({} and {})", srt.len(), exp.len());
    one(o, &format!("{n} iter"), &order, || s.u_iter(), |k| k.clone())?;
    one(o, &format!("{n} &set into_iter"), &order, || s.u_ref_iter(), |k| k.clone())?;
    one(o, &format!("{n} into_iter"), &order, || s.clone().u_into_iter(), |k| k)
}
/// every key found with its own value, every absent query refused, the contents exact; `exp` sorted by key
pub fn big_map_lookup<K: Ord + Debug + Clone, V: Ord + Debug + Clone, M: MapUT<K, V>>(o: &mut Obs, m: &mut M, exp: &[(K, V)], absent: &[K]) -> R {
    let n = M::NAME;
    ensure_eq!(m.u_len(), exp.len(), "{n} len");
    ensure_eq!(m.u_is_empty(), exp.is_empty(), "{n} is_empty");
    for (k, v) in exp {
        ensure!(m.u_get(k) == Some(v), "{n} get({k:?}) with {} keys: {:?}, expected {v:?}", exp.len(), m.u_get(k));
        ensure!(m.u_get_kv(k) == Some((k, v)), "{n} get_key_value({k:?}) with {} keys: {:?}", exp.len(), m.u_get_kv(k));
        ensure!(m.u_contains(k), "{n} contains_key({k:?}) with {} keys is false", exp.len());
        ensure!(m.u_index(k) == v, "{n} [{k:?}] with {} keys", exp.len());
        ensure!(m.u_get_mut(k).map(|x| &*x) == Some(v), "{n} get_mut({k:?}) with {} keys", exp.len());
    }
    for k in absent {
        ensure!(m.u_get(k).is_none() && m.u_get_kv(k).is_none() && !m.u_contains(k) && m.u_get_mut(k).is_none(), "{n}: absent {k:?} found among {} keys", exp.len());
    }
    let mut got: Vec<(&K, &V)> = m.u_iter().collect();
    got.sort();
    ensure!(got.iter().map(|x| (x.0, x.1)).eq(exp.iter().map(|x| (&x.0, &x.1))), "{n}: contents of {} entries, {} expected", got.len(), exp.len());
    o.t(5 * exp.len() as u64 + 4 * absent.len() as u64 + 3);
    Run::tick();
    Ok(())
}
pub fn big_set_lookup<T: Ord + Debug + Clone, S: SetUT<T>>(o: &mut Obs, s: &S, exp: &[T], absent: &[T]) -> R {
    let n = S::NAME;
    ensure_eq!(s.u_len(), exp.len(), "{n} len");
    ensure_eq!(s.u_is_empty(), exp.is_empty(), "{n} is_empty");
    for k in exp {
        ensure!(s.u_contains(k) && s.u_get(k) == Some(k), "{n}: {k:?} not found among {} values", exp.len());
    }
    for k in absent {
        ensure!(!s.u_contains(k) && s.u_get(k).is_none(), "{n}: absent {k:?} found among {} values", exp.len());
    }
    let mut got: Vec<&T> = s.u_iter().collect();
    got.sort();
    ensure!(got.iter().copied().eq(exp.iter()), "{n}: contents of {} values, {} expected", got.len(), exp.len());
    o.t(2 * (exp.len() + absent.len()) as u64 + 3);
    Run::tick();
    Ok(())
}
/// a history on one large map and its copies: every write is seen where it was made and nowhere else; `exp` sorted
pub fn big_history<K: Ord + Debug + Clone, M: MapUT<K, u32>>(o: &mut Obs, m: &M, exp: &[(K, u32)], absent: &K, level: u8) -> R {
    let n = M::NAME;
    let same = |o: &mut Obs, m: &M, exp: &[(K, u32)], when: &str| -> R {
        let mut got: Vec<(&K, &u32)> = m.u_iter().collect();
        got.sort();
        let wrong = got.iter().zip(exp).find(|(a, b)| (a.0, *a.1) != (&b.0, b.1));
        ensure!(got.len() == exp.len() && m.u_len() == exp.len() && wrong.is_none(), "{n} of {} entries {when}: {} entries; first wrong {wrong:?}", exp.len(), got.len());
        o.t(exp.len() as u64 + 1);
        Run::tick();
        Ok(())
    };
    let order: Vec<usize> = m.u_keys().map(|k| exp.binary_search_by(|e| e.0.cmp(k)).map_err(|_| format!("{n}: key {k:?} was never inserted"))).collect::<Result<_, _>>()?;
    let mut c = m.clone();
    same(o, &c, exp, "after clone")?;
    let mut now = exp.to_vec();
    for (step, &p) in some_positions(exp.len(), level).iter().enumerate() {
        let add = 1000 + step as u32;
        let i = match step % 4 {
            0 => { *c.u_get_mut(&exp[p].0).ok_or_else(|| format!("{n} get_mut({:?})", exp[p].0))? += add; p }
            1 => { *c.u_iter_mut().nth(p).ok_or("iter_mut().nth")?.1 += add; order[p] }
            2 => { *c.u_values_mut().nth(p).ok_or("values_mut().nth")? += add; order[p] }
            _ => { let [a, b] = c.u_disjoint([absent, &exp[p].0]); ensure!(a.is_none(), "{n}: absent key found"); *b.ok_or_else(|| format!("{n} get_disjoint_mut({:?})", exp[p].0))? += add; p }
        };
        now[i].1 += add;
        ensure!(c.u_get(&exp[i].0) == Some(&now[i].1), "{n}: the value of {:?} after a write of {} is {:?}", exp[i].0, now[i].1, c.u_get(&exp[i].0));
        if step % 8 == 0 { same(o, &c, &now, "after a write")?; }
    }
    same(o, &c, &now, "after the writes")?;
    same(o, m, exp, "after writes to its clone")?;
    let mut d = m.clone();
    d.clone_from(&c);
    c.u_values_mut().for_each(|v| *v = v.wrapping_add(77));
    same(o, &d, &now, "after clone_from and writes to its source")?;
    for e in &mut now { e.1 = e.1.wrapping_add(77); }
    same(o, &c, &now, "after writing through values_mut")?;
    for (k, v) in &now { ensure!(c.u_get(k) == Some(v), "{n} get({k:?}) after writing through values_mut: {:?}, expected {v}", c.u_get(k)); }
    drop(d);
    let part: Vec<(K, u32)> = c.clone().u_into_iter().take(exp.len() / 2).collect();
    ensure!(part.len() == exp.len() / 2, "{n}: into_iter of a clone");
    same(o, &c, &now, "after half of a clone was consumed")?;
    same(o, m, exp, "at the end")
}
/// several mutable values at once out of a large map
pub fn big_disjoint<K: Ord + Debug + Clone, M: MapUT<K, u32>>(o: &mut Obs, m: &M, exp: &[(K, u32)], absent: &K) -> R {
    let n = M::NAME;
    let mut m = m.clone();
    let ps = big_positions(exp.len());
    for (i, &p) in ps.iter().enumerate() {
        for &q in ps.iter().skip(i % 5).step_by(5) {
            let (a, b) = (&exp[p].0, &exp[q].0);
            if p == q {
                let r = guarded(|| m.u_disjoint([a, absent, b]).map(|x| x.copied()));
                ensure!(r.is_err(), "{n} of {}: get_disjoint_mut with {a:?} twice returned {r:?}", exp.len());
                continue;
            }
            let slots = [m.u_get_mut(a).map(|v| v as *mut u32), None, m.u_get_mut(b).map(|v| v as *mut u32)];
            let got = m.u_disjoint([a, absent, b]).map(|x| x.map(|v| v as *mut u32));
            ensure!(got == slots && got[0] != got[2], "{n} of {}: get_disjoint_mut([{a:?}, absent, {b:?}]) gives {got:?}, slots {slots:?}", exp.len());
            // SAFETY: the keys differ
            let got = unsafe { m.u_disjoint_unchecked([a, absent, b]) }.map(|x| x.map(|v| (*v, v as *mut u32)));
            ensure!(got == [slots[0].map(|s| (exp[p].1, s)), None, slots[2].map(|s| (exp[q].1, s))], "{n} of {}: get_disjoint_unchecked_mut([{a:?}, absent, {b:?}]) gives {got:?}", exp.len());
            o.t(3);
        }
    }
    Run::tick();
    Ok(())
}
