//! Operations on collections of tracked objects, shared by the ledger exploration (c17) and its run under Miri (m17).
use crate::ledger::*;
use crate::ut::{MapUT, SetUT};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

fn touch_map<K: Touch + Debug, M: MapUT<K, LV>>(m: &M) {
    for (k, v) in m.u_iter() {
        k.touch_it();
        v.touch_it();
    }
    assert_eq!(m.u_iter().count(), m.u_len(), "len and iteration disagree");
}
fn touch_set<K: Touch + Debug, M: SetUT<K>>(m: &M) {
    for k in m.u_iter() {
        k.touch_it();
    }
    assert_eq!(m.u_iter().count(), m.u_len(), "len and iteration disagree");
}
/// run `f` on the collection; whatever happens the collection must stay intact
fn on<M, T>(m: &mut M, f: impl FnOnce(&mut M) -> T, touch: impl Fn(&M)) -> T {
    match catch_unwind(AssertUnwindSafe(|| f(m))) {
        Ok(t) => {
            touch(m);
            t
        }
        Err(p) => {
            touch(m);
            resume_unwind(p)
        }
    }
}

/// every way to finish an owning iterator, after `p` calls of next or one nth(p): each object handed out is touched, each of the
/// others must be dropped by the iterator
pub const DRAINS: usize = 20;
pub fn drain<T, I: Iterator<Item = T> + ExactSizeIterator>(mut it: I, p: usize, how: usize, touch: impl Fn(&T)) {
    let total = it.len();
    let mut kept = vec![];
    if how % 2 == 0 {
        for _ in 0..p { kept.extend(it.next()) }
    } else if let Some(x) = it.nth(p) {
        kept.push(x)
    }
    let left = it.len();
    assert_eq!(left, total.saturating_sub(if how % 2 == 0 { p } else { p + 1 }));
    let n = match how / 2 {
        0 => it.count(),
        1 => it.fold(0, |a, x| { touch(&x); user_step(); a + 1 }),
        2 => { let mut n = 0; it.for_each(|x| { touch(&x); n += 1; kept.push(x) }); n }
        3 => { if let Some(x) = it.last() { touch(&x); kept.push(x) } left }
        4 => { let v: Vec<T> = it.collect(); let n = v.len(); kept.extend(v); n }
        5 => { let x = it.nth(left); assert!(x.is_none() && it.next().is_none() && it.len() == 0); left }
        6 => { let n = it.by_ref().take(1).count(); assert_eq!(it.len() + n, left); left }
        7 => { let x = it.try_fold(0, |a, x| { touch(&x); user_step(); if a == 1 { Err(x) } else { Ok(a + 1) } }); if let Err(x) = x { touch(&x); kept.push(x); assert_eq!(it.len() + 2, left) } left }
        8 => { let x = it.map(|x| { user_step(); touch(&x); x }).reduce(|a, b| { touch(&a); b }); kept.extend(x); left }
        _ => { let (a, b): (Vec<_>, Vec<_>) = it.enumerate().partition(|(i, x)| { touch(x); i % 2 == 0 }); let n = a.len() + b.len(); kept.extend(b.into_iter().map(|x| x.1)); n }
    };
    assert_eq!(n, left, "an owning iterator consumed internally yields another number of items than it announced");
    for x in &kept { touch(x) }
}

/// (name, uses the position parameter)
pub const MAP_OPS: [(&str, bool); 16] = [
    ("drop", false),
    ("lookup", false),
    ("index", false),
    ("clone, drop original", false),
    ("clone, drop clone", false),
    ("replace through get_mut", false),
    ("replace through iter_mut", true),
    ("replace through values_mut", true),
    ("replace through disjoint access", false),
    ("into_iter, keep first p", true),
    ("into_iter, drop first p", true),
    ("into_keys", true),
    ("into_values", true),
    ("fold with panic at p", true),
    ("into_iter adapters", true),
    ("debug", false),
];
pub fn map_op<K: Touch + Debug, M: MapUT<K, LV>>(op: usize, p: usize, mk: &dyn Fn() -> M, qs: &[K]) {
    let mut m = mk();
    let t = touch_map::<K, M>;
    match op {
        0 => t(&m),
        1 => on(&mut m, |m| {
            for q in qs {
                if let Some(v) = m.u_get(q) { v.touch() }
                m.u_contains(q);
                if let Some((k, v)) = m.u_get_kv(q) { k.touch_it(); v.touch() }
                if let Some(v) = m.u_get_mut(q) { v.touch(); v.val += 1 }
            }
        }, t),
        2 => on(&mut m, |m| for q in qs { if m.u_contains(q) { m.u_index(q).touch() } }, t),
        3 => { let c = on(&mut m, |m| m.clone(), t); drop(m); t(&c); return; }
        4 => { let c = on(&mut m, |m| m.clone(), t); t(&c); drop(c); t(&m); }
        5 => on(&mut m, |m| for q in qs { if let Some(v) = m.u_get_mut(q) { *v = LV::new(9); v.touch() } }, t),
        6 => on(&mut m, |m| for (i, (k, v)) in m.u_iter_mut().enumerate() { if i == p { break } k.touch_it(); *v = LV::new(i as u32) }, t),
        7 => on(&mut m, |m| for (i, v) in m.u_values_mut().enumerate() { if i == p { user_step() } *v = LV::new(i as u32); v.touch() }, t),
        8 => on(&mut m, |m| {
            if qs.len() >= 3 {
                let mut vs = m.u_disjoint([&qs[0], &qs[1], &qs[2]]);
                for v in vs.iter_mut().flatten() { **v = LV::new(1) }
                for v in vs.into_iter().flatten() { v.touch(); v.val += 1 }
            }
        }, t),
        9 => {
            let mut it = m.u_into_iter();
            let mut kept = vec![];
            for _ in 0..p { kept.extend(it.next()) }
            assert_eq!(it.len(), it.size_hint().0);
            drop(it);
            for (k, v) in &kept { k.touch_it(); v.touch() }
            return;
        }
        10 => { let mut it = m.u_into_iter(); for _ in 0..p { drop(it.next()) } let _ = format!("{it:?}"); return; }
        11 => { let mut it = m.u_into_keys(); let mut kept = vec![]; for _ in 0..p { kept.extend(it.next()) } drop(it); for k in &kept { k.touch_it() } return; }
        12 => { let mut it = m.u_into_values(); let mut kept = vec![]; for _ in 0..p { kept.extend(it.next()) } drop(it); for k in &kept { k.touch() } return; }
        13 => { let mut n = 0; m.u_into_iter().for_each(|(k, v)| { k.touch_it(); v.touch(); if n == p { user_step() } n += 1; }); return; }
        14 => {
            let mut it = m.u_into_iter();
            if let Some((k, v)) = it.nth(p) { k.touch_it(); v.touch() }
            let n = it.len();
            let c = match p % 3 { 0 => it.count(), 1 => it.fold(0, |a, (k, v)| { k.touch_it(); v.touch(); a + 1 }), _ => { let x: Vec<_> = it.collect(); for (k, v) in &x { k.touch_it(); v.touch() } x.len() } };
            assert_eq!(n, c);
            return;
        }
        _ => { let _ = format!("{m:?}"); }
    }
    t(&m);
    drop(m);
}
pub const SET_OPS: [(&str, bool); 9] = [
    ("drop", false),
    ("lookup", false),
    ("clone, drop original", false),
    ("clone, drop clone", false),
    ("into_iter, keep first p", true),
    ("into_iter, drop first p", true),
    ("fold with panic at p", true),
    ("into_iter adapters", true),
    ("debug", false),
];
pub fn set_op<K: Touch + Debug, M: SetUT<K>>(op: usize, p: usize, mk: &dyn Fn() -> M, qs: &[K]) {
    let mut m = mk();
    let t = touch_set::<K, M>;
    match op {
        0 => t(&m),
        1 => on(&mut m, |m| for q in qs { if let Some(v) = m.u_get(q) { v.touch_it() } m.u_contains(q); }, t),
        2 => { let c = on(&mut m, |m| m.clone(), t); drop(m); t(&c); return; }
        3 => { let c = on(&mut m, |m| m.clone(), t); t(&c); drop(c); t(&m); }
        4 => { let mut it = m.u_into_iter(); let mut kept = vec![]; for _ in 0..p { kept.extend(it.next()) } drop(it); for k in &kept { k.touch_it() } return; }
        5 => { let mut it = m.u_into_iter(); for _ in 0..p { drop(it.next()) } let _ = format!("{it:?}"); return; }
        6 => { let mut n = 0; m.u_into_iter().for_each(|k| { k.touch_it(); if n == p { user_step() } n += 1; }); return; }
        7 => {
            let mut it = m.u_into_iter();
            if let Some(k) = it.nth(p) { k.touch_it() }
            let n = it.len();
            let c = if p % 2 == 0 { it.count() } else { let x: Vec<_> = it.collect(); for k in &x { k.touch_it() } x.len() };
            assert_eq!(n, c);
            return;
        }
        _ => { let _ = format!("{m:?}"); }
    }
    t(&m);
}

/// every way of building the tracked collections: (name, number of entries it takes at most)
pub const CTORS: [&str; 4] = ["new", "from array", "collect", "collect from a panicking iterator"];
#[macro_export]
macro_rules! build_by {
    ($ctor:expr, $t:ty, $new:expr, $v:expr) => {{
        let v = $v;
        match $ctor {
            0 => { let f = $new; f(v) }
            1 => $crate::from_array!($t, v).unwrap(),
            2 => v.into_iter().collect::<$t>(),
            _ => v.into_iter().map(|x| { $crate::ledger::user_step(); x }).collect::<$t>(),
        }
    }};
}
