//! C16 (part A): scalar indices of the primitive types: order preserving, collision free, contiguous.
use frozen_collections::Scalar;
use mc::*;
use std::num::*;

/// neighbouring values have neighbouring indices, in order, over all of lo..=hi
fn sweep<T: Scalar>(o: &mut Obs, name: &str, lo: i128, hi: i128, of: impl Fn(i128) -> Option<T>) -> R {
    let mut n = 0;
    let mut v = lo;
    let mut prev: Option<(i128, usize)> = None;
    while v <= hi {
        if let Some(t) = of(v) {
            let i = t.index();
            if let Some((pv, pi)) = prev {
                // (non-zero types: whether the missing zero leaves a gap is not promised)
                if i <= pi || (i - pi) as i128 != v - pv && !(v - pv == 2 && i - pi == 1) {
                    return Err(format!("{name}: index({pv}) = {pi} but index({v}) = {i}"));
                }
            }
            prev = Some((v, i));
            n += 1;
            if n & 0xf_ffff == 0 { Run::tick(); }
        }
        v += 1;
    }
    o.t(n);
    Ok(())
}

fn main() {
    let mut r = Run::new("C16");
    let deep = r.thorough;
    macro_rules! ty {
        ($t:ty, $nz:ty) => {{
            let name = stringify!($t);
            let (min, max) = (<$t>::MIN as i128, <$t>::MAX as i128);
            r.scenario(name, |sc| {
                let bits = <$t>::BITS;
                // ranges swept completely
                let mut ranges: Vec<(i128, i128)> = vec![];
                if bits <= 16 || bits == 32 {
                    let step = 1i128 << 24;
                    let mut a = min;
                    while a <= max { ranges.push((a, (a + step).min(max))); a += step; }
                } else {
                    let w = if deep { 1i128 << 24 } else { 1 << 18 };
                    let mut centres = vec![min, max, 0];
                    for k in 3..bits { for s in [1i128, -1] { centres.push(s * (1i128 << k)); centres.push(min + (1i128 << k)); centres.push(max - (1i128 << k)); } }
                    centres.sort();
                    centres.dedup();
                    for c in centres {
                        let (a, b) = ((c - w).max(min), (c + w).min(max));
                        if a <= b { ranges.push((a, b)); }
                    }
                }
                for (a, b) in ranges {
                    sc.case(|| format!("{name} {a}..={b}"), |o| {
                        o.state(&(name, a, b));
                        sweep(o, name, a, b, |v| Some(v as $t))?;
                        sweep(o, stringify!($nz), a, b, |v| <$nz>::new(v as $t))
                    });
                }
                // every pair of values from the boundary menu: order and collisions
                let mut menu: Vec<$t> = vec![];
                for k in 0..bits { for d in [-1i128, 0, 1] { for b in [0, min, max] { for s in [1i128, -1] {
                    let v = b + s * (1i128 << k) + d;
                    if v >= min && v <= max { menu.push(v as $t); }
                } } } }
                menu.sort();
                menu.dedup();
                sc.case(|| format!("{name}: all pairs of {} boundary values", menu.len()), |o| {
                    for a in &menu { for b in &menu {
                        ensure_eq!(a.index().cmp(&b.index()), a.cmp(b), "{name}: order of index({a}) and index({b})");
                        // neighbours have neighbouring indices, so distances are preserved
                        ensure_eq!(b.index() as i128 - a.index() as i128, *b as i128 - *a as i128, "{name}: distance of index({a}) and index({b})");
                        if let (Some(x), Some(y)) = (<$nz>::new(*a), <$nz>::new(*b)) {
                            ensure_eq!(x.index().cmp(&y.index()), a.cmp(b), "{}: order of index({a}) and index({b})", stringify!($nz));
                        }
                        o.t(2);
                    } }
                    o.state(&(name, menu.len()));
                    Ok(())
                });
            });
        }};
    }
    ty!(u8, NonZeroU8);
    ty!(i8, NonZeroI8);
    ty!(u16, NonZeroU16);
    ty!(i16, NonZeroI16);
    ty!(u32, NonZeroU32);
    ty!(i32, NonZeroI32);
    ty!(u64, NonZeroU64);
    ty!(i64, NonZeroI64);
    ty!(usize, NonZeroUsize);
    ty!(isize, NonZeroIsize);
    r.bound("all values of u8 i8 u16 i16 and their NonZero forms; all values of u32 i32 and their NonZero forms; 64-bit types: all values within 2^18 (thorough 2^24) of 0, the extremes and every power of two from 0, min and max; all pairs of boundary values");
    r.finish();
}
