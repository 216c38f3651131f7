//! Explorations of the run-time collections on targets other than the host: 32-bit (compiled to WebAssembly), big-endian
//! (executed by Miri).
#![cfg_attr(target_family = "wasm", no_std)]
extern crate alloc;
use alloc::{format, string::{String, ToString}, vec, vec::Vec};
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::traits::Scalar;
use alloc::collections::BTreeMap;
use core::fmt::Debug;
use core::hash::{BuildHasher, Hash, Hasher};
use core::num::*;
#[cfg(not(target_family = "wasm"))]
use std::panic::{AssertUnwindSafe, catch_unwind};

static mut CURRENT: String = String::new();
struct Sh<'a> { me: usize, n: usize, idx: usize, ran: u64, trans: u64, bad: bool, out: &'a dyn Fn(&str) }
impl Sh<'_> {
    fn case(&mut self, scen: &str, d: impl Fn() -> String, body: impl FnOnce(&mut u64) -> Result<(), String>) {
        self.idx += 1;
        if self.idx % self.n != self.me || self.bad { return; }
        self.ran += 1;
        let mut t = 0;
        let what = format!("{scen}\t{}\t{}", self.idx, d());
        unsafe { *(&raw mut CURRENT) = what.clone() };
        // on WebAssembly a panic does not come back; the hook has reported it then
        #[cfg(target_family = "wasm")]
        let r = body(&mut t);
        #[cfg(not(target_family = "wasm"))]
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut t))).unwrap_or_else(|_| Err("panic".into()));
        self.trans += t;
        if self.ran == 1 { (self.out)(&format!("SAMPLE {scen}: {}", d())); }
        if let Err(e) = r {
            (self.out)(&format!("BAD\t{what}\t{}", e.replace(['\n', '\t'], " ")));
            self.bad = true;
        }
    }
}
/// (for panic hooks) the line that reports a panic of the current case
pub fn panicked(m: &str) -> String {
    format!("BAD\t{}\tpanic: {}", unsafe { &*(&raw const CURRENT) }, m.replace(['\n', '\t'], " "))
}
macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }

trait Sc: Scalar + Hash + Eq + Ord + Copy + Debug {
    const NAME: &'static str;
    fn of(x: i128) -> Option<Self>;
    fn val(self) -> i128;
    const LO: i128;
    const HI: i128;
}
macro_rules! sc {
    ($($t:ty)*) => { $( impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: i128) -> Option<Self> { x.try_into().ok() }
        fn val(self) -> i128 { self as i128 }
        const LO: i128 = <$t>::MIN as i128;
        const HI: i128 = <$t>::MAX as i128;
    } )* };
}
macro_rules! nz {
    ($($t:ty, $p:ty);*) => { $( impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: i128) -> Option<Self> { <$t>::new(x.try_into().ok()?) }
        fn val(self) -> i128 { self.get() as i128 }
        const LO: i128 = <$p>::MIN as i128;
        const HI: i128 = <$p>::MAX as i128;
    } )* };
}
sc!(u8 i8 u16 i16 u32 i32 usize isize);
nz!(NonZeroU8, u8; NonZeroI8, i8; NonZeroU16, u16; NonZeroI16, i16; NonZeroU32, u32; NonZeroI32, i32; NonZeroUsize, usize; NonZeroIsize, isize);
#[cfg(target_pointer_width = "64")]
sc!(u64 i64);
#[cfg(target_pointer_width = "64")]
nz!(NonZeroU64, u64; NonZeroI64, i64);
macro_rules! each_type { ($m:ident) => {
    $m!(u8 i8 u16 i16 u32 i32 usize isize NonZeroU8 NonZeroI8 NonZeroU16 NonZeroI16 NonZeroU32 NonZeroI32 NonZeroUsize NonZeroIsize);
    #[cfg(target_pointer_width = "64")]
    $m!(u64 i64 NonZeroU64 NonZeroI64);
} }

/// the index function: strictly increasing, contiguous values have contiguous indices
fn index<T: Sc>(sh: &mut Sh<'_>, level: u32) {
    let w = [8, 1000, 20000][level as usize];
    let mut centres = vec![T::LO, T::HI, 0, T::LO / 2, T::HI / 2];
    for p in 3..65 { centres.push(1i128 << p); centres.push(-(1i128 << p)); }
    centres.retain(|c| *c >= T::LO && *c <= T::HI);
    centres.sort();
    centres.dedup();
    let centres = &centres;
    for c in centres {
        sh.case("index", || format!("{} around {c}", T::NAME), |t| {
            let mut last: Option<T> = None;
            for x in c - w..=c + w {
                let Some(v) = T::of(x) else { continue };
                *t += 1;
                if let Some(l) = last {
                    let gap = (v.val() - l.val()) as usize;
                    ensure!(v.index() > l.index(), "index({v:?}) = {} is not above index({l:?}) = {}", v.index(), l.index());
                    ensure!(v.index() - l.index() == gap, "index({v:?}) - index({l:?}) = {}, not {gap}", v.index() - l.index());
                }
                last = Some(v);
                for d in centres {
                    let Some(y) = T::of(*d) else { continue };
                    ensure!((y.index() < v.index()) == (y.val() < v.val()) && (y.index() == v.index()) == (y.val() == v.val()), "index order of {y:?} and {v:?}: {} and {}", y.index(), v.index());
                }
            }
            Ok(())
        });
    }
}

fn scalar_case<T: Sc>(t: &mut u64, keys: &[T], menu: &[T]) -> Result<(), String> {
    let mut model = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() { model.insert(k.val(), i as u32); }
    let m = FzScalarMap::new(keys.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect());
    let s = FzScalarSet::new(keys.to_vec());
    ensure!(m.len() == model.len() && s.len() == model.len(), "len {} and {}, expected {}", m.len(), s.len(), model.len());
    let mut qs: Vec<T> = menu.to_vec();
    for k in keys { for d in [-130i128, -2, -1, 0, 1, 2, 130] { qs.extend(T::of(k.val() + d)); } }
    for q in qs {
        *t += 2;
        let e = model.get(&q.val());
        let g = m.get(&q);
        ensure!(g == e, "map get({q:?}) = {g:?}, expected {e:?}");
        ensure!(s.contains(&q) == e.is_some(), "set contains({q:?}) = {}", s.contains(&q));
        ensure!(s.get(&q).map(|x| x.val()) == e.map(|_| q.val()), "set get({q:?})");
    }
    let mut it: Vec<i128> = m.iter().map(|(k, _)| k.val()).collect();
    it.sort();
    ensure!(it.iter().eq(model.keys()), "iteration {it:?}");
    Ok(())
}
fn scalar<T: Sc>(sh: &mut Sh<'_>, level: u32) {
    let mut menu: Vec<i128> = vec![T::LO, T::LO + 1, -1, 0, 1, 2, T::HI / 2, T::HI / 2 + 1, T::HI - 1, T::HI];
    if level > 0 { menu.extend([T::LO / 2, 3, 64, 127, 128, 255, 256, 1 << 20]); }
    if level > 1 { menu.extend([T::LO + 2, -2, -128, -129, 5, 10, 1000, 65535, 65536, T::HI - 2]); }
    menu.retain(|c| *c >= T::LO && *c <= T::HI);
    menu.sort();
    menu.dedup();
    let menu: Vec<T> = menu.iter().filter_map(|x| T::of(*x)).collect();
    let menu = &menu;
    let n = menu.len();
    for a in 0..=n { for b in 0..=a { for c in 0..=b {
        let mut ks: Vec<T> = [a, b, c].iter().filter(|i| **i < n).map(|i| menu[*i]).collect();
        ks.sort();
        ks.dedup();
        sh.case("boundary subsets", || format!("{} keys {ks:?}", T::NAME), |t| scalar_case(t, &ks, menu));
    } } }
    for start in menu {
        for len in [2i128, 3, 4, 5, 8, 9, 17, 130] {
            for hole in [-1i128, 0, 1, len / 2] {
                let ks: Vec<T> = (0..len).filter(|i| *i != hole || hole < 0).filter_map(|i| T::of(start.val() + i)).collect();
                let rev: Vec<T> = ks.iter().rev().copied().collect();
                sh.case("runs", || format!("{} run of {len} from {start:?} without item {hole}", T::NAME), |t| scalar_case(t, &rev, menu));
            }
        }
    }
    // both sides of the decision between sparse and scattered
    for n in [3i128, 8, 13, 14] {
        for span in [8, 126, 127, 128, 129, 130, n * 10 - 1, n * 10, n * 10 + 1] {
            for base in [T::LO, 0, T::HI - span] {
                let mut ks: Vec<T> = (0..n - 1).map(|i| base + i).chain([base + span]).filter(|x| *x <= T::HI).filter_map(|x| T::of(x)).collect();
                ks.dedup();
                sh.case("spans", || format!("{} {n} keys over {span} from {base}", T::NAME), |t| scalar_case(t, &ks, menu));
            }
        }
    }
}

/// hash codes chosen by the adversary
#[derive(Clone)]
struct Table(Vec<u64>);
#[derive(Default, Clone)]
struct First(u64);
impl Hasher for First {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x)); } }
    fn write_u32(&mut self, x: u32) { self.0 = u64::from(x); }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
    fn finish(&self) -> u64 { self.0 }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct K(u32);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u32(self.0) } }
struct TH(Vec<u64>);
impl Hasher for TH {
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u32(&mut self, x: u32) { let c = self.0[x as usize % self.0.len()]; self.0 = vec![c]; }
    fn finish(&self) -> u64 { self.0[0] }
}
impl BuildHasher for Table {
    type Hasher = TH;
    fn build_hasher(&self) -> TH { TH(self.0.clone()) }
}
#[derive(Clone, Default)]
struct Plain;
impl BuildHasher for Plain {
    type Hasher = First;
    fn build_hasher(&self) -> First { First::default() }
}
fn hash_case(t: &mut u64, codes: &[u64], n: u32, absent: u32) -> Result<(), String> {
    let bh = Table(codes.to_vec());
    let es: Vec<(K, u32)> = (0..n).map(|i| (K(i), i + 100)).collect();
    let mut m = FzHashMap::with_hasher(es.clone(), bh.clone());
    let s = FzHashSet::with_hasher(es.iter().map(|e| e.0).collect(), bh);
    ensure!(m.len() == n as usize && s.len() == n as usize, "len {} {}", m.len(), s.len());
    for q in 0..n + absent {
        *t += 3;
        let e = (q < n).then_some(q + 100);
        ensure!(m.get(&K(q)).copied() == e, "get({q}) = {:?}, expected {e:?}", m.get(&K(q)));
        ensure!(m.get_mut(&K(q)).copied() == e, "get_mut({q}), expected {e:?}");
        ensure!(s.contains(&K(q)) == e.is_some(), "contains({q}) = {}", s.contains(&K(q)));
    }
    let mut it: Vec<u32> = m.into_iter().map(|(k, v)| { assert_eq!(k.0 + 100, v); k.0 }).collect();
    it.sort();
    ensure!(it == (0..n).collect::<Vec<_>>(), "iteration {it:?}");
    Ok(())
}
fn hash(sh: &mut Sh<'_>, level: u32) {
    let menu = [0u64, 1, 1 << 31, 1 << 32, u64::MAX, 0x8000_0001_8000_0000];
    let k = [3, 5, 7][level as usize];
    for x in 0..menu.len().pow(k) {
        let codes: Vec<u64> = (0..k).map(|i| menu[x / menu.len().pow(i) % menu.len()]).collect();
        let n = k - 1;
        sh.case("code tables", || format!("codes {codes:x?} of {n} keys and one absent key"), |t| hash_case(t, &codes, n, 1));
    }
    let families: [(&str, fn(u64) -> u64); 7] = [("constant", |_| 1 << 40), ("identity", |i| i), ("high half", |i| i << 32), ("top bits", |i| i << 56), ("both halves", |i| i << 32 | (i * 7)), ("scrambled", |i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)), ("descending", |i| u64::MAX - i)];
    for (fname, f) in families {
        let sizes: Vec<u32> = match level { 0 => vec![0, 1, 3, 4, 9, 17], 1 => (0..140).chain([254, 255, 256, 257, 999, 1000, 1001]).collect(), _ => (0..600).chain([999, 1000, 1001, 65535, 65536, 65537]).collect() };
        for n in sizes {
            let codes: Vec<u64> = (0..n as u64 + 8).map(f).collect();
            sh.case("families", || format!("{fname} codes of {n} keys"), |t| hash_case(t, &codes, n, 8));
        }
    }
}

fn str_case(t: &mut u64, keys: &[String], qs: &[String]) -> Result<(), String> {
    let model: BTreeMap<&str, u32> = keys.iter().enumerate().map(|(i, k)| (&**k, i as u32)).collect();
    let es: Vec<(String, u32)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect();
    let m = FzStringMap::new(es.clone());
    let p = FzStringMap::with_hasher(es, Plain);
    let s = FzStringSet::new(keys.to_vec());
    ensure!(m.len() == model.len() && p.len() == model.len() && s.len() == model.len(), "len {} {} {}", m.len(), p.len(), s.len());
    for q in qs.iter().chain(keys) {
        *t += 3;
        let e = model.get(&**q);
        ensure!(m.get(&**q) == e, "get({q:?}) = {:?}, expected {e:?}", m.get(&**q));
        ensure!(p.get(&**q) == e, "get({q:?}) = {:?} with another hasher, expected {e:?}", p.get(&**q));
        ensure!(s.contains(&**q) == e.is_some(), "contains({q:?}) = {}", s.contains(&**q));
    }
    Ok(())
}
fn strings(sh: &mut Sh<'_>, level: u32) {
    let u: Vec<String> = ["", "a", "b", "ab", "ba", "漢", "aaaa", "aaab"].iter().map(|s| s.to_string()).collect();
    let mut qs = u.clone();
    for x in &u { qs.push(format!("{x}a")); qs.push(format!("a{x}")); }
    for mask in 0..1u32 << u.len() {
        if level == 0 && mask.count_ones() > 2 && mask.count_ones() < 7 { continue; }
        let ks: Vec<String> = u.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k.clone()).collect();
        sh.case("subsets", || format!("keys {ks:?}"), |t| str_case(t, &ks, &qs));
    }
    // equal prefixes and suffixes around a core: every sub-slice the analyser can choose
    for n in [vec![4usize, 9], vec![4usize, 5, 9, 16, 26, 33, 64, 130], vec![3usize, 4, 5, 8, 9, 15, 16, 17, 26, 33, 64, 128, 130, 257]][level as usize].clone() {
        for core in 1..=3usize {
            for pre in if level == 0 { vec![0usize, 3, 17] } else { (0..20).collect() } {
                for post in if level == 0 { vec![0usize, 5] } else { (0..20).collect() } {
                    let mk = |i: usize| {
                        let mut c = String::new();
                        let mut x = i;
                        for _ in 0..core { c.push((b'a' + (x % 26) as u8) as char); x /= if core == 1 { 26 } else { 5 }; }
                        format!("{}{c}{}", "p".repeat(pre), "s".repeat(post))
                    };
                    let mut ks: Vec<String> = (0..n).map(mk).collect();
                    ks.sort();
                    ks.dedup();
                    let mut qs: Vec<String> = (n..n + 3).map(mk).collect();
                    for k in ks.iter().take(3) { qs.extend([format!("{k}s"), format!("p{k}"), k[1..].to_string(), k[..k.len() - 1].to_string()]); }
                    let qs: Vec<String> = qs.into_iter().filter(|q| !ks.contains(q)).collect();
                    sh.case("padding", || format!("{n} keys of {core} distinguishing characters after {pre} and before {post} equal ones"), |t| str_case(t, &ks, &qs));
                }
            }
        }
    }
}

/// `level` 0: small (for an interpreter), 1: quick, 2: thorough
pub fn run(mode: &str, me: usize, n: usize, level: u32, out: &dyn Fn(&str)) {
    let mut sh = Sh { me, n, idx: 0, ran: 0, trans: 0, bad: false, out };
    let sh = &mut sh;
    match mode {
        "index" => { macro_rules! m { ($($t:ty)*) => { $( index::<$t>(sh, level); )* } } each_type!(m); }
        "scalar" => { macro_rules! m { ($($t:ty)*) => { $( scalar::<$t>(sh, level); )* } } each_type!(m); }
        "hash" => hash(sh, level),
        "strings" => strings(sh, level),
        x => panic!("{x}"),
    }
    out(&format!("DONE {} {}", sh.ran, sh.trans));
}

#[cfg(target_family = "wasm")]
mod wasm {
    use alloc::string::ToString;
    use core::alloc::{GlobalAlloc, Layout};
    /// free lists by power-of-two size over an ever growing memory
    struct Pools;
    static mut FREE: [*mut u8; 32] = [core::ptr::null_mut(); 32];
    static mut NEXT: usize = 0;
    static mut END: usize = 0;
    unsafe impl GlobalAlloc for Pools {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let c = l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize;
            unsafe {
                let p = FREE[c];
                if !p.is_null() {
                    FREE[c] = *p.cast::<*mut u8>();
                    return p;
                }
                let size = 1usize << c;
                let mut at = (NEXT + size - 1) & !(size - 1);
                if at + size > END {
                    let pages = size.max(1 << 20) / 65536 + 1;
                    let old = core::arch::wasm32::memory_grow(0, pages);
                    if old == usize::MAX { return core::ptr::null_mut(); }
                    if old * 65536 != END { at = old * 65536; at = (at + size - 1) & !(size - 1); }
                    END = (old + pages) * 65536;
                    if at + size > END { NEXT = at; return self.alloc(l); }
                }
                NEXT = at + size;
                at as *mut u8
            }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let c = l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize;
            unsafe {
                *p.cast::<*mut u8>() = FREE[c];
                FREE[c] = p;
            }
        }
    }
    #[global_allocator]
    static POOLS: Pools = Pools;
    #[link(wasm_import_module = "host")]
    unsafe extern "C" { fn line(p: *const u8, n: usize); }
    fn say(s: &str) { unsafe { line(s.as_ptr(), s.len()) } }
    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo<'_>) -> ! {
        say(&super::panicked(&i.to_string()));
        core::arch::wasm32::unreachable()
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn go(mode: usize, me: usize, n: usize, level: u32) {
        super::run(["index", "scalar", "hash", "strings"][mode], me, n, level, &say);
    }
}
