//! Drop ledger, call-counting user callbacks with a panic injected at a chosen call, and scripted (adversarial) callbacks.
use equivalent::{Comparable, Equivalent};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Default)]
pub struct Led {
    live: Vec<bool>,
    alive: u64,
    errs: Vec<String>,
    calls: u64,
    panic_at: u64,
    made: u64,
    // scripted choices
    script: Vec<u8>,
    arity: Vec<u8>,
    pos: usize,
    depth: usize,
    skip: usize,
    mark: u64,
}
const MAGIC: u64 = 0x5a5a_0000_0000_0000;
impl Led {
    fn is_live(&self, t: u64) -> bool { self.live.get((t ^ MAGIC) as usize).copied().unwrap_or(false) }
}
thread_local! { static LED: RefCell<Led> = RefCell::new(Led::default()); }
fn led<T>(f: impl FnOnce(&mut Led) -> T) -> T {
    LED.with(|l| f(&mut l.borrow_mut()))
}
/// forget everything; the `panic_at`-th callback from now on panics (0 = never)
pub fn reset(panic_at: u64) {
    led(|l| *l = Led { panic_at, ..Default::default() })
}
/// calls seen so far
pub fn calls() -> u64 {
    led(|l| l.calls)
}
/// everything so far was building; `marked` returns the number of calls up to here
pub fn mark() {
    led(|l| l.mark = l.calls)
}
pub fn marked() -> u64 {
    led(|l| l.mark)
}
pub fn made() -> u64 {
    led(|l| l.made)
}
/// end of a case: everything dropped exactly once
pub fn settle() -> Result<(), String> {
    led(|l| {
        if let Some(e) = l.errs.first() {
            return Err(e.clone());
        }
        if l.alive != 0 {
            return Err(format!("{} of {} objects leaked (never dropped)", l.alive, l.made));
        }
        Ok(())
    })
}
fn birth() -> u64 {
    led(|l| {
        l.made += 1;
        l.alive += 1;
        l.live.push(true);
        MAGIC ^ (l.live.len() as u64 - 1)
    })
}
fn death(t: u64, what: &str) {
    led(|l| {
        if l.is_live(t) {
            l.alive -= 1;
            l.live[(t ^ MAGIC) as usize] = false;
        } else {
            l.errs.push(format!("{what} dropped twice, or never existed"));
        }
    })
}
fn seen(t: u64, what: &str) {
    led(|l| {
        if !l.is_live(t) {
            l.errs.push(format!("{what} used after it was dropped, or never existed"));
        }
    })
}
/// one callback into user code
fn call(what: &'static str) {
    let p = led(|l| {
        l.calls += 1;
        l.calls == l.panic_at
    });
    if p {
        panic!("injected panic in user {what}");
    }
}
/// user-code step outside the key traits (iterators, closures)
pub fn user_step() {
    call("callback");
}

/// well-behaved key, counted and tracked
#[derive(Debug)]
pub struct LK {
    pub id: u32,
    tok: u64,
}
impl LK {
    pub fn new(id: u32) -> Self { LK { id, tok: birth() } }
    pub fn touch(&self) { seen(self.tok, "key") }
}
impl Drop for LK {
    fn drop(&mut self) { death(self.tok, "key") }
}
impl Clone for LK {
    fn clone(&self) -> Self {
        self.touch();
        call("Clone::clone of a key");
        LK::new(self.id)
    }
}
impl PartialEq for LK {
    fn eq(&self, o: &Self) -> bool {
        self.touch();
        o.touch();
        call("PartialEq::eq of a key");
        self.id == o.id
    }
}
impl Eq for LK {}
impl PartialOrd for LK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for LK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.touch();
        o.touch();
        call("Ord::cmp of a key");
        self.id.cmp(&o.id)
    }
}
impl Hash for LK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.touch();
        call("Hash::hash of a key");
        self.id.hash(h)
    }
}
/// tracked value; clone and eq are counted callbacks
#[derive(Debug)]
pub struct LV {
    pub val: u32,
    tok: u64,
}
impl LV {
    pub fn new(val: u32) -> Self { LV { val, tok: birth() } }
    pub fn touch(&self) { seen(self.tok, "value") }
}
impl Drop for LV {
    fn drop(&mut self) { death(self.tok, "value") }
}
impl Clone for LV {
    fn clone(&self) -> Self {
        self.touch();
        call("Clone::clone of a value");
        LV::new(self.val)
    }
}
impl PartialEq for LV {
    fn eq(&self, o: &Self) -> bool {
        self.touch();
        o.touch();
        call("PartialEq::eq of a value");
        self.val == o.val
    }
}
impl Eq for LV {}

// ---------------------------------------------------------------- scripted callbacks
/// start a run in which the first `depth` callbacks answer as the script says (0 beyond the script)
pub fn script_start(script: &[u8], depth: usize) {
    led(|l| *l = Led { script: script.to_vec(), depth, ..Default::default() })
}
pub fn choose(n: u8) -> u8 {
    let pause = PAUSE.with(std::cell::Cell::get);
    if pause != 0 {
        // varied but fixed answers
        let c = PAUSE.with(|p| { let v = p.get(); p.set(v.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407) | 1); v });
        return ((c >> 33) % u64::from(n)) as u8;
    }
    led(|l| {
        if l.skip > 0 {
            l.skip -= 1;
            return 0;
        }
        let p = l.pos;
        l.pos += 1;
        if p >= l.depth {
            return 0;
        }
        l.arity.push(n);
        if p < l.script.len() { l.script[p].min(n - 1) } else { 0 }
    })
}
/// the next script in depth-first order, if any
pub fn script_next() -> Option<Vec<u8>> {
    led(|l| {
        let mut s = l.script.clone();
        s.resize(l.arity.len(), 0);
        while let Some(last) = s.pop() {
            let i = s.len();
            if last + 1 < l.arity[i] {
                s.push(last + 1);
                return Some(s);
            }
        }
        None
    })
}
/// key whose equality, order and hash answer arbitrarily (as the script says)
#[derive(Debug)]
pub struct AK {
    tok: u64,
}
impl AK {
    pub fn new() -> Self { AK { tok: birth() } }
    pub fn touch(&self) { seen(self.tok, "key") }
}
impl Drop for AK {
    fn drop(&mut self) { death(self.tok, "key") }
}
impl Clone for AK {
    fn clone(&self) -> Self { self.touch(); AK::new() }
}
impl PartialEq for AK {
    fn eq(&self, o: &Self) -> bool { self.touch(); o.touch(); choose(2) == 1 }
}
impl Eq for AK {}
impl PartialOrd for AK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for AK {
    fn cmp(&self, o: &Self) -> Ordering { self.touch(); o.touch(); [Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3) as usize] }
}
impl Hash for AK {
    fn hash<H: Hasher>(&self, h: &mut H) { self.touch(); h.write_u64([0, 1, u64::MAX, 6][choose(4) as usize]) }
}
/// hasher that passes the written integer through
#[derive(Clone, Default, Debug)]
pub struct Pass;
#[derive(Default)]
pub struct PassH(u64);
impl BuildHasher for Pass {
    type Hasher = PassH;
    fn build_hasher(&self) -> PassH { PassH(0) }
}
impl Hasher for PassH {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
    fn write_u64(&mut self, v: u64) { self.0 = v }
    fn finish(&self) -> u64 { self.0 }
}
/// hasher whose every answer is scripted
#[derive(Clone, Default, Debug)]
pub struct Whim;
pub struct WhimH;
impl BuildHasher for Whim {
    type Hasher = WhimH;
    fn build_hasher(&self) -> WhimH { WhimH }
}
impl Hasher for WhimH {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 { [0, 1, u64::MAX, 2][choose(4) as usize] }
}
/// scalar whose order and index answer arbitrarily
#[derive(Debug, Clone, Copy)]
pub struct AS;
pub const INDICES: [usize; 6] = [0, 1, 2, 3, 200, usize::MAX];
impl PartialEq for AS {
    fn eq(&self, _: &Self) -> bool { choose(2) == 1 }
}
impl Eq for AS {}
impl PartialOrd for AS {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for AS {
    fn cmp(&self, _: &Self) -> Ordering { [Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3) as usize] }
}
impl frozen_collections_core::traits::Scalar for AS {
    fn index(&self) -> usize { INDICES[choose(INDICES.len() as u8) as usize] }
}
impl Hash for AS {
    fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(choose(2).into()) }
}
/// a query that is equivalent to whatever it likes
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AQ(pub u8);
impl Equivalent<AK> for AQ {
    fn equivalent(&self, _: &AK) -> bool { choose(2) == 1 }
}
impl Comparable<AK> for AQ {
    fn compare(&self, _: &AK) -> Ordering { [Ordering::Less, Ordering::Equal, Ordering::Greater][choose(3) as usize] }
}

/// well-behaved scalar whose callbacks are counted (and may be made to panic)
#[derive(Debug, Clone, Copy)]
pub struct CS(pub u32);
impl PartialEq for CS {
    fn eq(&self, o: &Self) -> bool { call("PartialEq::eq of a key"); self.0 == o.0 }
}
impl Eq for CS {}
impl PartialOrd for CS {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for CS {
    fn cmp(&self, o: &Self) -> Ordering { call("Ord::cmp of a key"); self.0.cmp(&o.0) }
}
impl Hash for CS {
    fn hash<H: Hasher>(&self, h: &mut H) { call("Hash::hash of a key"); self.0.hash(h) }
}
impl frozen_collections_core::traits::Scalar for CS {
    fn index(&self) -> usize { call("Scalar::index of a key"); self.0 as usize }
}
/// well-behaved hasher whose every use is a counted callback
#[derive(Clone, Default, Debug)]
pub struct Cnt;
#[derive(Default)]
pub struct CntH(crate::engine::Fnv);
impl BuildHasher for Cnt {
    type Hasher = CntH;
    fn build_hasher(&self) -> CntH { call("BuildHasher::build_hasher"); CntH::default() }
}
impl Hasher for CntH {
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn finish(&self) -> u64 { call("Hasher::finish"); self.0.finish() % 5 }
}
pub trait Touch {
    fn touch_it(&self);
}
impl Touch for LK { fn touch_it(&self) { self.touch() } }
impl Touch for LV { fn touch_it(&self) { self.touch() } }
impl Touch for AK { fn touch_it(&self) { self.touch() } }
impl Touch for CS { fn touch_it(&self) { let _ = self.0; } }
impl Touch for AS { fn touch_it(&self) {} }
impl Touch for Box<str> { fn touch_it(&self) { let mut n = 0usize; for b in self.bytes() { n += b as usize; } std::hint::black_box(n); } }

/// run `f` with every scripted callback answering `n % arity` without consuming the script
pub fn script_pause<T>(n: usize, f: impl FnOnce() -> T) -> T {
    let (pos, depth) = led(|l| (std::mem::replace(&mut l.pos, 0), std::mem::replace(&mut l.depth, 0)));
    PAUSE.with(|p| p.set(n as u64));
    struct Back(usize, usize);
    impl Drop for Back {
        fn drop(&mut self) {
            PAUSE.with(|p| p.set(0));
            led(|l| {
                l.pos = self.0;
                l.depth = self.1;
            })
        }
    }
    let _b = Back(pos, depth);
    f()
}
thread_local! { static PAUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// the next `n` callbacks answer 0 without consuming the script
pub fn script_skip(n: usize) {
    led(|l| l.skip = n)
}
