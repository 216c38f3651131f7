//! Instrumented key/value types and controlled hash functions.
use equivalent::{Comparable, Equivalent};
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

/// A key whose identity (`id`) takes part in equality/order/hash and whose `tag` does not: it makes
/// visible *which* of several equal keys a collection kept.
#[derive(Clone, Copy, Debug)]
pub struct TK {
    pub id: u32,
    pub tag: u32,
}
impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.id.cmp(&o.id)
    }
}
impl Hash for TK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl frozen_collections_core::traits::Scalar for TK {
    fn index(&self) -> usize {
        self.id as usize
    }
}

/// A query type that is merely equivalent/comparable to `TK` and has its own, finer, equality:
/// `alias` distinguishes queries that denote the same key.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct QK {
    pub id: u32,
    pub alias: u8,
}
impl Hash for QK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl PartialOrd for QK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QK {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.id, self.alias).cmp(&(o.id, o.alias))
    }
}
impl frozen_collections_core::traits::Scalar for QK {
    fn index(&self) -> usize {
        self.id as usize
    }
}
impl Equivalent<TK> for QK {
    fn equivalent(&self, k: &TK) -> bool {
        self.id == k.id
    }
}
impl Comparable<TK> for QK {
    fn compare(&self, k: &TK) -> Ordering {
        self.id.cmp(&k.id)
    }
}

/// Controlled hash functions.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum HF {
    Const(u64),
    /// integers hash to themselves, byte strings to their byte sum
    Ident,
    /// as Ident, shifted left: all low bits equal
    Shl(u32),
    /// as Ident, multiplied
    Mul(u64),
    /// only the total number of bytes written
    Len,
    First,
    Last,
    /// arbitrary table: code of integer i is t[i % len]
    Table(std::sync::Arc<Vec<u64>>),
    Fnv,
    Fold(u64),
}
impl Default for HF {
    fn default() -> Self {
        HF::Fnv
    }
}
pub enum HState {
    Own { kind: HF, sum: u64, int: u64, bytes: bool, len: u64, first: Option<u8>, last: u8, fnv: crate::engine::Fnv },
    Fold(foldhash::fast::FoldHasher),
}
impl BuildHasher for HF {
    type Hasher = HState;
    fn build_hasher(&self) -> HState {
        if let HF::Fold(s) = self {
            HState::Fold(foldhash::fast::FixedState::with_seed(*s).build_hasher())
        } else {
            HState::Own { kind: self.clone(), sum: 0, int: 0, bytes: false, len: 0, first: None, last: 0, fnv: Default::default() }
        }
    }
}
impl Hasher for HState {
    fn write(&mut self, b: &[u8]) {
        match self {
            HState::Fold(f) => f.write(b),
            HState::Own { sum, bytes, len, first, last, fnv, .. } => {
                *bytes = true;
                for x in b {
                    *sum += u64::from(*x);
                    if first.is_none() {
                        *first = Some(*x);
                    }
                    *last = *x;
                }
                *len += b.len() as u64;
                fnv.write(b);
            }
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.int(u64::from(v))
    }
    fn write_u16(&mut self, v: u16) {
        self.int(u64::from(v))
    }
    fn write_u32(&mut self, v: u32) {
        self.int(u64::from(v))
    }
    fn write_u64(&mut self, v: u64) {
        self.int(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.int(v as u64)
    }
    fn finish(&self) -> u64 {
        match self {
            HState::Fold(f) => f.finish(),
            HState::Own { kind, sum, int, bytes, len, first, last, fnv } => {
                let id = if *bytes { *sum } else { *int };
                match kind {
                    HF::Const(c) => *c,
                    HF::Ident => id,
                    HF::Shl(s) => id << s,
                    HF::Mul(m) => id.wrapping_mul(*m),
                    HF::Len => *len,
                    HF::First => first.map_or(id, u64::from),
                    HF::Last => {
                        if *bytes {
                            u64::from(*last)
                        } else {
                            id
                        }
                    }
                    HF::Table(t) => t[(id % t.len() as u64) as usize],
                    HF::Fnv => fnv.finish(),
                    HF::Fold(_) => unreachable!(),
                }
            }
        }
    }
}
impl HState {
    fn int(&mut self, v: u64) {
        match self {
            HState::Fold(f) => f.write_u64(v),
            HState::Own { int, fnv, .. } => {
                *int = v;
                fnv.write(&v.to_le_bytes());
            }
        }
    }
}

pub fn hash_menu() -> Vec<HF> {
    vec![
        HF::Const(0),
        HF::Const(u64::MAX),
        HF::Ident,
        HF::Shl(4),
        HF::Shl(57),
        HF::Len,
        HF::First,
        HF::Last,
        HF::Table(std::sync::Arc::new(vec![0, 1])),
        HF::Table(std::sync::Arc::new(vec![u64::MAX, 0, 1 << 63, 2])),
        HF::Fnv,
        HF::Fold(0),
        HF::Fold(1),
    ]
}
