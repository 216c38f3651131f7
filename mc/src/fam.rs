//! Key universes and constructors shared by the checks.
use crate::keys::TK;

/// Build through `From<[T; N]>` for a run-time length up to 8 (None above).
#[macro_export]
macro_rules! from_array {
    ($t:ty, $v:expr) => {{
        let v = $v;
        macro_rules! arr { ($n:literal) => {{ let a: [_; $n] = v.try_into().ok().unwrap(); Some(<$t>::from(a)) }}; }
        match v.len() { 0 => arr!(0), 1 => arr!(1), 2 => arr!(2), 3 => arr!(3), 4 => arr!(4), 5 => arr!(5), 6 => arr!(6), 7 => arr!(7), 8 => arr!(8), _ => None }
    }};
}

/// scalar/int id universes (5..6 ids each): contiguous, small gaps, at the sparse limits, far apart
pub fn id_universes() -> Vec<(&'static str, Vec<u32>)> {
    vec![
        ("contiguous", vec![0, 1, 2, 3, 4]),
        ("contiguous-high", vec![u32::MAX - 4, u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX]),
        ("gaps", vec![7, 8, 10, 13, 20]),
        ("span128", vec![5, 6, 8, 40, 132]),
        ("span129", vec![5, 6, 8, 40, 133]),
        ("scattered", vec![0, 1, 1 << 8, 1 << 20, u32::MAX]),
    ]
}

/// ids plus their immediate neighbours and the extremes: the query menu for integer keys
pub fn with_neighbours(ids: &[u32]) -> Vec<u32> {
    let mut q = vec![0, 1, u32::MAX, u32::MAX - 1];
    for i in ids {
        q.extend([*i, i.wrapping_sub(1), i.wrapping_add(1), i ^ 0x80, i ^ 0x8000_0000]);
    }
    q.sort();
    q.dedup();
    q
}
pub fn tk(ids: &[u32]) -> Vec<TK> {
    ids.iter().map(|i| TK { id: *i, tag: 999_999 }).collect()
}

/// all strings over `alpha` of length lo..=hi
pub fn strings(alpha: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    for n in lo..=hi {
        crate::engine::sequences(alpha.len(), n, |s| out.push(s.iter().map(|i| alpha[*i]).collect::<String>()));
    }
    out
}

pub fn string_universes() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ("mixed-lengths", vec!["", "a", "b", "ab", "ba"]),
        ("equal-lengths", vec!["aaa", "aba", "aab", "baa", "bab"]),
        ("common-prefix", vec!["xxa", "xxb", "xxcc", "xxdd", "xxe"]),
        ("common-suffix", vec!["axx", "bxx", "ccxx", "dxx", "exx"]),
        ("both-sides", vec!["p1s", "p2s", "p33s", "p44s", "p5s"]),
        ("utf8", vec!["é", "è", "ée", "漢字", "字"]),
        ("nested", vec!["a", "aa", "aaa", "aaaa", "b"]),
    ]
}

/// near misses of every key: one char dropped at either end, added at either end, every char replaced
pub fn near_misses(keys: &[String]) -> Vec<String> {
    let mut q: Vec<String> = vec![String::new()];
    for k in keys {
        q.push(k.clone());
        let cs: Vec<char> = k.chars().collect();
        if !cs.is_empty() {
            q.push(cs[1..].iter().collect());
            q.push(cs[..cs.len() - 1].iter().collect());
        }
        for c in ['a', 'x', '\u{e9}', '\0'] {
            q.push(format!("{k}{c}"));
            q.push(format!("{c}{k}"));
            for i in 0..cs.len() {
                let mut d = cs.clone();
                d[i] = c;
                q.push(d.iter().collect());
            }
        }
        q.push(cs.iter().rev().collect());
        q.push(format!("{k}{k}"));
    }
    q.sort();
    q.dedup();
    q
}
pub fn bx(s: &[String]) -> Vec<Box<str>> {
    s.iter().map(|x| x.clone().into_boxed_str()).collect()
}

/// An iterator that hands out `v` and tells the truth about its length in one of several ways:
/// the lower bound is at most, the upper bound at least, what is left.
pub struct Hinted<T> {
    it: std::vec::IntoIter<T>,
    kind: usize,
}
pub const HINTS: usize = 8;
pub fn hinted<T>(v: Vec<T>, kind: usize) -> Hinted<T> {
    Hinted { it: v.into_iter(), kind }
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (0, Some(n + 3)),
            3 => (0, Some(usize::MAX)),
            4 => (n, None),
            5 => (n.min(1), Some(n + 1)),
            6 => (n / 2, None),
            _ => (n.saturating_sub(1), Some(2 * n + 1)),
        }
    }
}
