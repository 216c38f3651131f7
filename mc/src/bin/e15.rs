//! Stage 1 of C15 (and of the emitted sizes of C18): call the code emitter with every enumerated configuration and
//! entry list, print one generated program per line (JSON) for the compile-and-run stage.
use frozen_collections::Scalar;
use frozen_collections::emit::{CollectionEmitter, CollectionEntry};
use mc::gp::{SHADES, Shade};
use std::hash::Hash;
use std::panic::{AssertUnwindSafe, catch_unwind};
use syn::{Expr, Type, Visibility, parse_str};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Hash,
    Ordered,
    Scalar,
    Str,
}
use How::*;

#[derive(Clone, Copy, Debug)]
struct Cfg {
    vt: usize, // 0 = set, else index into VT
    sym: Option<&'static str>,
    alias: Option<&'static str>,
    ck: bool,
    cv: bool,
    vis: &'static str,
    stat: bool,
    mutable: bool,
}
const VT: &[(&str, fn(usize) -> String)] = &[
    ("()", |_| "()".into()),
    ("u32", |i| format!("{}", 100 + i)),
    ("&'static str", |i| format!("\"v{i}\"")),
    ("Option<u8>", |i| if i % 3 == 0 { "None".into() } else { format!("Some({})", i % 256) }),
    ("String", |i| format!("String::from(\"v{i}\")")),
    ("(u8, (i64, i64))", |i| format!("({}, ({i}, -{i}))", i % 256)),
    ("()", |_| "()".into()),
];
const UNIT: usize = 6;
const BUMP: &[&str] = &["|_| {}", "|v: &mut u32| *v += 1000", "|v: &mut &'static str| *v = if *v == \"n1\" { \"n2\" } else { \"n1\" }", "|v: &mut Option<u8>| *v = v.map_or(Some(9), |x| if x == 9 { None } else { Some(9) })", "|v: &mut String| v.push('!')", "|v: &mut (u8, (i64, i64))| v.1.0 += 1000", "|_| {}"];

fn base(vt: usize) -> Cfg {
    Cfg { vt, sym: None, alias: None, ck: true, cv: true, vis: "", stat: false, mutable: false }
}

type Keys<K> = Vec<(K, String)>;

/// the ways in which `configure` arrives at the same configuration
const HISTORIES: usize = 21;
fn history(h: usize) -> String {
    match h {
        0 => "directly".into(),
        1 => "in reverse order".into(),
        2..=8 => format!("beginning with setter {}", h - 1),
        9..=16 => format!("with setter {} called with another value first", h - 9),
        17 => "with every setter called with another value first".into(),
        18 => "after other emissions".into(),
        19 => "with every setter called twice".into(),
        _ => "with a clone after every setter".into(),
    }
}
fn configure(kt: &str, c: Cfg, h: usize) -> CollectionEmitter {
    let mut e = CollectionEmitter::new(&parse_str::<Type>(kt).unwrap());
    // one setter, with the value of the configuration or with another
    let set = |e: CollectionEmitter, which: usize, other: bool| -> CollectionEmitter {
        match which {
            0 if c.vt != 0 => e.value_type(&parse_str::<Type>(if other { "[core::cell::Cell<u8>; 3]" } else { VT[c.vt].0 }).unwrap()),
            1 if c.sym.is_some() => e.symbol_name(if other { "another_name" } else { c.sym.unwrap() }),
            2 if c.alias.is_some() => e.alias_name(if other { "AnotherName" } else { c.alias.unwrap() }),
            3 => e.const_keys(c.ck != other),
            4 => e.const_values(c.cv != other),
            5 => e.static_instance(c.stat != other),
            6 => e.mutable(c.mutable != other),
            7 => e.visibility(parse_str::<Visibility>(if !other { c.vis } else if c.vis == "pub" { "" } else { "pub" }).unwrap()),
            _ => e,
        }
    };
    let order: Vec<usize> = match h {
        1 => (0..8).rev().collect(),
        2..=8 => (0..8).map(|i| (i + h - 1) % 8).collect(),
        _ => (0..8).collect(),
    };
    for i in 0..8 {
        if h == 17 || (9..=16).contains(&h) && i == h - 9 {
            e = set(e, i, true);
        }
    }
    for i in order {
        e = set(e, i, false);
        if h == 19 {
            e = set(e, i, false);
        }
        if h == 20 {
            e = e.clone();
        }
    }
    e
}

struct Out {
    same: usize,
    n: usize,
    only: Option<String>,
}
impl Out {
    /// `kt`: key type as text; the keys with the expressions that denote them
    fn go(&mut self, scen: &str, how: How, kt: &str, texts: &[String], c: Cfg, emit: impl Fn(CollectionEmitter, &[Expr], &[Expr]) -> Result<proc_macro2::TokenStream, String>) {
        if self.only.as_ref().is_some_and(|o| !scen.contains(o.as_str())) {
            return;
        }
        self.n += 1;
        let vals: Vec<String> = (0..texts.len()).map(|i| VT[c.vt].1(i)).collect();
        let show = if texts.len() > 14 { format!("{} .. ({} entries)", texts[..14].join(", "), texts.len()) } else { texts.join(", ") };
        let desc = format!(
            "emit_{}_collection key {kt}, value {}, symbol {:?}, alias {:?}, const keys {}, const values {}, vis {:?}, static {}, mutable {}: [{show}]",
            format!("{how:?}").to_lowercase().replace("str", "string"), if c.vt == 0 { "none (set)" } else { VT[c.vt].0 }, c.sym, c.alias, c.ck, c.cv, c.vis, c.stat, c.mutable
        );
        let ke: Vec<Expr> = texts.iter().map(|t| parse_str(t).unwrap()).collect();
        let ve: Vec<Expr> = vals.iter().map(|t| parse_str(t).unwrap()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| emit(configure(kt, c, 0), &ke, &ve).map(|t| t.to_string())));
        let code = match r {
            Ok(Ok(code)) => code,
            Ok(Err(e)) => return self.line(scen, &desc, "bad", &format!("emission of a valid configuration fails: {e}")),
            Err(p) => return self.line(scen, &desc, "bad", &format!("emission panics: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        self.program(scen, kt, texts, &vals, c, &code, &desc);
        if scen == "configurations" {
            // the same configuration by other histories of calls: what is emitted must mean the same. Where the text is the same, the
            // program above decides; where it is not, it becomes a program of its own.
            for h in 1..HISTORIES {
                self.n += 1;
                let desc = format!("{desc}, configured {}", history(h));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let e = configure(kt, c, h);
                    if h == 18 {
                        // an emission in between leaves the emitter as it was
                        let _ = e.clone().emit_scalar_collection(Vec::<CollectionEntry<u8>>::new());
                        let _ = e.emit_hash_collection(vec![CollectionEntry::map_entry(0u8, parse_str("0u8").unwrap(), parse_str("other").unwrap())]);
                    }
                    emit(e, &ke, &ve).map(|t| t.to_string())
                }));
                match r {
                    Ok(Ok(t)) if t == code => self.same += 1,
                    Ok(Ok(t)) => self.program("setter histories", kt, texts, &vals, c, &t, &desc),
                    Ok(Err(e)) => self.line("setter histories", &desc, "bad", &format!("emission of a valid configuration fails: {e}")),
                    Err(_) => self.line("setter histories", &desc, "bad", "emission panics"),
                }
            }
        }
    }
    fn program(&mut self, scen: &str, kt: &str, texts: &[String], vals: &[String], c: Cfg, code: &str, desc: &str) {
        let set = c.vt == 0;
        let vt = VT[c.vt].0;
        let exp = if set {
            format!("{{ let e: Vec<{kt}> = vec![{}]; e }}", texts.join(", "))
        } else {
            format!("{{ let e: Vec<({kt}, {vt})> = vec![{}]; e }}", texts.iter().zip(vals).map(|(k, v)| format!("({k}, {v})")).collect::<Vec<_>>().join(", "))
        };
        let f = if set { "set" } else { "map" };
        let items = match (c.sym, c.stat) {
            (None, _) => format!("pub fn run(o: &mut Obs) -> R {{\nlet m = {code};\ngp::{f}(o, &m, {exp})\n}}"),
            (Some(s), false) => {
                let bind = c.alias.map_or(String::new(), |a| format!("let {}r: &{}{a} = &{}{s};\nlet _ = r;\n", if c.mutable { "" } else { "" }, "", ""));
                if c.mutable && !set {
                    format!("pub fn run(o: &mut Obs) -> R {{\n{code}\n{bind}gp::map_mut(o, &mut {s}, {exp}, {})\n}}", BUMP[c.vt])
                } else {
                    let re = if c.mutable { format!("{s} = {s}.clone();\n") } else { String::new() };
                    format!("pub fn run(o: &mut Obs) -> R {{\n{code}\n{bind}{re}gp::{f}(o, &{s}, {exp})\n}}")
                }
            }
            (Some(s), true) => {
                let m = if set { "sck" } else { "ck" };
                let place = if c.vis.is_empty() { "" } else { "inner::" };
                let bind = c.alias.map_or(String::new(), |a| format!("let r: &{place}{a} = &{place}{s};\n"));
                let call = if c.alias.is_some() { format!("gp::{f}(o, r, {exp})") } else { format!("{place}{s}.{m}(o, {exp})") };
                let imp = "use mc::gp::{MapCk, SetCk};\n";
                if !c.vis.is_empty() {
                    format!("{imp}mod inner {{ use super::*;\n{code}\n}}\npub fn run(o: &mut Obs) -> R {{\n{bind}{call}\n}}")
                } else if self.n % 2 == 0 {
                    format!("{imp}{code}\npub fn run(o: &mut Obs) -> R {{\n{bind}{call}\n}}")
                } else {
                    format!("{imp}pub fn run(o: &mut Obs) -> R {{\n{code}\n{bind}{call}\n}}")
                }
            }
        };
        self.line(scen, desc, "i", &items);
    }
    fn line(&self, scen: &str, desc: &str, k: &str, v: &str) {
        println!("{}", serde_json::json!({"s": scen, "d": desc, k: v}));
    }
}

fn ents<K: Clone>(ks: &Keys<K>, ke: &[Expr], ve: &[Expr], set: bool) -> Vec<CollectionEntry<K>> {
    ks.iter().zip(ke.iter().zip(ve)).map(|((k, _), (e, v))| if set { CollectionEntry::set_entry(k.clone(), e.clone()) } else { CollectionEntry::map_entry(k.clone(), e.clone(), v.clone()) }).collect()
}
/// entries made by the other constructor, and clones of entries
fn odd<K: Clone>(ks: &Keys<K>, ke: &[Expr], ve: &[Expr], vt: usize) -> Vec<CollectionEntry<K>> {
    ks.iter().zip(ke.iter().zip(ve)).map(|((k, _), (e, v))| match vt {
        // values given to a set are not part of it, whatever they are
        0 => CollectionEntry::map_entry(k.clone(), e.clone(), parse_str("not_in_scope(1)").unwrap()).clone(),
        // a set entry is an entry with a unit value
        usize::MAX => CollectionEntry::set_entry(k.clone(), e.clone()),
        _ => CollectionEntry::map_entry(k.clone(), e.clone(), v.clone()).clone(),
    }).collect()
}
fn texts<K>(ks: &Keys<K>) -> Vec<String> {
    ks.iter().map(|k| k.1.clone()).collect()
}
fn any<K: Hash + Ord + Clone>(o: &mut Out, scen: &str, how: How, kt: &str, ks: &Keys<K>, c: Cfg) {
    o.go(scen, how, kt, &texts(ks), c, |e, ke, ve| match how {
        Hash => e.emit_hash_collection(ents(ks, ke, ve, c.vt == 0)),
        _ => e.emit_ordered_collection(ents(ks, ke, ve, c.vt == 0)),
    });
}
fn scalar<K: Scalar + Hash + Ord + Clone>(o: &mut Out, scen: &str, how: How, kt: &str, ks: &Keys<K>, c: Cfg) {
    if how == Scalar {
        o.go(scen, how, kt, &texts(ks), c, |e, ke, ve| e.emit_scalar_collection(ents(ks, ke, ve, c.vt == 0)));
    } else {
        any(o, scen, how, kt, ks, c);
    }
}
fn string(o: &mut Out, scen: &str, how: How, ks: &[String], c: Cfg) {
    let ks: Keys<String> = ks.iter().map(|s| (s.clone(), format!("{s:?}"))).collect();
    if how == Str {
        o.go(scen, how, "&'static str", &texts(&ks), c, |e, ke, ve| e.emit_string_collection(ents(&ks, ke, ve, c.vt == 0)));
    } else if o.n % 2 == 0 {
        any(o, scen, how, "&'static str", &ks, c);
    } else {
        let ks: Keys<&str> = ks.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
        any(o, scen, how, "&'static str", &ks, c);
    }
}

/// every valid configuration
fn configs() -> Vec<Cfg> {
    let mut out = vec![];
    for vt in [0, 1, 2, 4] {
        for ck in [true, false] {
            for cv in [true, false] {
                for vis in ["", "pub", "pub(crate)"] {
                    let c = Cfg { ck, cv, vis, ..base(vt) };
                    out.push(c);
                    for alias in [None, Some("MyColl")] {
                        for mutable in [false, true] {
                            out.push(Cfg { sym: Some("my_coll"), alias, mutable, ..c });
                        }
                        if !(vt == 4 && ck && cv) {
                            out.push(Cfg { sym: Some("MY_COLL"), alias, stat: true, ..c });
                        }
                    }
                }
            }
        }
    }
    out
}
/// a few configurations, rotated over the key lists
fn some(i: usize) -> Cfg {
    let st = Cfg { sym: Some("MY_COLL"), alias: Some("MyColl"), stat: true, vis: "pub", ..base(1) };
    [base(1), base(0), st, Cfg { vt: 0, ..st }, Cfg { cv: false, ..st }, Cfg { sym: Some("my_coll"), mutable: true, ..base(5) }, Cfg { vt: 3, alias: None, vis: "", ..st }, Cfg { sym: Some("m"), alias: Some("A"), ..base(0) }, Cfg { vt: 4, cv: false, ..st }, base(2), base(4), Cfg { ck: false, vt: 0, ..st }][i % 12]
}

fn ints<K: Scalar + Hash + Ord + Clone + TryFrom<i128>>(o: &mut Out, kt: &str, min: i128, max: i128, deep: bool) {
    let mk = |vs: &[i128]| -> Keys<K> {
        vs.iter()
            .map(|v| {
                let t = if *v == min && min < 0 { format!("{kt}::MIN") } else { format!("{v}{kt}") };
                (K::try_from(*v).ok().unwrap(), t)
            })
            .collect()
    };
    let mut i = 0;
    // every subset of a window, at several places of the range
    let w = if deep { 6 } else { 5 };
    let win = [0i128, 1, 2, 4, 9, 23];
    for at in [min, -3, max - 23] {
        if at < min {
            continue;
        }
        for m in 0..1u32 << w {
            let vs: Vec<i128> = (0..w).filter(|b| m >> b & 1 == 1).map(|b| at + win[b]).collect();
            for how in [Hash, Ordered, Scalar] {
                i += 1;
                for j in 0..if deep { 12 } else { 1 } {
                    scalar(o, &format!("{kt} subsets"), how, kt, &mk(&vs), some(i + j));
                }
            }
        }
    }
    // sizes, contiguous to scattered, spanning the range
    let span = max - min;
    for n in (1..=12).chain(if deep { vec![16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257] } else { vec![16, 33, 64] }) {
        let n = n as i128;
        for (lay, step) in [("contiguous", 1), ("every 2nd", 2), ("every 4th", 4), ("every 9th", 9), ("every 11th", 11), ("whole range", span / n)] {
            if step == 0 || (n - 1) * step > span {
                continue;
            }
            for (start, s2) in [(min, "from min"), (max - (n - 1) * step, "to max"), ((min + max) / 2 - (n * step) / 2, "around the middle")] {
                if start < min || start + (n - 1) * step > max {
                    continue;
                }
                let mut vs: Vec<i128> = (0..n).map(|k| start + k * step).collect();
                if n > 2 {
                    vs.swap(0, n as usize / 2);
                }
                for how in [Hash, Ordered, Scalar] {
                    i += 1;
                    scalar(o, &format!("{kt} layouts/{lay}"), how, kt, &mk(&vs), some(i + s2.len()));
                }
            }
        }
    }
    // extremes together, repeated
    for vs in [vec![min, max], vec![max, min, 0], vec![min, min, max, max], vec![0, 1, min, max, 2, 3, 4, 5, 6, max - 1, min + 1]] {
        for how in [Hash, Ordered, Scalar] {
            for j in 0..12 {
                scalar(o, &format!("{kt} extremes"), how, kt, &mk(&vs), some(j));
            }
        }
    }
}

fn main() {
    if std::env::var_os("MC_SHOW").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let deep = a.iter().any(|x| x == "--thorough");
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
    let sizes = a.iter().any(|x| x == "--sizes");
    let mut o = Out { same: 0, n: 0, only };
    let o = &mut o;
    if sizes {
        return big(o, deep);
    }
    // every configuration on small lists of every algorithm
    for (i, c) in configs().into_iter().enumerate() {
        let all: Vec<Vec<u8>> = vec![vec![], vec![7], vec![3, 1, 3], (10..15).collect(), vec![1, 9, 40, 200, 41, 77, 78, 3, 120]];
        for (j, vs) in all.iter().enumerate() {
            if !deep && j % 2 != i % 2 {
                continue;
            }
            let ks: Keys<u8> = vs.iter().map(|v| (*v, format!("{v}u8"))).collect();
            for how in [Hash, Ordered, Scalar] {
                scalar(o, "configurations", how, "u8", &ks, c);
            }
            let ss: Vec<String> = vs.iter().map(|v| format!("{}{v}", ["", "k", "pre-", "é"][j % 4])).collect();
            for how in [Hash, Ordered, Str] {
                string(o, "configurations", how, &ss, c);
            }
        }
    }
    // entries made by the other constructor
    for n in [0usize, 1, 3, 4, 7, 8, 9, 20] {
        for (i, c) in [base(0), Cfg { sym: Some("MY_COLL"), alias: Some("MyColl"), stat: true, vis: "pub", ..base(0) }, Cfg { sym: Some("m"), ck: false, cv: false, ..base(0) }, base(1), base(UNIT), Cfg { sym: Some("MY_COLL"), alias: Some("MyColl"), stat: true, vis: "pub", ..base(UNIT) }].into_iter().enumerate() {
            let vt = if c.vt == UNIT { usize::MAX } else { c.vt };
            for (step, how) in [(1, Scalar), (3, Scalar), (2000, Scalar), (7, Hash), (7, Ordered)] {
                let ks: Keys<u32> = (0..n as u32).chain([0; 1]).take(n).map(|v| (v * step + i as u32, format!("{}u32", v * step + i as u32))).collect();
                o.go("other entries", how, "u32", &texts(&ks), c, |e, ke, ve| match how {
                    Scalar => e.emit_scalar_collection(odd(&ks, ke, ve, vt)),
                    Hash => e.emit_hash_collection(odd(&ks, ke, ve, vt)),
                    _ => e.emit_ordered_collection(odd(&ks, ke, ve, vt)),
                });
            }
            for f in [|i: usize| format!("k{i}"), |i: usize| "x".repeat(i), |i: usize| format!("{}-suffix", i * 7)] {
                let ks: Keys<String> = (0..n).map(|i| (f(i), format!("{:?}", f(i)))).collect();
                o.go("other entries", Str, "&'static str", &texts(&ks), c, |e, ke, ve| e.emit_string_collection(odd(&ks, ke, ve, vt)));
            }
        }
    }
    // names
    for (s, al) in [("r#type", "r#Match"), ("_x", "_X"), ("naïve", "Naïve"), ("X1", "Y_2"), ("r#static", "T"), ("m", "r#fn"), ("__", "A")] {
        for stat in [true, false] {
            let ks: Keys<u16> = (5..10).map(|v| (v, format!("{v}u16"))).collect();
            scalar(o, "names", Scalar, "u16", &ks, Cfg { sym: Some(s), alias: Some(al), stat, mutable: !stat, ..base(1) });
            string(o, "names", Str, &["a".into(), "b".into()], Cfg { sym: Some(s), alias: Some(al), stat, ..base(0) });
        }
    }
    // integers
    macro_rules! it { ($($t:ty),*) => { $(ints::<$t>(o, stringify!($t), <$t>::MIN as i128, <$t>::MAX as i128, deep);)* } }
    it!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    // every short list over three keys: order and repetition
    let mut lists: Vec<Vec<u8>> = vec![vec![]];
    for n in 1..=if deep { 6u32 } else { 4 } {
        for x in 0..3u32.pow(n) {
            lists.push((0..n).map(|i| (x / 3u32.pow(i) % 3) as u8).collect());
        }
    }
    for (i, l) in lists.iter().enumerate() {
        for (at, step) in [(20u8, 1u8), (5, 100)] {
            let ks: Keys<u8> = l.iter().map(|v| (at + v * step, format!("{}u8", at + v * step))).collect();
            for (j, how) in [Hash, Ordered, Scalar].into_iter().enumerate() {
                scalar(o, "repetition/u8", how, "u8", &ks, some(i + j));
            }
        }
        let ss: Vec<String> = l.iter().map(|v| ["a", "bb", ""][*v as usize].to_string()).collect();
        for (j, how) in [Hash, Ordered, Str].into_iter().enumerate() {
            string(o, "repetition/strings", how, &ss, some(i + j));
        }
    }
    // with enough other keys around to leave the small algorithms
    for (i, l) in lists.iter().enumerate().filter(|x| x.1.len() == 3) {
        let vs: Vec<u8> = l.iter().map(|v| v * 50).chain([10, 20, 30, 40, 60, 70, 80]).chain(l.iter().rev().map(|v| v * 50)).collect();
        let ks: Keys<u8> = vs.iter().map(|v| (*v, format!("{v}u8"))).collect();
        for (j, how) in [Hash, Ordered, Scalar].into_iter().enumerate() {
            scalar(o, "repetition/u8", how, "u8", &ks, some(i + j));
        }
        let ss: Vec<String> = vs.iter().map(|v| format!("x{v}y")).collect();
        for (j, how) in [Hash, Ordered, Str].into_iter().enumerate() {
            string(o, "repetition/strings", how, &ss, some(i + j));
        }
    }
    // strings: every subset of small universes
    let uni: &[&[&str]] = &[
        &["", "a", "b", "ab", "ba", "abc"],
        &["aXb", "aYb", "aXc", "cXb", "aZb", "bXa"],
        &["xxA", "xxB", "yxA", "yxB", "xyA", "xA"],
        &["aaaa", "aaaaa", "aaaaaa", "aa", "aaa", "a"],
        &["é", "è", "ée", "漢", "e\u{301}", "🦀"],
        &["quote\"", "back\\slash", "nul\0", "new\nline", "tab\t", "{brace}"],
    ];
    for (u, us) in uni.iter().enumerate() {
        for m in 1..1u32 << 6 {
            let ss: Vec<String> = (0..6).filter(|b| m >> b & 1 == 1).map(|b| us[b].to_string()).collect();
            for (j, how) in [Hash, Ordered, Str].into_iter().enumerate() {
                if deep || how == Str || m as usize % 3 == u % 3 {
                    string(o, "string subsets", how, &ss, some(m as usize + j + u));
                }
            }
        }
    }
    // string families by size
    let fams: &[(&str, fn(usize) -> String)] = &[
        ("numbered", |i| format!("k{i}")),
        ("suffixed", |i| format!("{i:04}-suffix")),
        ("prefixed", |i| format!("prefix-{i:04}")),
        ("middle", |i| format!("pre-{i:04}-post")),
        ("lengths", |i| "ab".repeat(i / 2) + &"x".repeat(i % 2)),
        ("scrambled", |i| format!("{:x}", (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 40))),
        ("multibyte", |i| format!("漢{}字{}", char::from_u32(0x4e00 + i as u32).unwrap(), "é".repeat(i % 4))),
        ("two positions", |i| format!("{}====={}", (b'a' + (i % 16) as u8) as char, (b'a' + (i / 16 % 26) as u8) as char)),
    ];
    for (fi, (fname, f)) in fams.iter().enumerate() {
        for n in (4..=17).chain(if deep { vec![31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257] } else { vec![33, 64, 129, 257] }) {
            if *fname == "two positions" && n > 200 || *fname == "lengths" && n > 130 {
                continue;
            }
            let ss: Vec<String> = (0..n).map(|i| f((i * 7 + fi) % n)).collect();
            let mut d = ss.clone();
            d.sort();
            d.dedup();
            for (j, how) in [Hash, Ordered, Str].into_iter().enumerate() {
                if how == Str || deep || (n + j) % 3 == 0 {
                    string(o, &format!("string families/{fname}"), how, &d, some(n + j + fi));
                }
            }
        }
    }
    // derived enums
    for m in 0..if deep { 1u32 << 10 } else { 1 << 7 } {
        let pick: Vec<usize> = (0..10).filter(|b| m >> b & 1 == 1).map(|b| [0, 1, 2, 5, 9, 10, 19, 18, 7, 14][b]).collect();
        let ks: Keys<Shade> = pick.iter().rev().map(|i| (SHADES[*i], format!("mc::gp::Shade::S{i:02}"))).collect();
        for (j, how) in [Hash, Ordered, Scalar].into_iter().enumerate() {
            scalar(o, "enums", how, "mc::gp::Shade", &ks, some(m as usize + j));
        }
    }
    // non-zero integers
    macro_rules! nz { ($($n:ident $t:ident),*) => { $(
        for (i, vs) in [vec![1i128], vec![1, 2, 3], vec![3, <$t>::MAX as i128, 1, 9], vec![9, 10, 11, 12, 13, 14, 15, 16, 17], vec![1, <$t>::MIN as i128 + (<$t>::MIN == 0) as i128, <$t>::MAX as i128, 5, 17, 33, 44, 99, 126]].into_iter().enumerate() {
            let ks: Keys<std::num::$n> = vs.iter().map(|v| (std::num::$n::new(*v as $t).unwrap(), format!("std::num::{}::new({}).unwrap()", stringify!($n), if *v == i64::MIN as i128 { "i64::MIN as _".to_string() } else { v.to_string() }))).collect();
            for (j, how) in [Hash, Ordered, Scalar].into_iter().enumerate() {
                for r in 0..4 { scalar(o, "non-zero integers", how, concat!("std::num::", stringify!($n)), &ks, some(i + j + 3 * r)); }
            }
        }
    )* } }
    nz!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroUsize usize, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroIsize isize);
    // other key types
    for n in 0..10usize {
        for r in 0..if deep { 12 } else { 3 } {
            for (j, how) in [Hash, Ordered].into_iter().enumerate() {
                let c = some(n + j + 5 * r);
                let ks: Keys<(i32, &str)> = (0..n).map(|i| ((i as i32 % 3 - 1, ["a", "b", "", "ab"][i / 3]), format!("({}, {:?})", i as i32 % 3 - 1, ["a", "b", "", "ab"][i / 3]))).collect();
                any(o, "other keys/tuple", how, "(i32, &'static str)", &ks, c);
                let ks: Keys<char> = "zaé漢\0🦀ABC\u{10ffff}".chars().take(n).map(|ch| (ch, format!("{ch:?}"))).collect();
                any(o, "other keys/char", how, "char", &ks, c);
                let ks: Keys<u128> = (0..n).map(|i| (u128::MAX / (i as u128 + 1), format!("{}u128", u128::MAX / (i as u128 + 1)))).collect();
                any(o, "other keys/u128", how, "u128", &ks, c);
                let ks: Keys<Option<i8>> = (0..n).map(|i| if i == 1 { (None, "None".into()) } else { (Some(i as i8 - 4), format!("Some({}i8)", i as i8 - 4)) }).collect();
                any(o, "other keys/option", how, "Option<i8>", &ks, c);
                if n <= 2 {
                    let ks: Keys<bool> = (0..n).map(|i| (i == 0, format!("{}", i == 0))).collect();
                    any(o, "other keys/bool", how, "bool", &ks, c);
                }
                if !c.stat || !(c.ck && c.cv) {
                    let ks: Keys<String> = (0..n).map(|i| (format!("s{i}"), format!("String::from(\"s{i}\")"))).collect();
                    any(o, "other keys/String", how, "String", &ks, c);
                }
            }
        }
    }
    println!("{}", serde_json::json!({"same": o.same}));
}

/// emitted collections around the limits of the internal index width and of the table sizing
fn big(o: &mut Out, deep: bool) {
    let mut sizes = vec![127usize, 128, 129, 254, 255, 256, 257, 999, 1000, 1001];
    if deep {
        sizes.extend([3000, 65534, 65535, 65536, 65537]);
    }
    for (i, n) in sizes.into_iter().enumerate() {
        let u: Keys<u32> = (0..n as u32).map(|v| (v.wrapping_mul(2_654_435_761), format!("{}u32", v.wrapping_mul(2_654_435_761)))).collect();
        let dense: Keys<u32> = (0..n as u32).rev().map(|v| (v + 1000, format!("{}u32", v + 1000))).collect();
        let sparse: Keys<i64> = (0..n as i64).map(|v| (v * 3 - 900, format!("{}i64", v * 3 - 900))).collect();
        let st = |vt| Cfg { sym: Some("MY_COLL"), alias: Some("MyColl"), stat: true, vis: "pub", ..base(vt) };
        let vt = i % 2;
        for how in [Hash, Ordered, Scalar] {
            if n > 5000 && how == Ordered {
                continue;
            }
            scalar(o, "sizes/scattered u32", how, "u32", &u, st(vt));
        }
        scalar(o, "sizes/dense u32", Scalar, "u32", &dense, st(1 - vt));
        scalar(o, "sizes/sparse i64", Scalar, "i64", &sparse, st(vt));
        let f: &[fn(usize) -> String] = &[|i| format!("k{i}"), |i| format!("pre-{i:05}-post"), |i| format!("{:x}", (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15))];
        for (j, f) in f.iter().enumerate() {
            if n > 5000 && j != 1 {
                continue;
            }
            let ss: Vec<String> = (0..n).map(f).collect();
            for how in [Str, Hash] {
                if n > 5000 && how == Hash {
                    continue;
                }
                string(o, "sizes/strings", how, &ss, st((vt + j) % 2));
            }
        }
    }
}
