//! C20, stage 1: every single-token edit (thorough: pairs of edits) of a set of macro uses, every small shape of a
//! derive input, every emitter configuration, given to the library's own macro and emitter functions. Panics are
//! violations; inputs that the independent recogniser calls ill-formed must be rejected here or, failing that, by
//! rustc (stage 2 gets those).
use frozen_collections::emit::{CollectionEmitter, CollectionEntry};
use frozen_collections_core::macros::*;
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;
use syn::{Expr, Type, Visibility, parse_str};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Verdict {
    /// no reading of the text as a collection: must be rejected
    Bad,
    /// matches the documented grammar
    Good,
    /// outside the recogniser's vocabulary: only "no panic" is asked
    Unknown,
}
use Verdict::*;

const MACROS: [&str; 8] = ["fz_hash_map", "fz_ordered_map", "fz_scalar_map", "fz_string_map", "fz_hash_set", "fz_ordered_set", "fz_scalar_set", "fz_string_set"];
const FNS: [fn(TokenStream) -> syn::Result<TokenStream>; 8] =
    [fz_hash_map_macro, fz_ordered_map_macro, fz_scalar_map_macro, fz_string_map_macro, fz_hash_set_macro, fz_ordered_set_macro, fz_scalar_set_macro, fz_string_set_macro];

fn is_word(t: &str) -> bool {
    t.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') && !t.contains(['"', '\''])
}
const KEYWORDS: &[&str] = &["static", "let", "mut", "pub", "fn", "type", "in", "crate"];
fn is_ident(t: &str) -> bool {
    is_word(t) && !KEYWORDS.contains(&t) && t != "_" && t != "true" && t != "false"
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Lit {
    Int(u64, &'static str),
    Str,
    /// a literal that is no integer and no string, an unknown suffix, a value that does not fit its type
    Odd,
}
fn lit(t: &str) -> Option<Lit> {
    if t.starts_with('"') {
        return Some(Lit::Str);
    }
    if t.starts_with("b\"") || t.starts_with("c\"") || t.starts_with("b'") || t.starts_with('\'') || t == "true" || t == "false" {
        return Some(Lit::Odd);
    }
    if !t.starts_with(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let digits: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    let suffix = &t[digits.len()..];
    let max: &[(&str, u64)] = &[("", i32::MAX as u64), ("u8", 255), ("u16", 65535), ("u32", u32::MAX as u64), ("u64", u64::MAX), ("usize", u64::MAX), ("i8", 127), ("i16", 32767), ("i32", i32::MAX as u64), ("i64", i64::MAX as u64), ("isize", i64::MAX as u64)];
    match max.iter().find(|m| m.0 == suffix) {
        Some((s, m)) => match digits.parse::<u64>() {
            Ok(v) if v <= *m => Some(Lit::Int(v, s)),
            // an unsuffixed literal takes the type of a suffixed neighbour: judged with the others
            Ok(v) if suffix.is_empty() => Some(Lit::Int(v, "")),
            _ => Some(Lit::Odd),
        },
        None => Some(Lit::Odd),
    }
}

/// one expression of the recogniser's vocabulary
#[derive(PartialEq, Clone, Copy)]
enum Ex {
    Lit(Lit),
    Other,
    Bad,
    Unknown,
}
fn expr(ts: &[&str]) -> Ex {
    match ts {
        [] => Ex::Bad,
        [t] => match lit(t) {
            Some(l) => Ex::Lit(l),
            None if is_ident(t) => Ex::Other,
            None if ["crate", "_"].contains(t) => Ex::Unknown,
            _ => Ex::Bad,
        },
        ["-" | "!" | "*" | "&", t] if is_ident(t) || lit(t).is_some() => Ex::Other,
        // two operands without an operator, or separators where an expression goes on, have no reading
        _ if ts.iter().any(|t| [";", "=>", "static", "let", "pub"].contains(t)) => Ex::Bad,
        [a, b] if (is_ident(a) || lit(a).is_some()) && (is_ident(b) || lit(b).is_some()) => Ex::Bad,
        _ => Ex::Unknown,
    }
}

/// the recogniser: is `toks` (input of macro number `mac`) well-formed?
fn judge(mac: usize, toks: &[&str]) -> Verdict {
    let set = mac >= 4;
    let kind = ["hash", "ordered", "scalar", "string"][mac % 4];
    let mut p = 0;
    let at = |i: usize| toks.get(i).copied().unwrap_or("");
    let mut long = false;
    let mut key_known = true;
    if at(p) != "{" {
        long = true;
        let mut vis = false;
        if at(p) == "pub" {
            vis = true;
            p += 1;
            if at(p) == "(" {
                let close = (p..toks.len()).find(|i| toks[*i] == ")");
                match close {
                    Some(c) if c == p + 2 && at(p + 1) == "crate" => p = c + 1,
                    _ => return Unknown,
                }
            }
        }
        match at(p) {
            "static" => p += 1,
            "let" => {
                if vis {
                    return Bad;
                }
                p += 1;
                if at(p) == "mut" {
                    p += 1;
                }
            }
            // neither a block nor a declaration
            _ => return Bad,
        }
        if !is_ident(at(p)) || at(p + 1) != ":" || !is_ident(at(p + 2)) || at(p + 3) != "<" {
            return Bad;
        }
        p += 4;
        // the type arguments, up to the matching `>`
        let mut args: Vec<Vec<&str>> = vec![vec![]];
        let mut depth = 0;
        loop {
            match at(p) {
                "" | "{" | "}" | ";" => return Bad,
                "<" => depth += 1,
                ">" if depth == 0 => break,
                ">" => depth -= 1,
                "," if depth == 0 => {
                    args.push(vec![]);
                    p += 1;
                    continue;
                }
                "(" | ")" | "[" | "]" => return Unknown,
                _ => {}
            }
            args.last_mut().unwrap().push(at(p));
            p += 1;
        }
        p += 1;
        let trailing = args.len() > 1 && args.last().unwrap().is_empty();
        if args[..args.len() - trailing as usize].iter().any(|a| a.is_empty()) {
            return Bad;
        }
        let n = args.len() - trailing as usize;
        if n != if set { 1 } else { 2 } {
            return Bad;
        }
        // `Foo<u8,>` is not part of the documented form, nor is it harmful
        if trailing {
            return Unknown;
        }
        for a in &args {
            match a.as_slice() {
                [t] if is_ident(t) => {}
                ["&", "'static", t] if is_ident(t) => {}
                [t] if lit(t).is_some() => return Bad,
                _ => key_known = false,
            }
        }
        if at(p) != "," {
            return Bad;
        }
        p += 1;
        if at(p) != "{" {
            return Bad;
        }
    }
    // the payload
    let mut depth = 0;
    let mut end = p;
    for i in p..toks.len() {
        match toks[i] {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => {
                depth -= 1;
                if depth == 0 {
                    end = i;
                    break;
                }
            }
            _ => {}
        }
    }
    if end + 1 != toks.len() {
        // something follows the payload: `;`, another payload ...
        return Bad;
    }
    let body = &toks[p + 1..end];
    if body.iter().any(|t| ["(", ")", "[", "]", "{", "}"].contains(t)) {
        return Unknown;
    }
    // `T < U > (..)` and comparison chains stay out of the vocabulary
    let odd = body.iter().any(|t| ["<", ">", "."].contains(t));
    let mut entries: Vec<Vec<&str>> = vec![vec![]];
    for t in body {
        if *t == "," {
            entries.push(vec![]);
        } else {
            entries.last_mut().unwrap().push(t);
        }
    }
    if entries.last().unwrap().is_empty() {
        entries.pop();
    }
    if body.first() == Some(&",") || entries.iter().any(|e| e.is_empty()) {
        return Bad;
    }
    if entries.is_empty() {
        return if long && key_known { Good } else if long { Unknown } else { Bad };
    }
    let mut keys: Vec<Ex> = vec![];
    let mut unknown = odd || !key_known;
    for e in &entries {
        let colons = e.iter().filter(|t| **t == ":").count();
        let (k, v) = if set {
            if colons > 0 {
                return Bad;
            }
            (&e[..], None)
        } else {
            if colons != 1 {
                return Bad;
            }
            let c = e.iter().position(|t| *t == ":").unwrap();
            (&e[..c], Some(&e[c + 1..]))
        };
        for (i, x) in [Some(k), v].into_iter().flatten().enumerate() {
            match expr(x) {
                Ex::Bad => return Bad,
                Ex::Unknown => {
                    unknown = true;
                    if i == 0 {
                        keys.push(Ex::Unknown);
                    }
                }
                other if i == 0 => keys.push(other),
                _ => {}
            }
        }
    }
    // key kinds
    let ints: Vec<(u64, &str)> = keys.iter().filter_map(|k| if let Ex::Lit(Lit::Int(v, s)) = k { Some((*v, *s)) } else { None }).collect();
    let strs = keys.iter().filter(|k| **k == Ex::Lit(Lit::Str)).count();
    if keys.iter().any(|k| *k == Ex::Lit(Lit::Odd)) {
        // other literals are not supported as keys today; nothing promises that they never will be
        unknown = true;
    }
    if kind == "scalar" && strs > 0 || kind == "string" && !ints.is_empty() || strs > 0 && !ints.is_empty() {
        return Bad;
    }
    let suffixes: BTreeSet<&str> = ints.iter().map(|i| i.1).filter(|s| !s.is_empty()).collect();
    if suffixes.len() > 1 {
        return Bad;
    }
    if ints.len() == keys.len() {
        let m: u64 = match suffixes.first().copied().unwrap_or("i32") {
            "u8" => 255,
            "u16" => 65535,
            "u32" => u32::MAX as u64,
            "u64" | "usize" => u64::MAX,
            "i8" => 127,
            "i16" => 32767,
            "i32" => i32::MAX as u64,
            _ => i64::MAX as u64,
        };
        if ints.iter().any(|i| i.0 > m) {
            return Bad;
        }
    }
    if unknown { Unknown } else { Good }
}

#[derive(Default)]
struct Tally {
    inputs: u64,
    distinct: BTreeSet<u64>,
    rejected: u64,
    accepted: u64,
    verdicts: BTreeMap<String, u64>,
}
struct Out {
    t: BTreeMap<String, Tally>,
    sent: BTreeSet<String>,
    bad: usize,
}
fn text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
impl Out {
    fn line(&mut self, s: &str, d: &str, k: &str, v: &str) {
        println!("{}", serde_json::json!({"s": s, "d": d, k: v}));
    }
    fn case(&mut self, scen: &str, desc: &str, v: Verdict, run: impl FnOnce() -> Result<TokenStream, String>, program: impl FnOnce() -> String) {
        let t = self.t.entry(scen.to_string()).or_default();
        t.inputs += 1;
        let h = {
            use std::hash::{Hash, Hasher};
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            desc.hash(&mut h);
            h.finish()
        };
        if !t.distinct.insert(h) {
            return;
        }
        *t.verdicts.entry(format!("{v:?}")).or_default() += 1;
        match catch_unwind(AssertUnwindSafe(run)) {
            Err(p) => {
                self.bad += 1;
                if self.bad <= 40 {
                    self.line(scen, desc, "bad", &format!("panic inside the library: {}", text(p)));
                }
            }
            Ok(Err(_)) => {
                t.rejected += 1;
                if v == Good {
                    println!("{}", serde_json::json!({"s": scen, "d": desc, "note": "rejected although the recogniser accepts it"}));
                }
            }
            Ok(Ok(_)) => {
                t.accepted += 1;
                if v == Bad {
                    let p = program();
                    if self.sent.insert(p.clone()) {
                        self.line(scen, desc, "i", &p);
                    }
                }
            }
        }
    }
}

fn mac(o: &mut Out, scen: &str, m: usize, toks: &[&str]) {
    let src = toks.join(" ");
    // not even a token sequence (unbalanced delimiters): nothing to hand over
    let Ok(ts) = TokenStream::from_str(&src) else { return };
    let v = judge(m, toks);
    o.case(scen, &format!("{}!({src})", MACROS[m]), v, || FNS[m](ts).map_err(|e| e.to_string()), || {
        let pre = "const x: u8 = 1; const y: u8 = 2;\n";
        // inside a function, where both the items and the `let` form can stand
        format!("{pre}fn f() {{ {}!{{{src}}}; }}\n", MACROS[m])
    });
}

fn bases(m: usize) -> Vec<Vec<&'static str>> {
    let set = m >= 4;
    let s = |t: &'static str| t.split(' ').filter(|x| !x.is_empty()).collect::<Vec<&'static str>>();
    let mut out = vec![];
    let (a, b, c, kt) = if m % 4 == 3 { ("\"a\"", "\"b\"", "\"cc\"", "& 'static str") } else { ("1u8", "2u8", "30u8", "u8") };
    let payload = |keys: &[&'static str]| -> Vec<&'static str> {
        let mut p = vec!["{"];
        for (i, k) in keys.iter().enumerate() {
            if i > 0 {
                p.push(",");
            }
            p.extend(s(k));
            if !set {
                p.extend([":", ["10", "20", "30", "40", "50"][i % 5]]);
            }
        }
        p.push("}");
        p
    };
    let ty = || -> Vec<&'static str> {
        let mut t = s(kt);
        if !set {
            t.extend([",", "i32"]);
        }
        t
    };
    let long = |head: &'static str, keys: &[&'static str]| -> Vec<&'static str> {
        let mut v = s(head);
        v.extend([":", "T", "<"]);
        v.extend(ty());
        v.extend([">", ","]);
        v.extend(payload(keys));
        v
    };
    out.push(payload(&[a, b, c]));
    out.push(payload(&[a]));
    out.push(payload(&["x", a, "- y"]));
    out.push(payload(&["x", "y", "x", "y"]));
    if m % 4 != 2 {
        out.push(payload(&["\"p\"", "\"q\"", "\"p\"", "\"r\"", "\"s\""]));
    }
    if m % 4 != 3 {
        out.push(payload(&["1", "2u16", "3", "700"]));
        out.push(payload(&["5", "6", "7", "8", "9"]));
    }
    out.push(long("static M", &[a, b]));
    out.push(long("pub static M", &[a, "x"]));
    out.push(long("pub ( crate ) static M", &[a]));
    out.push(long("let m", &[a, b, c]));
    out.push(long("let mut m", &["x"]));
    out.push(long("let m", &[]));
    out
}
const MENU: &[&str] = &[",", ";", ":", "=>", "=", "static", "let", "mut", "pub", "crate", "M", "x", "u8", "<", ">", "{", "}", "1u8", "1u16", "7", "256u8", "300i8", "99999999999", "1u128", "1foo", "1.5", "'c'", "b'c'", "b\"s\"", "true", "\"s\"", "-", "&", ".", "_", "?", "#", "( )", "{ }",
    ", u8", ", M", ", 1u8", ", x", ": 5", ", 1u8 : 5", "pub ( crate )", "static mut", "= 5", "< u8 >", "u8 <", "let mut"];

fn edits(t: &[&'static str]) -> Vec<Vec<&'static str>> {
    let mut out = vec![];
    for i in 0..=t.len() {
        if i < t.len() {
            let mut d = t.to_vec();
            d.remove(i);
            out.push(d);
            let mut d = t.to_vec();
            d.insert(i, t[i]);
            out.push(d);
            if i + 1 < t.len() {
                let mut d = t.to_vec();
                d.swap(i, i + 1);
                out.push(d);
            }
            // cut off here
            out.push(t[..i].to_vec());
        }
        for m in MENU {
            let ms: Vec<&'static str> = m.split(' ').collect();
            let mut d = t[..i].to_vec();
            d.extend(&ms);
            d.extend(&t[i..]);
            out.push(d);
            if i < t.len() {
                let mut d = t[..i].to_vec();
                d.extend(&ms);
                d.extend(&t[i + 1..]);
                out.push(d);
            }
        }
    }
    out
}

fn derive(o: &mut Out, deep: bool) {
    // every enum of up to 3 (4) variants of 8 shapes
    let shapes: &[(&str, bool)] = &[("V", true), ("V()", false), ("V(u8)", false), ("V {}", false), ("V { a: u8 }", false), ("V = 3", false), ("#[doc = \"x\"] V", true), ("V(u8) = 4", false)];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=if deep { 5 } else { 3 } {
        for x in 0..shapes.len().pow(n) {
            lists.push((0..n).map(|i| x / shapes.len().pow(i) % shapes.len()).collect());
        }
    }
    let d = "#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]";
    for l in &lists {
        let vs: Vec<String> = l.iter().enumerate().map(|(i, s)| shapes[*s].0.replace('V', &format!("V{i}"))).collect();
        let good = !l.is_empty() && l.iter().all(|s| shapes[*s].1);
        for head in if l.len() <= 2 { vec!["enum E", "pub enum E", "enum E<const N: usize>", "pub(crate) enum E"] } else { vec!["enum E"] } {
            let repr = if l.iter().any(|s| shapes[*s].0.contains('=')) && l.iter().any(|s| shapes[*s].0.contains(['(', '{'])) { "#[repr(u8)] " } else { "" };
            let src = format!("{repr}{head} {{ {} }}", vs.join(", "));
            let ts = TokenStream::from_str(&src).unwrap();
            o.case("derive enums", &src, if good { Good } else { Bad }, || derive_scalar_macro(ts).map_err(|e| e.to_string()), || format!("{d} {src}"));
        }
    }
    for src in ["struct S;", "struct S(u8);", "struct S { a: u8 }", "struct S {}", "struct S();", "pub struct S<T>(T);", "struct S<'a>(&'a str);", "struct S(pub usize, pub usize);"] {
        let ts = TokenStream::from_str(src).unwrap();
        o.case("derive other items", src, Bad, || derive_scalar_macro(ts).map_err(|e| e.to_string()), || format!("{d} {src}"));
    }
    for src in ["union U { a: u8, b: u16 }", "union U { a: u8 }"] {
        let ts = TokenStream::from_str(src).unwrap();
        o.case("derive other items", src, Bad, || derive_scalar_macro(ts).map_err(|e| e.to_string()), || format!("#[derive(Scalar, Clone, Copy)] {src}"));
    }
    // token edits of derive inputs: no panic
    for base in ["enum E { A , B , C }", "pub enum E { A }", "enum E { A = 1 , B }", "struct S { a : u8 }", "#[repr(u8)] enum E < const N : usize > where u8 : Copy { A , B ( u8 ) }"] {
        let t: Vec<&'static str> = base.split(' ').collect();
        for e in edits(&t) {
            let src = e.join(" ");
            let Ok(ts) = TokenStream::from_str(&src) else { continue };
            o.case("derive token edits", &src, Unknown, || derive_scalar_macro(ts).map_err(|e| e.to_string()), String::new);
        }
    }
}

fn emitter(o: &mut Out) {
    let names: &[Option<&str>] = &[None, Some("M"), Some(""), Some("1abc"), Some("a b"), Some("my-map"), Some("a::b"), Some("r#"), Some("r#type"), Some("fn"), Some("_"), Some(" a"), Some("a "), Some("é"), Some("🦀"), Some("a/**/"), Some("'a"), Some("\"s\""), Some("r#self"), Some("r#_"), Some("a\0"), Some("self"), Some("\u{200b}")];
    let plain = |s: &str| matches!(s, "M" | "r#type" | "é");
    let never = |s: &str| !matches!(s, "M" | "r#type" | "é" | "fn" | "_" | "self");
    for how in 0..4usize {
        for n in [0usize, 1, 5, 20] {
            for sym in names {
                for alias in names {
                    if sym.is_some_and(|s| s != "M") && alias.is_some_and(|s| s != "M") && sym != alias {
                        continue;
                    }
                    for flags in 0..32u32 {
                        let (stat, mutable, ck, cv, set) = (flags & 1 > 0, flags & 2 > 0, flags & 4 > 0, flags & 8 > 0, flags & 16 > 0);
                        if (sym.is_some_and(|s| s != "M") || alias.is_some_and(|s| s != "M")) && (ck != cv) {
                            continue;
                        }
                        let inconsistent = stat && mutable || stat && sym.is_none() || mutable && sym.is_none() || alias.is_some() && sym.is_none();
                        let odd = [sym, alias].into_iter().flatten().any(|s| never(s));
                        let v = if inconsistent || odd {
                            Bad
                        } else if [sym, alias].into_iter().flatten().all(|s| plain(s)) {
                            Good
                        } else {
                            Unknown
                        };
                        let desc = format!("emit {} of {n} entries: symbol {sym:?} alias {alias:?} static {stat} mutable {mutable} const keys {ck} const values {cv} {}", ["hash", "ordered", "scalar", "string"][how], if set { "set" } else { "map" });
                        let kt: Type = parse_str(if how == 3 { "&'static str" } else { "u8" }).unwrap();
                        let mut code = None;
                        let mut run = || -> Result<TokenStream, String> {
                            let mut e = CollectionEmitter::new(&kt).const_keys(ck).const_values(cv).static_instance(stat).mutable(mutable).visibility(Visibility::Inherited);
                            if !set {
                                e = e.value_type(&parse_str("u32").unwrap());
                            }
                            if let Some(s) = sym {
                                e = e.symbol_name(s);
                            }
                            if let Some(s) = alias {
                                e = e.alias_name(s);
                            }
                            let ke = |i: usize| parse_str::<Expr>(&if how == 3 { format!("\"k{i}\"") } else { format!("{i}u8") }).unwrap();
                            let ve = || parse_str::<Expr>("7").unwrap();
                            if how == 3 {
                                return e.emit_string_collection((0..n).map(|i| if set { CollectionEntry::set_entry(format!("k{i}"), ke(i)) } else { CollectionEntry::map_entry(format!("k{i}"), ke(i), ve()) }).collect());
                            }
                            let es: Vec<CollectionEntry<u8>> = (0..n).map(|i| if set { CollectionEntry::set_entry(i as u8, ke(i)) } else { CollectionEntry::map_entry(i as u8, ke(i), ve()) }).collect();
                            match how {
                                0 => e.emit_hash_collection(es),
                                1 => e.emit_ordered_collection(es),
                                _ => e.emit_scalar_collection(es),
                            }
                        };
                        o.case("emitter configurations", &desc, v, || run().inspect(|t| code = Some(t.to_string())), || String::new());
                        if v == Bad {
                            if let Some(code) = code {
                                let p = if stat { code } else { format!("fn f() {{ {code}; }}") };
                                if o.sent.insert(p.clone()) {
                                    o.line("emitter configurations", &desc, "i", &p);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn main() {
    let deep = std::env::args().any(|x| x == "--thorough");
    if std::env::var_os("MC_SHOW").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut o = Out { t: BTreeMap::new(), sent: BTreeSet::new(), bad: 0 };
    o.sent.insert(String::new());
    for m in 0..8 {
        for (bi, b) in bases(m).into_iter().enumerate() {
            if judge(m, &b) != Good {
                panic!("recogniser rejects base {bi} of {}: {}", MACROS[m], b.join(" "));
            }
            mac(&mut o, "macro bases", m, &b);
            // the text of one macro given to the others
            for other in 0..8 {
                mac(&mut o, "wrong macro", other, &b);
            }
            let first = edits(&b);
            for e in &first {
                mac(&mut o, "macro token edits", m, e);
            }
            if deep && b.len() <= 14 {
                for e in &first {
                    for f in edits(e) {
                        mac(&mut o, "macro token edit pairs", m, &f);
                    }
                }
            }
        }
        // every short token sequence
        let voc = ["{", "}", ",", ":", "let", "static", "pub", "M", "<", ">", "1u8", "\"s\"", "x", "-"];
        for n in 0..=if deep { 5u32 } else { 4 } {
            for x in 0..voc.len().pow(n) {
                let t: Vec<&str> = (0..n).map(|i| voc[x / voc.len().pow(i) % voc.len()]).collect();
                let depth: i32 = t.iter().map(|t| (*t == "{") as i32 - (*t == "}") as i32).sum();
                if depth == 0 && !t.is_empty() {
                    mac(&mut o, "short token sequences", m, &t);
                }
            }
        }
        if let Ok(ts) = TokenStream::from_str("") {
            o.case("short token sequences", &format!("{}!()", MACROS[m]), Bad, || FNS[m](ts).map_err(|e| e.to_string()), || format!("fn f() {{ {}!{{}}; }}", MACROS[m]));
        }
    }
    derive(&mut o, deep);
    emitter(&mut o);
    let sc: BTreeMap<&String, serde_json::Value> = o.t.iter().map(|(k, t)| (k, serde_json::json!({"cases": t.inputs, "states": t.distinct.len(), "rejected": t.rejected, "accepted": t.accepted, "verdicts": t.verdicts}))).collect();
    println!("{}", serde_json::json!({"tally": sc, "panics": o.bad}));
}
