"""C20: ill-formed compile-time input. Stage 1 (mc/src/bin/e20.rs) drives the macro and emitter functions; stage 2
compiles what stage 1 did not reject although it is ill-formed, and what only the compiler can reject."""
import json
import genlib

BOUND = ("every single-token deletion, duplication, swap, truncation, and insertion/replacement by 50 tokens or short token groups at every position of 98 macro uses (8 macros x 11-13 forms); every token sequence of up to 4 (thorough 5) tokens over a 14-token vocabulary; "
         "every macro given the others' text; thorough: every pair of such edits of the short uses; every enum of up to 3 (thorough 5) variants of 8 shapes, other items, token edits of derive inputs; emitter: 4 kinds x 4 sizes x all flag combinations x 23 x 23 names")
D = "#[derive(Scalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] "
DV = "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] "

FIXED = [
    ("derive", "struct", D + "pub struct S(u8);"),
    ("derive", "unit struct", D + "pub struct S;"),
    ("derive", "enum with data", D + "pub enum E { A, B(u8) }"),
    ("derive", "enum with named data", D + "pub enum E { A, B { x: u8 } }"),
    ("derive", "empty tuple variant", D + "pub enum E { A, B() }"),
    ("derive", "empty struct variant", D + "pub enum E { A, B {} }"),
    ("derive", "discriminants", D + "pub enum E { A = 1, B }"),
    ("derive", "discriminant on the last variant", D + "pub enum E { A, B = 7 }"),
    ("derive", "empty enum", D + "pub enum E {}"),
    ("derive", "without Copy", "#[derive(Scalar, PartialEq, Eq, PartialOrd, Ord)] pub enum E { A, B }"),
    ("derive", "without Ord", "#[derive(Scalar, Clone, Copy)] pub enum E { A, B }"),
    ("key types", "FzScalarMap<String>", "pub fn f() { let _ = FzScalarMap::<String, u8>::new(vec![(String::new(), 1)]); }"),
    ("key types", "FzScalarMap<&str>", "pub fn f() { let _ = FzScalarMap::<&str, u8>::new(vec![(\"a\", 1)]); }"),
    ("key types", "FzScalarMap<f64>", "pub fn f() { let _ = FzScalarMap::<f64, u8>::new(vec![(1.0, 1)]); }"),
    ("key types", "FzScalarMap<(u8, u8)>", "pub fn f() { let _ = FzScalarMap::<(u8, u8), u8>::new(vec![((1, 2), 1)]); }"),
    ("key types", "FzScalarMap<enum with data>", DV + "pub enum E { A, B(u8) } pub fn f() { let _ = FzScalarMap::<E, u8>::new(vec![(E::A, 1)]); }"),
    ("key types", "FzScalarSet<String>", "pub fn f() { let _ = FzScalarSet::<String>::new(vec![String::new()]); }"),
    ("key types", "FzHashMap<f64>", "pub fn f() { let _ = FzHashMap::<f64, u8>::new(vec![(1.0, 1)]); }"),
    ("key types", "FzOrderedMap<f64>", "pub fn f() { let _ = FzOrderedMap::<f64, u8>::new(vec![(1.0, 1)]); }"),
    ("key types", "FzOrderedSet of unordered keys", "#[derive(PartialEq, Eq, Hash)] pub struct K; pub fn f() { let _ = FzOrderedSet::new(vec![K]); }"),
    ("key types", "FzHashSet of unhashable keys", "#[derive(PartialEq, Eq, PartialOrd, Ord)] pub struct K; pub fn f() { let _ = FzHashSet::new(vec![K]); }"),
    ("key types", "fz_scalar_map with String expressions", "pub fn f() { let m = fz_scalar_map!({ String::from(\"a\"): 1, String::from(\"b\"): 2, String::from(\"c\"): 2, String::from(\"d\"): 2, String::from(\"e\"): 2, String::from(\"f\"): 2, String::from(\"g\"): 2, String::from(\"h\"): 2 }); }"),
    ("key types", "fz_hash_map declared u8, keys u16", "pub fn f() { fz_hash_map!(let m: T<u8, u8>, { 1u16: 1, 2u16: 2 }); }"),
    ("key types", "fz_hash_map declared u8, key expressions u16", "pub fn k(x: u16) -> u16 { x } pub fn f() { fz_hash_map!(let m: T<u8, u8>, { k(1): 1, k(2): 2 }); }"),
    ("key types", "fz_scalar_set declared u8, keys i8", "pub fn f() { fz_scalar_set!(let m: T<u8>, { 1i8, 2i8 }); }"),
    ("key types", "fz_string_map declared String, literal keys", "pub fn f() { fz_string_map!(let m: T<String, u8>, { \"a\": 1 }); }"),
    ("key types", "value of another type", "pub fn f() { fz_hash_map!(let m: T<u8, &'static str>, { 1u8: \"a\", 2u8: 2 }); }"),
    ("key types", "values of two types", "pub fn f() { let m = fz_hash_map!({ 1u8: \"a\", 2u8: 2, 3u8: 'c' }); }"),
    ("key types", "keys of two types", "pub fn f() { let m = fz_hash_map!({ String::new(): 1, 'c': 2, (): 3 }); }"),
    ("key types", "mixed expression keys", "pub fn f() { let (a, b) = (1u8, 2u16); let m = fz_ordered_map!({ a: 1, b: 2, a: 3 }); }"),
    ("mutability", "get_mut on a `let` map", "pub fn f() { fz_hash_map!(let m: T<u8, u8>, { 1u8: 1 }); m.get_mut(&1u8); }"),
    ("mutability", "get_mut on a static map", "fz_scalar_map!(static M: T<u8, u8>, { 1u8: 1, 9u8: 2 }); pub fn f() { M.get_mut(&1u8); }"),
    ("mutability", "assignment to a `let` set", "pub fn f() { fz_hash_set!(let m: T<u8>, { 1u8 }); m = m.clone(); }"),
    ("mutability", "static mut", "fz_scalar_map!(static mut M: T<u8, u8>, { 1u8: 1, 9u8: 2 });"),
    ("visibility", "private static used outside", "mod inner { use super::*; fz_scalar_map!(static M: T<u8, u8>, { 1u8: 1, 9u8: 2 }); } pub fn f() { let _ = inner::M.get(&1); }"),
    ("visibility", "private alias used outside", "mod inner { use super::*; fz_scalar_set!(static M: T<u8>, { 1u8, 9u8 }); } pub fn f(_: &inner::T) {}"),
    ("visibility", "pub(super) static used two levels up", "mod inner { pub mod deep { use super::super::*; fz_scalar_set!(pub(super) static M: T<u8>, { 1u8, 9u8 }); } } pub fn f() { let _ = &inner::deep::M; }"),
    ("values", "declared value type missing", "pub fn f() { fz_hash_map!(let m: T<u8>, { 1u8: 1 }); }"),
    ("values", "value type on a set", "pub fn f() { fz_hash_set!(let m: T<u8, u8>, { 1u8 }); }"),
    ("values", "literal that does not fit", "pub fn f() { let m = fz_hash_map!({ 256u8: 1 }); }"),
    ("values", "literal that does not fit among expressions", "pub fn f() { let x = 1u8; let m = fz_hash_map!({ x: 1, 256u8: 1 }); }"),
    ("values", "negated unsigned literal", "pub fn f() { let m = fz_hash_map!({ -1u8: 1 }); }"),
    ("values", "unsuffixed literal beyond i32", "pub fn f() { let m = fz_hash_map!({ 3000000000: 1 }); }"),
]


def explore(d, tier):
    exe = d.cargo_bin("mc", "e20")
    rc, out, err = d.sh([exe] + (["--thorough"] if tier == "thorough" else []), d.VERIF, 600 if tier == "quick" else 3 * 3600, mem_gb=20)
    if rc < 0:
        return {"cases": 1, "states": 0, "transitions": 0, "samples": [], "bounds": [BOUND], "scenarios": {},
                "violations": [{"scenario": "stage 1", "case": 0, "input": "see the last lines", "failure": "the process was killed by signal %d\n%s\n%s" % (-rc, out[-1500:], err[-1500:])}]}
    if rc != 0:
        raise d.Engine("stage 1 rc=%s\n%s\n%s" % (rc, out[-1000:], err[-3000:]))
    bad, later, tally = [], [], {}
    for l in out.splitlines():
        c = json.loads(l)
        if "bad" in c:
            bad.append({"scenario": c["s"], "case": len(bad), "input": c["d"], "failure": c["bad"]})
        elif "i" in c:
            later.append((c["s"], c["d"], c["i"]))
        elif "tally" in c:
            tally = c["tally"]
    n = sum(t["cases"] for t in tally.values())
    r = {"cases": n, "states": sum(t["states"] for t in tally.values()), "transitions": n, "samples": ["%s: %s" % (a, b) for a, b, _ in later[:4]], "bounds": [BOUND], "scenarios": tally, "violations": bad}
    if bad:
        return r
    q = genlib.must_reject(d, "C20", later + FIXED, "ill-formed inputs that pass stage 1 and %d fixed programs that only rustc can reject, each compiled" % len(FIXED))
    return genlib.merge([r, q])
