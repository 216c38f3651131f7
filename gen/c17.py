"""C17, compile-time half: programs that would alias or outlive an entry through safe calls must not compile."""
import genlib

TY = {
    "FzHashMap": ("FzHashMap<u8, String>", "FzHashMap::new(vec![(1u8, String::new()), (2, String::new())])", "1"),
    "FzOrderedMap": ("FzOrderedMap<u8, String>", "FzOrderedMap::new(vec![(1u8, String::new()), (2, String::new())])", "1"),
    "FzScalarMap": ("FzScalarMap<u8, String>", "FzScalarMap::new(vec![(1u8, String::new()), (2, String::new())])", "1"),
    "FzStringMap": ("FzStringMap<Box<str>, String>", "FzStringMap::new(vec![(\"a\", String::new()), (\"b\", String::new())])", "\"a\""),
    "inline": (None, "fz_hash_map!({ 1u8: String::new(), 2u8: String::new() })", "1"),
    "inline dense": (None, "fz_scalar_map!({ 1u8: String::new(), 2u8: String::new(), 3u8: String::new() })", "1"),
    "inline ordered": (None, "fz_ordered_map!({ 1u8: String::new(), 20u8: String::new(), 3u8: String::new(), 99u8: String::new() })", "1"),
    "inline string": (None, "fz_string_map!({ \"a\": String::new(), \"b\": String::new(), \"cc\": String::new(), \"d\": String::new() })", "\"a\""),
}
SETS = {
    "FzHashSet": "FzHashSet::new(vec![String::from(\"a\")])",
    "FzOrderedSet": "FzOrderedSet::new(vec![String::from(\"a\")])",
    "FzStringSet": "FzStringSet::new(vec![\"a\"])",
}


def cases():
    out = []
    for n, (ty, mk, k) in TY.items():
        k = "&" + k if not k.startswith('"') else k
        for d, body in [
            ("value reference outlives the map", "let r; { let m = MK; r = m.get(K); } let _ = r.map(|x| x.len());"),
            ("value reference kept across a drop", "let m = MK; let r = m.get(K); drop(m); let _ = r.map(|x| x.len());"),
            ("two mutable references to one value", "let mut m = MK; let a = m.get_mut(K); let b = m.get_mut(K); let _ = (a.map(|x| x.len()), b.map(|x| x.len()));"),
            ("shared and mutable reference together", "let mut m = MK; let a = m.get(K); let b = m.get_mut(K); let _ = (a.map(|x| x.len()), b.map(|x| x.len()));"),
            ("iterator kept across a write", "let mut m = MK; let it = m.iter(); m.get_mut(K).unwrap().push('x'); let _ = it.count();"),
            ("mutable iterator and lookup", "let mut m = MK; let mut it = m.iter_mut(); let a = it.next(); let _ = m.get(K); let _ = a.map(|x| x.1.len());"),
            ("values_mut and iteration", "let mut m = MK; let mut it = m.values_mut(); let a = it.next(); for _ in m.iter() {} let _ = a.map(|x| x.len());"),
            ("mutable item outlives the map", "let a; { let mut m = MK; a = m.iter_mut().next(); } let _ = a.map(|x| x.1.len());"),
            ("value item outlives the map", "let a; { let m = MK; a = m.values().next(); } let _ = a.map(|x| x.len());"),
            ("mutable value outlives the map", "let a; { let mut m = MK; a = m.values_mut().next(); } let _ = a.map(|x| x.len());"),
            ("key/value reference outlives the map", "let a; { let m = MK; a = m.get_key_value(K); } let _ = a.map(|x| x.1.len());"),
            ("disjoint references overlap a lookup", "let mut m = MK; let a = m.get_disjoint_mut([K]); let _ = m.get(K); let _ = a;"),
            ("disjoint references outlive the map", "let a; { let mut m = MK; a = m.get_disjoint_mut([K]); } let _ = a;"),
            ("disjoint references taken twice", "let mut m = MK; let a = m.get_disjoint_mut([K]); let b = m.get_disjoint_mut([K]); let _ = (a, b);"),
            ("keys are writable", "let mut m = MK; for (k, _) in m.iter_mut() { *k = Default::default(); }"),
            ("use after into_iter", "let m = MK; let it = m.into_iter(); let _ = m.len(); let _ = it.count();"),
            ("mutable iterator cloned", "let mut m = MK; let it = m.iter_mut(); let b = it.clone(); let _ = (it.count(), b.count());"),
            ("values_mut cloned", "let mut m = MK; let it = m.values_mut(); let b = it.clone(); let _ = (it.count(), b.count());"),
            ("writing through a shared reference", "let m = MK; m.get(K).unwrap().push('x');"),
            ("writing through values()", "let m = MK; m.values().next().unwrap().push('x');"),
        ]:
            out.append(("borrowing/" + n, d, "pub fn f() { use frozen_collections::*; " + body.replace("MK", mk).replace("K)", k + ")").replace("[K]", "[" + k + "]") + " }"))
    for n, mk in SETS.items():
        for d, body in [
            ("member reference outlives the set", "let r; { let m = MK; r = m.get(\"a\"); } let _ = r.map(|x| x.len());"),
            ("item outlives the set", "let r; { let m = MK; r = m.iter().next(); } let _ = r.map(|x| x.len());"),
            ("union outlives its operand", "let m = MK; let r; { let n = MK; r = m.union(&n); } let _ = r.count();"),
            ("intersection outlives its operand", "let m = MK; let r; { let n = MK; r = m.intersection(&n).next(); } let _ = r.map(|x| x.len());"),
            ("difference outlives its operand", "let n = MK; let r; { let m = MK; r = m.difference(&n).next(); } let _ = r.map(|x| x.len());"),
            ("symmetric difference outlives its operand", "let m = MK; let r; { let n = MK; r = m.symmetric_difference(&n).next(); } let _ = r.map(|x| x.len());"),
        ]:
            out.append(("borrowing/" + n, d, "pub fn f() { use frozen_collections::*; " + body.replace("MK", mk) + " }"))
    rc = "std::rc::Rc<u8>"
    cell = "std::cell::Cell<u8>"
    pre = "fn send<T: Send>(_: T) {} fn sync<T: Sync>(_: T) {} "
    for n in ("FzHashMap<u8, %s>", "FzOrderedMap<u8, %s>", "FzScalarMap<u8, %s>", "FzStringMap<Box<str>, %s>"):
        out.append(("threads", "%s is not Send" % (n % rc), pre + "pub fn f(m: %s) { send(m) }" % (n % rc)))
        out.append(("threads", "%s is not Sync" % (n % cell), pre + "pub fn f(m: %s) { sync(m) }" % (n % cell)))
        for it in ("iter", "values", "keys", "iter_mut", "values_mut", "into_iter"):
            vt = cell if it not in ("iter_mut", "values_mut", "into_iter") else rc
            if it != "keys":
                out.append(("threads", "%s of %s is not Send" % (it, n % vt), pre + "pub fn f(mut m: %s) { send(m.%s()) }" % (n % vt, it)))
    for n in ("FzHashSet<%s>", "FzOrderedSet<%s>"):
        out.append(("threads", "%s is not Send" % (n % rc), pre + "pub fn f(m: %s) { send(m) }" % (n % rc)))
        out.append(("threads", "%s iterator is not Send" % (n % rc), pre + "pub fn f(m: %s) { send(m.iter()) }" % (n % rc)))
    out.append(("threads", "inline map of Rc is not Send", pre + "pub fn f() { send(fz_hash_map!({ 1u8: std::rc::Rc::new(1u8) })) }"))
    out.append(("threads", "inline map of Cell is not Sync", pre + "pub fn f() { sync(fz_scalar_map!({ 1u8: std::cell::Cell::new(1u8), 2u8: std::cell::Cell::new(1u8) })) }"))
    return out


def explore(d, tier):
    return genlib.must_reject(d, "C17", cases(), "programs that alias, outlive or share entries across threads through safe calls (8 map kinds x 20, 3 set kinds x 6, Send/Sync): each must be rejected by rustc")
