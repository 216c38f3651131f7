"""C14: where and how a macro use stands: no imports, generic functions, borrowed and moved operands, expression positions, nested
uses, raw identifiers, every edition."""
MACS = {"hash": ("fz_hash", "u32"), "ordered": ("fz_ordered", "u32"), "scalar": ("fz_scalar", "u32"), "string": ("fz_string", "&'static str")}
R = "use mc::{ensure, ensure_eq, Obs, R};\n"
FC = "::frozen_collections::"


def keys(mac, n, computed=False):
    if mac == "string":
        return ['"%s"' % ("k%d" % (i * 7919 % 97)) for i in range(n)]
    return [("n(%d)" if computed else "%du32") % (i * (3 if mac == "scalar" else 1009) + 5) for i in range(n)]


def body(ks, vals=None):
    return "{ %s }" % ", ".join(k if vals is None else "%s: %s" % (k, v) for k, v in zip(ks, vals or ks))


def cases(deep, edition="2024"):
    out = []
    sizes = (1, 2, 3, 4, 5, 9) + ((33, 300) if deep else ())

    def add(scen, desc, code):
        out.append(("surroundings/" + scen, desc + ("" if edition == "2024" else " [edition %s]" % edition), R + code))

    def get(mac, m, k):
        return "%s.get(%s)" % (m, k if mac == "string" else "&" + k)

    for mac in MACS:
        nm, kt = MACS[mac]
        for computed in (False, True) if mac != "string" else (False,):
            fn = "fn n(x: u32) -> u32 { x }\n" if computed else ""
            how = "computed" if computed else "literal"
            for n in sizes:
                ks = keys(mac, n, computed)
                m, s = FC + nm + "_map", FC + nm + "_set"
                vals = ["%du8" % (i % 251) for i in range(n)]
                test_map = "".join("ensure_eq!(%s, Some(&%s), \"key\");\n" % (get(mac, "m", k), v) for k, v in zip(ks, vals)) + "ensure_eq!(m.len(), %d, \"length\");\n" % n
                test_set = "".join("ensure!(s.contains(%s), \"key\");\n" % (k if mac == "string" else "&" + k) for k in ks) + "ensure_eq!(s.len(), %d, \"length\");\n" % n
                end = "o.t(%d); o.state(&(%d, %s)); Ok(())" % (2 * n + 2, n, '"%s %s"' % (mac, how))
                what = "%s, %d %s keys" % (mac, n, how)
                # nothing imported
                for form in ("short", "let", "static"):
                    if form == "short":
                        c = "pub fn m() -> impl Fn(%s) -> Option<u8> { let m = %s!(%s); move |k| m.get(%sk).copied() }\npub fn s() -> usize { %s!(%s).len() }\n" % (kt, m, body(ks, vals), "" if mac == "string" else "&", s, body(ks))
                    elif form == "let":
                        c = "pub fn m() -> impl Fn(%s) -> Option<u8> { %s!(let m: T<%s, u8>, %s); move |k| m.get(%sk).copied() }\npub fn s() -> usize { %s!(let s: T<%s>, %s); s.len() }\n" % (kt, m, kt, body(ks, vals), "" if mac == "string" else "&", s, kt, body(ks))
                    else:
                        c = "%s!(static M: T<%s, u8>, %s);\n%s!(pub static S: U<%s>, %s);\npub fn m() -> impl Fn(%s) -> Option<u8> { move |k| M.get(%sk).copied() }\npub fn s() -> usize { S.len() }\n" % (m, kt, body(ks, vals), s, kt, body(ks), kt, "" if mac == "string" else "&")
                    add("nothing imported", "%s, %s" % (what, form), "mod bare {\n%s%s}\n%spub fn run(o: &mut Obs) -> R {\nlet m = bare::m();\n%sensure_eq!(bare::s(), %d, \"set length\");\n%s\n}" % (fn, c, fn, "".join("ensure_eq!(m(%s), Some(%s), \"key\");\n" % kv for kv in zip(ks, vals)), n, end))
                # a generic function: values, and where the macro allows it keys, of a type parameter
                add("generic values", what, fn + "fn g<V: Clone + PartialEq + core::fmt::Debug>(o: &mut Obs, v: V, w: V) -> R {\nlet m = %s!(%s);\n%s%s\n}\npub fn run(o: &mut Obs) -> R { g(o, String::from(\"v\"), String::from(\"w\"))?; g(o, 1.5f32, 2.5f32)?; g(o, vec![()], vec![]) }" % (
                    m, body(ks, ["%s.clone()" % "vw"[i % 2] for i in range(n)]), "".join("ensure_eq!(%s, Some(&%s), \"key\");\n" % (get(mac, "m", k), "vw"[i % 2]) for i, k in enumerate(ks)), end))
                # moved, borrowed, mutably borrowed operands
                add("moved values", what, fn + "struct W(u8);\npub fn run(o: &mut Obs) -> R {\n%slet m = %s!(%s);\n%s%s\n}" % ("".join("let v%d = W(%d);\n" % (i, i % 251) for i in range(n)), m, body(ks, ["v%d" % i for i in range(n)]), "".join("ensure_eq!(%s.map(|w| w.0), Some(%d), \"key\");\n" % (get(mac, "m", k), i % 251) for i, k in enumerate(ks)), end))
                add("borrowed values", what, fn + "pub fn run(o: &mut Obs) -> R {\nlet mut a = vec![0u32; %d];\n{\nlet mut it = a.iter_mut();\nlet mut m = %s!(%s);\n%s}\nensure!(a.iter().all(|x| *x > 0), \"updates\");\n%s\n}" % (n, m, body(ks, ["it.next().unwrap()"] * n), "".join("**m.get_mut(%s).unwrap() += 1;\n" % (k if mac == "string" else "&" + k) for k in ks), end))
                # as part of an expression
                add("expression positions", what, fn + """struct F<A, B> { a: A, b: B }
pub fn run(o: &mut Obs) -> R {
let f = F { a: MAP, b: SET };
ensure_eq!(f.a.len() + f.b.len(), 2 * N, "field");
let (m, s) = (MAP, SET);
TESTMTESTSlet c = || MAP;
let m = c();
TESTMlet v = [1, 2].map(|i| (i, SET));
let s = &v[1].1;
TESTSensure!(match MAP.get(KEY) { Some(v) => *v == VAL, None => false }, "scrutinee");
ensure!(if SET.contains(KEY) { true } else { false }, "condition");
let m = { MAP };
TESTMlet m = Some(MAP).unwrap();
TESTMlet mut t = 0; for (_, v) in MAP { t += v as usize; } for k in &SET { t += core::mem::size_of_val(k); }
ensure!(t > 0 || N == 1, "loop");
END
}""".replace("TESTM", test_map).replace("TESTS", test_set).replace("MAP", m + "!(" + body(ks, vals) + ")").replace("SET", s + "!(" + body(ks) + ")").replace("KEY", ks[-1] if mac == "string" else "&" + ks[-1]).replace("VAL", vals[-1]).replace("END", end).replace(" N ", " %d " % n).replace("* N,", "* %d," % n))
                # a map of maps
                add("nested uses", what, fn + "pub fn run(o: &mut Obs) -> R {\nlet mm = %s!(%s);\n%s%s\n}" % (m, body(ks, [m + "!(" + body(ks, vals) + ")"] * n), "".join("{ let m = %s.unwrap();\n%s}\n" % (get(mac, "mm", k), test_map) for k in ks[:3]), end))
                # raw identifiers, the same names again, shadowing
                add("identifiers", what, fn + "pub fn run(o: &mut Obs) -> R {\n%s!(let r#type: r#Match<%s, u8>, %s);\nlet m: &r#Match = &r#type;\n%s{\n%s!(let r#type: r#Match<%s>, %s);\nlet s: r#Match = r#type;\n%s}\n%s!(let mut _x: T<%s>, %s);\nlet s = &mut _x;\n%s%s\n}" % (
                    m, kt, body(ks, vals), test_map, s, kt, body(ks), test_set, s, kt, body(ks), test_set, end))
                # from inside a macro of the caller
                add("own macro", what, fn + "macro_rules! mk { () => {{ let m = %s!(%s); m }}; (set) => { %s!(%s) }; }\npub fn run(o: &mut Obs) -> R {\nlet m = mk!();\n%slet s = mk!(set);\n%s%s\n}" % (m, body(ks, vals), s, body(ks), test_map, test_set, end))
                # twice in one scope
                add("two uses", what, fn + "pub fn run(o: &mut Obs) -> R {\n%s!(let m: A<%s, u8>, %s);\n%s!(let s: B<%s>, %s);\nlet m2 = %s!(%s);\n%s%slet m = m2;\n%s%s\n}" % (m, kt, body(ks, vals), s, kt, body(ks), m, body(ks, vals), test_map, test_set, test_map, end))
    # keys of a type parameter, borrowed keys
    for mac in ("hash", "ordered"):
        for n in (1, 2, 3) + ((4, 9) if mac == "ordered" or True else ()):
            nm = FC + MACS[mac][0]
            ks = ["f(%d)" % i for i in range(n)]
            end = "o.t(%d); o.state(&%d); Ok(())" % (n, n)
            add("generic keys", "%s, %d keys" % (mac, n), "fn g<K: core::hash::Hash + Ord + Clone>(o: &mut Obs, f: impl Fn(usize) -> K) -> R {\nlet m = %s_map!(%s);\nlet s = %s_set!(%s);\nfor i in 0..%d { ensure_eq!(m.get(&f(i)), Some(&7u8), \"key\"); ensure!(s.contains(&f(i)), \"member\"); }\nensure!(m.get(&f(%d)).is_none(), \"absent\");\n%s\n}\npub fn run(o: &mut Obs) -> R { g(o, |i| i)?; g(o, |i| i.to_string())?; g(o, |i| (i, 'x')) }" % (
                nm, body(ks, ["7u8"] * n), nm, body(ks), n, n + 1, end))
            add("borrowed keys", "%s, %d keys" % (mac, n), "fn g(o: &mut Obs, text: &str) -> R {\nlet own = text.to_string();\nlet f = |i: usize| -> &str { if i %% 2 == 0 { own.split_at(i).0 } else { text.split_at(i).0 } };\nlet m = %s_map!(%s);\nlet s = %s_set!(%s);\nfor i in 0..%d { ensure_eq!(m.get(&f(i)), Some(&7u8), \"key\"); ensure!(s.contains(&f(i)), \"member\"); }\nensure!(m.get(&\"zz\").is_none(), \"absent\");\n%s\n}\npub fn run(o: &mut Obs) -> R { g(o, \"abcdefghijklmn\") }" % (
                nm, body(ks, ["7u8"] * n), nm, body(ks), n, end))
    return out
