"""C14: the bounded grammar of macro uses."""
import itertools
import c14be
import c14f
import c14s
import genlib

INT = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
BITS = {"8": 8, "6": 16, "2": 32, "4": 64, "e": 64}


def bits(t):
    return {"8": 8, "16": 16, "32": 32, "64": 64}.get(t.lstrip("ui"), 64)


def top(t):
    return 2 ** (bits(t) - (t[0] == "i")) - 1


def notation(v, how):
    return [str(v), hex(v), oct(v), bin(v), "_".join(str(v)) + ("_" if how == 4 else "")][how]


class Use:
    """one macro use: `keys` are source texts, `kt` the key type"""

    def __init__(self, mac, kind, kt, keys, form, vt="u32", pre="", scen="", note="", trailing=True, vals=None, by_str=False, exprs=None, ekt=None):
        self.__dict__.update(locals())

    def case(self):
        m, isset = self.mac, self.kind == "set"
        vals = self.vals or [str(100 + i) for i in range(len(self.keys))]
        ents = [k if isset else "%s: %s" % (k, v) for k, v in zip(self.keys, vals)]
        body = "{ " + ", ".join(ents) + (", " if self.trailing and ents else " ") + "}"
        name = "fz_%s_%s" % (m, self.kind)
        gen = "T<%s>" % self.kt if isset else "T<%s, %s>" % (self.kt, self.vt)
        # the listed entries as run-time data (typed)
        ks = self.exprs or self.keys
        ekt = self.ekt or self.kt
        exp = ["{ let k: %s = %s; k%s }" % (self.kt, k, ".into()" if self.ekt else "") for k in ks]
        if not isset:
            exp = ["(%s, { let v: %s = %s; v })" % (k, self.vt, v) for k, v in zip(exp, vals)]
        exp = "vec![%s] as Vec<%s>" % (", ".join(exp), ekt if isset else "(%s, %s)" % (ekt, self.vt))
        chk = "gp::set(o, &%s, e)" if isset else "gp::map(o, &%s, e)"
        f = self.form
        items = ""
        bump = {"u32": "|v: &mut u32| *v += 1000", "String": "|v: &mut String| v.push('!')", "&'static str": '|v: &mut &\'static str| *v = if *v == "n1" { "n2" } else { "n1" }',
                "()": "|v: &mut ()| {}"}.get(self.vt, "|v| {}")
        if f == "short":
            run = "%s\nlet m = %s!(%s);\nlet e = %s;\n" % (self.pre, name, body, exp) + chk % "m"
        elif f == "let":
            run = "%s\n%s!(let m: %s, %s);\nlet e = %s;\nlet r: &T = &m;\n" % (self.pre, name, gen, body, exp) + chk % "m"
        elif f == "let mut":
            if isset:
                run = "%s\n%s!(let mut m: %s, %s);\nlet e = %s;\nlet c: T = m.clone(); m = c;\n" % (self.pre, name, gen, body, exp) + chk % "m"
            else:
                run = "%s\n%s!(let mut m: %s, %s);\nlet e = %s;\ngp::map_mut(o, &mut m, e, %s)" % (self.pre, name, gen, body, exp, bump)
        elif f == "fn static":
            run = "%s\n%s!(static M: %s, %s);\nlet e = %s;\nlet r: &T = &M;\n" % (self.pre, name, gen, body, exp) + chk % "*r"
        else:  # module-level static with a visibility
            vis = f[: -len("static")]
            items = "mod inner { use super::*; %s\n%s!(%sstatic M: %s, %s); pub fn all() -> &'static T { &M } }\n" % (self.pre, name, vis, gen, body)
            acc = "inner::M" if vis else None
            run = "%s\nlet e = %s;\n" % (self.pre, exp)
            if acc:
                run += "let r: &inner::T = &inner::M;\n" + chk % "*r"
            else:
                run += "let r = inner::all();\n" + chk % "*r"
        if self.by_str:
            acc = {"short": "m", "let": "m", "let mut": "m"}.get(f, "r")
            es = "vec![%s]" % ", ".join("(%s.to_string(), %s)" % (k, "()" if isset else v) for k, v in zip(ks, vals))
            get = "if %s.contains(q) { Some(()) } else { None }" % acc if isset else "%s.get(q).copied()" % acc
            run = run + "?;\ngp::by_str(o, &%s, &|q: &str| %s)" % (es, get)
            if f == "let mut" and not isset:
                run = run.replace("gp::by_str(o, &%s, &|q: &str| %s)" % (es, get), "Ok(())")
        desc = "%s!(%s %s)" % (name, "" if f == "short" else f + " .. " + gen + ",", body)
        return (self.scen, desc + (" [" + self.note + "]" if self.note else ""), items + "pub fn run(o: &mut Obs) -> R {\n" + run + "\n}")


VPRE = "const fn if_(n: u32) -> u32 { n + 1 } const ARR: [u32; 2] = [5, 6]; #[derive(Clone, Copy, Debug, PartialEq, Eq)] struct W { a: u8, b: i8 } impl W { const D: W = W { a: 9, b: 9 }; }"
FORMS = ["short", "let", "let mut", "fn static", "static", "pub static", "pub(crate) static"]


def int_layouts(t, deep):
    M = top(t)
    sizes = list(range(1, 11)) + ([17, 33] if not deep else [11, 12, 13, 16, 17, 31, 32, 33, 64, 100, 127, 128])
    out = []
    for n in sizes:
        if n + 3 <= M:
            out.append(("contiguous", [3 + i for i in range(n)][::-1]))
            out.append(("contiguous at the top", [M - i for i in range(n)]))
        if 3 * n < M:
            out.append(("gaps of 3", [1 + 3 * i for i in range(n)]))
        if 11 * n < M:
            out.append(("gaps of 11", [5 + 11 * ((i * 7) % n if n % 7 else i) for i in range(n)]))
        sc = [0, M, M // 2, M // 3, 1, M // 5, M // 7, M - 1, M // 11, M // 13, M // 17, M // 19, 2, M // 23]
        sc = list(dict.fromkeys(sc))
        if n <= len(sc):
            out.append(("scattered", sc[:n]))
    return out


def uses(deep):
    out = []
    three = ["hash", "ordered", "scalar"]
    # A. integer literals of every type
    for t in INT:
        for lay, vs in int_layouts(t, deep):
            for i, mac in enumerate(three):
                kinds = ["map", "set"]
                # rotate the notation so that every one is met in every type
                how = (len(vs) + i) % 5
                keys = [notation(v, how) + t for v in vs]
                for kind in kinds:
                    forms = FORMS if deep else ["short" if kind == "map" else "let mut", FORMS[(len(vs) + len(lay) + i + (kind == "set")) % 7]]
                    if not deep and len(vs) > 10 and kind == "set":
                        forms = forms[:1]
                    for f in dict.fromkeys(forms):
                        out.append(Use(mac, kind, t, keys, f, scen="int literals/" + t, note=lay))
    # unsuffixed: i32
    for lay, vs in int_layouts("i32", False):
        for mac in three:
            out.append(Use(mac, "map", "i32", [str(v) for v in vs], "short", scen="int literals/unsuffixed", note=lay))
            out.append(Use(mac, "set", "i32", [notation(v, len(vs) % 4) for v in vs], FORMS[len(vs) % 7], scen="int literals/unsuffixed", note=lay))
    # one suffixed literal decides for the rest
    for t in INT:
        for mac in three:
            for pos in range(3):
                ks = ["5", "9", "70"]
                ks[pos] += t
                out.append(Use(mac, "map", t, ks, FORMS[pos * 2], scen="int literals/partly suffixed"))
                ks2 = [str(v) for v in (5, 6, 7, 8, 90, 91, 92, 93, 120)]
                ks2[pos * 4] += t
                out.append(Use(mac, "set", t, ks2, FORMS[pos + 1], scen="int literals/partly suffixed"))
    # repeated literals: last one wins
    for pat in ([1, 1], [1, 2, 1], [2, 1, 1], [1, 1, 1], [4, 3, 4, 3], [1, 9, 1, 200, 9, 1], [7, 8, 9, 7, 10, 11, 12, 13, 14], [1, 1000, 5, 70, 1, 30000, 9, 800, 77, 12345, 5], [5, 5, 5, 5, 5, 5, 5, 5, 5]):
        for mac in three:
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "static")):
                    out.append(Use(mac, kind, "u16", ["%du16" % p for p in pat], f, scen="repeated literals"))
    # the same value written differently
    for mac in three:
        out.append(Use(mac, "map", "u8", ["16u8", "0x10u8", "0b1_0000u8", "0o20u8", "1_6u8", "3u8"], "short", scen="repeated literals", note="one value in five notations"))
    # B. computed keys
    for t in INT:
        sgn = t[0] == "i"
        M = top(t)
        lists = [
            ["%s::MAX" % t, "%s::MIN" % t],
            ["(2%s + 1)" % t, "(7%s - 7)" % t, "%s::MAX" % t],
            ["(2%s + 1)" % t, "(7%s - 7)" % t, "%s::MAX" % t, "A", "B"],
            ["A", "1%s" % t, "B"],
            ["A", "1%s" % t, "B", "2", "%s::MAX" % t, "f(3)", "f(4)", "f(5)", "f(6)"],
        ]
        if sgn:
            lists += [["-5%s" % t, "5%s" % t, "-1%s" % t], ["-5%s" % t, "-4%s" % t, "-3%s" % t, "-2%s" % t, "-1%s" % t, "0%s" % t, "1%s" % t, "2%s" % t, "%s::MIN" % t]]
        pre = "const A: %s = 50; const B: %s = 60; fn f(x: %s) -> %s { x * 9 }" % (t, t, t, t)
        for ks in lists:
            for mac in three:
                if not deep and mac != three[(len(ks) + INT.index(t)) % 3]:
                    continue
                for kind in ("map", "set"):
                    for f in (FORMS if deep else [FORMS[(len(ks) + (kind == "set") * 3 + INT.index(t)) % 7], "short"]):
                        p = pre if f != "short" else pre + " let z: %s = 0; " % t
                        out.append(Use(mac, kind, t, ks, f, pre=pre, scen="int expressions/" + t))
    # computed keys at every size on both sides of the thresholds
    for n in list(range(1, 12)) + [17, 40]:
        for mac in three:
            for kind in ("map", "set"):
                for f in (FORMS if deep else ["short", FORMS[(n + (mac == "hash")) % 7]]):
                    out.append(Use(mac, kind, "u32", ["(%d * 5 %% 101 + k())" % (3 + i) for i in range(n)], f, pre="fn k() -> u32 { 7 }", scen="int expressions/size"))
    # C. strings
    fams = {
        "by length": ["a" * i for i in range(24)],
        "left": ["%sxx" % c for c in "abcdefghijklmnop"],
        "right": ["x" * (i % 3) + c for i, c in enumerate("abcdefghijklmnop")],
        "prefix": ["Color%s" % c for c in "Red Green Blue Yellow Cyan Magenta White Black Grey Pink".split()],
        "suffix": ["%sColor" % c for c in "Red Green Blue Yellow Cyan Magenta White Black Grey Pink".split()],
        "general": [a + b + c for a in "ab" for b in "ab" for c in "abc"],
        "mixed": ["", "a", "b", "ab", "ba", "abc", "bac", "aaaa", "z", "zz", "zzz", "0"],
        "utf8": ["é", "è", "ée", "漢字", "字", "ß", "e\u0301", "🦀", "🦀🦀", "x🦀"],
    }
    for fn, pool in fams.items():
        for n in list(range(1, 10)) + [len(pool)]:
            ks = ['"%s"' % s for s in pool[:n]]
            for mac in ("string", "hash", "ordered"):
                for kind in ("map", "set"):
                    fs = FORMS if deep else ["short" if (n + (kind == "set")) % 2 else "let mut", FORMS[(n + len(fn) + (kind == "set") + len(mac)) % 7]]
                    for f in dict.fromkeys(fs):
                        out.append(Use(mac, kind, "&'static str", ks, f, scen="string literals/" + fn, by_str=(mac == "string")))
    # notations and repetition of string literals
    odd = ['"a\\"b"', 'r"raw\\n"', 'r#"ra"w"#', '"tab\\t"', '"\\u{e9}"', '"nul\\0"', '"line\\\n   cont"', '"new\nline"', '"{}"', '"\\\\"']
    for n in (1, 2, 3, 4, 5, 10):
        for mac in ("string", "hash", "ordered"):
            for kind in ("map", "set"):
                out.append(Use(mac, kind, "&'static str", odd[:n] if n < 10 else odd, "short" if kind == "map" else "pub static", scen="string literals/notation", by_str=(mac == "string")))
    for pat in (["a", "a"], ["a", "b", "a"], ["a", "b", "c", "d", "a"], ["a", "b", "c", "d", "e", "a", "b", "a"]):
        for mac in ("string", "hash", "ordered"):
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "static", "let mut")):
                    out.append(Use(mac, kind, "&'static str", ['"%s"' % p for p in pat], f, scen="repeated literals", by_str=(mac == "string")))
    # string expressions
    for n in (1, 2, 3):
        ks = ["s1()", "S2", 'concat!("x", "y")', '"lit"'][:n]
        for mac in ("string", "hash", "ordered"):
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "let", "static")):
                    out.append(Use(mac, kind, "&'static str", ks, f, pre='const S2: &str = "s2"; fn s1() -> &\'static str { "s1" }', scen="string expressions/up to 3"))
    for n in (4, 5, 9):
        ks = ["s(%d)" % i for i in range(n)]
        pre = 'fn s(i: usize) -> &\'static str { ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight"][i] }'
        for mac in ("hash", "ordered"):
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "let", "static")):
                    out.append(Use(mac, kind, "&'static str", ks, f, pre=pre, scen="string expressions/4 and more"))
        # the string macros (and any macro given a string literal among computed keys) own their keys from 4 on
        for mac in ("string", "hash", "ordered"):
            kk = ks if mac == "string" else ks[:-1] + ['"lit"']
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "let", "let mut", "static")):
                    out.append(Use(mac, kind, "&'static str", kk, f, pre=pre, scen="string expressions/4 and more", ekt="Box<str>", by_str=True))
                    if f != "short" and mac == "string":
                        out.append(Use(mac, kind, "String", ["String::from(s(%d))" % i for i in range(n)], f, pre=pre, scen="string expressions/4 and more", ekt="Box<str>", by_str=True))
    # strings built at run time
    for n in (1, 3, 4, 7):
        ks = ['String::from("k%d")' % i for i in range(n)]
        for mac in ("hash", "ordered"):
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "let", "fn static")):
                    out.append(Use(mac, kind, "String", ks, f, scen="owned string expressions"))
    # D. other key types
    en = "#[derive(Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub enum E { A, B, C, D, F, G, H, I, J, K } impl GK for E { fn near(_: &[E]) -> Vec<E> { vec![E::A, E::B, E::C, E::D, E::F, E::G, E::H, E::I, E::J, E::K] } }"
    for ks in (["E::C"], ["E::A", "E::B"], ["E::K", "E::A", "E::C"], ["E::B", "E::C", "E::D", "E::A"], ["E::" + c for c in "ABCDFGH"], ["E::" + c for c in "KJIHGFDCBA"], ["E::" + c for c in "ACFHJKBDG"]):
        for mac in three:
            for kind in ("map", "set"):
                for f in (FORMS if deep else ("short", "let mut", "pub static")):
                    u = Use(mac, kind, "E", ks, f, scen="enums")
                    s, d, items = u.case()
                    out.append((s, d, en + "\n" + items))
    for kt, ks in (("(i32, u8)", ["(1, 2)", "(1, 3)", "(0, 2)", "(-1, 0)", "(5, 5)", "(5, 6)"]),
                   ("char", ["X", "Y", "char::MAX", "f('q')", "f('r')"]),
                   ("bool", ["b()", "!b()"]),
                   ("Option<u8>", ["None", "Some(1)", "Some(0)", "Some(255)", "Some(7)"]),
                   ("(&'static str, u8)", ['("a", 1)', '("a", 2)', '("b", 1)', '("", 0)']),
                   ("u128", ["u()", "u() + 1", "u128::MAX", "0u8.into()"]),
                   ("i128", ["-7 * w()", "w()", "i128::MIN", "i128::MAX", "w() - 1"])):
        pre = "const X: char = 'x'; const Y: char = 'y'; fn f(c: char) -> char { c } fn b() -> bool { true } fn u() -> u128 { 1 << 100 } fn w() -> i128 { 1 << 90 }"
        for n in range(1, len(ks) + 1):
            for mac in ("hash", "ordered"):
                for kind in ("map", "set"):
                    for f in (FORMS if deep else ("let", "fn static" if n % 2 else "let mut")):
                        out.append(Use(mac, kind, kt, ks[:n], f, pre=pre, scen="other keys/" + kt))
    # E. empty collections with stated types
    for mac in ("hash", "ordered", "scalar", "string"):
        for kind in ("map", "set"):
            for f in FORMS[1:]:
                out.append(Use(mac, kind, "&'static str" if mac == "string" else "u32", [], f, scen="empty"))
    # F. value expressions
    for mac, kt, ks in (("hash", "u8", ["1u8", "2u8", "200u8", "7u8"]), ("scalar", "i16", ["-1i16", "3i16", "2i16"]), ("string", "&'static str", ['"a"', '"b"', '"cc"', '"dd"', '"e"']),
                        ("ordered", "u64", ["1u64 << 40", "2", "3", "4", "9"])):
        for vt, vals in (("String", ['String::from("v%d")' % i for i in range(5)]), ("&'static str", ['"v%d"' % i for i in range(5)]), ("u32", ["(%du8 as u32).pow(2) + if_(%d)" % (i, i) for i in range(5)]),
                         ("Option<u8>", ["None", "Some(1)", "Some(2)", "None", "Some(3)"]), ("(u8, Vec<u8>)", ["(%d, vec![1, %d])" % (i, i) for i in range(5)]), ("()", ["()"] * 5), ("u32", ["((%d) << 2) as u32 ^ [1, 2][1]".replace("[1, 2][1]", "ARR[1]") % i for i in range(5)]), ("W", ["W { a: %d, ..W::D }" % i if i % 2 else "W { a: %d, b: -1 }" % i for i in range(5)])):
            for f in ("short", "let", "let mut"):
                if vt == "Option<u8>" and f == "short":
                    continue
                out.append(Use(mac, "map", kt, ks, f, vt=vt, vals=vals[: len(ks)], scen="values", pre=VPRE))
            if vt in ("&'static str", "u32", "Option<u8>", "()", "W"):
                out.append(Use(mac, "map", kt, ks, "fn static", vt=vt, vals=vals[: len(ks)], scen="values", pre=VPRE))
    # G. no trailing comma
    for mac, kt, ks in (("hash", "u8", ["1u8"]), ("hash", "u8", ["1u8", "5u8", "9u8", "77u8"]), ("ordered", "u8", ["1u8", "2u8"]), ("scalar", "u8", ["1u8", "2u8"]), ("string", "&'static str", ['"a"', '"b"'])):
        for kind in ("map", "set"):
            for f in FORMS:
                out.append(Use(mac, kind, kt, ks, f, scen="no trailing comma", trailing=False))
    # H. sizes around the internal limits
    for n in ((65, 127, 128, 129, 255, 256, 257) if not deep else (65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 513, 999, 1000, 1001, 1500)):
        for j, mac in enumerate(("hash", "ordered", "scalar", "string")):
            if mac == "string":
                fams2 = {"numbered": ['"k%d"' % i for i in range(n)], "lengths": ['"%s"' % ("ab" * (i // 2) + "x" * (i % 2)) for i in range(n)] if n <= 300 else None, "padded": ['"item-%05d-of"' % (i * 7919 % 100000) for i in range(n)]}
                for fn, ks in fams2.items():
                    if ks:
                        out.append(Use(mac, "map" if (n + len(fn)) % 2 else "set", "&'static str", ks, ("short", "static", "let")[n % 3], scen="large literals", note=fn))
                continue
            for t, lay, vs in (("u16", "contiguous", range(n)), ("u32", "gaps of 3", range(7, 7 + 3 * n, 3)), ("u64", "scattered", [(i * 0x9E3779B97F4A7C15) % 2 ** 64 for i in range(n)]), ("i32", "squares", [i * i for i in range(n)])):
                out.append(Use(mac, "map" if (n + j) % 2 else "set", t, ["%d%s" % (v, t) for v in vs], ("short", "static", "let mut")[(n + j) % 3], scen="large literals", note=lay))
    for n in ((16, 127, 128, 129, 257) if not deep else (16, 65, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001)):
        for mac, kt, pre, k in (("hash", "u32", "fn f(x: u32) -> u32 { x.wrapping_mul(2654435761) }", "f(%d)"), ("ordered", "u32", "fn f(x: u32) -> u32 { x.wrapping_mul(2654435761) }", "f(%d)"), ("scalar", "i64", "fn f(x: i64) -> i64 { -x }", "f(%d)"),
                                ("scalar", "i64", "fn f(x: i64) -> i64 { -x * x * x }", "f(%d)"), ("hash", "String", "", 'format!("k{}", %d)'), ("ordered", "String", "", 'format!("k{}", %d)')):
            out.append(Use(mac, "map" if n % 2 else "set", kt, [k % i for i in range(n)], ("short", "let", "static")[n % 3 if not kt == "String" else n % 2], pre=pre, scen="large expressions"))
    # I. repeated computed keys: last one wins as well
    for pat in ([1, 1], [1, 2, 1], [2, 1, 1], [1, 2, 3, 1], [3, 2, 3, 2, 1], [1, 2, 3, 4, 5, 6, 7, 1], [1, 2, 3, 4, 5, 6, 7, 8, 2], [1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2]):
        for mac, kt, pre, k in (("hash", "u32", "fn f(x: u32) -> u32 { x }", "f(%d)"), ("ordered", "u32", "fn f(x: u32) -> u32 { x }", "f(%d)"), ("scalar", "u32", "fn f(x: u32) -> u32 { x }", "f(%d)"), ("hash", "String", "", 'String::from("%d")'), ("ordered", "String", "", 'String::from("%d")'), ("string", "&'static str", "fn f(x: u8) -> &'static str { [\"\", \"a\", \"b\", \"c\", \"dd\", \"e\", \"f\", \"g\", \"h\", \"i\"][x as usize] }", "f(%d)")):
            for kind in ("map", "set"):
                for f in ("short", "let") if not deep else ("short", "let", "let mut", "fn static"):
                    out.append(Use(mac, kind, kt, [k % i for i in pat], f, pre=pre, scen="repeated expressions/" + ("inline" if mac == "ordered" or len(pat) < (8 if mac == "scalar" else 4) else "run time"), ekt="Box<str>" if mac == "string" and len(pat) >= 4 else None))
    # J. wrapped in the caller's own macro_rules (fragments arrive as invisible groups)
    for frag in ("expr", "literal", "tt"):
        for mac, kt, ks in (("hash", "u8", ["1u8", "9u8", "200u8", "7u8"]), ("scalar", "i32", ["4", "5", "6", "7"]), ("scalar", "i32", ["4", "0x50", "6000", "7"]), ("ordered", "u64", ["1u64", "3000000000u64", "5u64"]), ("string", "&'static str", ['"a"', '"b"', '"cc"', '"dd"', '"e"']), ("hash", "&'static str", ['"x"']),
                            ("hash", "u8", ["1u8", "1u8"]), ("string", "&'static str", ['"q"', '"q"'])):
            for n in range(1, len(ks) + 1):
                kk = ks[:n]
                for kind in ("map", "set"):
                    isset = kind == "set"
                    name = "fz_%s_%s" % (mac, kind)
                    arm = "($($k:%s%s),*) => { %s!({ $($k%s),* }) };" % (frag, "" if isset else " => $v:expr", name, "" if isset else ": $v")
                    use = "mk!(%s)" % ", ".join(k if isset else "%s => %d" % (k, 100 + i) for i, k in enumerate(kk))
                    exp = "vec![%s] as Vec<%s>" % (", ".join("{ let k: %s = %s; k }" % (kt, k) if isset else "({ let k: %s = %s; k }, %du32)" % (kt, k, 100 + i) for i, k in enumerate(kk)), kt if isset else "(%s, u32)" % kt)
                    out.append(("macro_rules wrappers", "%s via $k:%s" % (use, frag) + " " + name + " short", "macro_rules! mk { %s }\npub fn run(o: &mut Obs) -> R {\nlet m = %s;\ngp::%s(o, &m, %s)\n}" % (arm, use, kind, exp)))
                    arm = "($vis:vis, $n:ident, $t:ident, $kt:ty, $vt:ty, $($k:%s%s),*) => { %s!($vis static $n: $t<$kt%s>, { $($k%s,)* }); };" % (frag, "" if isset else " => $v:expr", name, "" if isset else ", $vt", "" if isset else ": $v")
                    use = "mk!(pub(crate), MM, TT, %s, u32, %s)" % (kt, ", ".join(k if isset else "%s => %d" % (k, 100 + i) for i, k in enumerate(kk)))
                    out.append(("macro_rules wrappers", "%s via $k:%s" % (use, frag) + " " + name + " static", "macro_rules! mk { %s }\n%s;\npub fn run(o: &mut Obs) -> R {\nlet r: &TT = &MM;\ngp::%s(o, r, %s)\n}" % (arm, use, kind, exp)))
    return out


def cases(tier):
    seen, out = set(), []
    for u in uses(tier == "thorough"):
        c = u if isinstance(u, tuple) else u.case()
        k = (c[0], c[1])
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


# names in the caller's scope ---------------------------------------------------------------------------------------
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen _".split())
PRIMS = set("u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char str f32 f64".split())


def hygiene_uses(name, how):
    """macro uses whose keys and values mention `name`: (macro, kind, tokens after the form, key type, value type, expected entries)"""
    use = {"fn": "%s()", "macro": "%s!()", "type": "%s(7)"}.get(how, "%s") % name
    out = []
    ns = {"hash": (2, 3, 4, 5), "ordered": (2, 5, 9), "scalar": (3, 7, 8, 9), "string": (3, 4, 6)}
    for mac in ("hash", "ordered", "scalar", "string"):
        for lits in (True, False):
            if lits and how == "type":
                continue
            for n in ns[mac]:
                if how == "type":
                    if mac in ("scalar", "string"):
                        continue
                    kt, ks = name, ["%s(%d)" % (name, 3 * i + 1) for i in range(n)]
                    vt, vs = name, ["%s(%d)" % (name, i) for i in range(n)]
                else:
                    vt, vs = "u32", ["%s + %d" % (use, i) for i in range(n)]
                    if mac == "string":
                        kt = "&'static str"
                        ks = ['"%s"' % ("k%d" % i) for i in range(n)] if lits else ["zz_s(%s, %d)" % (use, i) for i in range(n)]
                    else:
                        kt = "u32"
                        ks = ["%du32" % (i * i * 11) for i in range(n)] if lits else ["%s * %d" % (use, i + 1) for i in range(n)]
                ekt = "Box<str>" if mac == "string" and not lits and n >= 4 else None
                for kind in ("map", "set"):
                    if lits and kind == "set":
                        continue  # nothing of the caller's in there
                    ents = ks if kind == "set" else ["%s: %s" % e for e in zip(ks, vs)]
                    exp = ["%s%s" % (k, ".into()" if ekt else "") for k in ks]
                    exp = "vec![%s] as Vec<%s>" % (", ".join(exp) if kind == "set" else ", ".join("(%s, %s)" % e for e in zip(exp, vs)), (ekt or kt) if kind == "set" else "(%s, %s)" % (ekt or kt, vt))
                    out.append((mac, kind, "{ %s }" % ", ".join(ents), kt, vt, exp))
    return out


def hygiene(d, deep):
    exe = d.cargo_bin("mc", "x14")
    lines = []
    for how in ("let", "type"):
        for mac, kind, body, kt, vt, _ in hygiene_uses("zz_name", how):
            g = "ZzT<%s>" % (kt if kind == "set" else "%s, %s" % (kt, vt))
            for form in ("", "let zz_m: %s, " % g, "static zz_m: %s, " % g):
                lines.append("fz_%s_%s\t%s%s" % (mac, kind, form, body))
    p = d.subprocess.run([exe], input="\n".join(lines), capture_output=True, text=True, timeout=120)
    ids = [l.split(" ", 1)[1] for l in p.stdout.splitlines() if l.startswith("IDENT ")]
    if "EXPANDED" not in p.stdout:
        raise d.Engine("x14: " + p.stderr[-1000:])
    ids = [i for i in ids if i not in KEYWORDS and not i.lower().startswith("zz_") and i != "ZzT" and not i.startswith("__")]
    ids = ["key", "value", "map", "m", "k", "v", "i", "x", "result", "entries", "keys", "data", "payload"] + ids
    out = []
    for name in dict.fromkeys(ids):
        for how in ("let", "const", "fn", "macro", "type"):
            if how == "type" and name in PRIMS | {"String", "Box", "Vec"} or name.startswith("r#"):
                continue
            decl = {"let": "let %s: u32 = 7;", "const": "const %s: u32 = 7;", "fn": "const fn %s() -> u32 { 7 }", "macro": "macro_rules! %s { () => { 7u32 }; ($($zz:tt)*) => { compile_error!(\"this is the macro of the caller\") } }",
                    "type": "#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct %s(pub u32);"}[how] % name
            pre = "fn zz_s(zz_a: u32, zz_i: usize) -> &'static str { [\"a\", \"b\", \"c\", \"dd\", \"e\", \"f\", \"g\"][(zz_i + zz_a as usize) % 7] }"
            for form in ("short", "let", "fn static") + (("let mut", "static", "pub static") if deep else ()):
                if how == "let" and "static" in form:
                    continue
                blocks = []
                for mac, kind, body, kt, vt, exp in hygiene_uses(name, how):
                    mname = "fz_%s_%s" % (mac, kind)
                    g = "ZzT<%s>" % (kt if kind == "set" else "%s, %s" % (kt, vt))
                    what = '"%s %s n=%d"' % (mname, form, body.count(",") + 1)
                    item = "zz_i.clone()" if kind == "set" else "(zz_i.0.clone(), zz_i.1.clone())"
                    a = "zz_m"
                    if form == "short":
                        s = "let zz_m = %s!(%s);" % (mname, body)
                    elif form in ("let", "let mut"):
                        s = "%s!(%s zz_m: %s, %s); let zz_r: &ZzT = &zz_m;" % (mname, form, g, body)
                    else:
                        vis = "" if form == "fn static" else form[: -len("static")]
                        s = "%s!(%sstatic ZZ_M: %s, %s); let zz_m: &ZzT = &ZZ_M;" % (mname, vis, g, body)
                    blocks.append("{ %s gp::same(zz_o, %s, zz_m.iter().map(|zz_i| %s), %s)?; }" % (s, what, item, exp))
                inner = decl if how != "let" else ""
                blocks = [b.replace(" vec![", " ::std::vec![") for b in blocks]
                out.append(("names in scope/" + how, "%s named `%s` in keys and values, %s form" % ({"let": "local variable", "const": "constant", "fn": "function", "macro": "macro", "type": "key and value type"}[how], name, form),
                            "%s\n%s\npub fn run(zz_o: &mut Obs) -> R {\n%s\n%s\nOk(())\n}" % (pre, inner, decl if how == "let" else "", "\n".join(blocks))))
    return out


def once(deep):
    """every key and value expression is evaluated exactly once"""
    out = []
    for mac in ("hash", "ordered", "scalar", "string"):
        for kind in ("map", "set"):
            for lits in (True, False):
                for n in (1, 2, 3, 4, 5, 7, 8, 9, 17) + ((33, 130, 300) if deep else ()):
                    for form in FORMS if deep else ("short", "let", "fn static"):
                        if lits and (kind == "set" or "static" in form):
                            continue
                        if mac == "string":
                            kt, ks = "&'static str", ['"k%d"' % i for i in range(n)]
                        else:
                            kt, ks = "u64", ["%du64" % (i * i * 5) for i in range(n)]
                        if not lits:
                            ks = ["k(%d, %s)" % e for e in enumerate(ks)]
                        ents = ks if kind == "set" else ["%s: v(%d)" % (k, i) for i, k in enumerate(ks)]
                        mname = "fz_%s_%s" % (mac, kind)
                        g = "T<%s>" % (kt if kind == "set" else kt + ", u32")
                        body = "{ %s }" % ", ".join(ents)
                        pre = ("use std::sync::atomic::{AtomicUsize, Ordering::Relaxed}; static K: [AtomicUsize; %d] = [const { AtomicUsize::new(0) }; %d]; static V: [AtomicUsize; %d] = [const { AtomicUsize::new(0) }; %d];\n"
                               "fn k(i: usize, x: %s) -> %s { K[i].fetch_add(1, Relaxed); x }\nfn v(i: usize) -> u32 { V[i].fetch_add(1, Relaxed); i as u32 }\n") % (n, n, n, n, kt, kt)
                        if form == "short":
                            s = "let m = %s!(%s);" % (mname, body)
                        elif form in ("let", "let mut"):
                            s = "%s!(%s m: %s, %s); let r: &T = &m;" % (mname, form, g, body)
                        elif form == "fn static":
                            s = "%s!(static M: %s, %s); let m: &T = &M;" % (mname, g, body)
                        else:
                            pre += "%s!(%s M: %s, %s);" % (mname, form, g, body)
                            s = "let m: &T = &M;"
                        chk = "ensure_eq!(m.iter().count(), %d, \"entries\");\n" % n
                        if not lits:
                            chk += "for (i, c) in K.iter().enumerate() { ensure_eq!(c.load(Relaxed), 1, \"evaluations of key expression {i}\"); }\n"
                        if kind == "map":
                            chk += "for (i, c) in V.iter().enumerate() { ensure_eq!(c.load(Relaxed), 1, \"evaluations of value expression {i}\"); }\n"
                        out.append(("evaluated once", "%s!(%s .. %s)" % (mname, form, body), "use mc::{ensure, ensure_eq};\n" + pre + "pub fn run(o: &mut Obs) -> R {\n" + s + "\n" + chk + "o.t(%d); o.state(&(%d, %s)); Ok(())\n}" % (2 * n, n, '"%s"' % mname)))
    return out


def explore(d, tier):
    deep = tier == "thorough"
    cs = cases(tier) + once(deep) + hygiene(d, deep)
    rs = [c14be.explore(d, tier)]
    if not rs[0]["violations"]:
        rs.append(genlib.explore(d, "C14", tier, cs, BOUND, timeout=800 if tier == "quick" else 3600))
    for ed in ("2024", "2021", "2018"):
        if not any(r["violations"] for r in rs):
            rs.append(genlib.explore(d, "C14", tier, c14s.cases(deep, ed), SURROUNDINGS, tag="s" + ed, timeout=800 if tier == "quick" else 3600, edition=ed))
    if not any(r["violations"] for r in rs):
        rs.append(c14f.explore(d, tier))
    return genlib.merge(rs)


SURROUNDINGS = "macro uses in modules that import nothing, generic functions, with moved, borrowed and mutably borrowed operands, in every expression position, nested, with raw identifiers, inside the caller's macros: 4 macros x literal and computed keys x sizes 1..9, editions 2018, 2021, 2024"


BOUND = "macro uses enumerated from the grammar: 8 macros x 7 forms x integer literals of 10 types and 5 notations (contiguous, gapped, scattered, top of range; sizes 1..10, 17, 33, thorough to 128), partly suffixed and repeated literals, computed integer keys, 8 string-literal families, odd notations, string/owned/enum/tuple/char/bool/option/128-bit keys, empty collections, value expressions, separators; every name of the expansions as a name of the caller's (variable, constant, function, macro, type); every expression evaluated once; every listed key, its neighbours and near misses queried, all entries iterated"
