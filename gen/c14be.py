"""C14 on a big-endian target: macro programs compiled for s390x (the macros run on this little-endian host) and executed by Miri."""
import os, re, shutil
import genlib

TARGET = "s390x-unknown-linux-gnu"


def programs(deep):
    """(scenario, macro use, key type, key texts, absent key texts)"""
    out = []
    def scal(t, ks, absent):
        out.append(("integer keys", "scalar", t, [str(k) + t for k in ks], [str(k) for k in absent]))
    for n in (1, 5, 9) + ((33,) if deep else ()):
        scal("u16", [300 + i for i in range(n)], [299, 300 + n, 0, 65535])
        scal("u32", [7 + 3 * i for i in range(n)], [6, 8, 4294967295])
        scal("i64", [(i * i * 9973 + 1) << (i % 30) for i in range(n)], [0, 2, 9223372036854775807])
        scal("usize", [256 << (3 * i % 40) for i in range(n)], [255, 0, 1])
    out.append(("computed keys", "scalar", "i32", ["-5", "300", "-70000", "1 + 1"], ["5", "0"]))
    out.append(("computed keys", "scalar", "i16", ["-5 + %d" % i for i in range(12)], ["-6", "20"]))
    out.append(("computed keys", "hash", "(u16, char)", ["(%d, 'x')" % (i * 500) for i in range(12)], ["(1, 'x')", "(500, 'y')"]))
    out.append(("computed keys", "ordered", "u32", ["%d * 65536" % i for i in range(9)], ["1", "65537"]))
    out.append(("ordered keys", "ordered", "u32", ["%du32" % (1 << i) for i in range(0, 30, 3)], ["3", "0"]))
    out.append(("ordered keys", "ordered", "&'static str", ['"%s"' % ("k" * i) for i in range(1, 9)], ['""', '"kj"']))
    out.append(("hashed integer keys", "hash", "u64", ["%du64" % (i * 0x123456789) for i in range(9)], ["1", "4294967296"]))
    def text(scen, ks, absent):
        out.append((scen, "string", "&'static str", ['"%s"' % k for k in ks], ['"%s"' % k for k in absent]))
    text("strings told apart by length", ["x" * i for i in (1, 2, 3, 5, 8, 13, 21)], ["", "xxxx", "y"])
    text("few strings", ["one", "two", "three"], ["", "four"])
    for pre in ("", "prefix_"):
        text("strings told apart by 1 to 3 bytes", [pre + c + "tail" for c in "abcdefghij"], [pre + "ktail", pre, "a"])
        text("strings told apart by 1 to 3 bytes", [pre + c + e for c in "abc" for e in "xyz"], [pre + "dx", pre + "aw"])
        text("strings told apart by 1 to 3 bytes", [pre + c + e + f for c in "ab" for e in "xy" for f in "mn"], [pre + "axo", pre + "bb"])
        four = [c + e + f + g for c in "ab" for e in "ab" for f in "ab" for g in "ab"]
        text("strings told apart by 4 or more bytes", [pre + k for k in four], [pre + "aaac", pre])
        if deep:
            text("strings told apart by 4 or more bytes", [pre + k + h for k in four for h in "yz"], [pre + "aaaax"])
    text("strings told apart by 4 or more bytes", ["abcdefgh" * i + "".join("pq"[j >> b & 1] * 3 for b in range(4)) for i in (0, 1) for j in range(16)], ["pppppppppppq"])
    return out


def source(progs):
    s = "#![allow(warnings)]\nuse frozen_collections::*;\ntype R = Result<usize, String>;\n"
    for i, (scen, mac, t, ks, absent) in enumerate(progs):
        def body(kind):
            ents = ", ".join(k + (": %du32" % (100 + j) if kind == "map" else "") for j, k in enumerate(ks))
            gen = "S" if kind == "set" else "T"
            par = "<%s>" % t if kind == "set" else "<%s, u32>" % t
            return "fz_%s_%s!(let %s: %s%s, { %s });\n" % (mac, kind, kind, gen, par, ents)
        q = (lambda k: k) if mac == "string" else (lambda k: "&(%s)" % k)
        s += "fn p%d() -> R {\n" % i + body("map") + body("set")
        s += "let mut bad: Vec<String> = vec![];\n"
        s += "if map.len() != %d || set.len() != %d { bad.push(format!(\"lengths {} and {}\", map.len(), set.len())); }\n" % (len(ks), len(ks))
        s += "if map.iter().count() != %d || set.iter().count() != %d { bad.push(\"iteration\".into()); }\n" % (len(ks), len(ks))
        for j, k in enumerate(ks + absent):
            want = "Some(&%du32)" % (100 + j) if j < len(ks) else "None"
            if mac == "string":
                s += "{ let k: &str = %s; " % k
            else:
                s += "{ let k: &%s = &(%s); " % (t, k)
            s += "if map.get(k) != %s || set.contains(k) != %s { bad.push(format!(\"{k:?} -> {:?}, {}\", map.get(k), set.contains(k))); } }\n" % (want, str(j < len(ks)).lower())
        s += "if bad.is_empty() { return Ok(%d); }\n" % (2 * (len(ks) + len(absent)))
        s += "let missing = bad.iter().all(|b| b.ends_with(\"-> None, false\"));\n"
        s += "Err(format!(\"{}: {} of %d queries: {}\", if missing { \"listed keys not found\" } else { \"wrong answers\" }, bad.len(), bad.join(\"; \")))\n}\n" % (len(ks) + len(absent))
    s += "fn main() {\nlet all: [(&str, fn() -> R); %d] = [%s];\n" % (len(progs), ", ".join("(%s, p%d as fn() -> R)" % (genlib.rs(p[0]), i) for i, p in enumerate(progs)))
    s += """for (i, (scen, f)) in all.iter().enumerate() {
        match std::panic::catch_unwind(f) { Ok(Ok(n)) => println!("FINE\\t{i}\\t{n}"), Ok(Err(e)) => println!("BAD\\t{i}\\t{e}"), Err(_) => println!("BAD\\t{i}\\tpanic") }
    }\nprintln!("DONE");\n}\n"""
    return s


def extra(d):
    return {"RUSTUP_TOOLCHAIN": "nightly", "XDG_CACHE_HOME": os.path.join(d.BUILD, "miri-cache"), "CARGO_TARGET_DIR": os.path.join(d.BUILD, "be")}


def crate(d, progs):
    c = os.path.join(d.BUILD, "gen", "C14be")
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(os.path.join(c, "src"))
    with open(os.path.join(c, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "be"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\nfrozen-collections = { path = "/repo/frozen-collections" }\n')
    shutil.copy(os.path.join(d.VERIF, "mc", "Cargo.lock"), c)
    with open(os.path.join(c, "src", "main.rs"), "w") as f:
        f.write(source(progs))
    return c


def explore(d, tier):
    progs = programs(tier == "thorough")
    c = crate(d, progs)
    cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--target", TARGET]
    rc, out, err = d.sh(cmd, c, 800 if tier == "quick" else 3600, extra=extra(d))
    fine = re.findall(r"^FINE\t(\d+)\t(\d+)$", out, re.M)
    bad = re.findall(r"^BAD\t(\d+)\t(.*)$", out, re.M)
    ub = re.search(r"Undefined Behavior.*", err)
    if not ub and (rc != 0 or "DONE" not in out):
        raise d.Engine("macro programs on %s: rc=%s\n%s\n%s" % (TARGET, rc, out[-1500:], err[-3000:]))
    known = [l.rstrip("\n").split("\t") for l in open(d.KNOWN) if l.startswith("known\tC14\t")]
    viol, said = [], set()
    for i, what in bad:
        scen, mac, t, ks, absent = progs[int(i)]
        scen = "big-endian target/" + scen
        desc = "fz_%s_map!/fz_%s_set! over %s { %s }" % (mac, mac, t, ", ".join(ks))
        k = [x for x in known if x[2] == scen and x[3] in desc and x[4] in what]
        if k:
            if k[0][5] not in said:
                print("KNOWN-FINDING: property=C14 %s: %s" % (scen, k[0][5]))
            said.add(k[0][5])
            continue
        viol.append({"scenario": scen, "case": int(i), "input": desc, "failure": what, "command": "cd %s && cargo miri run --target %s" % (c, TARGET)})
    if ub:
        viol.append({"scenario": "big-endian target", "case": len(fine) + len(bad), "input": "?", "failure": ub.group(0) + "\n" + err[:1500]})
    return {"cases": len(fine), "states": len(fine), "transitions": sum(int(n) for _, n in fine), "violations": viol,
            "samples": ["big-endian target: fz_string_map over " + ", ".join(p[3]) for p in progs if p[1] == "string"][:2],
            "bounds": ["big-endian target: %d macro programs (integer, computed, ordered, hashed and string keys, by how the strings are told apart), compiled on this host for s390x, executed by Miri" % len(progs)],
            "scenarios": {"big-endian target": {"cases": len(progs)}}}
