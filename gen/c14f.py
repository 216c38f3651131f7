"""C14: macro uses in callers without the standard library, under every set of the library's features that has the macros."""
import json, os, re, shutil
import genlib

SETS = ["macros", "macros,serde", "macros,emit", "macros,std", "macros,emit,serde"]
MACS = {"hash": "u32", "ordered": "u64", "scalar": "i16", "string": "&'static str"}


def cases(deep):
    out = []
    for mac, kt in MACS.items():
        for computed in (False, True):
            for n in (1, 2, 3, 4, 5, 7, 8, 9, 33) + ((128, 300) if deep else ()):
                for form in ("short", "let", "let mut", "static"):
                    if computed and form == "static":
                        continue  # needs run-time initialisation, which only the standard library offers
                    if mac == "string":
                        ks = ['"%s"' % ("k%d" % (i * 7919 % 997)) for i in range(n)]
                    else:
                        step = 1 if n % 2 else 37
                        ks = ["%d%s" % (i * step + 3, kt) for i in range(n)]
                    wr = ["f(%s)" % k for k in ks] if computed else ks
                    vs = ['"v%d"' % i for i in range(n)]
                    nm = "::frozen_collections::fz_" + mac
                    mb = "{ %s }" % ", ".join("%s: %s" % kv for kv in zip(wr, vs))
                    sb = "{ %s }" % ", ".join(wr)
                    T, S = "T<%s, &'static str>" % kt, "S<%s>" % kt
                    items = "fn f(x: %s) -> %s { x }\n" % (kt, kt)
                    if form == "short":
                        run = "let m = %s_map!(%s);\nlet s = %s_set!(%s);\n" % (nm, mb, nm, sb)
                    elif form == "static":
                        items += "%s_map!(static M: %s, %s);\n%s_set!(pub static U: %s, %s);\n" % (nm, T, mb, nm, S, sb)
                        run = "let (m, s): (&T, &S) = (&M, &U);\n"
                    else:
                        run = "%s_map!(%s m: %s, %s);\n%s_set!(%s s: %s, %s);\nlet (m, s): (&T, &S) = (&m, &s);\n" % (nm, form, T, mb, nm, form, S, sb)
                    ref = "" if mac == "string" else "&"
                    for k, v in zip(ks, vs):
                        run += "if m.get(%s%s) != Some(&%s) { return Err(\"map: key %s\"); }\nif !s.contains(%s%s) { return Err(\"set: value %s\"); }\n" % (ref, k, v, k.replace('"', ""), ref, k, k.replace('"', ""))
                    ab = '"nothing"' if mac == "string" else "31000"
                    run += "if m.get(%s%s).is_some() || s.contains(%s%s) { return Err(\"an absent key is found\"); }\n" % (ref, ab, ref, ab)
                    run += "if m.len() != %d || s.len() != %d || m.iter().count() != %d || s.iter().count() != %d { return Err(\"length\"); }\nOk(%d)" % (n, n, n, n, 2 * n + 6)
                    out.append(("%s, %d %s keys, %s" % (mac, n, "computed" if computed else "literal", form), items + "pub fn run() -> Result<usize, &'static str> {\n" + run + "\n}"))
    return out


def explore(d, tier):
    cs = cases(tier == "thorough")
    rs = []
    notes = []
    for feats in SETS:
        crate = os.path.join(d.BUILD, "gen", "C14f")
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(os.path.join(crate, "src", "bin"))
        os.makedirs(os.path.join(crate, "cases"))
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write("""[package]
name = "gen-c14f"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
frozen-collections = { path = "/repo/frozen-collections", default-features = false, features = [%s] }
[profile.dev]
debug = false
incremental = false
[profile.dev.build-override]
opt-level = 0
""" % ", ".join('"%s"' % x for x in feats.split(",")))
        lock = os.path.join(d.VERIF, "mc", "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(crate, "Cargo.lock"))
        with open(os.path.join(crate, "src", "lib.rs"), "w") as f:
            f.write("#![no_std]\n#![allow(warnings)]\nextern crate alloc;\n")
            for i, (desc, items) in enumerate(cs):
                with open(os.path.join(crate, "cases", "c%05d.rs" % i), "w") as g:
                    g.write("// %s\n%s\n" % (desc, items))
                f.write('#[path = "../cases/c%05d.rs"]\npub mod c%05d;\n' % (i, i))
            f.write("pub static ALL: &[fn() -> Result<usize, &'static str>] = &[%s];\n" % ", ".join("c%05d::run" % i for i in range(len(cs))))
        with open(os.path.join(crate, "src", "bin", "c14f_run.rs"), "w") as f:
            f.write('fn main() { for (i, f) in gen_c14f::ALL.iter().enumerate() { match std::panic::catch_unwind(f) { Ok(Ok(n)) => println!("OK {i} {n}"), Ok(Err(e)) => println!("BAD {i} {e}"), Err(_) => println!("BAD {i} panic") } } println!("DONE"); }\n')
        ok, per, other, err = genlib.compile_crate(d, crate)
        scen = "callers without std/" + feats
        res = {"cases": len(cs), "states": len(cs), "transitions": 0, "samples": ["%s: %s" % (scen, cs[0][0])], "bounds": [], "scenarios": {scen: {"cases": len(cs)}}, "violations": []}

        def viol(i, why):
            res["violations"].append({"scenario": scen, "case": i, "input": "features [%s]: %s" % (feats, cs[i][0]), "failure": why, "source": cs[i][1]})

        if not ok and not per and re.search(r"could not compile `frozen-collections", err + "\n".join(other)):
            notes.append("features [%s] without std: NOT explored, the library does not build there" % feats)
            continue
        if not ok and not per:
            raise d.Engine("callers without std [%s]: the crate does not build, and not because of a generated use:\n%s\n%s" % (feats, "\n".join(other)[:3000], err[-3000:]))
        if per:
            for n in sorted(per):
                viol(int(n[1:]), "the program does not compile: " + per[n])
        else:
            rc, out, e2 = d.sh([os.path.join(d.BUILD, "target", "debug", "c14f_run")], d.VERIF, 300)
            for kind, i, rest in re.findall(r"^(OK|BAD) (\d+) (.*)$", out, re.M):
                if kind == "OK":
                    res["transitions"] += int(rest)
                else:
                    viol(int(i), rest)
            if "DONE" not in out:
                done = len(re.findall(r"^(?:OK|BAD) ", out, re.M))
                viol(min(done, len(cs) - 1), "the program ends with status %s: %s" % (rc, e2[-500:]))
        rs.append(res)
        if res["violations"]:
            break
    if not rs:
        rs = [{"cases": 0, "states": 0, "transitions": 0, "samples": [], "bounds": [], "scenarios": {}, "violations": []}]
    rs[0]["bounds"] = notes + ["macro uses in a #![no_std] crate: 4 macros x maps and sets x literal and computed keys x sizes 1..33 (thorough 300) x short, let, let mut, static (literal keys), under the feature sets %s" % "; ".join(SETS)]
    return genlib.merge(rs)
