"""Generated programs: write one crate of enumerated cases, compile it against /repo, run it.

A case is (scenario, description, items): `items` is Rust source that defines `pub fn run(o: &mut Obs) -> R`.
A case that does not compile is a violation of the property (the enumerated programs are well-formed); a failure
outside the generated cases is an error of the machinery (no verdict)."""
import json, os, re, shutil, subprocess

HEAD = "#![allow(warnings)]\nuse frozen_collections::*;\nuse mc::gp::{self, GK};\nuse mc::{Obs, R};\n"


def write(d, prop, cases, bound, nbins=8, tag="", edition="2024"):
    crate = os.path.join(d.BUILD, "gen", prop + tag)
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src", "bin"))
    os.makedirs(os.path.join(crate, "cases"))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "gen-%s"
version = "0.1.0"
edition = "%s"
[workspace]
[dependencies]
frozen-collections = { path = "/repo/frozen-collections" }
mc = { path = "%s/mc", default-features = false }
[profile.dev]
opt-level = 1
debug = false
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 16
[profile.dev.package."gen-%s"]
opt-level = 0
[profile.dev.package.syn]
opt-level = 0
[profile.dev.build-override]
opt-level = 0
""" % ((prop + tag).lower(), edition, d.VERIF, (prop + tag).lower()))
    shutil.copy(os.path.join(d.VERIF, "mc", "Cargo.lock"), os.path.join(crate, "Cargo.lock")) if os.path.exists(os.path.join(d.VERIF, "mc", "Cargo.lock")) else None
    names = []
    for i, (scen, desc, items) in enumerate(cases):
        n = "c%05d" % i
        names.append(n)
        with open(os.path.join(crate, "cases", n + ".rs"), "w") as f:
            f.write("// %s: %s\nuse super::*;\n%s\n" % (scen, desc.replace("\n", " "), items))
    nbins = max(1, min(nbins, len(cases)))
    if not cases:
        return crate, names, []
    bins = []
    for b in range(nbins):
        mine = [i for i in range(len(cases)) if i % nbins == b]
        with open(os.path.join(crate, "src", "bin", "%s%s_p%d.rs" % (prop.lower(), tag, b)), "w") as f:
            f.write(HEAD)
            for i in mine:
                f.write('#[path = "../../cases/%s.rs"]\nmod %s;\n' % (names[i], names[i]))
            f.write("static CASES: &[gp::Case] = &[\n")
            for i in mine:
                f.write("    (%s, %s, %s::run),\n" % (json.dumps(cases[i][0]), rs(cases[i][1]), names[i]))
            f.write("];\nfn main() { gp::run(%s, CASES, %s) }\n" % (json.dumps(prop), rs(bound)))
        bins.append("%s%s_p%d" % (prop.lower(), tag, b))
    return crate, names, bins


def rs(s):
    """Rust string literal"""
    n = 0
    while '"' + "#" * n in s:
        n += 1
    return "r" + "#" * n + '"' + s + '"' + "#" * n if ("\\" in s or '"' in s) else '"' + s.replace("\n", "\\n") + '"'


def compile_crate(d, crate, timeout=800, check=False, extra=None):
    """returns (ok, {case name: message}, other errors)"""
    cmd = ["cargo", "check" if check else "build", "--offline", "--bins", "--keep-going", "--message-format=json"]
    rc, out, err = d.sh(cmd, crate, timeout, extra=extra)
    per, other = {}, []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        hit = case_of(m)
        text = m.get("rendered") or m.get("message")
        if hit:
            per.setdefault(hit, text)
        elif not re.match(r"(aborting due to|could not compile)", m.get("message", "")):
            other.append(text)
    return rc == 0, per, other, err


def case_of(m):
    def files(sp):
        yield sp.get("file_name", "")
        e = sp.get("expansion")
        if e:
            yield from files(e["span"])
    for sp in sorted(m.get("spans", []), key=lambda s: not s.get("is_primary")):
        for f in files(sp):
            x = re.search(r"cases/(c\d+)\.rs$", f)
            if x:
                return x.group(1)
    for c in m.get("children", []):
        h = case_of(c)
        if h:
            return h
    return None


CHUNK = 14000  # programs per crate: bounded by rustc's memory


def explore(d, prop, tier, cases, bound, nbins=8, tag="", timeout=780, extra=None, target=None, chunk=CHUNK, edition="2024"):
    rs_ = []
    for i in range(0, max(1, len(cases)), chunk):
        rs_.append(explore1(d, prop, tier, cases[i:i + chunk], bound if i == 0 else None, nbins, tag, timeout, extra, target, edition))
        if rs_[-1]["violations"]:
            break
    return merge(rs_)


def explore1(d, prop, tier, cases, bound, nbins, tag, timeout, extra, target, edition):
    first, bound = bound, bound or ""
    crate, names, bins = write(d, prop, cases, bound, nbins, tag, edition)
    ok, per, other, err = compile_crate(d, crate, timeout, extra=extra)
    tdir = (extra or {}).get("CARGO_TARGET_DIR") or os.path.join(d.BUILD, "target")
    if not ok and not per:
        raise d.Engine("generated crate %s does not build, and not because of a generated case:\n%s\n%s" % (crate, "\n".join(other)[:3000], err[-3000:]))
    if per:
        viol = []
        for n in sorted(per):
            scen, desc, items = cases[int(n[1:])]
            viol.append({"scenario": scen, "case": int(n[1:]), "input": desc, "failure": "the program does not compile: " + per[n], "source": items})
        return {"cases": len(cases), "states": 0, "transitions": 0, "samples": [], "bounds": [bound], "scenarios": {}, "violations": viol}
    rs_ = []
    for b in bins:
        exe = os.path.join(tdir, "debug", b)
        args = ["--level", "2" if tier == "thorough" else "0"] + ["--known", d.KNOWN]
        rc, out, e2 = d.sh([exe] + args, d.VERIF, 600, mem_gb=24)
        for l in out.splitlines():
            if l.startswith("KNOWN-FINDING:"):
                print(l) if l not in SAID else None
                SAID.add(l)
        r = d.parse_run(prop, exe, args, rc, out, e2)
        for v in r["violations"]:
            for s, de, items in cases:
                if s == v["scenario"] and de == v["input"]:
                    v["source"] = items
        r["bounds"] = [bound] if b == bins[0] and first else []
        rs_.append(r)
    m = merge(rs_)
    m["samples"] = m["samples"][:8]
    return m


def must_reject(d, prop, cases, bound, tag="r", rounds=12, head=""):
    """programs that must not compile. A case is (scenario, description, items). Compiled together; those with an
    error of their own are taken out and the rest is compiled again until nothing is left or the rest compiles."""
    left = list(range(len(cases)))
    crate = os.path.join(d.BUILD, "gen", prop + tag)
    n = 0
    while left and n < rounds:
        n += 1
        shutil.rmtree(crate, ignore_errors=True)
        write(d, prop, [], bound, 1, tag)
        for f in os.listdir(os.path.join(crate, "src", "bin")):
            os.remove(os.path.join(crate, "src", "bin", f))
        with open(os.path.join(crate, "src", "bin", "%s%s.rs" % (prop.lower(), tag)), "w") as f:
            f.write("#![allow(warnings)]\nuse frozen_collections::*;\n" + head)
            for i in left:
                f.write('#[path = "../../cases/c%05d.rs"]\nmod c%05d;\n' % (i, i))
                with open(os.path.join(crate, "cases", "c%05d.rs" % i), "w") as g:
                    g.write("// %s: %s\nuse super::*;\n%s\n" % (cases[i][0], cases[i][1].replace("\n", " "), cases[i][2]))
            f.write("fn main() {}\n")
        ok, per, other, err = compile_crate(d, crate, 600, check=True)
        if ok:
            break
        if not per:
            raise d.Engine("programs that must be rejected: errors outside of them\n%s\n%s" % ("\n".join(other)[:3000], err[-2000:]))
        left = [i for i in left if "c%05d" % i not in per]
    else:
        if left:
            raise d.Engine("programs that must be rejected: no fixpoint after %d rounds" % n)
    viol = [{"scenario": cases[i][0], "case": i, "input": cases[i][1], "failure": "ill-formed, but it compiles", "source": cases[i][2]} for i in left]
    sc = {}
    for c in cases:
        sc.setdefault("rejected by rustc: " + c[0], {"cases": 0})["cases"] += 1
    return {"cases": len(cases), "states": len(cases), "transitions": n * len(cases), "samples": ["%s: %s" % c[:2] for c in cases[:4]], "bounds": [bound], "scenarios": sc, "violations": viol}


SAID = set()


def merge(rs_):
    o = {"cases": 0, "states": 0, "transitions": 0, "samples": [], "bounds": [], "scenarios": {}, "violations": []}
    for r in rs_:
        for k in ("cases", "states", "transitions"):
            o[k] += r.get(k, 0)
        for k in ("bounds", "violations", "samples"):
            o[k] += r.get(k, [])
        for s, v in r.get("scenarios", {}).items():
            t = o["scenarios"].setdefault(s, {})
            for k, x in v.items():
                t[k] = round(t.get(k, 0) + x, 2) if isinstance(x, (int, float)) else x
    return o
