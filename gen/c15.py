"""C15: emitted source code, compiled and compared with the entries the emitter was given."""
import json
import genlib

BOUND = ("code emitter: every valid combination of value type, symbol, alias, const flags, visibility, static, mutable on small lists of every algorithm; every subset of 5..6-key windows at both ends and around zero of every integer type; "
         "contiguous to scattered layouts of 1..257 keys; every list of up to 4 (thorough 6) entries over 3 keys; every subset of six 6-string universes; 8 string families to 257 keys; derived enums, non-zero integers, tuples, char, u128, option, bool, String; every configuration again by 20 other histories of setter calls (every order that begins elsewhere, reversed, other values first, clones, emissions in between); entries made by the other constructor")


def stage1(d, tier, args=()):
    exe = d.cargo_bin("mc", "e15")
    rc, out, err = d.sh([exe] + (["--thorough"] if tier == "thorough" else []) + list(args), d.VERIF, 600, mem_gb=16)
    if rc != 0:
        raise d.Engine("emitter stage failed rc=%s\n%s\n%s" % (rc, out[-500:], err[-3000:]))
    cases, bad, seen = [], [], set()
    for l in out.splitlines():
        c = json.loads(l)
        if "same" in c:
            d.c15_same = c["same"]
            continue
        if (c["s"], c["d"]) in seen:
            continue
        seen.add((c["s"], c["d"]))
        if "bad" in c:
            bad.append({"scenario": c["s"], "case": len(bad), "input": c["d"], "failure": c["bad"]})
        else:
            cases.append((c["s"], c["d"], c["i"]))
    return cases, bad


def explore(d, tier, prop="C15", args=(), bound=BOUND, tag=""):
    cases, bad = stage1(d, tier, args)
    if bad:
        return {"cases": len(bad), "states": 0, "transitions": 0, "samples": [], "bounds": [bound], "scenarios": {}, "violations": bad}
    r = genlib.explore(d, prop, tier, cases, bound, tag=tag, timeout=800 if tier == "quick" else 3600)
    same = getattr(d, "c15_same", 0) if not args else 0
    if same:
        r["scenarios"]["setter histories with the same text"] = {"cases": same}
        r["cases"] += same
        r["transitions"] += same
    return r
