#!/usr/bin/env python3
"""Driver of the model-checking harness.

  check.py <Cxx> quick|thorough     build from /repo's working tree, explore, write evidence, exit 0/1 (2 = error)
  check.py setup                    build every harness once
  check.py replay <file>            re-run one recorded violation (plain re-execution of that single case)

Exit 0: property held on everything explored.  Exit 1 + "VIOLATION property=... replay=...": broken.
Exit 2: the machinery itself failed (no verdict).
"""
import json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def env(extra=None):
    e = dict(os.environ)
    e["CONST_RANDOM_SEED"] = "frozen"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["RUSTUP_TOOLCHAIN"] = e.get("VP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    if extra:
        e.update(extra)
    return e


class Engine(Exception):
    """the machinery failed: no verdict"""


def sh(cmd, cwd, timeout, extra=None, mem_gb=None):
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
    except subprocess.TimeoutExpired as x:
        raise Engine("timeout after %ss: %s\n%s" % (timeout, " ".join(cmd), (x.stdout or b"")[-2000:].decode(errors="replace")))
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


# binaries that look at the macro-made collections of mc/src/inl.rs
INL = ("c02", "c04", "c06", "c08", "c09", "c10", "c11", "c12", "c13", "c19", "m17")


def cargo_bin(crate, name):
    """build one harness binary from the current tree, return its path"""
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", name] + ([] if name in INL else ["--no-default-features"])
    rc, out, err = sh(cmd, os.path.join(VERIF, crate), 800)
    if rc != 0:
        raise Engine("cargo build of %s failed:\n%s" % (name, err[-6000:]))
    return os.path.join(BUILD, "target", "debug", name)


def parse_run(prop, exe, args, rc, out, err, mem_gb=24):
    """turn the output of an exploration binary into a result dict"""
    res = None
    for l in out.splitlines():
        if l.startswith("MC-RESULT "):
            res = json.loads(l[len("MC-RESULT "):])
    if res is not None and rc in (0, 1):
        return res
    crash = re.search(r"MC-CRASH kind=(\w+) scen=(\d+) case=(\d+)", out)
    if crash:
        kind, scen, case = crash.groups()
        why = re.search(r"MC-ABORTING (.*)", out)
        # describe the case by replaying it alone
        try:
            rc2, out2, err2 = sh([exe] + args + ["--replay-index", scen, case], VERIF, 180, mem_gb=mem_gb)
        except Engine:
            rc2, out2 = None, ""
        d = re.search(r"^REPLAY scenario=(.*?) case=(\d+) (.*)$", out2, re.M)
        w2 = re.search(r"MC-ABORTING (.*)", out2)
        text = "process killed by %s %s" % (kind, (w2 or why).group(1) if (w2 or why) else "")
        tail = err.strip().splitlines()[-3:]
        if kind == "SIGABRT" and tail:
            text += " | " + " ".join(tail)[-400:]
        return {"property": prop, "cases": 0, "states": 0, "transitions": 0, "samples": [], "bounds": [], "scenarios": {}, "wall_s": 0,
                "violations": [{"scenario": d.group(1) if d else "index %s" % scen, "case": int(case), "input": d.group(3) if d else "?",
                                "failure": text, "index": int(scen)}]}
    raise Engine("exploration ended with rc=%s and no result\n%s\n%s" % (rc, out[-3000:], err[-3000:]))


# bounds of the quick tier (see engine.rs); the thorough tier is always level 2
QUICK_LEVEL = {"c09": 0, "c18": 0, "c10": 0, "c17": 0, "c16": 0}


def level_of(name, tier):
    return 2 if tier == "thorough" else QUICK_LEVEL.get(name, 1)


def run_bin(prop, tier, crate="mc", name=None, timeout=None, extra_args=()):
    exe = cargo_bin(crate, name or prop.lower())
    level = ["--level", str(level_of(name or prop.lower(), tier))]
    args = level + ["--known", KNOWN] + list(extra_args)
    rc, out, err = sh([exe] + args, VERIF, timeout or (600 if tier == "quick" else 4 * 3600), mem_gb=24)
    sys.stderr.write(err)
    for l in out.splitlines():
        if l.startswith("KNOWN-FINDING:"):
            print(l)
    r = parse_run(prop, exe, args, rc, out, err)
    for v in r["violations"]:
        v["rerun"] = [exe] + level + \
            (["--replay-index", str(v["index"]), str(v["case"])] if "index" in v else ["--replay", v["scenario"], str(v["case"])])
        v["crate"], v["bin"] = crate, name or prop.lower()
    return r


def merge(rs):
    o = {"cases": 0, "states": 0, "transitions": 0, "samples": [], "bounds": [], "scenarios": {}, "violations": []}
    for r in rs:
        for k in ("cases", "states", "transitions"):
            o[k] += r.get(k, 0)
        for k in ("bounds", "violations"):
            o[k] += r.get(k, [])
        o["samples"] += r.get("samples", [])[:8]
        o["scenarios"].update(r.get("scenarios", {}))
    return o


def run_property(prop, tier):
    import registry
    return registry.run(prop, tier, sys.modules[__name__])


def main():
    if sys.argv[1] == "setup":
        import registry
        registry.setup(sys.modules[__name__])
        return 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if "bin" not in d:
            print(json.dumps(d, indent=1))
            print("re-run:", d.get("how"))
            return 0
        cargo_bin(d["crate"], d["bin"])
        rc, out, err = sh(d["rerun"], VERIF, 600)
        print(out)
        print(err)
        return rc
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        r = run_property(prop, tier)
    except Engine as x:
        print("ERROR (no verdict): %s" % x)
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["cases"],
                       "samples": r["samples"][:16], "exhaustive": True, "bounds": r["bounds"], "scenarios": r["scenarios"],
                       "rule": "states = distinct model states (canonical contents) constructed; transitions = calls of the real code compared with the model; "
                               "traces = enumerated cases (inputs, histories or programs) executed on the real implementation; nothing is sampled"},
          "assumptions": r.get("assumptions", ["values outside the stated alphabets and sizes outside the stated bounds are not covered"]),
          "wall_s": round(time.time() - t0, 2), "violations": len(r["violations"])}
    for k, v in r.get("extra", {}).items():
        ev["coverage"][k] = v
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if r["violations"]:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = r["violations"][0]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, tier))
        v["property"] = prop
        v["how"] = "python3 /verif/check.py replay " + path
        with open(path, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False)
        for x in r["violations"][:5]:
            print("  failing case: %s #%s: %s\n    %s" % (x.get("scenario"), x.get("case"), str(x.get("input"))[:600], str(x.get("failure"))[:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (prop, tier, r["states"], r["transitions"], r["cases"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
