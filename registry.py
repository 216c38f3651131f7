"""Which exploration decides which property."""
import concurrent.futures
import re
import cross
import genlib

BINS = {f"C{i:02}": [f"c{i:02}"] for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19)}
GEN = {"C14": "c14", "C15": "c15", "C16": "c16", "C17": "c17", "C18": "c18", "C20": "c20"}
for g in GEN:
    BINS.setdefault(g, [])
ALL = sorted(BINS)
# technique and note of each check, for MANIFEST.json
TECH = {
    "C01": ('stateless exploration of the real code: every entry sequence, constructor, hash function and query within bounds, compared with an association list in which the last entry counts', ''),
    "C02": ('stateless exploration of the real code: every value sequence, constructor, hash function and query within bounds, compared with a mathematical set', ''),
    "C03": ('stateless exploration of the real code: every range, hole, pair, triple and boundary subset of every scalar type within bounds; all 256 queries for 8-bit types, neighbours and extremes for the others; sizes to 131073; boundary subsets on a 32-bit target', ''),
    "C04": ('stateless exploration of the real code: every subset of small string universes over 4 alphabets and every padding of structured families, queried with every string one character longer; sizes to 131073; subsets and paddings on a 32-bit target', ''),
    "C05": ("stateless exploration of the real code: the caller's hash function is an adversary: every mapping of keys to codes of a 6-code menu, plus structured families to 131073 keys; code tables on a 32-bit target", ''),
    "C06": ("stateless exploration of the real code: the caller's order is an adversary: every total preorder in every insertion order within bounds; every size 0..2500 with every rank and gap queried", ''),
    "C07": ('stateless exploration of the real code: every sequence of tagged equal keys within bounds through every way of building; the kept entry is identified by its tag', ''),
    "C08": ('stateless exploration of the real code: every collection of the bounded space x every iterator x every point of consumption; the iterator contract is evaluated at each state', ''),
    "C09": ('stateless exploration of the real code: explicit-state search over all operation histories up to the bound on a pair (original, copy), against two association lists', 'State = (contents of both instances, layout); a transition is one operation.'),
    "C10": ('stateless exploration of the real code: every query array within bounds x layouts x value types; results compared by value and by address', ''),
    "C11": ('stateless exploration of the real code: every ordered pair of subsets x every pair of implementations x every operation, every point of consumption, against boolean set algebra', ''),
    "C12": ('stateless exploration of the real code: every pair of contents x every pair of implementations within bounds, and every single change of larger contents, against equality of the models', ''),
    "C13": ('stateless exploration of the real code: every round trip within bounds, a fault injected at every token, a cut at every byte, every token text up to the bound; BTreeMap/BTreeSet judge the same input', 'Fault injection covers every point of each enumerated stream.'),
    "C14": ('exhaustive enumeration of programs of a bounded grammar, each compiled by the real macros and executed; contents and queries compared with the entries the text lists', "Also enumerates every identifier of the expansions as a name in the caller's scope, every surrounding of a use in three editions, callers without std under five feature sets, and programs for a big-endian target (executed by Miri)."),
    "C15": ('exhaustive enumeration of emitter configurations and bounded entry lists on the real emitter (stage 1), the emitted source compiled and executed (stage 2), compared with the entries given; histories of setters and emissions', ''),
    "C16": ('exhaustive evaluation of the index function over whole 8/16/32-bit types and windows of 64-bit types, and over generated enums, against order isomorphism', ''),
    "C17": ('stateless exploration of the real code: every operation sequence within bounds with a panic injected at every callback, drop ledger and checking allocator as monitors; Miri as monitor on enumerated executions; enumerated programs that must not compile', 'Miri decides each enumerated execution (Tree Borrows); it is the monitor, the enumeration is the exploration.'),
    "C18": ('stateless exploration of the real code: every size on both sides of every internal capacity limit x id families x hash functions, against a model', ''),
    "C19": ('stateless exploration of the real code: every trait method of every implementation through generic code and trait objects, on every sequence within bounds, against the inherent method and the model', ''),
    "C20": ('exhaustive single-edit neighbourhood of macro and derive inputs and all short token sequences, run through the real macro functions and judged by an independent grammar; all emitter configurations; survivors decided by compiling', ''),
}


def run(prop, tier, d):
    rs = [d.run_bin(prop, tier, name=b) for b in BINS[prop]]
    if prop == "C17" and not any(r["violations"] for r in rs):
        rs.append(miri(prop, tier, d))
    if prop in GEN and not any(r["violations"] for r in rs):
        d.sys.path.insert(0, d.os.path.join(d.VERIF, "gen"))
        g = __import__(GEN[prop])
        rs.append(g.explore(d, tier) if hasattr(g, "explore") else genlib.explore(d, prop, tier, g.cases(tier), g.BOUND, timeout=800 if tier == "quick" else 3600))
    if prop in cross.MODES and not any(r["violations"] for r in rs):
        rs.append(cross.wasm(d, prop, tier))
    return d.merge(rs)


def miri(prop, tier, d):
    """the tracked operations once more, every execution checked by Miri"""
    crate = d.os.path.join(d.VERIF, "mc")
    n = min(8, d.os.cpu_count() or 4)
    extra = {"CARGO_TARGET_DIR": d.os.path.join(d.BUILD, "miri"), "XDG_CACHE_HOME": d.os.path.join(d.BUILD, "miri-cache"), "MIRIFLAGS": "-Zmiri-tree-borrows", "RUSTUP_TOOLCHAIN": "nightly"}

    def go(shard, of):
        cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--bin", "m17", "--", str(shard), str(of), tier]
        return d.sh(cmd, crate, 700 if tier == "quick" else 3 * 3600, extra=extra) + (cmd,)

    rc, out, err, _ = go(0, 10 ** 9)
    if rc != 0 or "DONE" not in out:
        raise d.Engine("Miri build failed:\n" + err[-3000:])
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda i: go(i, n), range(n)))
    cases, viol, samples = 0, [], []
    for rc, out, err, cmd in res:
        cs = re.findall(r"^CASE (.*)$", out, re.M)
        cases += len(cs)
        samples += ["miri: " + c for c in cs[:1]]
        if rc == 0 and "DONE" in out:
            continue
        if "unsupported operation" in err:
            raise d.Engine("Miri: " + err[-2000:])
        m = re.search(r"(?:Undefined Behavior|memory leaked|deadlock).*", err)
        bad = re.findall(r"^(?:BAD|PANIC) .*$", out, re.M)
        if not m and not bad:
            raise d.Engine("Miri run ended with rc=%s and no verdict\n%s\n%s" % (rc, out[-1500:], err[-2500:]))
        viol.append({"scenario": "miri", "case": len(cs), "input": cs[-1] if cs else "?", "failure": (m.group(0) if m else bad[-1]) + "\n" + err[:1500],
                     "command": "cd /verif/mc && " + " ".join("%s='%s'" % kv for kv in extra.items()) + " " + " ".join(cmd)})
    return {"cases": cases, "states": cases, "transitions": cases, "samples": samples, "violations": viol,
            "bounds": ["Miri (Tree Borrows): %d enumerated operations on tracked collections, disjoint access through equivalent queries, macro-made collections, table sizes" % cases],
            "scenarios": {"miri": {"cases": cases}}}


def setup(d):
    bins = sorted(f[:-3] for f in d.os.listdir(d.os.path.join(d.VERIF, "mc", "src", "bin")))
    for inl in (True, False):
        cmd = ["cargo", "build", "--offline", "--quiet"] + ([] if inl else ["--no-default-features"])
        for b in bins:
            if (b in d.INL) == inl:
                cmd += ["--bin", b]
        rc, out, err = d.sh(cmd, d.os.path.join(d.VERIF, "mc"), 1500)
        if rc != 0:
            raise SystemExit(err)
    cross.setup(d)
    # Miri's own system libraries, once per target
    rc, out, err = d.sh(["cargo", "miri", "setup"], d.os.path.join(d.VERIF, "mc"), 600, extra={"RUSTUP_TOOLCHAIN": "nightly", "XDG_CACHE_HOME": d.os.path.join(d.BUILD, "miri-cache")})
    if rc != 0:
        raise SystemExit(err)
    # the big-endian C14 programs: their system libraries are built once
    d.sys.path.insert(0, d.os.path.join(d.VERIF, "gen"))
    __import__("c14be").explore(d, "quick")
