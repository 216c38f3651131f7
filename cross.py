"""The run-time collections on other targets: 32-bit (compiled to WebAssembly, run by node) and big-endian (run by Miri)."""
import concurrent.futures, os, re, shutil

RUSTUP = {"RUSTUP_TOOLCHAIN": "nightly"}
WASM = "wasm32-unknown-unknown"
BE = "s390x-unknown-linux-gnu"
# which property the explorations of /verif/mx decide
MODES = {"C03": "scalar", "C04": "strings", "C05": "hash", "C16": "index"}


def sysroot(d):
    """core and alloc for WebAssembly, built from the toolchain's sources"""
    root = os.path.join(d.BUILD, "wasm", "root")
    rc, out, err = d.sh(["rustc", "--print", "sysroot"], "/", 60, extra=RUSTUP)
    lib = os.path.join(out.strip(), "lib/rustlib/src/rust/library")
    rc, ver, err = d.sh(["rustc", "-vV"], "/", 60, extra=RUSTUP)
    stamp = os.path.join(root, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == ver:
        return root
    src = os.path.join(d.BUILD, "wasm", "src")
    for p in (root, src):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs(os.path.join(src, "src"))
    os.makedirs(os.path.join(src, ".cargo"))
    with open(os.path.join(src, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "sr"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
alloc = { path = "%(l)s/alloc" }
core = { path = "%(l)s/core" }
compiler_builtins = { path = "%(l)s/compiler-builtins/compiler-builtins", features = ["mem"] }
[profile.release]
panic = "abort"
[patch.crates-io]
rustc-std-workspace-core = { path = "%(l)s/rustc-std-workspace-core" }
rustc-std-workspace-alloc = { path = "%(l)s/rustc-std-workspace-alloc" }
compiler_builtins = { path = "%(l)s/compiler-builtins/compiler-builtins" }
""" % {"l": lib})
    with open(os.path.join(src, ".cargo", "config.toml"), "w") as f:
        f.write('[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s/vendor"\n' % lib)
    with open(os.path.join(src, "src", "lib.rs"), "w") as f:
        f.write("#![no_std]\n")
    shutil.copy(os.path.join(lib, "Cargo.lock"), src)
    extra = dict(RUSTUP, RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zforce-unstable-if-unmarked -Awarnings", __CARGO_DEFAULT_LIB_METADATA="sr",
                 CARGO_TARGET_DIR=os.path.join(d.BUILD, "wasm", "t"))
    rc, out, err = d.sh(["cargo", "build", "--release", "--offline", "--quiet", "--target", WASM], src, 600, extra=extra)
    if rc != 0:
        raise d.Engine("core for %s:\n%s" % (WASM, err[-3000:]))
    to = os.path.join(root, "lib/rustlib", WASM, "lib")
    os.makedirs(to)
    n = 0
    for base, _, fs in os.walk(os.path.join(d.BUILD, "wasm", "t", WASM, "release")):
        for f in fs:
            if f.endswith((".rlib", ".rmeta")) and not f.startswith("libsr") and not os.path.exists(os.path.join(to, f)):
                shutil.copy(os.path.join(base, f), to)
                n += 1
    shutil.rmtree(os.path.join(d.BUILD, "wasm", "t"))
    with open(stamp, "w") as f:
        f.write(ver)
    return root


def build_wasm(d):
    """the explorations of /verif/mx against /repo's working tree, for a 32-bit target; None where the tree does not build for it"""
    root = sysroot(d)
    extra = dict(RUSTUP, CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="--sysroot " + root, CARGO_TARGET_DIR=os.path.join(d.BUILD, "mx"))
    rc, out, err = d.sh(["cargo", "build", "--offline", "--quiet", "--lib", "--target", WASM], os.path.join(d.VERIF, "mx"), 600, extra=extra)
    if rc != 0:
        return None, err
    return os.path.join(d.BUILD, "mx", WASM, "debug", "mx.wasm"), ""


def collect(d, name, res):
    cases = trans = 0
    samples, viol = [], []
    for rc, out, err, cmd in res:
        samples += [name + ": " + x for x in re.findall(r"^SAMPLE (.*)$", out, re.M)]
        m = re.search(r"^DONE (\d+) (\d+)$", out, re.M)
        if m:
            cases += int(m.group(1))
            trans += int(m.group(2))
        bad = re.search(r"^BAD\t([^\t\n]*)\t(\d+)\t([^\t\n]*)\t?(.*)$", out, re.M)
        ub = re.search(r"(?:Undefined Behavior|memory leaked).*", err)
        trap = re.search(r"^TRAP .*$", out, re.M)
        if not bad and not ub and not trap and m and rc == 0:
            continue
        if not bad and not ub and not trap:
            raise d.Engine("%s: rc=%s and no verdict\n%s\n%s" % (name, rc, out[-1500:], err[-2500:]))
        what = bad.group(4) if bad else (ub or trap).group(0)
        viol.append({"scenario": name + "/" + (bad.group(1) if bad else "?"), "case": int(bad.group(2)) if bad else -1,
                     "input": bad.group(3) if bad else "?", "failure": what, "command": " ".join(cmd)})
    return {"cases": cases, "states": cases, "transitions": trans, "samples": samples[:3], "violations": viol,
            "bounds": ["%s: %d enumerated cases, %d compared calls" % (name, cases, trans)], "scenarios": {name: {"cases": cases}}}


def wasm(d, prop, tier):
    mode = MODES[prop]
    exe, err = build_wasm(d)
    name = "32-bit target"
    if exe is None:
        return {"bounds": ["32-bit target: NOT explored, the tree does not build for it: " + err[-300:]]}
    n = min(8, os.cpu_count() or 4)
    run = os.path.join(d.VERIF, "mx", "run.mjs")

    def go(i):
        cmd = ["node", run, exe, mode, str(i), str(n), "1" if tier == "quick" else "2"]
        return d.sh(cmd, d.VERIF, 300 if tier == "quick" else 3 * 3600) + (cmd,)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return collect(d, name, list(ex.map(go, range(n))))


def setup(d):
    exe, err = build_wasm(d)
    if exe is None:
        raise SystemExit(err)
