#!/usr/bin/env python3
"""mkseed.py [id ...]: (re)creates /verif/seeded/<id> from tools/seeds/*.py and confirms each in a scratch copy."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, kind="full"):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind)

DEMO = r'''#!/bin/bash
# cwd is /repo; builds a small program against its sources and runs it (exit 0: behaves)
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/.cargo" "$t/home" && tar -C "$t" -xzf "$here/vendor.tgz" || exit 99
cat > "$t/.cargo/config.toml" <<X
[source.crates-io]
replace-with = "vendored"
[source."git+https://github.com/AtheMathmo/rulinalg?rev=1ed8b937"]
git = "https://github.com/AtheMathmo/rulinalg"
rev = "1ed8b937"
replace-with = "vendored"
[source.vendored]
directory = "$t/vendor"
X
cp "$here/main.rs" "$t/src/main.rs"
@SETUP@
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow"
cd "$t" && cargo build --offline -q || exit 98
timeout 100 "$t/target/debug/demo"
'''
CORE = r'''mkdir -p "$t/rm"
cat > "$t/rm/Cargo.toml" <<X
[package]
name = "rusty-machine"
version = "0.5.4"
edition = "2015"
[lib]
path = "lib.rs"
[dependencies]
rand = "0.4.1"
X
cat > "$t/rm/lib.rs" <<X
extern crate rand;
pub mod learning { pub mod toolkit {
    #[path = "$repo/src/learning/toolkit/activ_fn.rs"] pub mod activ_fn;
    #[path = "$repo/src/learning/toolkit/rand_utils.rs"] pub mod rand_utils;
} }
pub mod stats { #[path = "$repo/src/stats/dist/mod.rs"] pub mod dist; }
X
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-machine = { path = "rm" }
rand = "0.4.1"
[profile.dev]
opt-level = 1
[workspace]
X'''
FULL = r'''cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-machine = { path = "$repo", features = ["stats", "datasets"] }
rand = "0.4.1"
rulinalg = { git = "https://github.com/AtheMathmo/rulinalg", rev = "1ed8b937" }
[profile.dev]
opt-level = 1
[workspace]
X
cp "$here/Cargo.lock" "$t/Cargo.lock"'''

def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(i, s):
    d = os.path.join(ROOT, "seeded", i)
    scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        r = os.path.join(scratch, "repo")
        run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); x = open(p).read()
            assert x.count(old) == 1, "%s: %d matches for %r" % (i, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        diff = run(["git", "-C", r, "diff"]).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@SETUP@", CORE if s["kind"] == "core" else FULL))
        open(os.path.join(d, "main.rs"), "w").write(s["demo"])
        run("tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C %s -cf - vendor | gzip -n > %s/vendor.tgz" % (ROOT, d), shell=True, check=True)
        if s["kind"] != "core":
            lock = open(os.path.join(ROOT, "harness/full/Cargo.lock")).read()
            lock = re.sub(r'\[\[package\]\]\nname = "common"\n.*?\n\n', "", lock, flags=re.S).replace(' "common",\n', "").replace('name = "full"', 'name = "demo"')
            # packages are sorted by name
            head, *pk = re.split(r"(?=\[\[package\]\]\n)", lock)
            pk = sorted((p.strip() + "\n\n" for p in pk), key=lambda p: re.search(r'name = "(.*?)"', p).group(1))
            open(os.path.join(d, "Cargo.lock"), "w").write(head + "".join(pk).rstrip() + "\n")
        # the demonstration: passes on the unchanged tree, fails with the change
        a = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        b = run(["bash", os.path.join(d, "demo.sh")], cwd=r)
        ok = a.returncode == 0 and b.returncode not in (0, 98, 99)
        # the stable tests still pass with it
        t = "?"
        if s["kind"] == "core":
            subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
            try:
                t = run(["bash", "-c", "bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/seed-test.json >/dev/null 2>&1; echo $?"]).stdout.strip()
            finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
            ok = ok and t == "0"
        else:
            # full tree: compile and run the whole test suite with the stand-in of rulinalg
            os.makedirs(os.path.join(r, ".cargo"), exist_ok=True)
            cfg = open(os.path.join(ROOT, "harness/.cargo/config.toml")).read().replace("../vendor", ROOT + "/vendor")
            open(os.path.join(r, ".cargo/config.toml"), "w").write(cfg)
            lk = open(os.path.join(ROOT, "harness/full/Cargo.lock")).read()
            for n in ("common", "full"): lk = re.sub(r'\[\[package\]\]\nname = "%s"\n.*?(\n\n|$)' % n, "", lk, flags=re.S)
            open(os.path.join(r, "Cargo.lock"), "w").write(lk)
            x = run(["cargo", "test", "--offline", "--features", "stats datasets", "--no-fail-fast", "--lib", "--test", "lib", "--test", "datasets"], cwd=r, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/seed-target", RUSTFLAGS="--cap-lints allow"))
            fails = set(re.findall(r"^test (\S+) \.\.\. FAILED", x.stdout, re.M))
            base = {"pca::test_default", "pca::test_wide", "learning::pca::test_default", "learning::pca::test_wide", "learning::lin_reg::test_train_no_data"}
            fails = {f for f in fails if "pca::test_default" not in f and "pca::test_wide" not in f and "trees" not in f}
            t = "0" if not fails and "test result" in x.stdout and "error: could not compile" not in x.stdout and "error: failed" not in x.stdout else ("FAILS " + str(fails) + x.stdout[-600:] * (not fails))
            ok = ok and t == "0"
        print(("ok   " if ok else "BAD  ") + i, "unchanged=%d patched=%d tests=%s" % (a.returncode, b.returncode, t))
        if not ok: print(a.stdout[-1500:] if a.returncode else "", b.stdout[-1500:])
        return ok
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))): exec(compile(open(f).read(), f, "exec"))
    which = sys.argv[1:] or sorted(SEEDS)
    bad = [i for i in which if not make(i, SEEDS[i])]
    print("bad:", bad)
    sys.exit(1 if bad else 0)
