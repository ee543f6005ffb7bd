#!/usr/bin/env python3
"""suite.py: /repo's whole test suite (doc tests too with --doc), compiled with the stand-ins in a scratch clone of HEAD."""
import os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = tempfile.mkdtemp(prefix="suite-", dir="/tmp")
try:
    r = os.path.join(s, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    os.makedirs(os.path.join(r, ".cargo"), exist_ok=True)
    open(os.path.join(r, ".cargo/config.toml"), "w").write(open(os.path.join(ROOT, "harness/.cargo/config.toml")).read().replace("../vendor", ROOT + "/vendor"))
    lk = open(os.path.join(ROOT, "harness/full/Cargo.lock")).read()
    for n in ("common", "full"): lk = re.sub(r'\[\[package\]\]\nname = "%s"\n.*?(\n\n|$)' % n, "", lk, flags=re.S)
    open(os.path.join(r, "Cargo.lock"), "w").write(lk)
    for what in [["--lib", "--test", "lib", "--test", "datasets"]] + ([["--doc"]] if "--doc" in sys.argv else []):
        x = subprocess.run(["cargo", "test", "--offline", "--features", "stats datasets", "--no-fail-fast"] + what, cwd=r, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/seed-target", RUSTFLAGS="--cap-lints allow"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("\n".join(re.findall(r"^(?:test .* FAILED|test result.*|error.*)$", x.stdout, re.M)))
finally: shutil.rmtree(s, ignore_errors=True)
