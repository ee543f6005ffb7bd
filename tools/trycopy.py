#!/usr/bin/env python3
"""trycopy.py [-m] P01,P02 PATCH | P01,P02 FILE LINE NEWTEXT: runs the checks against a changed copy of /repo (in /tmp/tc); -m: models too."""
import os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = "-m" in sys.argv; a = [x for x in sys.argv[1:] if x != "-m"]
d = os.environ.get("TC_DIR", "/tmp/tc"); v = d + "/verif"; repo = d + "/repo"
shutil.rmtree(repo, ignore_errors=True); os.makedirs(v, exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
for x in ("harness", "spec", "tools", "vendor", "check", "known-findings.txt"):
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", os.path.join(ROOT, x), v], check=True) if shutil.which("rsync") else subprocess.run("rm -rf %s/verif/%s && cp -a %s %s/verif/" % (d, x, os.path.join(ROOT, x), d), shell=True, check=True)
for f in ("harness/rmcore/lib.rs", "harness/full/Cargo.toml", "harness/core/src/main.rs"):
    p = os.path.join(v, f); s = open(p).read().replace("/repo", repo); open(p, "w").write(s)
if not full:
    s = open(v + "/tools/areas.py").read() + "\nfor k in AREAS: AREAS[k]['mc'] = []; AREAS[k]['bad'] = []; AREAS[k]['chunks'] = 3\n"; open(v + "/tools/areas.py", "w").write(s)
if len(a) == 2: subprocess.run(["git", "-C", repo, "apply", os.path.abspath(a[1])], check=True)
elif len(a) == 4:
    p = os.path.join(repo, a[1]); l = open(p).read().split("\n"); i = int(a[2]) - 1
    print("-", l[i].strip()); l[i] = a[3]; print("+", a[3]); open(p, "w").write("\n".join(l))
for pr in a[0].split(","):
    r = subprocess.run(["python3", "check", pr], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    print(pr, r.returncode, r.stdout.strip()[-600:], flush=True)
