#!/usr/bin/env python3
"""tryseed.py [ids]: applies each planted change to /repo, runs its property's check, undoes it."""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(ROOT + "/seeded/*"))
miss = []
for i in ids:
    d = os.path.join(ROOT, "seeded", i); p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try: r = subprocess.run(["python3", "check", p], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
    lines = [l for l in r.stdout.split("\n") if l.strip()]
    n = sum(l.startswith("VIOLATION") for l in lines)
    print("caught" if hit else "MISSED", i, p, n, (lines[1] if hit and len(lines) > 1 else "\n".join(lines[-5:]))[:300], flush=True)
    if not hit: miss.append(i)
print("missed:", miss)
