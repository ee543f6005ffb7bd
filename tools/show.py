#!/usr/bin/env python3
"""show.py replay.json [event]: prints a rejected history with reals decoded."""
import json, sys
from fractions import Fraction
def num(v):
    if v == [2]: return "nan"
    if v == [3]: return "inf"
    if v == [4]: return "-inf"
    if v == [0]: return 0.0
    n = 0
    for d in reversed(v[1:]): n = n * 16384 + d
    return float(Fraction(v[0] * n, 1 << 224))
def isfx(v): return isinstance(v, list) and v and all(isinstance(x, int) for x in v) and (v in ([2], [3], [4], [0]) or (v[0] in (1, -1) and len(v) > 4 and v[-1] != 0))
def dec(v):
    if isfx(v): return num(v)
    if isinstance(v, list): return [dec(x) for x in v]
    if isinstance(v, dict): return {k: dec(x) for k, x in v.items()}
    return v
r = json.load(open(sys.argv[1]))
print(r["case"]["name"], "event", r["rejected_event"], r["clauses"])
ev = r["case"]["ev"]
for i, e in enumerate(ev[:r["rejected_event"]], 1):
    if len(sys.argv) > 2 and i not in (1, r["rejected_event"]): continue
    print(i, json.dumps(dec(e))[:3000])
