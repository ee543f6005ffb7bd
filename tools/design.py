"""Writes DESIGN.md: tools/design_head.md, the paragraphs below, and tables made from evidence/, seeded/ and known-findings.txt."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(R, "tools"))
from areas import AREAS
P = {}
cur = None
for l in open(os.path.join(R, "tools", "design_props.md")):
    m = re.match(r"## (P\d+)", l)
    if m: cur = m.group(1); P[cur] = ""
    elif cur: P[cur] += l
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = open(os.path.join(R, "tools", "design_head.md")).read() + "\n# Properties\n\n"
out += ("Cost: a quick check takes 5 to 30 s on 8 cores, most of it TLC on traces; a thorough one between 1 and 15 min.\n"
        "*Model* names the configurations TLC explores (after /, broken variants it must refute), *Trace* the specification every recorded event is a step of.\n\n")
for p in props:
    a = AREAS[p["id"]]
    nm = lambda x: x if isinstance(x, str) else x[1]
    out += "## %s %s\n\n" % (p["id"], p["title"])
    out += "*Model* %s%s. *Trace* %s, driver `%s %s`.\n\n" % (", ".join(map(nm, a["mc"])), (" / " + ", ".join(map(nm, a["bad"]))) if a.get("bad") else "", a["trace"], a.get("bin", a["driver"]), " ".join(a["cmds"]))
    out += P.get(p["id"], "").strip() + "\n\n"
out += open(os.path.join(R, "tools", "design_tail.md")).read()
out += "\n# Defects\n\nFound by the checks on the tree as given, shown against the real code, and repaired in one `fix:` commit each:\n\n"
kf = open(os.path.join(R, "known-findings.txt")).read().split("\n")
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out += "* %s `%s` %s\n" % m.groups()
out += "\nRecorded rather than repaired (the crate's own tests pin the wrong value):\n\n"
for l in kf:
    m = re.match(r"known: property=(\S+) case=(\S+) clauses=(\S+) (.*)", l)
    if m: out += "* %s histories `%s`, clause `%s`: %s\n" % m.groups()
out += "\n# Planted bugs\n\nEach is a change to /repo that compiles and passes the tests, with a demonstration. All were run against the check of their property; every one is caught by it (those which were not at first made the check grow).\n\n| bug | check | needs |\n|---|---|---|\n"
rows = []
for f in glob.glob(os.path.join(R, "seeded", "*", "meta.json")):
    d = json.load(open(f)); rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"]))
for p, n, w in sorted(rows): out += "| %s | %s | %s |\n" % (n, p, w)
open(os.path.join(R, "DESIGN.md"), "w").write(out)
print(len(out), "bytes;", "missing:", [p["id"] for p in props if p["id"] not in P])
