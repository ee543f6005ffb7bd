#!/usr/bin/env python3
"""mutate.py [-j N] [-n MAX] [-s SEED] FILE=P01,P02 ... : plants small changes in copies of /repo, one after another,
runs the checks given for the file (traces only) and lists the changes no check sees. Works in /tmp/mut only."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"

SWAPS = [(r"(?<![<=>-])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![-=>])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
         (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="),
         (r"&&", "||"), (r"\|\|(?= [a-z!(])", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
         (r"\.rows\(\)", ".cols()"), (r"\.cols\(\)", ".rows()"), (r"\.sqrt\(\)", ""), (r"\.abs\(\)", ""), (r"\babs\(", "("), (r"\.clone\(\) \*", ".clone() +"), (r"-(?=[a-z(])", ""), (r"!(?=[a-z(])", ""),
         (r"\.transpose\(\)", ""), (r"Axes::Row", "Axes::Col"), (r"Axes::Col", "Axes::Row"), (r"\.skip\(", ".take("), (r"\.rev\(\)", ""), (r"\bSome\((\w+)\) => \{\},", r"Some(\1) if false => {},"), (r"\.\.(?=[a-z])", "..1+"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()")]
INT = re.compile(r"(?<![\w.])(\d+)(?![\w.])|(?<![\w.])(\d+)usize")
FLT = re.compile(r"(?<![\w])(\d+\.\d*(?:e-?\d+)?|\d+e-?\d+|\d+)(f64)?(?![\w])")

def mutants(path):
    s = open(path).read()
    cut = s.find("#[cfg(test)]")
    lines = s.split("\n"); n = s[:cut].count("\n") if cut >= 0 else len(lines)
    out = []; head = True
    for i in range(n):
        l = lines[i]; t = l.strip()
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("#[") or t.startswith("pub mod") or t.startswith("impl") or t.startswith("where") or "fn " in t or t.startswith("panic!") or t.startswith("assert") or t.startswith("Err(Error::new"): continue
        code = l.split("//")[0]
        if '"' in code: continue
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                if "=>" in code and a.startswith("(?<![-=>])>"): pass
                out.append((i, code[:m.start()] + m.expand(b) + code[m.end():]))
        for m in FLT.finditer(code):
            v = m.group(1); isf = "." in v or "e" in v or m.group(2)
            if isf:
                x = float(v)
                for w in ([x * 1.5, 0.0] if x else [1.0]):
                    out.append((i, code[:m.start()] + repr(w) + (m.group(2) or "") + code[m.end():]))
            else: out.append((i, code[:m.start()] + str(int(v) + 1) + code[m.end():]))
        if re.match(r"(self\.|[a-z_]+\.|\*?[a-z_.\[\]]+ [-+*/]?= ).*;$", t) and not t.startswith("let") and not t.startswith("return"): out.append((i, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
        if m:
            out.append((i, m.group(1) + "true" + m.group(3))); out.append((i, m.group(1) + "false" + m.group(3)))
        if t in ("break;", "continue;"): out.append((i, ""))
    seen = set(); r = []
    for i, c in out:
        if (i, c) in seen or c == lines[i]: continue
        seen.add((i, c)); r.append((i, lines[i], c))
    return r, lines

def worker(w, q, res, lock, quick):
    d = os.path.join(BASE, "w%d" % w); v = os.path.join(d, "verif"); repo = os.path.join(d, "repo")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    os.makedirs(v)
    for x in ("harness", "spec", "tools", "vendor", "check", "known-findings.txt"):
        subprocess.run(["cp", "-a", os.path.join(ROOT, x), v], check=True)
    for f in ("harness/rmcore/lib.rs", "harness/full/Cargo.toml", "harness/core/src/main.rs"):
        p = os.path.join(v, f); s = open(p).read().replace("/repo", repo); open(p, "w").write(s)
    a = open(os.path.join(v, "tools/areas.py")).read() + "\nfor k in AREAS: AREAS[k]['mc'] = []; AREAS[k]['bad'] = []; AREAS[k]['chunks'] = 3\n"
    open(os.path.join(v, "tools/areas.py"), "w").write(a)
    # one library build, not one after cargo clean per check
    while True:
        try: f, props, (i, old, new), lines = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(repo, f); ls = list(lines); ls[i] = new
        open(p, "w").write("\n".join(ls))
        verdict = None; tail = ""
        for pr in props:
            try: r = subprocess.run(["python3", "check", pr], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired: verdict = "TIMEOUT " + pr; break
            if r.returncode == 1: verdict = "caught " + pr; tail = (r.stdout.split("\n") + ["", ""])[1]; break
            if r.returncode == 2:
                if "build of" in r.stdout: verdict = "nobuild"; break
                verdict = "ERROR " + pr; tail = r.stdout[-300:]; break
        if verdict is None: verdict = "SURVIVED"
        with lock:
            res.append((verdict, f, i + 1, old, new))
            if verdict.split()[0] in ("SURVIVED", "ERROR", "TIMEOUT"): print("%s %s:%d\n  - %s\n  + %s %s" % (verdict, f, i + 1, old.strip(), new.strip(), tail), flush=True)
        open(p, "w").write("\n".join(lines))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=5); ap.add_argument("-n", type=int, default=0); ap.add_argument("-s", type=int, default=1); ap.add_argument("specs", nargs="+")
    a = ap.parse_args(); q = queue.Queue(); rnd = random.Random(a.s); total = 0
    for spec in a.specs:
        f, props = spec.split("="); ms, lines = mutants(os.path.join("/repo", f))
        rnd.shuffle(ms)
        if a.n: ms = ms[:a.n]
        total += len(ms)
        for m in ms: q.put((f, props.split(","), m, lines))
    print("%d mutants" % total, flush=True)
    res = []; lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, res, lock, True)) for w in range(a.j)]
    for t in ts: t.start()
    for t in ts: t.join()
    c = {}
    for r in res: c[r[0].split()[0]] = c.get(r[0].split()[0], 0) + 1
    print(c)
    shutil.rmtree(BASE, ignore_errors=True)
main()
