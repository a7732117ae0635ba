#!/usr/bin/env python3
"""Runs checks on edited copies of /repo: tools/mut.py [-j N] [-c C01,C02|own|all] [NAME-REGEX]
The edits are listed in tools/mutants.py; 'expect' names the checks that must fire ([] for edits that keep the behaviour)."""
import os, re, shutil, subprocess, sys, json, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from mutants import M
SCR = os.environ.get("VQ_MUT", "/tmp/vqmut")
args = sys.argv[1:]
J = 4; C = "own"
while args and args[0].startswith("-"):
    if args[0] == "-j": J = int(args[1])
    if args[0] == "-c": C = args[1]
    args = args[2:]
pat = args[0] if args else ""
allc = sorted(f[:-3] for f in os.listdir(os.path.join(V, "engine/checks")) if re.match(r"C\d+\.py$", f))
jobs = queue.Queue()
sel = [m for m in M if re.search(pat, m["name"])]
for m in sel: jobs.put(m)
lock = threading.Lock()
res = {}
def worker(w):
    d = os.path.join(SCR, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    repo, bld = os.path.join(d, "repo"), os.path.join(d, "build")
    if not os.path.isdir(bld): shutil.copytree(os.path.join(V, ".build"), bld, symlinks=True)
    while True:
        try: m = jobs.get_nowait()
        except queue.Empty: return
        if os.path.isdir(repo): shutil.rmtree(repo)
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        bad = None
        for f, old, new in m["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1: bad = "edit of %s matches %d times" % (f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        if m.get("patch"):
            r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(V, m["patch"])], cwd=repo, capture_output=True, text=True)
            if r.returncode: bad = r.stdout
        out = {}
        if not bad:
            cs = allc if C == "all" or (C == "own" and not m["expect"]) else [c for c in m["expect"] if c in allc] if C == "own" else C.split(",")
            e = dict(os.environ, VQ_REPO=repo, VQ_BUILD=bld, VQ_EVID=os.path.join(d, "ev"))
            try:
                r = subprocess.run([os.path.join(V, "check")] + cs, env=e, capture_output=True, text=True, timeout=2400)
                for c in cs:
                    v = [l for l in r.stdout.splitlines() if "property=%s " % c in l and l.startswith("VIOLATION")]
                    out[c] = (1 if v else 0 if r.returncode in (0, 1) else r.returncode, "\n".join(v) + ("\n" + r.stderr[-600:] if v else ""))
                if r.returncode not in (0, 1): print(m["name"], (r.stdout + r.stderr)[-800:])
            except subprocess.TimeoutExpired: out = {c: (99, "timeout") for c in cs}
        with lock:
            fired = sorted(c for c, (r, o) in out.items() if r == 1 and "VIOLATION" in o)
            odd = sorted(c for c, (r, o) in out.items() if r not in (0, 1))
            ok = not bad and not odd and (set(m["expect"]) & set(out) <= set(fired)) and (m["expect"] or not fired)
            print("%s %-34s expect %-12s fired %s %s" % ("ok  " if ok else "MISS" if m["expect"] else "FALSE", m["name"], ",".join(m["expect"]) or "-", ",".join(fired) or "-", bad or (odd and "ODD %s" % odd) or ""))
            if os.environ.get("MUT_V") or (not ok and not m["expect"]):
                for c in (fired + odd if not m["expect"] else out): print("      ", c, (out[c][1][:600] or "").replace("\n", "\n        "))
            sys.stdout.flush()
            res[m["name"]] = dict(expect=m["expect"], fired=fired, ok=bool(ok))
ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(J, len(sel)))]
for t in ts: t.start()
for t in ts: t.join()
print("%d edits, %d as expected" % (len(res), sum(1 for r in res.values() if r["ok"])))
json.dump(res, open(os.path.join(SCR, "result-%s.json" % (re.sub(r"\W", "_", C))), "w"), indent=1, sort_keys=True)
