"""Verdicts, evidence and replay files of a check."""
import json, os, sys, time
from .facts import VERIF

class Report:
    """collects what a check analysed and what it found"""
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.viol = []          # (key, text)
        self.cov = {}
        self.rules = []
        self.instances = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def instance(self, what, ok, detail="", key=None):
        """one rule instance: judged construct plus verdict"""
        self.instances.append((what, bool(ok)))
        if not ok:
            self.violation(key or what, detail or what)
        return ok

    def violation(self, key, text):
        if all(k != key for k, _ in self.viol):
            self.viol.append((key, text))

    def count(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    def floor(self, name, n, least):
        """the rule must have matched at least the confirmed number of sites"""
        self.cov[name] = n
        if n < least:
            self.violation("floor:" + name, "only %d %s found, at least %d expected: the anchor of the rule is gone" % (n, name, least))

def known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                pid, rest = l[len("known: property="):].split(" ", 1)
                key = rest.split("|", 1)[0].strip()
                out.setdefault(pid, {})[key] = rest
    return out

def finish(rep):
    pid = rep.pid
    kn = known().get(pid, {})
    bad = []
    for key, text in rep.viol:
        if key in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, key))
        else:
            bad.append((key, text))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    ok = sum(1 for _, o in rep.instances if o)
    cov = dict(explanation="; ".join(rep.rules) or "static analysis of MIR",
               rule_instances=len(rep.instances), instances_holding=ok, **rep.cov)
    cov["samples"] = [w for w, _ in rep.instances[:12]]
    if rep.notes: cov["notes"] = rep.notes
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
              wall_s=round(time.time() - rep.t0, 3), violations=len(bad))
    d = os.environ.get("VQ_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(d, pid + ".replay.txt")
    if bad:
        with open(rp, "w") as f:
            f.write("property %s: violations found in the current source\nrule: %s\n\n" % (pid, "; ".join(rep.rules)))
            for key, text in bad:
                f.write("- [%s]\n  %s\n" % (key, text))
            f.write("\nre-run: cd /verif && ./check %s\n" % pid)
        for key, text in bad:
            print("  %s: %s" % (key, text))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp): os.remove(rp)
    print("OK property=%s instances=%d" % (pid, len(rep.instances)))
    return 0
