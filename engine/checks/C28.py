"""The pairs compared are exactly the requested ones, in order, each path in its role."""
from engine.checks import _cli
from engine.checks._cli import *

def run(rep):
    rep.rule("main is evaluated for every class of command lines (mode x single pair or batch file): the comparison is made once for each pair number, from 0 to the number of "
             "requested pairs, and its two path arguments are the option values, or the reference and degraded columns of the batch record of that very number; "
             "the batch reader takes the given file, skips the header line and leaves no record out; the serialised names of the pair record are the documented columns")
    for mode in MODES:
        for batch in (False, True):
            c = case(mode, batch)
            rep.floor("comparisons, " + c.name, len(c.runs), 1)
            for e in c.runs:
                K = kof(c, e)
                for r, a in (("reference", e["args"][1]), ("degraded", e["args"][2])):
                    rep.instance("%s: %s path" % (c.name, r), is_path(c, a, r, K),
                                 "%s: for %s the comparison's %s path is %s, not the requested pair's" % (e["where"], c.name, r, show(a, 7)[:400]))
                if batch:
                    for x in terms_where(e["args"][1], lambda y: y.op == "app" and y.a[0] == CSVREC):
                        w = source_ok(x)
                        rep.instance("%s: batch reader" % c.name, w is None, "%s: %s" % (e["where"], w))
            w = everypair(c, c.runs)
            rep.instance("%s: each pair once, in order" % c.name, w is None, "%s: %s" % (c.name, w))
    cols = named_columns()
    rep.cov["named columns"] = sorted(cols)
    rep.cov["functions"] = sorted(set().union(*[{x for x in c.m.analysed} for c in _cli._cases.values()]))[:40]
