"""C23: fine alignment keeps the better of the coarse and the realigned record, whole"""
from ._fine import *

def run(rep):
    rep.rule("value numbering of fine alignment: record i of the result is, by cases, the coarse record i or one whose measured fields all come from the same measurement; the "
             "cases' conditions exclude (linear entailment) that the worse of the two is taken; times follow from the lag and the audio compared")
    f = fine()
    b = f.u.bid
    rep.instance("one record per coarse record", f.n is length(f.sims), "%s: %s records" % (b, show(f.n, 5)[:200]))
    rep.floor("cases of a returned record", len(f.cases), 3)
    new = {}
    for cube, l in f.cases:
        if l is f.old: continue
        m = measured(l)
        rep.instance("a changed record is measured as a whole", m is not None,
                     "%s: on %s the record is %s" % (b, showcube(cube)[:400], show(l, 4)[:400]))
        if m is not None: new[l] = m
    ms = set(new.values())
    rep.instance("one realigned measurement per patch", len(ms) == 1, "%s: %d measurements" % (b, len(ms)))
    if len(ms) != 1: return
    m = ms.pop()
    o, n = old(f, "similarity"), F(m, PR, "similarity")
    ds, de = old(f, "deg_patch_start_time"), old(f, "deg_patch_end_time")
    unmatched = lambda cube: lin.valid(bimp(cubecond(cube), band(feq0(ds), feq0(de)))) is None
    kept = 0
    for cube, l in f.cases:
        if l is f.old:
            if unmatched(cube): continue
            kept += 1
            rep.instance("the coarse record is kept only if the realigned one is not better", excludes(cube, fgt0(sub(n, o))),
                         "%s: record kept on %s" % (b, showcube(cube)[:600]))
        elif l in new:
            rep.instance("the realigned record is taken only if it is not worse", excludes(cube, fgt0(sub(o, n))),
                         "%s: record replaced on %s" % (b, showcube(cube)[:600]))
    rep.floor("cases that keep a matched record", kept, 1)
    # times
    sigs = [audio(m, 1), audio(m, 2)]
    if None in sigs: raise Missing("the audio compared")
    al = {z for s in sigs for z in terms_where(s, lambda z: z.op == "app" and z.a[0] == ALIGN)}
    if len(al) != 1: raise Missing("one alignment per patch (%d found)" % len(al))
    a = al.pop()
    lag = fld(fld(a, 1, 0), 0, 1)
    for k, who, root in ((1, "ref", "REF"), (2, "deg", "DEG")):
        s, e = old(f, who + "_patch_start_time"), old(f, who + "_patch_end_time")
        x = a.a[k]
        rep.instance("the audio aligned is the %s signal's between the record's times" % who, draws(x, sym(root)) and draws(x, s) and draws(x, e)
                     and not draws(x, sym({"REF": "DEG", "DEG": "REF"}[root])), "%s: %s" % (b, show(x, 6)[:300]))
    for cube, l in f.cases:
        if l not in new: continue
        for k, who in ((1, "ref"), (2, "deg")):
            sig = sigs[k - 1]
            S, E = F(l, PR, who + "_patch_start_time"), F(l, PR, who + "_patch_end_time")
            dur = fdiv(length(F(sig, "AudioSignal", "data_matrix")), F(sig, "AudioSignal", "sample_rate"))
            equal(rep, "the %s end is its start plus the duration of the audio compared" % who, restrict(E, cubecond(cube)), restrict(add(S, dur), cubecond(cube)), where=b)
            s = old(f, who + "_patch_start_time")
            want = ite(fgt0(lag), add(s, lag), s) if who == "ref" else ite(fgt0(lag), s, sub(s, lag))
            bad = None
            for c2, x in leaves(restrict(sub(S, want), cubecond(cube))):
                if x is not ZERO and not excludes(list(cube) + list(c2), bnot(feq0(x))): bad = x; break
            rep.instance("the %s start moves by the lag found" % who, bad is None, "%s: on %s the start differs from start %s lag by %s" %
                         (b, showcube(cube)[:300], "+" if who == "ref" else "-", bad is not None and show(bad, 6)[:300]))
