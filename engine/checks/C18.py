"""C18: four sections in sequence, own state, own band."""
from ._spect import *

def run(rep):
    rep.rule("the spectrogram element (b,f) equals sqrt(mean_j y4(j)^2) where y4 is the input frame passed through four second-order sections in sequence, each "
             "with its own two state variables and the coefficients of one band (recurrence equations compared after normalisation)")
    s = spectrogram()
    rep.instance("one row per band", s.rows is NB, "%s: the spectrogram has %s rows" % (s.u.bid, show(s.rows)))
    if s.table is None: raise Missing("a single call of the filter design")
    order = ("a0", "a11", "a12", "a13", "a14", "a2", "b0", "b1", "b2", "gain")
    maps = [{r: i for i, r in enumerate(order)}]
    try:
        c = roles()[1]
        if len(c) == 10: maps.insert(0, c)
    except Missing: pass
    ok = False; d = None
    nb = length(s.table)
    for row in (sub(sub(nb, ONE), s.b), sub(sub(NB, ONE), s.b), s.b):
        for mp in maps:
            spec = rms_cascade(s, lambda r: sel(sel(s.table, row), num(mp[r])))
            if spec is s.E: ok = True
            elif d is None: d = firstdiff(s.E, spec)
    rep.instance("band output is the four-stage cascade of its input", ok,
                 "%s: the element computes\n      %s\n    where the cascade has\n      %s" % (s.u.bid, show(d[0], 6)[:600] if d else "", show(d[1], 6)[:600] if d else ""))
    rep.count("stages", 4); rep.count("state variables", 8)
