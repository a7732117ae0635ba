"""C22: unmatched patches are reported with zero similarity; every record carries its own times"""
from . import _fine
from ._fine import measured, excludes
from ._trace import *

def run(rep):
    rep.rule("value numbering of the traceback: the record stored for each patch, by cases of the offset chain; an unmatched record is zero throughout, a matched one is the whole "
             "measurement of its own reference patch against the spectrogram from its offset on, and carries the times of both; fine alignment returns unmatched records as they are")
    t = trace(); b = t.u.bid
    W = sym("WIDTH", "u")
    rep.floor("cases of a stored record", len(t.recs), 2)
    lost = []; found = []
    for r in t.recs:
        if r.idx is None:
            rep.instance("every iteration stores one record", False, "%s: on %s the list becomes %s" % (b, showcube(r.cube)[:300], show(r.val, 4)[:300])); continue
        rep.instance("every patch gets a record", (r.idx is r.K or add(r.idx, r.K) is sub(r.n, ONE)) or samev(add(r.idx, r.K), sub(r.n, ONE), ge0i(sub(r.n, ONE))),
                     "%s: iteration k of %s stores record %s" % (b, show(r.n, 5)[:200], show(r.idx, 5)[:200]))
        n = restrict(r.n, ge0i(t.n))
        rep.instance("one record per patch searched", n is t.n or samev(r.n, t.n, ge0i(t.n)), "%s: %s records stored, %s returned" % (b, show(r.n, 6)[:200], show(t.n, 6)[:200]))
        v = onewidth(t, r.val)
        g = lambda f: F(v, PR, f)
        s = mul(sel(t.I, r.idx), t.FD)
        equal(rep, "a record starts at its own reference patch's start", g("ref_patch_start_time"), s, where=b)
        equal(rep, "and ends one patch duration later", g("ref_patch_end_time"), add(s, mul(W, t.FD)), where=b)
        if g("deg_patch_start_time") is ZERO and g("deg_patch_end_time") is ZERO: lost.append((r, v))
        else: found.append((r, v))
    rep.floor("cases of an unmatched record", len(lost), 1); rep.floor("cases of a matched record", len(found), 1)
    if not lost or not found: return
    k = sym("b", "u")
    offs = set()
    for r, v in found:
        m = measured(v)
        if not rep.instance("a matched record is measured as a whole", m is not None, "%s: on %s the record is %s" % (b, showcube(r.cube)[:300], show(v, 4)[:300])): continue
        o = fdiv(F(v, PR, "deg_patch_start_time"), t.FD); offs.add(o)
        equal(rep, "the degraded end is one patch duration after its start", F(v, PR, "deg_patch_end_time"), mul(add(o, W), t.FD), where=b)
        equal(rep, "the patch measured is the record's reference patch", m.a[2], sel(t.P, r.idx), where=b)
        R, j = sym("r", "u"), sym("j", "u")
        d = restrict(sel(m.a[3], R), ilt(R, length(t.S)))
        d = restrict(sel(d, j), ilt(j, W))
        nc = ncols(t.S)
        base = [lin_ge(o), sub(sub(nc, o), ONE)]
        bad = None
        for c, x in leaves(onewidth(t, d)):
            c = list(c) + [(ilt(j, W), True)]
            inside = ilt(add(o, j), nc)
            for cond, want in ((inside, sel(sel(t.S, R), add(o, j))), (bnot(inside), ZERO)):
                if x is not want and not excl(c, cond, base) and bad is None: bad = (c, x)
        rep.instance("it is measured against the degraded spectrogram from the offset on, padded with zeros", bad is None,
                     "%s: with offset %s, element (r, j) is %s" % (b, show(o, 3), bad and show(bad[1], 6)[:300] + " on " + showcube(bad[0])[:300]))
    if len(offs) != 1: rep.instance("one offset per record", False, "%s: offsets %s" % (b, [show(o, 4) for o in offs])); return
    o = offs.pop()
    for r, v in lost:
        equal(rep, "an unmatched record has similarity 0", F(v, PR, "similarity"), ZERO, where=b)
        fm = F(v, PR, "freq_band_means")
        x = restrict(sel(fm, k), ilt(k, length(fm)))
        equal(rep, "and zero in every band", x, ZERO, where=b)
        ms = {l for _, l in leaves(length(fm))}
        rep.instance("with as many bands as a matched one", any(length(F(measured(w), PR, "freq_band_means")) is length(fm) for _, w in found if measured(w)),
                     "%s: %s bands" % (b, show(length(fm), 5)[:200]))
        fix = {z for a, val in r.cube if val for z in fixpoint(a, o, r.idx)}
        rep.instance("a patch is unmatched where the trace keeps its offset", len(fix) == 1, "%s: unmatched on %s" % (b, showcube(r.cube)[:400]))
    for r, v in found:
        rep.instance("and matched elsewhere", any(excl(r.cube, cubecond([(a, val)]), []) for q, _ in lost for a, val in q.cube if val and fixpoint(a, o, q.idx)),
                     "%s: matched on %s" % (b, showcube(r.cube)[:400]))
    # fine alignment
    f = _fine.fine()
    z = [(feq0(_fine.old(f, w)), True) for w in ("deg_patch_start_time", "deg_patch_end_time")]
    n = 0
    for cube, l in f.cases:
        if excludes(list(cube) + z, TRUE): continue
        n += 1
        rep.instance("fine alignment leaves an unmatched record as it is", l is f.old, "%s: on %s it becomes %s" % (f.u.bid, showcube(cube)[:300], show(l, 4)[:300]))
    rep.floor("cases of an unmatched record in fine alignment", n, 1)
    rep.instance("fine alignment returns one record per patch", f.n is length(f.sims), "%s: %s records" % (f.u.bid, show(f.n, 5)[:200]))

def lin_ge(o): return o
def excl(cube, cond, extra): return lin.valid(bnot(band(cubecond(cube), cond)), extra) is None

def fixpoint(a, o, idx):
    """tables T such that the atom says T[idx][o] = o"""
    if a.op not in ("eq0", "feq0"): return []
    p = a.a[0]
    return [z for z in terms_where(p, lambda z: z.op == "sel" and z.a[1] is o and z.a[0].op == "sel" and z.a[0].a[1] is idx)
            if sub(p, sub(o, z)) is ZERO or sub(p, sub(z, o)) is ZERO]
