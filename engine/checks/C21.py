"""C21: the patch search stays inside its window, covers it, and chains to strictly earlier positions"""
from ._trace import *

def under(t, cube):
    """t with the atoms of the cube decided, also inside comprehensions"""
    def f(z):
        if z.op != "ite": return z
        for a, v in cube: z = TT.assume(z, a, v)
        return z
    return transform(t, f)

def pos(c): return c
def valid(c, *facts): return lin.valid(bimp(band(*facts), c)) is None

def iterfacts(count, K):
    """[conditions] under which iteration K of a loop with this count is executed, one per case of the count"""
    out = []
    for cube, n in leaves(count):
        c = cubecond(cube)
        if n.op == "first":
            c = band(c, bnot(app(n.a[0], K)), ilt(K, n.a[1]) if len(n.a) > 1 else TRUE)
        else: c = band(c, ilt(K, n))
        out.append(c)
    return out

def offset(d, S):
    """o such that element (r, j) of d is S[r][o + j], by cases, where it is not padding"""
    r, j = sym("r", "u"), sym("j", "u")
    x = sel(sel(d, r), j)
    good = lambda l: l.op == "sel" and l.a[0].op == "sel" and l.a[0].a[0] is S
    x = mapleaves(lambda l: sub(l.a[1], j) if good(l) else UNDEF, x)
    # padding says nothing
    out = []
    for cube, l in leaves(drop_undef(x)):
        if l.op == "undef" or depends(l, j) or depends(l, r): return None
        c = [(a, v) for a, v in cube if not depends(a, j) and not depends(a, r)]
        if (c, l) not in out: out.append((c, l))
    return out or None

def run(rep):
    rep.rule("value numbering of the coarse search: the degraded offset of every comparison, of every predecessor looked at and of the final position, against the window "
             "[start - radius*width, start + radius*width] cut to the spectrogram (linear entailment, induction over loop counters for the bounds); stored predecessors are the best "
             "strictly earlier ones, or the position itself where leaving the patch unmatched scores higher")
    t = trace(); u = t.u; b = u.bid
    W, Rd = sym("WIDTH", "u"), sym("RADIUS")
    w = mul(Rd, W)
    lim = sub(num(2**30 - 2), w)
    care = [(a, v) for c in (ge0i(w), ge0i(lim), ge0i(add(lim, ONE))) for cube, l in leaves(c) if l is TRUE for a, v in cube]
    pre = band(ge0i(w), ge0i(lim), ge0i(sub(W, ONE)))
    prep = lambda x: under(onewidth(t, x), care)
    nc = ncols(t.S)
    pre = band(pre, ge0i(sub(num(2**30), nc)))     # a quarter of a year of frames
    # ---- offsets compared
    ev = meas(u)
    walk_ = []; n_trace = 0
    tr = t.loops[0] if len(t.loops) == 1 else None
    if tr is None: raise Missing("the traceback")
    for e in ev:
        e = dict(e, args=[restrict(x, e["pc"]) if isinstance(x, TT.T) else x for x in e["args"]])
        if e["args"][1].op != "sel" or e["args"][1].a[0] is not t.P: raise Missing("a comparison with one of the reference patches")
        cs = offset(prep(e["args"][2]), t.S)
        if cs is None: raise Missing("the offset compared")
        i = prep(e["args"][1].a[1])
        cs = [(g, o) for g, o in cs if not excl(g, prep(e["pc"]), pre)]
        for g, o in cs:
            lp = u.loops.get(next((z.a[0] for z in terms_where(o, lambda z: z.op in ("phi", "K"))), None))
            pg = lambda x, g=g: under(prep(x), g)
            st = steps(lp, o, pg) if lp is not None else None
            # the traceback's own comparison takes a stored offset; the search's one walks the window
            if st is not None and any(sub(x, o) is ONE for _, x in leaves(st[1])): walk_.append((e, o, i, lp, g))
            else: n_trace += 1
    rep.floor("comparisons of the search", len(walk_), 1)
    rep.floor("comparisons of the traceback", n_trace, 1)
    pre0, prep0 = pre, prep
    for e, o, i, lp, g in walk_:
        pre = band(pre0, cubecond(g))
        prep = lambda x, g=g: under(prep0(x), g)
        at = sel(t.I, i)
        lo, hi = sub(at, w), add(at, w)
        pc = prep(e["pc"])
        lower_ok = lambda L: valid(ile(L, o), pc, pre) or inductive(lp, o, L, prep, pre)
        rep.instance("an offset compared is inside the spectrogram", valid(band(ge0i(o), ilt(o, nc)), pc, pre), "%s: offset %s compared on %s" % (e["where"], show(o, 4), show(pc, 6)[:500]))
        rep.instance("an offset compared is at most the radius behind the patch", valid(ile(o, hi), pc, pre), "%s: offset %s compared on %s" % (e["where"], show(o, 4), show(pc, 6)[:500]))
        rep.instance("an offset compared is at most the radius before the patch", lower_ok(lo), "%s: offset %s" % (e["where"], show(o, 4)))
        # every one of them
        first, step = steps(lp, o, prep)
        inw = band(ge0i(o), ilt(o, nc), ile(lo, o), ile(o, hi))
        ent = prep(lp.entry_pc)
        rep.instance("the search starts at the beginning of the window", valid(bor(ile(first, lo), ile(first, ZERO)), ent, pre), "%s: first offset %s" % (e["where"], show(first, 6)[:300]))
        bad = next(((c, x) for c, x in leaves(step) if x is not add(o, ONE) and not (valid(bimp(cubecond(c), band(ile(add(o, ONE), ZERO), ile(x, ZERO))), pre))), None)
        rep.instance("the search advances by one position", bad is None, "%s: after %s comes %s" % (e["where"], show(o, 4), bad and show(bad[1], 5)[:200]))
        rep.instance("every position of the window is compared", valid(pc, inw, ent, pre), "%s: skipped unless %s" % (e["where"], show(pc, 6)[:500]))
        rep.instance("the search does not stop inside the window", valid(prep(lp.cont_pc), inw, ent, pre, pc), "%s: continues only on %s" % (e["where"], show(prep(lp.cont_pc), 6)[:500]))
        outer = i
        # ---- what is stored, at positions of the spectrogram
        here = [(a, v) for cube, l in leaves(band(ge0i(o), ilt(o, nc), ile(lo, o), ile(o, hi))) if l is TRUE for a, v in cube]
        prep1 = prep
        prep = lambda x, here=here, prep1=prep1: asmax(under(prep1(x), here))
        stores = []
        for (cell, path), (cl, init, nxt, ph) in lp.phis.items():
            nx = prep(nxt)
            row = len(path) == 1 and type(path[0]) is tuple and path[0][0] == "i" and prep(path[0][1]) is i
            for z in terms_where(nx, lambda z: z.op == "upd" and z.a[1] is o and (row or z.a[0].op == "sel" and z.a[0].a[1] is i)):
                stores.append((cell, z))
        vals = {}
        for cell, z in stores: vals.setdefault((cell, z.a[2].sort == "f" or draws_meas(z.a[2])), []).append(z.a[2])
        simv = [(k[0], v) for k, l in vals.items() for v in l if k[1]]
        past = [(k[0], v) for k, l in vals.items() for v in l if not k[1]]
        rep.floor("stores of a cumulative similarity", len(simv), 1); rep.floor("stores of a predecessor", len(past), 1)
        if not simv or not past: continue
        rows = {z for _, v in simv for z in terms_where(v, lambda z: z.op == "sel" and z.a[0].op == "phi" and z.a[0].a[1] == simv[0][0])}
        if len(rows) != 1:
            rep.instance("scores build on the previous patch's only", False, "%s: rows read %s" % (e["where"], [show(z, 4) for z in rows])); continue
        prev = rows.pop()
        rep.instance("scores build on the previous patch's only", prev.a[1] is sub(i, ONE), "%s: row read %s" % (e["where"], show(prev, 4)))
        own = set()
        for ph, v in simv:
            own |= {z for z in terms_where(v, lambda z: z.op == "fld" and z.a[0].op == "app" and z.a[0].a[0].endswith("measure_patch_similarity"))}
        sim = F(e["ret"], PR, "similarity")
        sim = prep(sim)
        lo1 = sub(sel(t.I, sub(i, ONE)), w)
        notfirst = ge0i(sub(i, ONE))
        pre2 = band(pre, ge0i(o), notfirst)
        def span(n, idx, what, cc):
            """indices idx(K), K below n, are the window of the previous patch before o"""
            K = sym("k§", "u")
            x = idx(K)
            ok1 = all(valid(band(ilt(x, o), ile(lo1, x), ge0i(x)), c, pre2, cc) for c in iterfacts(n, K))
            rep.instance("a predecessor is strictly earlier and inside its own window", ok1, "%s: %s looks at %s, k < %s" % (e["where"], what, show(x, 5)[:200], show(n, 6)[:200]))
            # all of them: affine of slope one from one end, and the count is the window's
            K2 = add(K, ONE)
            sl = sub(idx(K2), x)
            if sl is num(-1): okf = valid(ile(sub(o, ONE), idx(ZERO)), pre2, cc)
            elif sl is ONE: okf = valid(bor(ile(idx(ZERO), lo1), ile(idx(ZERO), ZERO)), pre2, cc)
            else: okf = False
            okn = valid(bor(*iterfacts(n, K)), band(ge0i(x), ile(lo1, x), ilt(x, o)), pre2, cc, ge0i(K))
            rep.instance("every earlier position of the previous patch's window is considered", okf and okn, "%s: %s looks at %s, k < %s" % (e["where"], what, show(x, 5)[:200], show(n, 6)[:200]))
        # no position of the previous patch's window is earlier: nothing to score on top of
        lost = lambda x: is_num(x) and x.a[0] <= -10**300
        alone = lambda c: valid(bor(ile(o, lo1), ile(o, ZERO)), geometry(c), pre2) and not valid(bnot(notfirst), geometry(c), pre)
        best = set()
        for ph, v in simv:
            for c, x in leaves(v):
                if excl(c, TRUE, band(pre, ge0i(o), ilt(o, nc))): continue
                if lost(sub(x, sim)) and alone(c): continue
                if x is sim: rep.instance("the first patch scores its own similarity", valid(bimp(cubecond(c), bnot(notfirst)), pre), "%s: score %s on %s" % (e["where"], show(x, 4), showcube(c)[:300])); continue
                if x is sel(prev, o): continue
                m = sub(x, sim)
                ok = m.op == "amax" and app(m.a[1], sym("k§", "u")).op == "sel" and app(m.a[1], sym("k§", "u")).a[0] is prev
                rep.instance("a patch scores its similarity on top of the best predecessor, or what the previous patch has here", ok, "%s: score %s on %s" % (e["where"], show(x, 6)[:400], showcube(c)[:300]))
                if ok:
                    best.add((x, m))
                    span(m.a[0], lambda k: app(m.a[1], k).a[1], "the best score", geometry(c))
        rep.floor("scores of a matched patch", len(best), 1)
        def gain(x): return sub(sel(prev, o), x)     # what leaving the patch out is better by
        region = band(pre, ge0i(o), ilt(o, nc))
        for ph, v in simv:
            for c, x in leaves(v):
                if excl(c, TRUE, region): continue
                for y, m in best:
                    if x is y: rep.instance("a matched score is at least that of leaving the patch out", excl(c, fgt0(gain(y)), region), "%s: score of a match on %s" % (e["where"], showcube(c)[:400]))
                if x is sel(prev, o) and not alone(c):
                    rep.instance("leaving a patch out scores no less than matching it", any(excl(c, fgt0(neg(gain(y))), region) for y, m in best),
                                 "%s: score of leaving it out on %s" % (e["where"], showcube(c)[:400]))
        nrec = 0
        for ph, v in past:
            for c, x in leaves(v):
                if excl(c, TRUE, region): continue
                if x is o and alone(c): continue
                if x is o:
                    ok = any(excl(c, fgt0(neg(gain(y))), region) for y, m in best)
                    rep.instance("a patch is unmatched only where leaving it out scores no less", ok, "%s: unmatched on %s" % (e["where"], showcube(c)[:500])); continue
                if is_num(x) and (x.a[0] < 0 or x.a[0] >= 2**31 - 1):
                    rep.instance("no predecessor is recorded only for the first patch, or where none is found", True); continue
                if x.op != "rec":
                    rep.instance("a predecessor is the best of the earlier positions", False, "%s: predecessor %s on %s" % (e["where"], show(x, 5)[:300], showcube(c)[:300])); continue
                nrec += 1
                any_ = [excl(c, fgt0(gain(y)), region) for y, m in best]
                rep.instance("a patch has a predecessor only where matching it scores as much", any(any_), "%s: predecessor on %s" % (e["where"], showcube(c)[:500]))
                argmax(rep, x, prev, e["where"], lambda n, idx, cc: span(n, idx, "the predecessor", band(cc, geometry(c))), "a predecessor is the best of the earlier positions")
        rep.floor("cases with a predecessor", nrec, 1)
    pre, prep = pre0, prep0
    # ---- every patch is searched
    for e, o, i, lp, g in walk_:
        ok = i.op == "K" and i.a[0] in u.loops
        n = u.loops[i.a[0]].N if ok else None
        ok = ok and n is not None and (n is length(t.P) or n is t.n or n is length(t.I))
        rep.instance("every patch is searched, in order", ok, "%s: patch %s of %s" % (e["where"], show(i, 4)[:200], n is not None and show(n, 5)[:200]))
    # ---- the last patch's position, the chain
    n, inits, step, lvl, comp, K = tr
    body = app(step, K)
    oc = [z for r in t.recs for z in terms_where(r.val, lambda z: z.op == "rv" and z.a[0] == lvl and z.a[1] != comp)]
    k = {z.a[1] for z in oc}
    if len(k) != 1: raise Missing("the offset chain")
    k = k.pop(); o = raw("rv", lvl, k)
    o = oc[0]
    idx = {r.idx for r in t.recs}
    nx = {prep(x) for _, x in leaves(fld(body, 0, k))}
    T = {z for r in t.recs for a, v in r.cube if v for z in backref(a, o)}
    rep.instance("the chain continues at the predecessor of the position just recorded", len(nx) == 1 and {prep(z) for z in T} == nx and all(z.a[0].a[1] in idx for z in T),
                 "%s: after offset o comes %s" % (b, [show(x, 6)[:200] for x in nx]))
    last = sub(prep(t.n), ONE)
    at = sel(t.I, last)
    lo, hi = sub(at, w), add(at, w)
    start = prep(inits.a[1 + k])
    cnt = 0
    ok_ = prep(t.ok)
    for c, x in leaves(start):
        if x is ZERO: continue
        if x.op != "rec":
            rep.instance("the last patch is placed at its best position", False, "%s: starts at %s on %s" % (b, show(x, 6)[:300], showcube(c)[:300])); continue
        cnt += 1
        def chk(n, idx, cc):
            K = sym("k§", "u")
            y = idx(K)
            extra = cc
            for a, v in c:
                if a.op == "some" and not v: extra = band(extra, bnot(app(a.a[1], K)))
                elif a.op != "some": extra = band(extra, a if v else bnot(a))
            fs = [band(f, extra) for f in iterfacts(n, K)]
            inside = band(ge0i(y), ilt(y, nc), ile(lo, y), ile(y, hi))
            rep.instance("the last patch is placed inside its window and the spectrogram", all(valid(inside, f, pre, ok_) for f in fs), "%s: looks at %s, k < %s" % (b, show(y, 5)[:200], show(n, 6)[:300]))
            f0 = idx(ZERO)
            ok = sub(idx(add(K, ONE)), y) is ONE and valid(bor(ile(f0, lo), ile(f0, ZERO)), pre, ok_, extra)
            rep.instance("over every position of the window", ok and valid(bor(*fs), inside, pre, ok_, extra, ge0i(K)), "%s: looks at %s, k < %s" % (b, show(y, 5)[:200], show(n, 6)[:300]))
        argmax(rep, x, None, b, chk, "the last patch is placed at its best position", row=last)
    rep.floor("cases of the last position", cnt, 1)

def asmax(t):
    """running maxima written as such"""
    def f(z):
        if z.op != "rec" or z.a[1].op != "agg" or len(z.a[1].a) != 2 or not is_num(z.a[1].a[1]) or z.a[1].a[1].a[0] > -10**300: return z
        n, inits, step, lvl = z.a[:4]
        K = freshK(); body = app(step, K).a[1]
        p = next((y for y in terms_where(body, lambda y: y.op == "rv" and y.a[0] == lvl)), None)
        if p is None: return z
        q = raw("phi", "max", lvl, sort="f")
        body = replace(body, {p: q}); p = q
        for _, v in leaves(body):
            if v is p or depends(v, p): continue
            if body in (fmax(p, v), fmax(v, p), ite(fge0(sub(p, v)), p, v), ite(fge0(sub(v, p)), v, p)): return TT.mkext("amax", n, lambda k: replace(v, {K: k}))
        return z
    return transform(t, f)

def excl(cube, cond, pre): return lin.valid(bnot(band(cubecond(cube), cond, pre))) is None

def geometry(cube):
    """the part of a cube that is about positions"""
    return cubecond([(a, v) for a, v in cube if a.op in ("ge0", "eq0")])

def draws_meas(v): return contains(v, lambda z: z.op == "app" and z.a[0].endswith("measure_patch_similarity")) and all(
    x.op in ("poly", "fld", "sel") for _, x in leaves(v))

def backref(a, o):
    if a.op != "eq0": return []
    p = a.a[0]
    return [z for z in terms_where(p, lambda z: z.op == "sel" and z.a[1] is o and z.a[0].op == "sel") if sub(p, sub(o, z)) is ZERO or sub(p, sub(z, o)) is ZERO]

def steps(lp, o, prep):
    """(first, next) of an offset a loop walks: by its counter or a variable of its own"""
    Kd = depends(o, lp.K)
    mp1 = {}; mpn = {}
    for key, (cl, init, nxt, ph) in lp.phis.items():
        if depends(o, ph): mp1[ph] = prep(init); mpn[ph] = prep(nxt)
    if mp1 and not Kd: return replace(o, mp1), replace(o, mpn)
    if Kd and not mp1: return replace(o, {lp.K: ZERO}), replace(o, {lp.K: add(lp.K, ONE)})
    return None

def inductive(lp, o, L, prep, pre):
    s = steps(lp, o, prep)
    if s is None or depends(o, lp.K): return False
    return valid(ile(L, s[0]), prep(lp.entry_pc), pre) and valid(ile(L, s[1]), ile(L, o), prep(lp.cont_pc), pre)

def argmax(rep, x, row_, where, span, what, row=None):
    """x = rec(n, (start, -max), ...) keeps the index of the largest element of a row"""
    n, inits, step, lvl = x.a
    K = freshK()
    body = app(step, K)
    mine = lambda z: z.op == "rv" and z.a[0] == lvl
    good = len(body.a) == 3 and is_num(inits.a[2]) and inits.a[2].a[0] < -10**300
    found = []
    vv = next((z for z in terms_where(body, lambda z: mine(z) and z.a[1] == 1)), None)
    if good and vv is not None:
        I, V = fld(body, 0, 0), fld(body, 0, 1)
        cand = {v.a[1]: v for _, v in leaves(V) if v.op == "sel"}
        for c, y in leaves(I):
            for c2, v in leaves(restrict(V, cubecond(c))):
                c3 = list(c) + list(c2)
                if excl(c3, TRUE, TRUE): continue
                if mine(y) and mine(v): continue
                if mine(v): v = cand.get(y)
                if v is None: good = False; continue
                if mine(y):            # the same element again
                    good = good and excl(c3, bnot(feq0(sub(v, vv))), TRUE); continue
                good = good and v.op == "sel" and v.a[1] is y and (row_ is None or v.a[0] is row_) and (row is None or v.a[0].op == "sel" and v.a[0].a[1] is row)
                good = good and excl(c3, fgt0(sub(vv, v)), TRUE)
                found.append((y, v, [(a, s) for a, s in c3 if not contains(a, mine)]))
        for c, y in leaves(I):
            if mine(y): good = good and any(excl(c, band(fgt0(sub(v, vv)), cubecond(g)), TRUE) for _, v, g in found) \
                and all(excl(c, band(fgt0(sub(v, vv)), cubecond(g)), TRUE) for _, v, g in found)
    rep.instance(what, bool(good and found), "%s: %s" % (where, show(x, 7)[:500]))
    if good:
        for y, v, g in found: span(n, lambda k: replace(y, {K: k}), replace(cubecond(g), {K: sym("k§", "u")}))
