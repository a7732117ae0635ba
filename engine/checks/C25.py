"""C25: the wideband mapping is monotone in the mean similarity and its optimum is pinned"""
from fractions import Fraction as Fr
from ._modes import *
from .. import lin

def enclose(t):
    """rational bounds of a constant expression"""
    if t.op == "num": return t.a[0], t.a[0]
    if t.op == "poly":
        lo = hi = Fr(0)
        for m, c in terms_of(t).items():
            a = b = c
            for x, e in m:
                x0, x1 = enclose(x)
                for _ in range(abs(e)):
                    if e > 0: v = [a * x0, a * x1, b * x0, b * x1]
                    else:
                        if x0 <= 0 <= x1: raise Missing("a divisor away from zero")
                        v = [a / x0, a / x1, b / x0, b / x1]
                    a, b = min(v), max(v)
            lo += a; hi += b
        return lo, hi
    if t.op == "fn" and t.a[0] == "exp":
        a, b = enclose(t.a[1])
        return expb(a)[0], expb(b)[1]
    raise Missing("a constant value: " + show(t, 5)[:200])

def expb(x):
    """bounds of e^x for a rational x: Taylor on x/2^k with remainder, squared back"""
    k = 0; y = Fr(x)
    while abs(y) > Fr(1, 2): y /= 2; k += 1
    y = y.limit_denominator(10**30); d = Fr(1, 10**29)
    def tay(z):
        s = Fr(0); p = Fr(1)
        for n in range(1, 25):
            s += p; p = p * z / n
        return s - 2 * abs(p), s + 2 * abs(p)
    lo, hi = tay(y - d)[0], tay(y + d)[1]
    q = 10**40
    for _ in range(k):
        lo, hi = lo * lo, hi * hi
        lo = Fr(int(lo * q), q); hi = Fr(int(hi * q) + 1, q)
    return lo, hi

def truth(a, v):
    """is the constant literal certainly true / false"""
    p = a.a[0]
    if a.op not in ("fgt0", "fge0", "ge0"): raise Missing("a decidable comparison of constants")
    lo, hi = enclose(p)
    if lo > 0: r = True
    elif hi < 0: r = False
    else: return None
    return r == v

def at(t):
    """bounds of a value of constants over all branches that may be taken"""
    out = []
    for cube, l in leaves(t):
        if any(truth(a, v) is False for a, v in cube): continue
        out.append(enclose(l))
    return min(x for x, _ in out), max(x for _, x in out)

def order(X, Y, t):
    """polynomials that are >= 0 because a monotone function occurs in t at X and X <= Y (t also at Y)"""
    ext = [sub(Y, X)]
    fs = sorted(terms_where(t, lambda z: z.op == "fn" and depends(z, X)), key=lambda z: z.id)
    for f in fs:
        if f.a[0] not in ("exp", "ln", "sqrt"): raise Missing("a monotone function: " + show(f, 5)[:200])
        g = replace(f, {X: Y})
        d = sub(g.a[1], f.a[1])
        if lin.valid(ge(d), ext) is None: ext.append(sub(g, f))
        elif lin.valid(ge(neg(d)), ext) is None: ext.append(sub(f, g))
        else: raise Missing("a monotone argument of %s" % f.a[0])
    return ext

def ge(p): return bnot(fgt0(neg(p)))

def signs(*ts):
    out = []
    for t in ts:
        out += [f for f in terms_where(t, lambda z: z.op == "fn" and z.a[0] in ("exp", "sqrt"))]
    return out

def run(rep):
    rep.rule("the wideband mapper's value as a function of the mean of the similarities (value numbering; no other dependence on them), then monotonicity by "
             "sign rules for exp and entailment between linear inequalities for every pair of branches; constants are enclosed by rational bounds")
    w = modes()["wideband"]
    ty = one(rep, "the wideband mapper", w.sim_to_quality_mapper)
    if ty is None: return
    u, val = predict(w, ty)
    S = sym("SIM")
    n = length(S)
    flag = atpath(w.variant, ((w.k, [f["n"] for f in lib().adts[adt("Variant")]["v"][w.k]["f"]].index("use_unscaled_mos_mapping")),))
    X, Y = sym("mean", "f"), sym("mean2", "f")
    c = band(w.cond, ge0i(sub(n, ONE)))
    t = restrict(val(w.cond), c)
    tot = mksum(n, lambda k: sel(S, k))
    t = replace(t, {tot: mul(X, n)})
    if not rep.instance("the speech mapping depends on the mean of the similarities only", not depends(t, S), "%s: with the mean replaced the prediction is %s" % (u.bid, show(t, 9)[:400])): return
    F_ = tobool(flag)
    v = {"unscaled": restrict(t, band(c, F_)), "rescaled": restrict(t, band(c, bnot(F_)))}
    for name, f in v.items():
        g = replace(f, {X: Y})
        try: ext = order(X, Y, f) + signs(f, g)
        except Missing as e:
            rep.instance("a higher mean similarity never lowers the MOS (%s)" % name, False, "%s: cannot find %s" % (u.bid, e)); continue
        bad = None
        for ca, a in leaves(f):
            for cb, b in leaves(g):
                bad = lin.valid(bimp(band(cubecond(ca), cubecond(cb)), ge(sub(b, a))), ext)
                if bad is not None: break
            if bad is not None: break
        rep.instance("a higher mean similarity never lowers the MOS (%s)" % name, bad is None, "%s: the %s mapping is %s; not increasing from %s to %s" % (u.bid, name, show(f, 8)[:300], show(a, 6)[:100], show(b, 6)[:100]))
    a, b = v["unscaled"], v["rescaled"]
    bad = None
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            bad = bad or lin.valid(bimp(band(cubecond(ca), cubecond(cb)), ge(sub(y, x))), signs(a, b))
    rep.instance("the rescaled mapping is never below the unscaled one", bad is None, "%s: rescaled %s, unscaled %s" % (u.bid, show(b, 8)[:200], show(a, 8)[:200]))
    lo, hi = at(replace(b, {X: ONE}))
    rep.instance("a perfect similarity maps to 5 (rescaled)", Fr(4999, 1000) <= lo and hi <= Fr(5001, 1000), "%s: it maps to %.6f..%.6f" % (u.bid, lo, hi))
    lo, hi = at(replace(a, {X: ONE}))
    rep.instance("a perfect similarity maps between 4 and 5 (unscaled)", 4 < lo and hi < 5, "%s: it maps to %.6f..%.6f" % (u.bid, lo, hi))
