"""C35: the patch similarity is NSIM, symmetric in its patches and 1 for identical ones"""
from fractions import Fraction as Fr
from ..vn import *
from .. import models, lin
from .C21 import under

PR = "PatchSimilarityResult"

def run(rep):
    rep.rule("value numbering of the similarity measure with the windowed means as symbols: the map's element equals the NSIM quotient; swapping the patches' means leaves it "
             "unchanged; equal patches give 1; band means, deviations, energies and the overall similarity are the averages over frames and bands of that map")
    u = nsim()
    NS, RP, DP = sym("NS"), sym("RP"), sym("DP")
    R = F(NS, "NeurogramSimiliarityIndexMeasure", "intensity_range")
    conv = maybe("::perform_valid_2d_conv_with_boundary")
    if not conv: raise Missing("the windowed mean")
    nb, nf = length(RP), ncols(RP)
    b, j = sym("b", "u"), sym("j", "u")
    rng = band(ilt(b, nb), ilt(j, nf))
    ret = u.ret
    # windowed means by what they average
    apps = terms_where(ret, lambda z: z.op == "app" and z.a[0] == conv[0])
    r, d = sel(sel(RP, b), j), sel(sel(DP, b), j)
    kinds = {"MR": r, "MD": d, "RR": mul(r, r), "DD": mul(d, d), "RD": mul(r, d)}
    same = {length(DP): nb, ncols(DP): nf}
    wins = set()
    mp = {}
    sym_ = {k: sym(k) for k in kinds}
    for a in apps:
        wins.add(a.a[1])
        x = replace(restrict(sel(replace(restrict(sel(a.a[2], b), ilt(b, length(a.a[2]))), same), j), rng), same)
        k = next((k for k, v in kinds.items() if v is x), None)
        if k is None:
            rep.instance("windowed means are of the patches and their products", False, "%s: a windowed mean of %s" % (u.bid, show(x, 6)[:300])); return
        mp[a] = sym_[k]
    rep.floor("windowed means", len(mp), 5)
    rep.instance("one window for all means", len(wins) == 1, "%s: windows %s" % (u.bid, [show(w, 3)[:100] for w in wins]))
    w = wins.pop()
    ws = [x for row in w.a[1:] for x in row.a[1:]] if w.op == "agg" and all(type(x) is T and x.op == "agg" for x in w.a[1:]) else []
    ok = bool(ws) and all(is_num(x) for x in ws) and all(x.a[0] >= 0 for x in ws) and abs(sum(x.a[0] for x in ws) - 1) < Fr(1, 10**4)
    rep.instance("the window's weights are non-negative and sum to 1 (within 1e-4)", ok, "%s: window %s" % (u.bid, show(w, 5)[:300]))
    rows = len(w.a) - 1 if ok else 0
    symm = ok and all(w.a[1 + i].a[1 + k] is w.a[rows - i].a[len(w.a[1 + i].a) - 1 - k] for i in range(rows) for k in range(len(w.a[1 + i].a) - 1))
    rep.instance("the window is symmetric", bool(symm), "%s: window %s" % (u.bid, show(w, 5)[:300]))
    t = replace(ret, mp)
    shape = {}
    for s in sym_.values(): shape[length(s)] = nb; shape[ncols(s)] = nf
    t = replace(t, shape); t = replace(t, same)
    means, devs, en, sim = [F(t, PR, f) for f in ("freq_band_means", "freq_band_stddevs", "freq_band_deg_energy", "similarity")]
    pos = band(ge0i(sub(nb, ONE)), ge0i(sub(nf, ONE)))
    # the map
    e = lambda k, b_, j_: sel(sel(sym_[k], b_), j_)
    def element(b_, j_, sw=False):
        m = lambda k: e({"MR": "MD", "MD": "MR", "RR": "DD", "DD": "RR"}.get(k, k) if sw else k, b_, j_)
        c1 = powi(mul(num(Fr(1, 100)), R), 2); c3 = mul(num(Fr(1, 2)), powi(mul(num(Fr(3, 100)), R), 2))
        mr, md = m("MR"), m("MD")
        i = fdiv(add(mul(num(2), mul(mr, md)), c1), add(add(mul(mr, mr), mul(md, md)), c1))
        v = mul(sub(m("RR"), mul(mr, mr)), sub(m("DD"), mul(md, md)))
        den = ite(flt(v, ZERO), c3, add(models.fsqrt(v), c3))
        return mul(i, fdiv(add(sub(m("RD"), mul(mr, md)), c3), den))
    M = restrict(sel(means, b), band(pos, ilt(b, nb)))
    # the element averaged over frames
    body = summand(M, nf, nf)
    if body is None:
        rep.instance("a band's similarity is the mean over its frames", False, "%s: band b's similarity is %s" % (u.bid, show(M, 7)[:400])); return
    el = lambda j_: restrict(app(body, j_), band(pos, ilt(b, nb), ilt(j_, nf)))
    rep.instance("a band's similarity is the mean over its frames", True)
    rep.instance("one similarity per band", length(means) is nb, "%s: %s" % (u.bid, show(length(means), 5)))
    got = el(j)
    want = element(b, j)
    got_, want_ = approx(got, R), approx(want, R)
    ok = same_rational(got_, want_)
    f = firstdiff(got_, want_) or (got_, want_)
    rep.instance("the map's element is intensity times structure (NSIM)", ok, "%s: element is %s\n    differs at\n      %s\n    required\n      %s" % (u.bid, show(got, 9)[:500], show(f[0], 8)[:400], show(f[1], 8)[:400]))
    sw = {e("MR", b, j): sym("m1", "f"), e("MD", b, j): sym("m2", "f"), e("RR", b, j): sym("v1", "f"), e("DD", b, j): sym("v2", "f")}
    a1 = replace(got_, sw)
    sx = {e("MR", b, j): sym("m2", "f"), e("MD", b, j): sym("m1", "f"), e("RR", b, j): sym("v2", "f"), e("DD", b, j): sym("v1", "f")}
    a2 = replace(got_, sx)
    rep.instance("swapping the patches does not change the similarity", same_rational(a1, a2), "%s: element %s, swapped %s" % (u.bid, show(a1, 8)[:300], show(a2, 8)[:300]))
    # equal patches: both means m, all second moments m^2 + v, v >= 0
    m_, v_ = sym("m", "f"), sym("v", "f")
    q = add(mul(m_, m_), v_)
    I = replace(got_, {e("MR", b, j): m_, e("MD", b, j): m_, e("RR", b, j): q, e("DD", b, j): q, e("RD", b, j): q})
    I = replace(I, {R: ONE})
    good = fge0(v_)
    ok = True; why = None
    for cube, l in leaves(restrict(I, good)):
        l = transform(l, lambda z: v_ if z.op == "fn" and (z.a[0] == "abs" and z.a[1] is v_ or z.a[0] == "sqrt" and z.a[1] is powi(v_, 2)) else z)
        if lin.contradictory(list(cube), [v_, powi(v_, 2)]): continue
        if FALSE in (band(cubecond(cube), fgt0(powi(v_, 2))), band(cubecond(cube), fgt0(v_))): l = replace(l, {v_: ZERO})
        if not same_rational(l, ONE): ok = False; why = l
    rep.instance("identical patches have similarity 1", ok, "%s: element for identical patches %s" % (u.bid, show(why, 8)[:300] if why is not None else ""))
    # averages
    want = fdiv(mksum(nb, lambda k: fdiv(mksum(nf, lambda x: replace(app(body, x), {b: k})), nf)), nb)
    equal(rep, "the overall similarity is the mean of the band similarities", sim, want, pos, u.bid)
    inb = [x for cube, l in leaves(band(pos, ilt(b, nb))) if l is TRUE for x in cube]
    D = under(restrict(sel(devs, b), band(pos, ilt(b, nb))), inb)
    mu = fdiv(mksum(nf, el), nf)
    var = fdiv(mksum(nf, lambda x: powi(sub(el(x), mu), 2)), sub(nf, ONE))
    good = D is models.fsqrt(var)
    if not good:
        k = freshK()
        std = models.fsqrt(var)
        good = same_rational(D, std)
    rep.instance("a band's deviation is the sample deviation over its frames", good, "%s: deviation %s\n  required %s" % (u.bid, show(D, 7)[:400], show(models.fsqrt(var), 7)[:400]))
    E_ = restrict(sel(en, b), band(pos, ilt(b, nb)))
    equal(rep, "a band's degraded energy is the mean of the degraded patch's row", E_, fdiv(mksum(nf, lambda x: sel(sel(DP, b), x)), nf), pos, u.bid)

def summand(t, n, div):
    """body of t = 1/div * sum over n"""
    s = [z for z in terms_where(t, lambda z: z.op == "sum" and z.a[0] is n)]
    for z in s:
        if fdiv(z, div) is t: return z.a[1]
    return None

def approx(t, R):
    """the intensity range is the configured 1, decimal constants to nine digits"""
    t = replace(t, {R: ONE})
    def rnd(c):
        if c == 0 or c.denominator < 10**6: return c
        for q in (c.limit_denominator(10**4), 1 / (1 / c).limit_denominator(10**4) if abs(1 / c) > Fr(1, 10**4) else c):
            if q and abs(q - c) <= abs(c) / 10**9: return q
        return Fr("%.11g" % float(c))
    def f(z):
        if z.op == "num": return num(rnd(z.a[0]))
        if z.op == "poly": return TT._mkpoly({m: rnd(c) for m, c in terms_of(z).items()})
        return z
    return transform(t, f)

def same_rational(a, b):
    """equal values on all branches, as quotients"""
    if a is b: return True
    for ca, x in leaves(a):
        for cb, y in leaves(b):
            c = band(cubecond(ca), cubecond(cb))
            if c is FALSE: continue
            if x is y: continue
            # where the radicand is not positive (and not negative either) the root is zero
            zero = {z: ZERO for t in (x, y) for z in terms_where(t, lambda z: z.op == "fn" and z.a[0] == "sqrt") if band(c, fgt0(z.a[1])) is FALSE}
            if zero: x, y = replace(x, zero), replace(y, zero)
            if not cross(x, y): return False
    return True

def cross(x, y):
    """x == y after clearing denominators"""
    def dens(t):
        out = {}
        for m, c in terms_of(t).items():
            for z, e in m:
                if e < 0: out[z] = max(out.get(z, 0), -e)
        return out
    def openp(t):
        return transform(t, lambda z: z.a[0] if z.op == "psum" else z)
    d = sub(x, y)
    if d is ZERO: return True
    ds = dens(d)
    n = ZERO
    for m, c in terms_of(d).items():
        mm = {z: e for z, e in m}
        t = num(c)
        for z in set(mm) | set(ds):
            e = mm.get(z, 0) + ds.get(z, 0)
            base = openp(z)
            for _ in range(e): t = mul(t, base)
        n = add(n, t)
    # sqrt(v)^2 = v
    return n is ZERO
