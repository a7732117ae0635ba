"""C37: windowed means cover each element's neighbourhood, edges repeated, input untouched"""
from ..vn import *
from .. import lin
CONV = "::perform_valid_2d_conv_with_boundary"

def extension():
    """the function that extends a matrix by one row and column on each side: (unit, name)"""
    c = fnpath(CONV[2:]) if not maybe(CONV) else maybe(CONV)[0]
    pre = c.rsplit("::", 1)[0] + "::"
    out = []
    for b in sorted(lib().bodies):
        if not b.startswith(pre) or b == c or lib().bodies[b].argc != 1 or "{closure" in b: continue
        try: u = unit(b, (), (), ["X"])
        except Exception: continue
        X = sym("X")
        try:
            if length(u.ret) is add(length(X), num(2)): out.append(u)
        except Exception: continue
    if len(out) != 1: raise Missing("a function extending a matrix by its edges (%d found)" % len(out))
    return c, out[0]

def run(rep):
    rep.rule("value numbering: the extension of a matrix repeats its edge rows and columns (index equalities by linear entailment, all sizes) and leaves the matrix as it was; element (i,j) of the "
             "convolution with any 3x3 window symmetric like NSIM's is the sum of the window's entries times the extended elements i..i+2, j..j+2, so the neighbourhood of (i,j)")
    conv, u = extension()
    X = sym("X"); R, C = length(X), ncols(X); i, j = sym("i", "u"), sym("j", "u")
    equal(rep, "rows of the extended matrix", length(u.ret), add(R, num(2)), None, u.bid)
    equal(rep, "columns of the extended matrix", ncols(u.ret), add(C, num(2)), ge0i(sub(R, ONE)), u.bid)
    pc = band(ge0i(sub(R, ONE)), ge0i(sub(C, ONE)), ilt(i, add(R, num(2))), ilt(j, add(C, num(2))))
    n = 0
    clamp = lambda k, m: imax(ZERO, imin(sub(k, ONE), sub(m, ONE)))
    for cube, l in leaves(restrict(sel(sel(u.ret, i), j), pc)):
        q = band(pc, cubecond(cube))
        if lin.valid(bnot(q)) is None: continue
        n += 1
        at = "%s: element (i,j) of the extended matrix is %s on %s" % (u.bid, show(l, 6)[:200], showcube(cube)[:300])
        ok = l.op == "sel" and l.a[0].op == "sel" and l.a[0].a[0] is X
        rep.instance("every element of the extended matrix is one of the matrix's", ok, at)
        if not ok: continue
        for what, k, m, got in (("row", i, R, l.a[0].a[1]), ("column", j, C, l.a[1])):
            low, high = bnot(ge0i(sub(k, ONE))), ilt(m, k)
            want = band(bimp(low, ieq(got, ZERO)), bimp(high, ieq(got, sub(m, ONE))), bimp(band(bnot(low), bnot(high)), ieq(got, sub(k, ONE))))
            rep.instance("edge %ss are repeated, others kept" % what, lin.valid(bimp(q, want)) is None, at)
    rep.floor("cases of an extended element", n, 4)
    if "X" in u.out: rep.instance("the extended matrix's source is left as it was", u.out["X"] is X, "%s changes its argument: %s" % (u.bid, show(u.out["X"], 5)[:300]))
    c, e, m = (sym(x, "f") for x in ("WCORNER", "WEDGE", "WCENTRE"))
    A = lambda *x: raw("agg", "array", *x)
    W = A(A(c, e, c), A(e, m, e), A(c, e, c))
    v = unit(conv, (), [u.bid], [W, "X"])
    P = [t for t in terms_where(v.ret, lambda z: z.op == "app" and z.a[0] == u.bid)]
    rep.instance("the convolved matrix is the extended input", len(P) == 1 and P[0].a[1] is X, "%s: %s" % (v.bid, "; ".join(show(p, 4) for p in P)))
    if len(P) != 1: return
    P = P[0]
    RP, CP = length(P), ncols(P)
    big = band(ge0i(sub(RP, num(3))), ge0i(sub(CP, num(3))), ilt(i, sub(RP, num(2))), ilt(j, sub(CP, num(2))))
    equal(rep, "rows of the result", length(v.ret), sub(RP, num(2)), big, v.bid)
    equal(rep, "columns of the result", restrict(ncols(v.ret), big), sub(CP, num(2)), big, v.bid)
    w = {(0, 0): c, (0, 1): e, (0, 2): c, (1, 0): e, (1, 1): m, (1, 2): e, (2, 0): c, (2, 1): e, (2, 2): c}
    want = ZERO
    for (a, b), x in w.items(): want = add(want, mul(x, sel(sel(P, add(i, num(a))), add(j, num(b)))))
    equal(rep, "the result is the window's sum over the element's neighbourhood", sel(sel(v.ret, i), j), want, big, v.bid)
    rep.instance("the input is left as it was", v.out.get("X", X) is X or uneffect(v.out["X"], [u.bid]) is X, "%s changes its input: %s" % (v.bid, show(v.out.get("X", X), 5)[:300]))
    # the window of the measure
    s = nsim()
    ws = {ev["args"][0] for ev in s.events if ev["name"].endswith(CONV) or ev["p"].endswith(CONV)}
    rep.floor("convolutions of the measure", len([1 for ev in s.events if ev["name"].endswith(CONV) or ev["p"].endswith(CONV)]), 3)
    for t in ws:
        ok = length(t) is num(3) and ncols(t) is num(3)
        g = (lambda a, b: sel(sel(t, num(a)), num(b))) if ok else None
        ok = ok and len({g(0, 0), g(0, 2), g(2, 0), g(2, 2)}) == 1 and len({g(0, 1), g(1, 0), g(1, 2), g(2, 1)}) == 1
        rep.instance("the measure's window is 3x3 and symmetric", ok, "%s: its window is %s" % (s.bid, show(t, 4)[:300]))
