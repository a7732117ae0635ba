"""C34: alignment only shifts: the lag found, applied once, whole and reported"""
from ._align import *

def found(t):
    """what the call for the best lag gives"""
    return terms_where(t, lambda z: z.op == "app" and z.a[0].endswith(LAG))

def shifted(rep):
    """the degraded signal after global alignment"""
    env = maybe(ENV)
    u = unit(fnpath(AL), (), [fnpath(LAG)] + env, ["REF", "DEG"])
    REF, DEG = F(sym("REF"), "AudioSignal", "data_matrix"), F(sym("DEG"), "AudioSignal", "data_matrix")
    rate = F(sym("DEG"), "AudioSignal", "sample_rate")
    cs = somes(u.ret)
    rep.floor("cases of an aligned signal", len(cs), 3)
    j = sym("j", "u")
    calls = {z for _, l in cs for z in found(l)} | {z for c, _ in cs for a, v in c for z in found(a)}
    rep.instance("one lag is looked for", len(calls) == 1, "%s: %d searches" % (u.bid, len(calls)))
    if len(calls) != 1: return
    call = calls.pop()
    for k, who, S in ((1, "reference", REF), (2, "degraded", DEG)):
        o = DEG if S is REF else REF
        rep.instance("argument %d of the lag search is made from the %s signal" % (k, who), draws(call.a[k], S) and not draws(call.a[k], o), "%s: it is %s" % (u.bid, show(call.a[k], 5)[:200]))
    lags = {z for _, l in cs for z in terms_where(l, lambda z: z.op == "fld" and z.a[0] is call)} | {z for c, _ in cs for a, v in c for z in terms_where(a, lambda z: z.op == "fld" and z.a[0] is call)}
    if len(lags) != 1: raise Missing("the lag found")
    b = lags.pop()
    half = idiv(length(REF), num(2))
    applied = set()
    for cube, l in cs:
        pc0 = cubecond(cube)
        for c2, sec in leaves(restrict(fld(l, 0, 1), pc0)):
            k = mul(sec, rate)
            inside = band(ile(b, half), ile(neg(half), b))
            if k is not ZERO: applied |= {sg for sg, c in (("later", ge0i(sub(b, ONE))), ("earlier", bnot(ge0i(b)))) if lin.valid(bnot(band(pc0, cubecond(c2), c))) is not None}
            if k is ZERO:
                w = lin.valid(bimp(band(pc0, cubecond(c2)), bor(bnot(inside), ieq(b, ZERO))))
                rep.instance("a lag of at most half the reference is applied", w is None, "%s: on %s the reported delay is 0 though the lag may be nonzero" % (u.bid, showcube(list(cube) + list(c2))[:400]))
            else:
                rep.instance("the reported delay is the lag found, in seconds", k is b, "%s: on %s the delay times the sample rate is %s" % (u.bid, showcube(cube)[:300], show(k, 6)[:200]))
                rep.instance("a lag longer than half the reference is not applied", implied(list(cube) + list(c2), inside), "%s: on %s" % (u.bid, showcube(cube)[:400]))
            pc = band(pc0, cubecond(c2))
            D = restrict(F(fld(l, 0, 0), "AudioSignal", "data_matrix"), pc)
            equal(rep, "the aligned signal keeps its sample rate", F(fld(l, 0, 0), "AudioSignal", "sample_rate"), rate, pc, u.bid)
            for c3, d in leaves(D):
                pd = band(pc, cubecond(c3)); full = list(cube) + list(c2) + list(c3)
                n = restrict(length(d), pd)
                same(rep, "the aligned signal is the degraded one with as many samples more or less as the lag", n, add(length(DEG), k), full, u.bid)
                for c4, x in leaves(restrict(sel(d, j), band(pd, ilt(j, n)))):
                    f4 = full + list(c4)
                    at = "%s: on %s sample j of the aligned signal is %s" % (u.bid, showcube(f4)[:500], show(x, 6)[:200])
                    if x is ZERO:
                        rep.instance("silence is only put in front, as much as the lag", lin.valid(bimp(band(cubecond(f4), ilt(j, n)), ilt(j, k))) is None, at)
                    else:
                        good = x.op == "sel" and x.a[0] is DEG and implied(f4, ieq(sub(j, k), x.a[1]))
                        rep.instance("every other sample is the degraded signal's, shifted by the lag", good, at + ", not sample j - %s" % show(k, 5)[:100])
                        rep.instance("silence fills the front", lin.valid(bimp(band(cubecond(f4), ilt(j, n)), ile(k, j))) is None, at)
    rep.floor("directions in which a lag is applied", len(applied), 2)

def same(rep, what, got, want, cube, where):
    ok = got is want or implied(cube, ieq(got, want))
    rep.instance(what, ok, "%s: on %s: %s instead of %s" % (where, showcube(cube)[:300], show(got, 6)[:200], show(want, 6)[:200]))

def paired(rep):
    """the pair for fine alignment"""
    u = unit(fnpath(TRUNC), (), [fnpath(AL)], ["REF", "DEG"])
    R, D = sym("REF"), sym("DEG")
    REF = F(R, "AudioSignal", "data_matrix")
    r1 = F(R, "AudioSignal", "sample_rate"); r2 = F(D, "AudioSignal", "sample_rate")
    j = sym("j", "u")
    cs = somes(u.ret)
    rep.floor("cases of an aligned pair", len(cs), 1)
    for cube, l in cs:
        pc = cubecond(cube)
        gs = {z for z in terms_where(l, lambda z: z.op == "app" and z.a[0].endswith(AL))}
        rep.instance("the pair comes from one global alignment of the two signals, in their roles", len(gs) == 1 and [x for x in gs][0].a[1:3] == (R, D), "%s: %s" % (u.bid, "; ".join(show(g, 4) for g in gs)))
        if len(gs) != 1: continue
        g = gs.pop()
        AD = F(fld(fld(g, 1, 0), 0, 0), "AudioSignal", "data_matrix"); sec = fld(fld(g, 1, 0), 0, 1)
        lag = None
        rep.instance("the delay reported is the alignment's", restrict(fld(l, 0, 2), pc) is sec, "%s: it is %s" % (u.bid, show(fld(l, 0, 2), 6)[:200]))
        eq = {r2: r1}
        for i, rt in ((0, r1), (1, r2)):
            equal(rep, "signal %d keeps its sample rate" % i, F(fld(l, 0, i), "AudioSignal", "sample_rate"), rt, pc, u.bid)
        a, d = (F(fld(l, 0, i), "AudioSignal", "data_matrix") for i in (0, 1))
        pair = raw("agg", "tuple", *[replace(x, eq) for y in (a, d) for x in (length(y), sel(y, j))])
        na, nd = replace(length(a), eq), replace(length(d), eq)
        xa, xd = replace(sel(a, j), eq), replace(sel(d, j), eq)
        SR, SA = length(REF), length(AD)
        seen = 0
        for c2, n1 in leaves(restrict(na, pc)):
            p2 = band(pc, cubecond(c2))
            for c3, n2 in leaves(restrict(nd, p2)):
                p3 = band(p2, cubecond(c3)); full = list(cube) + list(c2) + list(c3)
                if p3 is FALSE: continue
                seen += 1
                rep.instance("the two signals of the pair are equally long", n1 is n2 or implied(full, ieq(n1, n2)), "%s: on %s: %s and %s samples" % (u.bid, showcube(full)[:400], show(n1, 6)[:150], show(n2, 6)[:150]))
                rng = band(p3, ilt(j, n1))
                for c4, x in leaves(restrict(xa, rng)):
                    for c5, y in leaves(restrict(restrict(xd, rng), cubecond(c4))):
                        f = full + list(c4) + list(c5)
                        at = "%s: on %s sample j is %s of the reference and %s of the degraded signal" % (u.bid, showcube(f)[:400], show(x, 5)[:150], show(y, 5)[:150])
                        ok = x.op == "sel" and x.a[0] is REF and y.op == "sel" and y.a[0] is AD
                        rep.instance("both are samples of the aligned signals", ok, at)
                        if not ok: continue
                        off = sub(x.a[1], j)
                        rep.instance("both start at the same sample", sub(y.a[1], j) is off or implied(f, ieq(x.a[1], y.a[1])), at)
                        want = trunc(mul(sec, r1), True)
                        rep.instance("only the silence put in front is cut off", off is ZERO or off is want, at + ", an offset of %s" % show(off, 6)[:200])
                        # the longer one loses nothing but its tail
                        rep.instance("nothing both signals have is cut off at the end", any(implied(full, ieq(add(n1, off), s)) for s in (SR, SA)) and implied(full + [], band(ile(add(n1, off), SR), ile(add(n1, off), SA))),
                                     at + "; %s samples are kept" % show(n1, 6)[:200])
        rep.floor("cases of a pair's lengths", seen, 1)

ARG = ("argmax", "argmax1", "argmin", "argmin9")
def search(rep):
    """which lag is found"""
    u = unit(fnpath(LAG), (), [fnpath(XC)], ["A", "B"])
    A, B = length(sym("A")), length(sym("B"))
    i, i2 = sym("i", "u"), sym("i2", "u")
    n = 0
    for name, case, m in (("first envelope longer", ge0i(sub(A, B)), A), ("second envelope longer", bnot(ge0i(sub(A, B))), B)):
        pos = band(ge0i(sub(A, ONE)), ge0i(sub(B, ONE)), case)
        for cube, v in somes(restrict(u.ret, pos)):
            pc = band(pos, cubecond(cube))
            xs = terms_where(v, lambda z: z.op == "first" or z.op == "fn" and z.a[0] in ARG)
            outer = [x for x in xs if not any(y is not x and terms_where(y, lambda z: z is x) for y in xs)]
            rep.instance("the lag is found from one position (%s)" % name, len(outer) == 1, "%s: it is %s" % (u.bid, show(v, 5)[:300]))
            if len(outer) != 1: continue
            P = outer[0]; best = P; cnt = None
            if P.op == "first":
                bs = {x for x in xs if x.op == "fn"}
                rep.instance("the position is that of an extreme value (%s)" % name, len(bs) == 1 and len(P.a) > 1, "%s: %s" % (u.bid, show(P, 5)[:300]))
                if len(bs) != 1 or len(P.a) < 2: continue
                best = bs.pop()
            rep.instance("the largest magnitude is looked for (%s)" % name, best.a[0] in ("argmax", "argmax1"), "%s: %s is used" % (u.bid, best.a[0]))
            cnt = restrict(best.a[1], pc)
            lag = lambda x: replace(v, {P: x})
            rng = lambda x: band(pc, ilt(x, cnt), ge0i(x))
            rep.instance("as many lags are tried as there are (%s)" % name, lin.valid(bimp(pc, ieq(cnt, sub(mul(num(2), m), ONE)))) is None, "%s: %s lags instead of 2*%s-1" % (u.bid, show(cnt, 5)[:200], show(m, 3)))
            key = restrict(TT.app(best.a[2], i), rng(i))
            li = restrict(lag(i), rng(i))
            bad = None
            for c2, d in leaves(li):
                p2 = band(rng(i), cubecond(c2))
                if lin.valid(bimp(p2, band(ile(neg(sub(m, ONE)), d), ile(d, sub(m, ONE))))) is not None: bad = "lag %s is out of range" % show(d, 5)[:100]
                for c3, x in leaves(restrict(key, p2)):
                    n += 1
                    y = x.a[1] if x.op == "fn" and x.a[0] == "abs" else None
                    if y is None or y.op != "sel" or y.a[0].op != "app" or not y.a[0].a[0].endswith(XC): bad = "the value compared for lag %s is %s" % (show(d, 4)[:100], show(x, 6)[:200]); continue
                    N = length(y.a[0])
                    want = bor(band(ge0i(d), ieq(y.a[1], d)), band(bnot(ge0i(d)), ieq(y.a[1], add(N, d))))
                    if lin.valid(bimp(band(p2, cubecond(c3)), want)) is not None: bad = "for lag %s on %s the correlation is read at %s" % (show(d, 4)[:100], showcube(list(c2) + list(c3))[:200], show(y.a[1], 5)[:100])
            rep.instance("each lag is judged by the magnitude of its own correlation (%s)" % name, bad is None, "%s: %s" % (u.bid, bad))
            if lin.valid(bimp(band(rng(i), rng(i2), ieq(restrict(lag(i), rng(i)), restrict(lag(i2), rng(i2)))), ieq(i, i2))) is not None:
                rep.violation("each lag is tried once (%s)" % name, "%s: lag of position i is %s" % (u.bid, show(li, 5)[:200]))
            if P is not best:
                C = lambda x: restrict(TT.app(best.a[2], x), pc)
                got = restrict(TT.app(P.a[0], i), rng(i))
                w1 = restrict(feq0(sub(strip(C(i)), strip(C(best)))), rng(i)); w2 = restrict(feq0(sub(C(i), C(best))), rng(i))
                good = got in (w1, w2) or restrict(P.a[1], pc) is cnt and eqval(got, strip(C(i)), strip(C(best)), rng(i))
                rep.instance("the position is the one of the largest magnitude (%s)" % name, good and restrict(P.a[1], pc) is cnt, "%s: the first position with %s" % (u.bid, show(got, 6)[:300]))
    rep.floor("correlation values judged", n, 4)

def strip(t):
    """|x| -> x, by cases"""
    return mapleaves(lambda l: l.a[1] if l.op == "fn" and l.a[0] == "abs" else l, t)

def eqval(got, x, y, pc):
    """got holds exactly when values x and y are equal"""
    for c1, a in leaves(restrict(x, pc)):
        for c2, b in leaves(restrict(y, pc)):
            q = band(pc, cubecond(c1), cubecond(c2))
            if q is FALSE: continue
            if restrict(got, q) not in (restrict(feq0(sub(a, b)), q), restrict(feq0(sub(b, a)), q)) and a is not b: return False
    return True

def correlated(rep):
    """the correlation is the reference's spectrum times the conjugate of the degraded one's"""
    u = unit(fnpath(XC), (), (), ["A", "B"])
    A, B = sym("A"), sym("B")
    n = 0
    for name, case in (("first longer", ge0i(sub(length(A), length(B)))), ("second longer", bnot(ge0i(sub(length(A), length(B)))))):
        pos = band(ge0i(sub(length(A), ONE)), ge0i(sub(length(B), ONE)), case)
        j, k = sym("j", "u"), sym("k", "u")
        el = restrict(sel(u.ret, j), pos)
        for z in terms_where(el, lambda z: z.op == "fft" and str(z.a[0]) == "inv"):
            x = restrict(sel(restrict(z.a[2], pos), k), band(pos, ilt(k, restrict(z.a[1], pos))))
            for cube, l in leaves(x):
                if l is ZERO or l.op == "undef": continue
                n += 1
                fs = [f for m in TT.terms_of(l) for f, e in m]
                cj = [f for f in fs if f.op == "fn" and f.a[0] == "conj"]; pl = [f for f in fs if f not in cj]
                ok = len(TT.terms_of(l)) == 1 and len(cj) == 1 and len(pl) == 1 and draws(cj[0], B) and not draws(cj[0], A) and draws(pl[0], A) and not draws(pl[0], B)
                rep.instance("the correlation conjugates the second spectrum (%s)" % name, ok, "%s: bin k of the product is %s" % (u.bid, show(l, 6)[:300]))
    rep.floor("product bins", n, 2)

def run(rep):
    rep.rule("value numbering: by cases, the globally aligned signal is the degraded signal shifted by the lag found (zeros in front, or its head dropped), the delay reported is that "
             "lag over the sample rate, and the lag is used exactly when it is at most half the reference; the lag is the position of the largest magnitude among the correlation values of all lags, each read at its own index, "
             "of the first spectrum with the conjugate of the second; the truncated pair holds both aligned signals from one common offset and of one length")
    shifted(rep)
    paired(rep)
    search(rep)
    correlated(rep)
