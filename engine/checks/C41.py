"""C41: the alignment envelope is the magnitude of the analytic signal about the mean"""
from ._align import *

def run(rep):
    rep.rule("value numbering of the envelope: sample i is the magnitude of the transformed mean-free signal plus the mean, for each sample of the signal; the spectrum inverted for it is the signal's "
             "own times 1 at zero frequency, 2 at positive and 0 at negative frequencies (weights per bin by linear entailment, the bin at half the rate left free)")
    u = unit(fnpath(ENV), (), [fnpath(HIL)], ["X"])
    X = sym("X"); n = length(X); i = sym("i", "u"); k = sym("k", "u")
    mean = fdiv(mksum(n, lambda j: sel(X, j)), n)
    cs = somes(restrict(u.ret, ge0i(sub(n, ONE))))
    rep.floor("cases of an envelope", len(cs), 1)
    for cube, v in cs:
        pc = band(ge0i(sub(n, ONE)), cubecond(cube))
        hs = terms_where(v, lambda z: z.op == "app" and z.a[0].endswith(HIL))
        rep.instance("one transform gives the envelope", len(hs) == 1, "%s: %d" % (u.bid, len(hs)))
        if len(hs) != 1: continue
        h = hs[0]; H = fld(h, 1, 0)
        equal(rep, "the signal is transformed without its mean", restrict(sel(h.a[1], i), ilt(i, n)), sub(sel(X, i), mean), pc, u.bid)
        equal(rep, "the signal transformed is as long as the signal", length(h.a[1]), n, pc, u.bid)
        el = restrict(sel(v, i), band(pc, ilt(i, length(v))))
        equal(rep, "the envelope is the magnitude about the mean", el, add(fn("norm", sel(H, i)), mean), band(pc, ilt(i, length(v))), u.bid)
        equal(rep, "the envelope has a value for every transformed sample", length(v), length(H), pc, u.bid)
    u = unit(fnpath(HIL), (), (), ["X"])
    cs = somes(restrict(u.ret, ge0i(sub(n, num(2)))))
    rep.floor("cases of a transformed signal", len(cs), 1)
    bins = 0
    HALF = sym("HALF", "u")
    for cube, v in cs:
        pc = band(ge0i(sub(n, num(2))), cubecond(cube))
        equal(rep, "the transformed signal is as long as the signal", length(v), n, pc, u.bid)
        el = restrict(sel(v, i), band(pc, ilt(i, n)))
        for c2, l in leaves(el):
            p2 = band(pc, cubecond(c2))
            if lin.valid(bnot(band(p2, ilt(i, n)))) is None: continue
            zs = terms_where(l, lambda z: z.op == "fft" and str(z.a[0]) == "inv" and not terms_where(l, lambda y: y is not z and y.op == "fft" and str(y.a[0]) == "inv" and terms_where(y, lambda q: q is z)))
            rep.instance("each sample comes from one inverse transform", len(set(zs)) == 1, "%s: sample i is %s on %s" % (u.bid, show(l, 5)[:300], showcube(c2)[:200]))
            if len(set(zs)) != 1: continue
            z = zs[0]
            at = [y for y in terms_where(l, lambda y: y.op == "sel" and y.a[0] is z)]
            rep.instance("each sample is its own element of the inverse transform", [y.a[1] for y in at] == [i], "%s: sample i is taken from %s" % (u.bid, "; ".join(show(y.a[1], 4) for y in at)))
            N = restrict(z.a[1], p2)
            rng = band(p2, ilt(k, N))
            x = restrict(sel(restrict(z.a[2], p2), k), rng)
            sub_ = {fn("next_pow2", n): mul(num(2), HALF)}
            n2 = replace(N, sub_)
            h2 = idiv(n2, num(2))
            for c3, w in leaves(x):
                bins += 1
                ms = TT.terms_of(w)
                c = Fr(0) if w is ZERO else None
                if len(ms) == 1:
                    (m, cf), = ms.items()
                    if len(m) == 1 and m[0][1] == 1:
                        y = m[0][0]
                        if y.op == "sel" and y.a[0].op == "fft" and str(y.a[0].a[0]) == "fwd" and y.a[1] is k: c = cf
                q = replace(band(rng, cubecond(c3)), sub_)
                q = band(q, ile(n, n2), ge0i(HALF))
                at_ = "%s: bin k of the spectrum is %s on %s" % (u.bid, show(w, 5)[:200], showcube(list(c3))[:400])
                rep.instance("a bin is the signal's own with a weight", c is not None, at_)
                if c is None: continue
                where_ = {"zero": ieq(k, ZERO), "positive": band(ge0i(sub(k, ONE)), ilt(k, h2)), "negative": ilt(h2, k)}
                for name, cond in where_.items():
                    good = c == {"zero": 1, "positive": 2, "negative": 0}[name] or lin.valid(bnot(band(q, cond))) is None
                    rep.instance("weight of %s frequencies" % name, good, at_ + ": weight %s at %s frequencies" % (c, name))
    rep.floor("spectral bins judged", bins, 4)
