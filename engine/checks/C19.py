"""C19: row i of every per-band quantity belongs to entry i of the ascending list of centre frequencies"""
from ._pipe import *
from ._spect import spectrogram, roles, NB

def sign(t, cond):
    """1, -1 if t is always positive, always negative on cond"""
    if bimp(cond, fgt0(t)) is TRUE: return 1
    if bimp(cond, fgt0(neg(t))) is TRUE: return -1
    # k * (ln x - ln y), k > 0 common to both
    ms = list(TT.terms_of(t).items())
    if len(ms) == 2:
        l = []
        for m, c in ms:
            lg = [x for x, e in m if x.op == "fn" and x.a[0] == "ln" and e == 1]
            if len(lg) != 1: return None
            l.append((lg[0].a[1], tuple((x, e) for x, e in m if x is not lg[0]), c))
        (x, mx, cx), (y, my, cy) = l
        if mx == my and cx == -cy:
            k = TT._mkpoly({mx: abs(cx)})
            if not nonneg(k) and sign(k, cond) != 1: return None
            d = sub(x, y) if cx > 0 else sub(y, x)      # ln is increasing
            return sign(d, cond)
    return None

def slope(t, K, cond):
    """1, -1, 0 if t strictly increases, strictly decreases, is constant in K; None if unknown"""
    if not depends(t, K): return 0
    if t is K: return 1
    if t.op == "fn" and t.a[0] in ("exp", "ln", "sqrt"): return slope(t.a[1], K, cond)
    if t.op == "psum": return slope(t.a[0], K, cond)
    groups = {}
    for m, c in TT.terms_of(t).items():
        dep = [(x, e) for x, e in m if depends(x, K)]
        if not dep: continue
        if len(dep) > 1 or dep[0][1] != 1: return None
        if dep[0][0] is t: return None
        rest = TT._mkpoly({tuple((x, e) for x, e in m if x is not dep[0][0]): c})
        groups[dep[0][0]] = add(groups[dep[0][0]], rest) if dep[0][0] in groups else rest
    out = set()
    for x, k in groups.items():
        if k is ZERO: continue
        s = sign(k, cond); d = slope(x, K, cond)
        if s is None or d is None: return None
        out.add(s * d)
    if len(out) != 1: return None
    return out.pop()

def config(u):
    """the spectrogram builder as the manager is constructed with it"""
    return fld(F(okmgr(u), "VisqolManager", "spectrogram_builder"), 0, 0)

def monotone(rep):
    """direction of the design's centre frequencies over the rows, for the frequencies the builder asks for"""
    s = spectrogram()
    ev = events(s.u, "::make_filters")
    rep.floor("filter designs of a spectrogram", len(ev), 1)
    u, cols, vals, want, cfk, k, freqs = roles()
    d = unit(u.bid, (), (), ["RATE", "LO", "HI"], key="full")
    lst = fld(d.ret, 0, 1)
    n = length(lst)
    K = sym("row", "u")
    el = restrict(sel(lst, K), ilt(K, n))
    mu = mnew()
    bank = F(sym("B"), "GammatoneSpectrogramBuilder", "filter_bank")
    low = None
    for t in terms_where(mu.ret, lambda z: z.op == "agg" and z.a[0].endswith("GammatoneFilterbank#0")): low = F(t, "GammatoneFilterbank", "min_freq")
    if low is None or not is_num(low): raise Missing("the filterbank the manager is constructed with")
    dirs = set()
    for e in ev:
        a = e["args"]
        rate = arate(sym("SIG"))
        Q = sym("q", "u")
        for par in (0, 1):
            mp = {rate: add(mul(num(2), Q), num(par)), F(bank, "GammatoneFilterbank", "min_freq"): low}
            # the design matters for spectrograms that are delivered
            pc = rbuild(band(e["pc"], s.ok), mp)
            at = [rbuild(x, mp) for x in a[:3]]
            t = rbuild(subst(el, {sym("RATE"): at[0], sym("LO"): at[1], sym("HI"): at[2]}), mp)
            for cube, l in leaves(restrict(t, pc)):
                c = band(pc, cubecond(cube), ge0i(sub(n, ONE)))
                if c is FALSE: continue
                for c2, v in leaves(c):
                    if v is TRUE:
                        sd = slope(l, K, cubecond(c2)); dirs.add(sd)
                        rep.instance("design frequencies are strictly monotone over the rows", sd in (1, -1), "%s: the frequency of row k, %s, is not shown to rise or fall strictly with k on %s" % (u.bid, show(l, 8)[:300], showcube(c2)[:300]))
    return dirs

def rbuild(t, mp):
    return replace(t, mp)

def run(rep):
    rep.rule("value numbering of row indices from the filter design to the record: the design's frequencies are strictly monotone over its rows (sign rules for exp and ln "
             "under the guards of the builder), the reported list is that list in ascending order, row b of a spectrogram is computed with the design row whose frequency "
             "is entry b, and every later step (conditioning, patch cutting, realignment, measure, averages) reads row i for row i")
    dirs = monotone(rep)
    s = spectrogram()
    if s.table is None: raise Missing("a single call of the filter design")
    used = {z.a[0].a[1] for z in terms_where(s.E, lambda z: z.op == "sel" and z.a[0].op == "sel" and z.a[0].a[0] is s.table)}
    n = length(s.table)
    nb = NB
    fix = lambda t: restrict(replace(t, {n: nb}), ilt(s.b, nb))
    used = {fix(x) for x in used}
    rev = sub(sub(nb, ONE), s.b)
    flist = fld(s.mf, 0, 1)
    got = s.freqs
    asc = None
    if got.op == "sorted" and got.a[0] is flist: asc = str(got.a[1]) == "asc"; at = rev if (dirs == {-1}) == asc else s.b
    elif got is flist: asc = dirs == {1}; at = s.b
    else:
        e = restrict(sel(got, s.b), ilt(s.b, length(got)))
        e = fix(replace(e, {length(flist): nb}))
        if e.op == "sel" and e.a[0] is flist:
            at = e.a[1]
            asc = at is (rev if dirs == {-1} else s.b)
        else: at = None
    rep.instance("the reported centre frequencies are the design's in ascending order", bool(asc), "%s: the list is %s, design frequencies %s over the rows" % (
        s.u.bid, show(got, 4)[:200], "fall" if dirs == {-1} else "rise" if dirs == {1} else "are not monotone"))
    rep.instance("spectrogram row b uses the design row of listed frequency b", used == {at}, "%s: row b uses design row %s, entry b of the list belongs to design row %s" % (
        s.u.bid, sorted(show(x, 5) for x in used), show(at, 5) if at is not None else "unknown"))
    # the record's list
    u, br, bd, R, D, wr, wd = sides()
    v = okpart(u.ret)
    lists = [F(fld(e["ret"], 0, 0), "Spectrogram", "center_freq_bands") for e in (br, bd)]
    got = F(v, RESN, "center_freq_bands")
    rep.instance("the record lists the built spectrogram's frequencies", got in lists, "%s: the record's list is %s" % (u.bid, show(got, 5)[:300]))
    passthrough(rep, "center_freq_bands")
    # rows through the pipeline
    i, c = sym("i", "u"), sym("c", "u")
    for nm, w, own in (("reference", wr, R), ("degraded", wd, D)):
        rep.instance("conditioning keeps the number of rows (%s)" % nm, length(w) is length(own), "%s has %s rows" % (nm, show(length(w), 4)))
        el = restrict(sel(sel(w, i), c), band(ilt(i, length(w)), ilt(c, ncols(w))))
        direct = {t.a[0].a[1] for t in terms_where(el, lambda z: z.op == "sel" and z.a[0].op == "sel" and z.a[0].a[0] is own and z.a[1] is c)}
        rep.instance("conditioning keeps rows in place (%s)" % nm, i in direct and all(x is i or x.op in ("bv", "K") for x in direct), "row i of the conditioned spectrogram reads rows %s" % sorted(show(x, 4) for x in direct))
    k = 0
    for p, bid in impls("PatchCreator", "create_patches_from_indices").items():
        q = unit(bid, (), (), ["SELF", "SPEC", "IDX"])
        P = sel(q.ret, sym("p", "u"))
        el = restrict(sel(sel(P, i), c), band(ilt(sym("p", "u"), length(q.ret)), ilt(i, length(P)), ilt(c, ncols(P))))
        k += 1
        rs = {t.a[1] for t in terms_where(el, lambda z: z.op == "sel" and z.a[0] is sym("SPEC"))}
        rep.instance("patches keep their rows (%s)" % p.split("::")[-1], rs == {i} and length(P) is length(sym("SPEC")), "%s: row i of a patch reads rows %s, patch has %s rows" % (bid, sorted(show(x, 5) for x in rs), show(length(P), 5)))
    rep.floor("patch creators", k, 2)
    w = u4()
    for e in meas(w):
        for a in e["args"][1:3]:
            a = restrict(a, e["pc"])
            x = sel(sel(a, i), c)
            srcs = [z.a[0] for z in terms_where(x, lambda z: z.op == "sel" and (z.a[0] is sym("SPEC") or z.a[0].op == "sel" and z.a[0].a[0] is sym("PATCHES")))]
            rs = {t.a[1] for t in terms_where(x, lambda z: z.op == "sel" and z.a[0] in srcs and (z.a[0] is sym("SPEC") or z.a[0].op == "sel"))}
            rep.instance("patches measured by the search keep their rows", rs == {i}, "%s: row i of the measured patch reads rows %s" % (e["where"], sorted(show(z, 5) for z in rs)))
    m = nsim()
    out = drop_undef(m.ret)
    for f in ("freq_band_means", "freq_band_stddevs", "freq_band_deg_energy"):
        val = F(out, "PatchSimilarityResult", f)
        el = restrict(sel(val, i), ilt(i, length(val)))
        rs = {z.a[1] for z in terms_where(el, lambda z: z.op == "sel" and (z.a[0] in (sym("RP"), sym("DP")) or z.a[0].op == "app" and (draws(z.a[0], sym("RP")) or draws(z.a[0], sym("DP"))))) if z.a[1].op not in ("bv", "K")}
        rep.instance("the measure's %s[i] is that of row i" % f, rs == {i}, "%s: entry i is computed from rows %s" % (m.bid, sorted(show(x, 5) for x in rs)))
    for f, g in (("fvnsim", "freq_band_means"), ("fstdnsim", None), ("fvdegenergy", "freq_band_deg_energy")):
        val = F(v, RESN, f)
        ok_ = oks(u.ret)[0]
        el = restrict(sel(val, i), band(ok_, ilt(i, length(val))))
        fs = {fidx("PatchSimilarityResult", x) for x in ("freq_band_means", "freq_band_stddevs", "freq_band_deg_energy")}
        rs = {z.a[1] for z in terms_where(el, lambda z: z.op == "sel" and z.a[0].op == "fld" and z.a[0].a[2] in fs and z.a[0].a[0].op == "sel")}
        rep.instance("the record's %s[i] averages entry i of every patch" % f, rs == {i}, "%s: entry i is computed from entries %s" % (u.bid, sorted(show(x, 5) for x in rs)))
        passthrough(rep, f)
