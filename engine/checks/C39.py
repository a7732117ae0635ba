"""C39: every reported patch weighs the same in every per-band score"""
from ..vn import *
from .. import models

def run(rep):
    rep.rule("value numbering of the comparison's record over the list of patches fine alignment returns: per band the mean over all of them of their band similarities and energies, and the "
             "standard deviation pooled over their frames; the list is reported as it is")
    u = u1()
    ev = events(u, "finely_align_and_recreate_patches")
    rep.floor("fine alignments", len(ev), 1)
    out = okpart(u.ret)
    P = sym("SIMS")
    mp = {fld(e["ret"], 0, 0): P for e in ev}
    out = uniform_bands(replace(out, mp), P)
    n = length(P)
    pr = "PatchSimilarityResult"
    b = sym("b", "u")
    nb = uniform_bands(length(F(sel(P, ZERO), pr, "freq_band_means")), P)
    pre = band(ge0i(sub(n, ONE)), ilt(b, nb))
    def field(f, k): return sel(F(sel(P, k), pr, f), b)
    def mean(f): return fdiv(mksum(n, lambda k: field(f, k)), n)
    got = {f: F(out, RESN, f) for f in ("fvnsim", "fvdegenergy", "fstdnsim", "patch_sims")}
    equal(rep, "the reported patches are those of fine alignment", got["patch_sims"], P, where=CALC)
    for f, src in (("fvnsim", "freq_band_means"), ("fvdegenergy", "freq_band_deg_energy")):
        equal(rep, "%s has one entry per band" % f, length(got[f]), nb, pre, CALC)
        equal(rep, "%s is the mean of %s over all patches" % (f, src), everywhere(restrict(sel(got[f], b), pre), ilt(b, nb)), mean(src), pre, CALC)
    # pooled deviation
    W = sym("WINDOW")
    # frames are a whole-sample hop apart: a quarter window (C24)
    quarter = lambda t: replace(t, {F(W, "AnalysisWindow", "overlap"): num(Fr(1, 4))})
    hop = trunc(fdiv(F(W, "AnalysisWindow", "size"), num(4)))
    dur = fdiv(hop, F(sym("REF"), "AudioSignal", "sample_rate"))
    got = {f: quarter(x) for f, x in got.items()}
    def frames(k):
        return clip0(fn("ceil", fdiv(sub(F(sel(P, k), pr, "ref_patch_end_time"), F(sel(P, k), pr, "ref_patch_start_time")), dur)))
    N = mksum(n, frames)
    S = mksum(n, lambda k: add(mul(sub(frames(k), ONE), powi(field("freq_band_stddevs", k), 2)), mul(frames(k), powi(field("freq_band_means", k), 2))))
    m = mean("freq_band_means")
    var = fdiv(sub(S, mul(powi(m, 2), N)), sub(N, ONE))
    want = ite(flt(var, ZERO), ZERO, models.fsqrt(var))
    equal(rep, "fstdnsim has one entry per band", length(got["fstdnsim"]), nb, pre, CALC)
    x = restrict(sel(got["fstdnsim"], b), pre)
    if not samev(x, want, pre): x = decide(x, pre)
    if not samev(x, want, pre):
        # another way of writing the same variance: compare the squares' radicands
        rs = [z for z in terms_where(x, lambda z: z.op == "fn" and z.a[0] == "sqrt")]
        ok = bool(rs) and all(sub(r.a[1], var) is ZERO for r in rs) and all(l is ZERO or l in rs for _, l in leaves(x))
        rep.instance("fstdnsim is the deviation pooled over all frames of all patches", ok, "%s: entry b is %s\n    required sqrt of %s" % (CALC, show(x, 9)[:600], show(var, 9)[:400]))
    else: rep.instance("fstdnsim is the deviation pooled over all frames of all patches", True)
    # the per-band vectors of one record have one length: a filtered patch has the shape of the patch (C37), and the patches compared have one shape
    m = nsim(); o = drop_undef(m.ret)
    def rows(z):
        if z.op == "len" and z.a[0].op == "app" and z.a[0].a[0].endswith("perform_valid_2d_conv_with_boundary"): return length(z.a[0].a[2])
        return z
    ls = {f: replace(transform(length(F(o, pr, f)), rows), {length(sym("DP")): length(sym("RP"))}) for f in ("freq_band_means", "freq_band_stddevs", "freq_band_deg_energy")}
    for f, l in ls.items():
        rep.instance("%s has an entry per band of the patches" % f, l is length(sym("RP")), "%s: %s has %s entries" % (m.bid, f, show(l, 6)[:300]))
    passthrough(rep, "patch_sims")
    for f in ("fvnsim", "fvdegenergy", "fstdnsim"): passthrough(rep, f)
