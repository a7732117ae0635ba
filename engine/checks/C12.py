"""C12: reference and degraded roles from the request to the reported record"""
from ._pipe import *

def short(n): return n.split("::")[-1].strip(">")

def request(rep):
    for which, rs, ds in (("run", None, None), ("compute_results", "REFSIG", "DEGSIG")):
        u = u2(which)
        def loaded(n):
            return [fld(x["ret"], 0, 0) for x in events(u, LOAD) if x["args"][0] is sym(n)]
        r = [sym(rs)] if rs else loaded("REFPATH")
        d = [sym(ds)] if ds else loaded("DEGPATH")
        ev = events(u, CALC)
        rep.floor("comparisons in %s" % which, len(ev), 1)
        for e in ev:
            a, b = [restrict(x, e["pc"]) for x in e["args"][:2]]
            rep.instance("%s compares the reference in the reference's place" % which, a in r, "%s: the first signal compared is %s" % (e["where"], show(a, 6)[:300]))
            al = [x for x in events(u, ALIGN) if b is fld(fld(x["ret"], 1, 0), 0, 0)]
            ok = any(x["args"][0] in r and x["args"][1] in d for x in al)
            rep.instance("%s compares the aligned degraded signal in the degraded place" % which, ok,
                         "%s: the second signal compared is %s" % (e["where"], show(b, 7)[:400]))

def coarse(rep):
    u, br, bd, R, D, wr, wd = sides()
    S = {wr: sym("CONDITIONED_REF"), wd: sym("CONDITIONED_DEG")}
    roles = {"create_ref_patch_indices": {1: "CONDITIONED_REF"}, "create_patches_from_indices": {1: "CONDITIONED_REF"}, "find_most_optimal_deg_patches": {3: "CONDITIONED_DEG"}}
    n = 0
    for e in u.events:
        for i, want in roles.get(short(e["name"]), {}).items():
            n += 1
            a = replace(e["args"][i], S)
            rep.instance("argument %d of %s is the spectrogram of its role" % (i, short(e["name"])), a is sym(want), "%s: argument %d of %s is %s, not the %s" % (
                e["where"], i, e["name"], show(a, 5)[:200], want.lower().replace("_", " ") + "erence spectrogram" if want.endswith("REF") else "conditioned degraded spectrogram"))
    rep.floor("spectrograms handed to patch creation and search", n, 3)
    u, rs = uroles()
    for e, i, r in rs:
        nm = short(e["name"])
        want = {("create_ref_patch_indices", 2): "ref", ("finely_align_and_recreate_patches", 2): "ref", ("finely_align_and_recreate_patches", 3): "deg"}.get((nm, i))
        if want: rep.instance("argument %d of %s is the signal of its role" % (i, nm), r == want, "%s: argument %d of %s is %s" % (e["where"], i, e["name"], r))
    cp = events(u, "create_patches_from_indices")
    for e in events(u, "find_most_optimal_deg_patches"):
        rep.instance("the patches searched for are cut from the reference", e["args"][1] in [x["ret"] for x in cp], "%s: searches for %s" % (e["where"], show(e["args"][1], 4)[:200]))
        rep.instance("the patch positions are those of the reference", e["args"][2] in [fld(x["ret"], 0, 0) for x in events(u, "create_ref_patch_indices")],
                     "%s: positions %s" % (e["where"], show(e["args"][2], 4)[:200]))
        # positions are frames, times seconds: a frame advances by the builder's whole-sample hop, a quarter window (C24)
        W = sym("WINDOW")
        dur = replace(e["args"][4], {F(W, "AnalysisWindow", "overlap"): num(Fr(1, 4))})
        equal(rep, "times advance by the spectrogram's hop per frame", dur, fdiv(trunc(fdiv(F(W, "AnalysisWindow", "size"), num(4))), F(sym("REF"), "AudioSignal", "sample_rate")), where=e["where"])
    rep.instance("the record lists the reference's patches in the degraded signal", bool(cp), "no patches are cut")

def search(rep):
    u = u4()
    P, S = sym("PATCHES"), sym("SPEC")
    ms = meas(u)
    rep.floor("measurements of the coarse search", len(ms), 2)
    for e in ms:
        a, b = [restrict(x, e["pc"]) for x in e["args"][1:3]]
        rep.instance("coarse search: the first patch measured is a reference patch", a.op == "sel" and a.a[0] is P, "%s: first patch is %s" % (e["where"], show(a, 6)[:300]))
        rep.instance("coarse search: the second patch measured is cut from the degraded spectrogram", draws(b, S) and not draws(b, *[p for p in terms_where(b, lambda z: z.op == "sel" and z.a[0] is P)] or [P]),
                     "%s: second patch is %s" % (e["where"], show(b, 6)[:300]))

def fine(rep):
    u = u5()
    X = {"reference": (sym("REF"), sym("DEG"), ("ref_patch_start_time", "ref_patch_end_time")),
         "degraded": (sym("DEG"), sym("REF"), ("deg_patch_start_time", "deg_patch_end_time"))}
    SI = sym("SIMS")
    def origin(t, role):
        """None, or why t is not audio of this role cut at this role's times"""
        own, other, times = X[role]
        if not draws(t, own): return "it does not stem from the %s signal" % role
        if draws(t, other): return "it mixes in the other signal"
        fi = {fidx("PatchSimilarityResult", x) for x in times}
        us = {z.a[2] for z in terms_where(t, lambda z: z.op == "fld" and z.a[0].op == "sel" and z.a[0].a[0] is SI)}
        if us != fi: return "it is cut at fields %s of the coarse record instead of %s" % (sorted(us), ", ".join(times))
        return None
    al = events(u, ALIGN)
    rep.floor("alignments of matched patches", len(al), 1)
    for e in al:
        for i, role in ((0, "reference"), (1, "degraded")):
            w = origin(restrict(e["args"][i], e["pc"]), role)
            rep.instance("patch alignment: argument %d is %s audio at its own times" % (i, role), w is None, "%s: argument %d of the patch alignment: %s" % (e["where"], i, w))
    def datas(e):
        """what the samples of the signal built from stem from"""
        d = adata(e["args"][1])
        j = sym("j", "u")
        x = restrict(sel(d, j), band(e["pc"], ilt(j, length(d))))
        return leafset(x)
    role = {}
    for e in events(u, "::build"):
        ls = datas(e)
        r = []
        for l in ls:
            if l.op != "sel": r.append("sample %s" % show(l, 5)[:200]); continue
            src = l.a[0]
            if any(src is adata(fld(fld(x["ret"], 1, 0), 0, 0)) for x in al): r.append("degraded")
            else:
                w = origin(src, "reference")
                r.append("reference" if w is None else w)
        r = set(r)
        k = next(iter(r)) if len(r) == 1 else str(sorted(r))
        role[e["ret"]] = k
        rep.instance("realigned patch is built from one role's audio", k in ("reference", "degraded"), "%s: %s" % (e["where"], k))
    ms = meas(u)
    rep.floor("measurements of realigned patches", len(ms), 1)
    for e in ms:
        for i, want in ((1, "reference"), (2, "degraded")):
            d = restrict(e["args"][i], e["pc"])
            # the frame contents of the argument; a common floor and shift mention both sides, the frame's own values only one
            own = set()
            r0, c0 = sym("r", "u"), sym("c", "u")
            el = sel(sel(d, r0), c0)
            for t in terms_where(el, lambda z: z.op == "sel" and z.a[0].op == "sel"):
                if t.a[1] is c0 and t.a[0].a[1] is r0: own |= {k for b, k in role.items() if depends(t.a[0].a[0], b)}
            rep.instance("realigned measurement: argument %d is the %s side" % (i, want), own == {want}, "%s: argument %d of the measurement holds %s" % (e["where"], i, sorted(own) or show(el, 5)[:200]))

def energy(rep):
    u = nsim()
    RP, DP = sym("RP"), sym("DP")
    out = drop_undef(u.ret)
    e = F(out, "PatchSimilarityResult", "freq_band_deg_energy")
    i, j = sym("i", "u"), sym("j", "u")
    n = length(sel(DP, i))
    n = dim1(DP)
    want = fdiv(mksum(n, lambda k: sel(sel(DP, i), k)), n)
    equal(rep, "band energies are the row means of the degraded patch", restrict(sel(e, i), ilt(i, length(DP))), want, None, u.bid)
    u = u1()
    v = okpart(u.ret)
    sims = F(v, RESN, "patch_sims")
    got = uniform_bands(F(v, RESN, "fvdegenergy"), sims)
    N = length(sims)
    nb = length(got)
    want = fdiv(mksum(N, lambda k: sel(F(sel(sims, k), "PatchSimilarityResult", "freq_band_deg_energy"), i)), N)
    c = band(oks(u.ret)[0], ilt(i, nb))
    equal(rep, "reported band energies are the patches' degraded energies", everywhere(sel(got, i), ilt(i, nb)), want, c, u.bid)
    passthrough(rep, "fvdegenergy")

def dim1(x):
    from .. import models
    return models.dim(x, 1) if hasattr(models, "dim") else length(sel(x, ZERO))

def run(rep):
    rep.rule("argument roles by value numbering: which spectrogram, signal and patch reaches each side of patch creation, coarse search (with the time of one frame there), patch alignment and every "
             "similarity measurement; the band energies are the row means of the measure's second patch")
    request(rep); coarse(rep); search(rep); fine(rep); energy(rep)
