"""C24: each mode runs with its own patching, mapping and options"""
from fractions import Fraction as Fr
from ._modes import *
from .. import lin

def cutting(rep, m, ty, P):
    b = method("PatchCreator", "create_patches_from_indices", ty)
    u = unit(b, (), (), ["SELF", "SPEC", "IDX"])
    S, I = sym("SPEC"), sym("IDX")
    t = restrict(replace(u.ret, {sym("SELF"): m.patch_creator}), m.cond)
    rep.instance("%s cuts one patch per start" % m.name, length(t) is length(I), "%s: %s patches" % (b, show(length(t), 5)[:200]))
    k, r, j = sym("k", "u"), sym("r", "u"), sym("j", "u")
    c = ilt(k, length(I))
    p = restrict(sel(t, k), c)
    row = restrict(sel(p, r), ilt(r, length(S)))
    rep.instance("%s patches are %d frames wide" % (m.name, P), length(row) is num(P), "%s: patches are %s frames wide" % (b, show(length(row), 6)[:200]))

def starts(rep, m, ty):
    b = method("PatchCreator", "create_ref_patch_indices", ty)
    va = fnpath("::get_voice_activity")
    u = unit(b, (), [va], ["SELF", "SPEC", "REFSIG", "WIN"])
    c, v = oks(u.ret)
    heard = bool(events(u, "::get_voice_activity")) and depends(v, sym("REFSIG"))
    return heard, v, c, b

def run(rep):
    rep.rule("constant evaluation of the constructor: per variant, the type and configuration of every part (patch creator, mapper, search radius); value numbering of what "
             "each part then does; the manager's parts, and nothing else, reach the comparison in their roles on every path")
    M = modes()
    w, f = M["wideband"], M["fullband"]
    # patching
    for m, P, voiced in ((w, 20, True), (f, 30, False)):
        ty = one(rep, "the %s patch creator" % m.name, m.patch_creator)
        if ty is None: continue
        cutting(rep, m, ty, P)
        heard, v, c, b = starts(rep, m, ty)
        rep.instance("%s patches %s voice activity" % (m.name, "are selected by" if voiced else "do not depend on"), heard == voiced, "%s: the patch starts of %s mode %s voice activity" % (b, m.name, "depend on" if heard else "ignore"))
    # mapping
    ty = one(rep, "the wideband mapper", w.sim_to_quality_mapper)
    if ty is not None:
        fs = [x["n"] for x in lib().adts[adt("Variant")]["v"][w.k]["f"]]
        flag = tobool(fld(w.variant, w.k, fs.index("use_unscaled_mos_mapping")))
        u, val = predict(w, ty)
        from .C25 import at, ONE as _1
        S = sym("SIM"); n = length(S)
        tot = mksum(n, lambda k: sel(S, k))
        out = {}
        for name, c in (("unscaled", flag), ("rescaled", bnot(flag))):
            c = band(w.cond, c, ge0i(sub(n, ONE)))
            t = restrict(val(c), c)
            rep.instance("the wideband mapping uses no model", not terms_where(t, lambda z: z.op in ("app", "mut")), "%s: %s" % (u.bid, show(t, 6)[:300]))
            t = replace(t, {tot: n})
            try: out[name] = at(t)
            except Missing as e: rep.instance("the %s mapping of a perfect similarity is a constant" % name, False, "%s: %s" % (u.bid, e))
        if len(out) == 2:
            rep.instance("the mapping is rescaled to 5 unless the unscaled one is requested", out["unscaled"][1] < Fr(9, 2) < Fr(4999, 1000) <= out["rescaled"][0],
                         "%s: a perfect similarity maps to %.3f when the unscaled mapping is requested and to %.3f when it is not" % (u.bid, out["unscaled"][0], out["rescaled"][0]))
    ty = one(rep, "the fullband mapper", f.sim_to_quality_mapper)
    if ty is not None:
        fs = [x["n"] for x in lib().adts[adt("Variant")]["v"][f.k]["f"]]
        path = fld(f.variant, f.k, fs.index("model_path"))
        u, val = predict(f, ty)
        ps = [e for e in u.events if "predict" in e["name"].split("::")[-1]]
        rep.floor("model predictions of the fullband mapper", len(ps), 1)
        for e in ps:
            a = replace(e["args"][0], {sym("SELF"): f.sim_to_quality_mapper})
            rd = terms_where(a, lambda z: z.op == "app" and "read_to_string" in z.a[0])
            ok = bool(rd) and all(z.a[1] is path for z in rd)
            rep.instance("the fullband mapping uses the model file given", ok, "%s: the model is %s" % (e["where"], show(a, 9)[:300]))
            rest = replace(a, {z: sym("CONTENT") for z in rd})
            rep.instance("the fullband model is the parsed content of the file and nothing else", not depends(rest, f.variant) and depends(rest, sym("CONTENT")), "%s: the model is %s" % (e["where"], show(a, 9)[:300]))
    # search radius
    for m in (w, f):
        rep.instance("the %s search radius is the one configured" % m.name, m.search_window is sym("WINDOW_SIZE"), "the manager stores %s" % show(m.search_window, 6)[:200])
    # the manager hands its own parts to the comparison
    mg = sym("MGR")
    cap = lib().bodies[CALC].argc
    for which in ("run", "compute_results"):
        u = u2(which)
        ev = events(u, CALC)
        rep.floor("comparisons in %s" % which, len(ev), 1)
        pos = dict(zip(U1N, range(cap)))
        for e in ev:
            for arg, field in (("BUILDER", "spectrogram_builder"), ("CREATOR", "patch_creator"), ("SELECTOR", "patch_selector"), ("MAPPER", "sim_to_quality_mapper"), ("SEARCH", "search_window")):
                got = e["args"][pos[arg]]
                want = F(mg, "VisqolManager", field)
                rep.instance("%s compares with the manager's %s" % (which, field), samev(got, want, e["pc"]), "%s: the comparison gets %s" % (e["where"], show(got, 6)[:200]))
            win = e["args"][pos["WINDOW"]]
            ref = e["args"][pos["REF"]]
            rate = F(ref, "AudioSignal", "sample_rate")
            size, ov = F(win, "AnalysisWindow", "size"), F(win, "AnalysisWindow", "overlap")
            rep.instance("%s analyses with a hop of a quarter window" % which, ov is num(Fr(1, 4)), "%s: overlap %s" % (e["where"], show(ov, 4)[:100]))
            R = sym("R", "u")
            sz = restrict(replace(size, {rate: R}), e["pc"])
            tol = add(num(Fr(1, 2)), mul(num(Fr(1, 10**9)), R))
            d = sub(sz, mul(num(Fr(8, 100)), R))
            ok = not depends(sz, ref) and all(lin.valid(bimp(cubecond(cb), band(bnot(fgt0(sub(l, tol))), bnot(fgt0(sub(neg(l), tol)))))) is None for cb, l in leaves(d))
            rep.instance("%s analyses windows of 80 ms" % which, ok, "%s: window of %s samples" % (e["where"], show(size, 8)[:200]))
    # and the comparison uses them
    u = u1()
    def one_use(what, evs, i, want):
        rep.floor("%s of the comparison" % what, len(evs), 1)
        for e in evs:
            rep.instance("the comparison's %s uses the %s it was given" % (what, str(want).lower()), e["args"][i] is want or uneffect(e["args"][i], ["build"]) is want,
                         "%s: it uses %s" % (e["where"], show(e["args"][i], 6)[:200]))
    one_use("patch starts", events(u, "create_ref_patch_indices"), 0, sym("CREATOR"))
    one_use("patch cutting", events(u, "create_patches_from_indices"), 0, sym("CREATOR"))
    one_use("analysis window for patch starts", events(u, "create_ref_patch_indices"), 3, sym("WINDOW"))
    one_use("mapping", events(u, "predict_quality"), 0, sym("MAPPER"))
    one_use("spectrograms", events(u, "::build"), 0, sym("BUILDER"))
    one_use("window of the spectrograms", events(u, "::build"), 2, sym("WINDOW"))
    sr = events(u, "find_most_optimal_deg_patches")
    one_use("patch search", sr, 0, sym("SELECTOR"))
    one_use("fine alignment", events(u, "finely_align_and_recreate_patches"), 0, sym("SELECTOR"))
    for e in sr:
        r = e["args"][5]
        S = sym("SEARCH")
        inr = ge0i(sub(num(2**31 - 1), S))
        rep.instance("the configured search radius reaches the patch search", casewise(restrict(r, inr), S, inr) is None, "%s: radius %s" % (e["where"], show(r, 6)[:200]))
