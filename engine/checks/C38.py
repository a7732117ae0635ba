"""C38: the model sees every band's similarity, in order, and its verdict is reported"""
from ._modes import *
from .. import lin

def run(rep):
    rep.rule("value numbering of the fullband mapper: at the one prediction of the model, feature i holds the similarity of band i for every band; the value reported is the label of "
             "that very prediction, only limited to 1..5")
    f = modes()["fullband"]
    ty = one(rep, "the fullband mapper", f.sim_to_quality_mapper)
    if ty is None: return
    u, val = predict(f, ty)
    S = sym("SIM")
    ps = [e for e in u.events if e["name"].split("::")[-1].startswith("predict")]
    rep.floor("model predictions", len(ps), 1)
    rep.instance("one prediction per comparison", len(ps) == 1, "%d predictions: %s" % (len(ps), [e["where"] for e in ps]))
    i = sym("i", "u")
    for e in ps:
        prob = e["args"][1]
        # the features are the part of the problem that was written through
        fe = [t for t in terms_where(prob, lambda z: z.op in ("tab", "cat", "upd") and draws(z, S))]
        fe = [t for t in fe if not any(t is not o and depends(o, t) for o in fe)]
        if len(fe) != 1:
            rep.instance("feature i is the similarity of band i", False, "%s: the problem handed to the model is %s" % (e["where"], show(prob, 7)[:400])); continue
        c = band(e["pc"], ilt(i, length(S)), ilt(i, length(fe[0])))
        x = restrict(sel(fe[0], i), c)
        rep.instance("feature i is the similarity of band i", x is sel(S, i), "%s: feature i is %s" % (e["where"], show(x, 7)[:300]))
        mods = terms_where(prob, lambda z: z.op == "app" and "FeatureVector" in z.a[0])
        rep.instance("the features belong to the model that predicts", all(depends(z, e["args"][0]) for z in mods) and bool(mods), "%s: problem %s, model %s" % (e["where"], show(prob, 5)[:200], show(e["args"][0], 4)[:100]))
        # the label after the prediction
        after = [z for z in terms_where(u.ret, lambda z: z.op == "app" and z.a[0].split("::")[-1] == "label")]
        ok = bool(after) and all(z.a[1].op == "mut" and z.a[1].a[0] == e["name"] and z.a[1].a[3] is prob for z in after)
        rep.instance("the reported value is the label of that prediction", ok, "%s: it is %s" % (u.bid, show(u.ret, 7)[:300]))
        L_ = sym("LABEL")
        t = replace(u.ret, {z: L_ for z in after})
        nv = next((x.a[2] for x in terms_where(t, lambda z: z.op == "disc" and z.a[0] is L_)), None)
        vs = [z for z in terms_where(t, lambda z: z.op == "fld" and z.a[0] is L_)]
        rep.instance("the reported value is the label's value", len(set(vs)) == 1, "%s: it draws on %s" % (u.bid, [show(z, 4) for z in vs]))
        if len(set(vs)) != 1: continue
        x = vs[0]
        P = sym("P", "f")
        isval = disc(L_, x.a[1], nv) if nv else TRUE
        t = restrict(t, isval)
        t = replace(t, {x: P})
        want = clip(P)
        bad = None
        for q, l in leaves(t):
            for r, w in leaves(want):
                bad = bad or lin.valid(bimp(band(cubecond(q), cubecond(r)), feq0(sub(l, w))))
        rep.instance("a prediction within 1..5 is reported as it is, others limited", bad is None, "%s: a prediction P is reported as %s" % (u.bid, show(t, 6)[:300]))

def clip(p):
    return ite(fgt0(sub(ONE, p)), ONE, ite(fgt0(sub(p, num(5))), num(5), p))
