"""the parts the manager is constructed with, per mode"""
from ..vn import *

class Mode: pass

def modes():
    """wideband and fullband: the manager's parts when constructed for that variant"""
    u = mnew()
    V = sym("VARIANT")
    p = adt("Variant")
    nv = len(lib().adts[p]["v"])
    out = {}
    for name in ("Wideband", "Fullband"):
        k = variant("Variant", name)
        m = Mode(); m.name = name.lower(); m.k = k
        c = disc(V, k, nv)
        t = restrict(u.ret, c)
        m.cond = c; m.value = t; m.unit = u; m.variant = V
        for f in ("search_window", "patch_creator", "patch_selector", "spectrogram_builder", "sim_to_quality_mapper"):
            setattr(m, f, restrict(F(t, "VisqolManager", f), c))
        out[m.name] = m
    return out

def tyname(t):
    """type of a constructed value"""
    if t.op == "agg" and t.a[0].startswith("adt:"): return t.a[0][4:].split("#")[0]
    return None

def one(rep, what, t):
    """the single type a part has in a mode"""
    ls = leaves(t)
    ts = {tyname(l) for _, l in ls}
    ok = len(ts) == 1 and None not in ts
    rep.instance("%s is of one type" % what, ok, "%s is %s" % (what, show(t, 5)[:300]))
    return ts.pop() if ok else None

def method(tr, name, ty):
    """body of a trait's method for a type"""
    c = [b for p, b in impls(tr, name).items() if p == ty or p.split("<")[0] == ty]
    if len(c) != 1: raise Missing("impl of %s::%s for %s" % (tr, name, ty))
    return c[0]

def predict(m, ty):
    """(value of the mode's quality prediction for similarities SIM, unit)"""
    u = unit(method("SimilarityToQualityMapper", "predict_quality", ty), (), (), ["SELF", "SIM"])
    out = []
    # the mapper may be built differently depending on the variant's options
    return u, lambda cond: restrict(replace(u.ret, {sym("SELF"): restrict(m.sim_to_quality_mapper, cond)}), cond)
