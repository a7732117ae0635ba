"""C06: unequal rates => Err(DifferentSampleRates{reference,degraded}) from the public entry point"""
from ..vn import *

def run(rep):
    rep.rule("the value returned by VisqolManager::run, restricted to inputs that both load and whose sample rates differ, is the constant "
             "DifferentSampleRates error whose fields are the rates of the reference and the degraded signal")
    u = u2("run")
    loads = events(u, LOAD)
    refl = [e for e in loads if e["args"][0] is sym("REFPATH")]
    degl = [e for e in loads if e["args"][0] is sym("DEGPATH")]
    rep.floor("load calls of the two files", len(refl[:1]) + len(degl[:1]), 2)
    if not refl or not degl: return
    R, D = refl[0]["ret"], degl[0]["ret"]
    rr, dr = F(fld(R, 0, 0), "AudioSignal", "sample_rate"), F(fld(D, 0, 0), "AudioSignal", "sample_rate")
    care = band(disc(R, 0, 2), disc(D, 0, 2), bnot(ieq(rr, dr)))
    vi = variant("VisqolError", "DifferentSampleRates")
    got = drop_undef(restrict(u.ret, care))
    n = 0
    fs = [f["n"] for f in lib().adts[adt("VisqolError")]["v"][vi]["f"]]
    want = {"reference": rr, "degraded": dr}
    cases = []
    for cube, l in leaves(got):
        if l.op == "agg" and l.a[0].endswith("Result#1"):
            cases += [(cube + c, l, e) for c, e in leaves(restrict(fld(l, 1, 0), band(care, cubecond(cube))))]
        else: cases.append((cube, l, None))
    for cube, l, e in cases:
        n += 1
        ok = e is not None and e.op == "agg" and e.a[0].endswith("VisqolError#%d" % vi)
        rep.instance("differing sample rates are refused", ok,
                     "%srun: a pair whose sample rates differ reaches the result\n      %s\n    on the branch %s" % (MGR, show(l, 6)[:500], showcube(cube)))
        if ok:
            for i, f in enumerate(fs):
                equal(rep, "the error's %s rate is the %s file's" % (f, f), restrict(fld(e, vi, i), care), restrict(want[f], care), None, MGR + "run")
    rep.floor("outcomes with differing rates", n, 1)
    rep.instance("no score computed for differing rates", all(band(e["pc"], care) is FALSE for e in events(u, CALC)),
                 MGR + "run: calculate_similarity is reachable with differing sample rates")
