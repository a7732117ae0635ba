"""C01: every predictor's value is within [1,5]; the pipeline reports only such a value or a constant in it; the manager passes it on."""
from ..vn import *

def run(rep):
    rep.rule("the value of every implementation of SimilarityToQualityMapper::predict_quality, and the moslqo field of every success result, "
             "as expressions over unknown inputs, are bounded by 1 and 5 on every branch (interval rules over the joined branch expression)")
    imp = impls("SimilarityToQualityMapper", "predict_quality")
    rep.floor("quality mappers analysed", len(imp), 2)
    for ty, bid in sorted(imp.items()):
        u = unit(bid, (), (), ["SELF", "FV"])
        n = ty.split("::")[-1]
        for cube, l in leaves(u.ret):
            lo, hi = restrict(fle(ONE, l), cubecond(cube)), restrict(fle(l, num(5)), cubecond(cube))
            holds(rep, "%s::predict_quality is at least 1" % n, lo, bid)
            holds(rep, "%s::predict_quality is at most 5" % n, hi, bid)
    u = u1()
    rep.count("functions interpreted", len(u.m.entered) if hasattr(u.m, "entered") else 0)
    mos = F(okpart(u.ret), RESN, "moslqo")
    pred = events(u, PRED)
    rep.floor("mapper calls on the comparison path", len(pred), 1)
    P = sym("PRED", "f")
    mp = {e["ret"]: P for e in pred}
    mos = replace(mos, mp)
    n = 0
    for cube, l in leaves(mos):
        n += 1
        if l is P: ok = TRUE
        else: ok = bimp(band(fle(ONE, P), fle(P, num(5))), band(fle(ONE, l), fle(l, num(5))))
        holds(rep, "reported MOS value is the mapper's or lies in 1..5", restrict(ok, cubecond(cube)), CALC)
    rep.floor("branches of the reported MOS", n, 1)
    passthrough(rep, "moslqo")
