"""C02: moslqo = (vnsim < 0.15 ? 1 : predict(fvnsim)); vnsim = mean(fvnsim)"""
from ..vn import *

def run(rep):
    rep.rule("value of the reported moslqo equals 1 where the reported vnsim is below 0.15 and otherwise the result of predict_quality applied to "
             "the configured mapper and the reported fvnsim; reported vnsim equals sum(fvnsim)/len(fvnsim)")
    u = u1()
    r = okpart(u.ret)
    mos, vn, fv = F(r, RESN, "moslqo"), F(r, RESN, "vnsim"), F(r, RESN, "fvnsim")
    pred = [e for e in events(u, PRED)]
    rep.floor("mapper calls on the comparison path", len(pred), 1)
    c, v = oks(u.ret)
    good = [e for e in pred if samev(e["args"][0], sym("MAPPER"), c) and samev(e["args"][1], fv, c)]
    rep.instance("the mapper is asked about the reported per-band similarities", bool(good),
                 "%s: predict_quality is called with\n      %s\n    but the reported fvnsim is\n      %s" % (
                     pred[0]["where"] if pred else CALC, show(pred[0]["args"][1], 7)[:400] if pred else "-", show(fv, 7)[:400]))
    if good:
        equal(rep, "moslqo is 1 below 0.15 mean similarity and the prediction otherwise", mos,
              ite(flt(vn, num(Fraction(0.15))), ONE, good[0]["ret"]), c, CALC)
    n = length(fv)
    equal(rep, "vnsim is the mean of fvnsim", vn, divp(mksum(n, lambda i: sel(fv, i)), n), c, CALC)
    for f in ("moslqo", "vnsim", "fvnsim"): passthrough(rep, f)
