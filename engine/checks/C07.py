"""C07: success only with 16 bits per sample; the refusal carries the width; the header's rate and channel count reach the signal"""
from ._load import *

def run(rep):
    rep.rule("value of load_as_mono: restricted to headers whose width is not 16 bits it has no success leaf and its own error carries the header's width; on "
             "success the sample rate is the header's and the frame count is the number of samples divided by the header's channel count")
    l = loader()
    where = l.u.bid
    rep.instance("the file opened is the one asked for", l.open["args"][0] is sym("PATH"), "%s: opens %s" % (l.open["where"], show(l.open["args"][0], 5)))
    not16 = band(l.opened, bnot(ieq(l.bits, num(16))))
    vi = variant("VisqolError", "InvalidBitsPerSample")
    n = m = 0
    for cube, x in leaves(drop_undef(restrict(l.ret, not16))):
        n += 1
        isok = not (x.op == "agg" and x.a[0].endswith("Result#1"))
        rep.instance("a width other than 16 bits is refused", not isok, "%s: a file of another width loads on the branch %s" % (where, showcube(cube)))
        if isok: continue
        for c2, e in leaves(drop_undef(restrict(fld(x, 1, 0), band(not16, cubecond(cube))))):
            own = e.op == "agg"
            if own:
                m += 1
                good = e.a[0].endswith("VisqolError#%d" % vi)
                rep.instance("the refusal is the bit-width error", good, "%s: refuses with %s on %s" % (where, show(e, 5), showcube(c2)))
                if good: equal(rep, "the error carries the width found", fld(e, vi, 0), l.bits, None, where)
    rep.floor("refusals of other widths", m, 1)
    rep.instance("16-bit files can load", band(l.ok, ieq(l.bits, num(16))) is not FALSE, "%s: no 16-bit file loads" % where)
    equal(rep, "the signal carries the header's sample rate", F(l.sig, "AudioSignal", "sample_rate"), l.rate, l.ok, where)
    equal(rep, "frames are samples divided by the header's channels", length(F(l.sig, "AudioSignal", "data_matrix")),
          idiv(length(l.samples), l.channels), l.ok, where)
    rep.count("casts on the way", len([o for o in l.u.obl if o["what"].startswith("cast")]))
    for f in ("sample_rate",):
        pass
