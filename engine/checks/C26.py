"""C26: sample j of the loaded signal = sum of the j-th frame's interleaved samples / channels / 32767"""
from ._load import *

def run(rep):
    rep.rule("value of load_as_mono on success: element j of the signal equals sum over c < channels of stream[j*channels + c], divided by channels and by 32767; "
             "every integer cast on the way keeps all 16-bit values")
    l = loader()
    data = F(l.sig, "AudioSignal", "data_matrix")
    j = sym("j", "u")
    n = idiv(length(l.samples), l.channels)
    s = lambda i: fld(sel(l.samples, i), 0, 0)
    want = fdiv(fdiv(mksum(l.channels, lambda c: s(add(c, mul(j, l.channels)))), l.channels), num(32767))
    equal(rep, "number of loaded frames", length(data), n, l.ok, l.u.bid)
    equal(rep, "loaded sample is the average of its frame at 16-bit full scale", sel(data, j), want, band(l.ok, ilt(j, n)), l.u.bid)
    S = sym("S")
    m = 0
    rng = band(ile(num(-32768), S), ile(S, num(32767)))
    for o in l.u.obl:
        if not o["what"].startswith("cast"): continue
        m += 1
        for cube, v in leaves(o["ops"][0]):
            v = uneffect(v, HOUND)
            issample = v.op == "fld" and v.a[0].op == "sel" and v.a[0].a[0] is l.samples
            c = replace(uneffect(o["cond"], HOUND), {v: S}) if issample else o["cond"]
            good = bimp(band(rng, o["pc"]), c) if issample else bimp(o["pc"], c)
            holds(rep, "cast %s keeps the value" % o["what"], good, "%s %s" % (o["where"], o["fn"]), "cast %s in %s" % (o["what"], o["fn"]))
    rep.cov["casts judged"] = m
