"""C14: logarithms of spectrogram values are of strictly positive numbers"""
from ..vn import *

LOGS = ("log10", "ln", "log2", "log", "ln_1p")
def run(rep):
    rep.rule("sign analysis on value numbers: every logarithm taken of data of a built spectrogram (over whole signals and over realigned patches) has a strictly "
             "positive argument under its path condition, whatever the spectrogram holds")
    n = 0
    for name, u in (("calculate_similarity", u1()), ("fine alignment", u5())):
        TT.SHAPE = u.m.phi_shape
        bs = [e["ret"] for e in events(u, "::build")]
        k = 0
        for f in u.fuses:
            if f["name"] not in LOGS: continue
            x, c = scalars(f["args"][0])
            if not any(depends(x, b) for b in bs): continue
            k += 1
            pc = band(f["pc"], c)
            for cube, l in leaves(restrict(x, pc)):
                cond = bimp(band(pc, cubecond(cube)), fgt0(l))
                rep.instance("logarithm in %s below %s is of a positive value" % (f["fn"].split("::")[-1], name), cond is TRUE,
                             "%s %s: takes %s of %s, which is not always positive on %s" % (f["where"], f["fn"], f["name"], show(l, 6)[:300], showcube(cube)[:300]),
                             "logarithm in %s below %s" % (f["fn"], name))
            if f["name"] == "log":
                b = f["args"][1]
                rep.instance("logarithm base is a constant above one", b.op == "num" and b.a[0] > 1, "%s: base %s" % (f["where"], show(b, 4)))
        rep.floor("decibel conversions in %s" % name, k, 2)
