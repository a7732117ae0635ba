"""C11: every pair of spectrograms that is compared is the conditioned pair of two builds"""
from ._pipe import *
import itertools

def run(rep):
    rep.rule("value numbering against the reference expression of the conditioning (dB, absolute floor -45, common per-frame floor 45 below the louder peak, minus "
             "the lower of the two minima): every use of a built spectrogram's data in calculate_similarity, and both arguments of every similarity measurement of "
             "fine alignment, are exactly the conditioned pair")
    u, br, bd, R, D, wr, wd = sides()
    n = 0
    S = {wr: sym("CONDITIONED_REF"), wd: sym("CONDITIONED_DEG")}
    for e in u.events:
        for i, a in enumerate(e["args"]):
            if not (depends(a, R) or depends(a, D)): continue
            n += 1
            b = replace(a, S)
            ok = not (depends(b, R) or depends(b, D))
            det = ""
            if not ok:
                x = terms_where(b, lambda z: z.op == "tab" and (depends(z, R) or depends(z, D)))
                det = "%s: argument %d of %s uses spectrogram data that is not conditioned as a pair" % (e["where"], i, e["name"])
                if x:
                    w = wr if length(x[-1]) is length(R) else wd
                    f = firstdiff(a if a.op == "tab" else x[-1], w)
                    if f: det += ": differs at\n      %s\n    required\n      %s" % (show(f[0], 6)[:300], show(f[1], 6)[:300])
            rep.instance("spectrogram data handed to %s is conditioned" % e["name"].split("::")[-1].strip(">"), ok, det, "%s argument %d" % (e["name"].split("::")[-1], i))
    rep.floor("uses of whole-signal spectrograms", n, 3)
    v = u5()
    bs = events(v, "::build")
    ms = [e for e in v.events if e["name"].endswith("measure_patch_similarity") or e["p"].endswith("measure_patch_similarity")]
    rep.floor("spectrograms of realigned patches", len(bs), 2)
    rep.floor("measurements of realigned patches", len(ms), 1)
    pairs = []
    for a, b in itertools.permutations(bs, 2):
        x, y = [F(fld(e["ret"], 0, 0), "Spectrogram", "data") for e in (a, b)]
        if x is not y: pairs += [conditioned(x, y), conditioned(y, x)[::-1]]
    for e in ms:
        got = tuple(e["args"][1:3])
        ok = any(all(samev(g, w, e["pc"]) for g, w in zip(got, p)) for p in pairs)
        det = ""
        if not ok and pairs:
            f = firstdiff(got[0], pairs[0][0]) or firstdiff(got[1], pairs[0][1])
            if f: det = "%s: the pair measured is not the conditioned pair; it contains\n      %s\n    required\n      %s" % (e["where"], show(f[0], 6)[:400], show(f[1], 6)[:400])
        rep.instance("realigned patches are conditioned as a pair before they are measured", ok, det or e["where"])
