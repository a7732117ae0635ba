"""C10: one gain, sqrt(meansq(REF)/meansq(DEG)), on the degraded signal; the reference untouched"""
from ._pipe import *

def run(rep):
    rep.rule("value of every signal that calculate_similarity hands to a spectrogram build, patch creation or fine alignment: it is the reference parameter itself, or "
             "the degraded one with every sample multiplied by sqrt(meansq(REF)/meansq(DEG)) (other values only where the degraded energy is zero)")
    u, rs = uroles()
    n = 0
    seen = set()
    for e, i, r in rs:
        n += 1
        seen.add(r)
        rep.instance("signal handed to %s is the reference or the level-matched degraded signal" % e["name"].split("::")[-1].strip(">"), r in ("ref", "deg"),
                     "%s: argument %d of %s: %s" % (e["where"], i, e["name"], r), "%s argument %d" % (e["name"].split("::")[-1], i))
    rep.floor("signals handed on", n, 4)
    rep.instance("the level-matched degraded signal is analysed", "deg" in seen, CALC + ": no spectrogram of the level-matched degraded signal")
    rep.instance("the reference signal is analysed as it is", "ref" in seen, CALC + ": no spectrogram of the unmodified reference signal")
    out = uneffect(u.out.get("REF", REF), ["::build", "::finely_align_and_recreate_patches", "::find_most_optimal_deg_patches", "create_ref_patch_indices"])
    rep.instance("calculate_similarity leaves the reference signal unchanged", all(l is REF for l in leafset(out)), "%s: the reference becomes %s" % (CALC, show(out, 6)[:300]))
    for which, s in (("run", None), ("compute_results", "REFSIG")):
        v = u2(which)
        for e in events(v, CALC):
            a = e["args"][0]
            want = sym(s) if s else [fld(x["ret"], 0, 0) for x in events(v, LOAD) if x["args"][0] is sym("REFPATH")][0]
            rep.instance("%s compares the reference as loaded" % which, a is want, "%s: the reference compared is %s" % (e["where"], show(a, 6)[:300]))
