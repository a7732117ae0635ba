"""C13: divisors of the similarity measure are positive, radicands non-negative"""
from ..vn import *

def run(rep):
    rep.rule("sign analysis on value numbers: every divisor in the similarity measure is positive and every radicand non-negative under its path condition, with the "
             "intensity range the manager configures and the convolution's results unconstrained; the radicands of the reported per-band deviations likewise")
    u = nsim()
    NS = sym("NS")
    m = mnew()
    TT.SHAPE = u.m.phi_shape
    sel_ = drop_undef(m.ret)
    rng = {F(F(F(l, "VisqolManager", "patch_selector"), "ComparisonPatchesSelector", "sim_comparator"), "NeurogramSimiliarityIndexMeasure", "intensity_range") for l in leafset(sel_)}
    for r in rng:
        rep.instance("the configured intensity range is positive", fgt0(r) is TRUE, "%s: intensity range %s" % (m.bid, show(r, 4)))
    R = F(NS, "NeurogramSimiliarityIndexMeasure", "intensity_range")
    nd = ns = 0
    for r in rng:
        for f in u.fuses:
            if f["name"] not in ("/", "sqrt", "powf"): continue
            x, c = scalars(f["args"][0])
            x, pc = replace(x, {R: r}), replace(band(f["pc"], c), {R: r})
            if f["name"] == "/":
                nd += 1
                what = "divisor at %s is positive" % f["fn"].split("::")[-1]
                for cube, l in leaves(restrict(x, pc)):
                    g = l.sort == "u" or l.op in ("len", "dim")
                    cond = TRUE if g else bimp(band(pc, cubecond(cube)), fgt0(l))
                    if l.op == "num": cond = fgt0(l)
                    rep.instance(what, cond is TRUE, "%s %s: divides by %s, which is not always positive on %s" % (f["where"], f["fn"], show(l, 7)[:400], showcube(cube)[:300]), "divisor in " + f["fn"])
            elif f["name"] == "sqrt":
                ns += 1
                for cube, l in leaves(restrict(x, pc)):
                    cond = bimp(band(pc, cubecond(cube)), fge0(l))
                    rep.instance("radicand in %s is not negative" % f["fn"].split("::")[-1], cond is TRUE,
                                 "%s %s: takes the root of %s, which can be negative on %s" % (f["where"], f["fn"], show(l, 7)[:400], showcube(cube)[:300]), "radicand in " + f["fn"])
            else:
                e = f["args"][1]
                good = e.op == "num" and e.a[0].denominator == 1 and e.a[0] >= 0
                rep.instance("power in %s has a non-negative integer exponent" % f["fn"].split("::")[-1], good, "%s: raises %s to %s" % (f["where"], show(x, 5)[:200], show(e, 4)))
    rep.floor("divisions of the similarity measure", nd, 2)
    rep.floor("roots of the similarity measure", ns, 1)
    v = u1()
    got = F(okpart(v.ret), RESN, "fstdnsim")
    i = sym("i", "u")
    val = restrict(sel(got, i), band(oks(v.ret)[0], ilt(i, length(got))))
    k = 0
    for f in v.fuses:
        if f["name"] != "sqrt": continue
        x, c = scalars(f["args"][0])
        if not contains(x, lambda z: z.op == "app" and z.a[0].endswith("finely_align_and_recreate_patches")): continue
        k += 1
        pc = band(f["pc"], c)
        for cube, l in leaves(restrict(x, pc)):
            rep.instance("radicand of the reported deviations is not negative", bimp(band(pc, cubecond(cube)), fge0(l)) is TRUE,
                         "%s %s: takes the root of %s, which can be negative" % (f["where"], f["fn"], show(l, 7)[:400]))
    rep.floor("roots behind the reported deviations", k, 1)
    nr = 0
    for cube, l in leaves(val):
        good = nonneg(l)
        nr += 1
        rep.instance("every reported deviation is zero or a root", good, "%s: a reported deviation is %s on %s" % (v.bid, show(l, 7)[:300], showcube(cube)[:300]))
    rep.cov["cases of a reported deviation"] = nr

