"""C09: signals too short to be scored are refused; frame and patch arithmetic never underflows, divides by zero or slices out of range"""
from ._modes import *
from .. import lin
from . import C33

KINDS = ("overflow:Sub", "Overflow(Sub)", "divzero", "step_by(0)", "slice", "windows(0)", "chunks(0)", "split")
E = "VisqolError"
I31 = num(2**31 - 1)

def epay(l, name):
    """fields of an error value of this variant by name, or None"""
    k = variant(E, name)
    if l.op != "agg" or l.a[0] != "adt:%s#%d" % (adt(E), k): return None
    fs = lib().adts[adt(E)]["v"][k]["f"]
    return {f["n"]: fld(l, k, i) for i, f in enumerate(fs)}

def kept(u, t):
    """what holds in every round of the loops whose variables t mentions: [condition]"""
    names = {z.a[0] for z in terms_where(t, lambda z: z.op in ("K", "phi"))}
    out = []
    for k, i in u.loops.items():
        if k not in names: continue
        try: out += [ge0i(f) for f in C33.kept(i)]
        except Exception: pass
        if i.N is not None: out.append(band(ge0i(i.K), ile(i.K, i.N)))
    return out

def products(t):
    """a >= b * (a div b), times the other factors its quotient occurs with"""
    out = []
    for z in terms_where(t, lambda z: z.op == "poly"):
        for m in terms_of(z):
            for x, e in m:
                if x.op == "idiv" and x.a[1].op == "num" and e == 1 and len(m) > 1:
                    rest = TT._mkpoly({tuple((y, f) for y, f in m if y is not x): 1})
                    low = sub(x.a[0], mul(x, x.a[1]))
                    if nonneg(rest): out.append((low, rest))
    return out

def arithmetic(rep, what, u, pre, prep, size=(), only=None, known=lambda c: []):
    """every subtraction of unsigned sizes, division, slice and step of the unit is in range"""
    n = 0
    for o in u.obl:
        if o["what"] not in KINDS: continue
        if only and not only(o): continue
        pc, cond = prep(o["pc"]), prep(o["cond"])
        n += 1
        facts = band(pre, pc, *known(cond), *[prep(f) for f in kept(u, o["cond"]) + kept(u, o["pc"])])
        ext = [f(cond) for f in size]
        extra = [p for l in ext for p in l]
        # products of two quantities that are not negative
        for low, rest in products(cond):
            if lin.valid(bimp(facts, band(ge0i(low), ge0i(rest))), extra) is None: extra.append(mul(low, rest))
        bad = lin.valid(bimp(facts, cond), extra)
        rep.instance("%s: %s in %s" % (what, o["what"], o["fn"]), bad is None,
                     "%s: %s: may fail: needs %s; not so on %s" % (o["where"], o["what"], show(restrict(cond, pc), 6)[:300], bad and showcube(bad)[:400]))
    return n

def run(rep):
    rep.rule("value numbering: the condition of each refusal and of success (equivalence by linear entailment) and the lengths an error states; each unsigned subtraction, division, slice, "
             "step and window size in framing, patch grids, voice activity and patch counting is shown in range by linear entailment from its path condition (loop invariants by induction); "
             "assumed: signal and frame counts below 2^31, the analysis window as the library builds it (C39: a quarter of its length per hop)")
    n = 0
    # ---- framing
    u = u3()
    W = sym("WIN"); ov = F(W, "AnalysisWindow", "overlap")
    size, x = F(W, "AnalysisWindow", "size"), F(sym("SIG"), "AudioSignal", "data_matrix")
    quarter = lambda t: replace(t, {ov: num(Fraction(1, 4))})
    L = length(x)
    short = ilt(L, size)
    ok, v = oks(u.ret)
    ok, v = quarter(ok), quarter(v)
    rep.instance("a signal shorter than one analysis window is refused", lin.valid(bimp(ok, bnot(short))) is None, "%s: accepted when %s" % (u.bid, show(ok, 6)[:300]))
    k = 0
    for cube, e in errs(u.ret):
        p = epay(e, "TooFewSamples")
        if p is None: continue
        c = quarter(cubecond(cube)); k += 1
        rep.instance("only a signal shorter than one analysis window is refused as too short", lin.valid(bimp(c, short)) is None, "%s: refused when %s" % (u.bid, show(c, 6)[:300]))
        rep.instance("the error states the number of samples found", lin.valid(bimp(c, ieq(quarter(p["found"]), L))) is None, "%s: found is %s" % (u.bid, show(p["found"], 6)))
        rep.instance("the error states the number of samples required", lin.valid(bimp(c, ieq(quarter(p["minimum_required"]), size))) is None, "%s: minimum_required is %s" % (u.bid, show(p["minimum_required"], 6)))
    rep.floor("refusals of short signals", k, 1)
    d = drop_undef(restrict(F(drop_undef(restrict(v, ok)), "Spectrogram", "data"), ok))
    rep.instance("an accepted signal has at least one frame", lin.valid(bimp(ok, ge0i(sub(restrict(ncols(d), ok), ONE)))) is None, "%s: %s frames" % (u.bid, show(ncols(d), 6)))
    n += arithmetic(rep, "framing", u, TRUE, quarter)
    # ---- patch grids and voice activity
    S, I, R = sym("SPEC"), sym("IDX"), sym("REFSIG")
    cols = sym("cols", "u")
    hop = quarter(trunc(mul(size, ov)))
    n0 = length(F(R, "AudioSignal", "data_matrix"))
    frames = add(ONE, idiv(sub(n0, size), hop))
    for m in modes().values():
        ty = one(rep, "the %s patch creator" % m.name, m.patch_creator)
        if ty is None: continue
        conf = lambda t: restrict(replace(t, {sym("SELF"): m.patch_creator}), m.cond)
        u = unit(method("PatchCreator", "create_ref_patch_indices", ty), (), (), ["SELF", "SPEC", "REFSIG", "WIN"])
        cut = lambda t: quarter(replace(conf(t), {ncols(S): cols}))
        ok, v = oks(u.ret)
        ok = cut(ok); k = 0
        for cube, e in errs(u.ret):
            p = epay(e, "ReferenceSpectrogramTooSmall")
            if p is None: continue
            c, k = cut(cubecond(cube)), k + 1
            if lin.valid(bnot(c)) is None: continue
            need = cut(p["minimum_required"])
            rep.instance("%s: the error states the frames of the reference" % m.name, lin.valid(bimp(c, ieq(cut(p["spectrogram_length"]), cols))) is None, "%s: spectrogram_length is %s" % (u.bid, show(cut(p["spectrogram_length"]), 5)))
            rep.instance("%s: the error states the frames required" % m.name, not draws(need, cols) and lin.valid(bimp(c, ilt(cols, need))) is None and lin.valid(bimp(ok, ile(need, cols))) is None,
                         "%s: minimum_required is %s, refused when %s" % (u.bid, show(need, 5), show(c, 6)[:300]))
        rep.floor("refusals of short references (%s)" % m.name, k, 1)
        # the voice detector sees the signal the spectrogram was computed from
        whole = lambda t: replace(cut(t), {cols: frames})
        pre = band(ge0i(sub(hop, ONE)), ile(size, n0))
        n += arithmetic(rep, "%s patch grid" % m.name, u, pre, whole, [lambda t: [mul(hop, sub(frames, ONE)), sub(sub(n0, size), mul(hop, sub(frames, ONE)))]])
    # ---- patches the degraded signal supports
    u = u4()
    ok, v = oks(u.ret)
    got = restrict(length(drop_undef(restrict(v, ok))), ok)
    rep.instance("a comparison that supports no patch is refused", all(lin.valid(bimp(band(ok, cubecond(c)), ge0i(sub(l, ONE)))) is None for c, l in leaves(got)), "%s: succeeds with %s patches" % (u.bid, show(got, 6)[:300]))
    usize = lambda o: o["what"] != "slice" and (o["what"] != "overflow:Sub" or not terms_where(o["cond"], lambda z: z.op == "num" and abs(z.a[0]) >= 2**30) and not big(o["cond"]))
    n += arithmetic(rep, "patch count", u, TRUE, lambda t: t, only=usize, known=inside)
    rep.floor("operations shown in range", n, 4)

def inside(c):
    """positions that are compared with the spectrogram's end lie inside it: that is decided with the window (C21)"""
    out = []
    for p in terms_where(c, lambda z: z.op == "poly"):
        ts = {m: k for m, k in terms_of(p).items() if m}
        end = [m[0][0] for m, k in ts.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "dim" and m[0][0].a[0] is sym("SPEC")]
        out += [ge0i(sub(e, m[0][0])) for e in end for m in ts if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "phi"]
    return out

def big(c):
    """a bound of a 32-bit signed operation"""
    return any(abs(k) >= 2**30 for z in terms_where(c, lambda z: z.op == "poly") for m, k in terms_of(z).items())
