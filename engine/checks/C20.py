"""C20: voice activity is judged per frame, speech is never dropped, and a patch counts iff it holds an active frame"""
from ..vn import *

THRESHOLD, RUN = 5000, 3

def rms(sample, n):
    return fdiv(fn("sqrt", mksum(n, lambda k: powi(sample(k), 2))), fn("sqrt", n))

def pcm(t, SIG):
    """samples scaled and cut to 16 bit -> pcm(index), an integer in [-32768, 32767]; clamping to that range is idle"""
    def ofsig(z): return any(x.a[0] is SIG for x in terms_where(z, lambda x: x.op == "sel"))
    def code(k): return raw("app", "pcm", k, sort="i")
    lo, hi = num(-32768), num(32767)
    def at(z):
        """index of the sample whose 16-bit code z is"""
        if z.op == "trunc":
            s = terms_where(z, lambda x: x.op == "sel" and x.a[0] is SIG)
            if len(s) == 1 and z.a[0] is mul(num(32768), s[0]): return s[0].a[1]
        return None
    def f(z):
        k = at(z)
        if k is not None: return code(k)
        if z.op in ("ge0", "fge0"):
            ps = terms_where(z, lambda x: x.op == "app" and x.a[0] == "pcm")
            ss = terms_where(z, lambda x: x.op == "sel" and x.a[0] is SIG)
            if len(ps) == 1 and not ss:
                c = sub(z.a[0], ps[0])
                if is_num(c): return TRUE if c.a[0] >= 32768 else FALSE if c.a[0] < -32767 else z
                c = add(z.a[0], ps[0])
                if is_num(c): return TRUE if c.a[0] >= 32767 else FALSE if c.a[0] < -32768 else z
            if len(ss) == 1 and not ps:
                c = sub(z.a[0], mul(num(32768), ss[0]))
                # 32768 x >= 32767 iff the code is 32767
                if c is neg(hi): return ge0i(add(code(ss[0].a[1]), c))
        if z.op == "ite":
            c, t, e = tobool(z.a[0]), z.a[1], z.a[2]
            ps = terms_where(z, lambda x: x.op == "app" and x.a[0] == "pcm")
            for p in ps:
                if c is ge0i(sub(p, hi)) and replace(e, {p: hi}) is t: return e
                if c is ge0i(sub(lo, p)) and replace(e, {p: lo}) is t: return e
                for x in terms_where(c, lambda x: x.op == "sel" and x.a[0] is SIG and x.a[1] is p.a[1]):
                    y = mul(num(32768), x)
                    if c in (fge0(sub(y, lo)), fgt0(sub(y, lo))) and replace(t, {p: lo}) is e: return t
                    if c in (fge0(sub(lo, y)), fgt0(sub(lo, y))) and replace(e, {p: lo}) is t: return e
                    if c is fgt0(sub(y, hi)) and replace(e, {p: hi}) is t: return e
        return z
    while True:
        n = transform(t, f)
        if n is t: return t
        t = n

def verdicts(rep):
    """the detector's output for frames of FL samples of SIG from START on"""
    u = unit(fnpath("::get_voice_activity"), (), (), ["V", "SIG", "START", "TOTAL", "FL"])
    SIG, START, TOTAL, FL = [sym(x) for x in ("SIG", "START", "TOTAL", "FL")]
    n = idiv(TOTAL, FL)
    # frames are cut from samples that exist: the last ones of the signal, or not
    for behind in (ZERO, add(sym("behind", "u"), ONE)):
        pre = band(ge0i(sub(FL, ONE)), ge0i(sub(n, num(RUN - 1))), ge0i(sub(TOTAL, ONE)))
        out = restrict(replace(u.ret, {length(SIG): add(add(START, TOTAL), behind)}), pre)
        rep.instance("one verdict per full frame", restrict(length(out), pre) is n, "%s: %s verdicts for %s frames" % (u.bid, show(length(out), 8)[:200], show(n)))
        i = sym("i", "u")
        care = band(pre, ilt(i, n))
        def loud(f):
            r = rms(lambda k: raw("app", "pcm", add(add(START, mul(f, FL)), k), sort="i"), FL)
            return bnot(flt(r, num(THRESHOLD)))
        later = ge0i(sub(i, num(RUN - 1)))
        quiet = later
        for d in range(RUN): quiet = band(quiet, bnot(loud(sub(i, num(d)))))
        want = ite(quiet, ZERO, ONE)
        got = restrict(pcm(restrict(sel(out, i), care), SIG), care)
        for cube, l in leaves(got):
            rep.instance("verdicts are 0 or 1", l is ZERO or l is ONE, "%s: verdict %s on %s" % (u.bid, show(l, 6)[:200], showcube(cube)[:200]))
        want = restrict(want, care)
        if got is not want:
            # only an unjustified silence or an unjustified activity is a violation, not the form
            sil = band(care, feq0(got))
            for d in range(RUN):
                c = bimp(sil, band(later, bnot(loud(sub(i, num(d))))))
                holds(rep, "a frame is silent only if it and the %d before it are below the threshold (frame i-%d)" % (RUN - 1, d), c, u.bid)
            holds(rep, "a frame is silent if it and the frames before it are below the threshold", bimp(band(care, quiet), feq0(got)), u.bid)
        else:
            for d in range(RUN): rep.instance("a frame is silent only if it and the %d before it are below the threshold (frame i-%d)" % (RUN - 1, d), True)
            rep.instance("a frame is silent if it and the frames before it are below the threshold", True)
    return u

def run(rep):
    rep.rule("value numbering with closed forms of the framing recurrence: verdict i over the whole detector equals 0 iff i >= 2 and the RMS of frames i, i-1, i-2 (samples scaled to "
             "16 bit) are all below 5000; the list of patch starts is the filtered sequence of all patches whose 20 verdicts hold an active one")
    va = verdicts(rep)
    b = impl("PatchCreator", "create_ref_patch_indices", "VadPatchCreator")
    u = unit(b, (), [va.bid], ["SELF", "SPEC", "REFSIG", "WIN"])
    mu = mnew()
    cr = [t for t in terms_where(mu.ret, lambda z: z.op == "agg" and z.a[0].endswith("VadPatchCreator#0"))]
    if len(cr) != 1: raise Missing("the voice activity patch creator the manager is constructed with")
    ev = events(u, va.bid)
    if not ev: ev = [e for e in u.events if e["name"] == va.bid or e["p"] == va.bid]
    rep.floor("calls of the voice activity detector", len(ev), 1)
    c, v = oks(u.ret)
    SELF = sym("SELF")
    okc = replace(c, {SELF: cr[0]})
    conf = lambda t: decide(replace(t, {SELF: cr[0]}), okc)
    P = F(cr[0], "VadPatchCreator", "patch_size")
    cols = ncols(sym("SPEC"))
    hop = trunc(mul(F(sym("WIN"), "AnalysisWindow", "size"), F(sym("WIN"), "AnalysisWindow", "overlap")))
    lst = conf(drop_undef(restrict(v, c)))
    # first column is half a patch minus one; as many whole patches as fit behind it
    first = sub(idiv(P, num(2)), ONE)
    PC = idiv(sub(cols, first), P)
    N = sym("patches", "u")
    want_len = mul(N, P)
    sig = F(sym("REFSIG"), "AudioSignal", "data_matrix")
    apps = set()
    for e in ev:
        a = [conf(x) for x in e["args"]]
        apps.add(conf(e["ret"]))
        s = a[1]
        j = sym("j", "u")
        x = restrict(sel(s, j), ilt(j, length(s)))
        k = {z.a[1] for z in terms_where(x, lambda z: z.op == "sel" and z.a[0] is sig and z.a[1].op != "bv")}
        rep.instance("the detector listens to the reference", length(s) is length(sig) and k == {j} and fdiv(x, sel(sig, j)) is not None and not depends(fdiv(x, sel(sig, j)), sel(sig, j)),
                     "%s: sample j of the detector's input is %s" % (e["where"], show(x, 6)[:200]))
        rep.instance("the detector's frames are one hop long", a[4] is hop, "%s: frame length %s" % (e["where"], show(a[4], 6)[:200]))
        rep.instance("the detector hears whole patches", a[3] is mul(mul(PC, P), hop), "%s: %s samples" % (e["where"], show(a[3], 6)[:200]))
    if len(apps) != 1: raise Missing("one detector result")
    app_ = apps.pop()
    V = sym("VERDICTS")
    lst = replace(replace(lst, {length(app_): want_len}), {app_: V})
    lst = transform(lst, lambda z: raw("app", "verdict", z.a[1], sort="u") if z.op == "sel" and z.a[0] is V else z)
    lst = replace(lst, {PC: N})
    # at least one patch: N = q + 1
    lst = replace(lst, {N: add(sym("q", "u"), ONE)})
    N = add(sym("q", "u"), ONE)
    pos = TRUE
    ls = [l for _, l in leaves(restrict(lst, pos))]
    if len(ls) != 1 or ls[0].op != "fseq":
        rep.instance("patch starts are a filtered sequence", False, "%s: the list of patch starts is %s" % (u.bid, show(ls[0], 5)[:400])); return
    n, lc, lv = ls[0].a
    n = restrict(n, pos)
    rep.instance("every patch is considered", n is N, "%s: %s patches are considered, there are %s" % (u.bid, show(n, 6)[:200], "(columns - %s) / %s" % (show(first), show(P))))
    # a patch p < N: q = p + r
    p = sym("p", "u")
    gap = {sym("q", "u"): add(p, sym("r", "u"))}
    lc, lv, N = replace(lc, gap), replace(lv, gap), replace(N, gap)
    cond = restrict(app(lc, p), band(pos, ilt(p, N)))
    act = lambda k: raw("app", "verdict", add(mul(P, p), k), sort="u")
    S = mksum(P, act)
    K = freshK()
    alts = [ge0i(sub(S, ONE)), some(P, lam(K, ge0i(sub(act(K), ONE)))), some(P, lam(K, eq0i(sub(act(K), ONE))))]
    # the last patch, and one before it
    ends = [{sym("r", "u"): ZERO}, {sym("r", "u"): add(sym("r2", "u"), ONE)}]
    rep.instance("a patch is used iff one of its frames is active", any(cond is restrict(x, band(pos, ilt(p, N))) or all(replace(cond, at) is replace(x, at) for at in ends) for x in alts), "%s: patch p is used iff %s" % (u.bid, show(cond, 8)[:400]))
    val = app(lv, p)
    rep.instance("patch p starts at its own column", val is add(first, mul(P, p)), "%s: patch p starts at column %s" % (u.bid, show(val, 6)[:200]))
