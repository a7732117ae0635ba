"""C16: inverse transforms are normalised exactly once"""
from ..vn import *

def inv(z): return z.op == "fft" and str(z.a[0]) == "inv"

def factor(t, zs):
    """monomials of scalar t that contain one of the atoms zs, with that atom replaced by its size times a marker; None when zs occurs elsewhere"""
    out = []
    for m, c in TT.terms_of(t).items():
        hit = [(x, e) for x, e in m if any(contains(x, lambda y, z=z: y is z) for z in zs)]
        if not hit: continue
        if len(hit) > 1 or hit[0][1] != 1: return None
        out.append((c, hit[0][0], [(x, e) for x, e in m if x is not hit[0][0]]))
    return out

def peel(x):
    """the inverse transform x is an element of, through re/im parts and conversions"""
    while True:
        if x.op == "sel" and inv(x.a[0]): return x.a[0]
        if x.op == "fn" and x.a[0] in ("re", "im"): x = x.a[1]; continue
        if x.op in ("re", "im"): x = x.a[0]; continue
        return None

def judge(rep, fn, t, cond, where):
    """t: an array; every element uses inverse transforms only scaled by the reciprocal of their size"""
    j = sym("j", "u")
    el = restrict(sel(t, j), band(cond, ilt(j, length(t))))
    coef = {}; n = 0
    for cube, l in leaves(el):
        zs = terms_where(l, inv)
        if not zs: continue
        pc = band(cond, cubecond(cube))
        l = restrict(l, pc)
        ms = factor(l, terms_where(l, inv))
        bad = "the raw result is used other than as a factor: %s" % show(l, 6)[:300] if not ms else None
        for c, atom, rest in ms or []:
            z = peel(atom)
            if z is None: bad = "the raw result is used inside %s" % show(atom, 5)[:200]; break
            N = restrict(z.a[1], pc)
            if is_num(N): c = c * N.a[0]
            else:
                e = [k for x, k in rest if x is N]
                if e != [-1]: bad = "it is multiplied by the size %s to the power %s" % (show(N, 4)[:100], e or 0); break
                rest = [x for x in rest if x[0] is not N]
            if any(contains(x, lambda y: y.op == "fn" and y.a[0] == "next_pow2") for x, _ in rest): bad = "an extra factor depends on the transform's size: %s" % show(l, 6)[:200]; break
            coef.setdefault(tuple((x.id, k) for x, k in rest), {}).setdefault(c, (l, cube))
            n += 1
        rep.instance("%s: inverse transform scaled once by 1/size" % fn, bad is None, "%s: %s on %s" % (where, bad, showcube(cube)[:300]))
    for k, d in coef.items():
        rep.instance("%s: the same scaling whatever the size" % fn, len(d) == 1, "%s: factors relative to 1/size differ: %s" % (where, "; ".join("%s on %s" % (c, showcube(q)[:150]) for c, (_, q) in d.items())))
    rep.floor("inverse transform uses in %s" % fn, n, 1)

def run(rep):
    rep.rule("value numbering of every function that returns data of an inverse FFT, with managers as their constructor builds them: each use of the raw transform is a monomial with exactly "
             "the factor 1/(planned size), with one common constant for all sizes; forward transforms are returned unscaled; transforms are planned nowhere else")
    LEN = sym("LEN", "u")
    nz = ge0i(sub(LEN, ONE))
    new = unit(fnpath("fft_manager::FftManager::new"), (), (), ["LEN"])
    mg = replace(new.ret, {sym("LEN"): LEN})
    roots = []
    for s in ("inverse_1d", "inverse_1d_conj_sym"):
        u = unit(fnpath("fast_fourier_transform::" + s), (), (), ["MG", "X"])
        judge(rep, s, rsub(u.ret, mg), nz, u.bid); roots.append(u.bid)
    for s in ("envelope::calculate_hilbert", "xcorr::calculate_inverse_fft_pointwise_product"):
        u = unit(fnpath(s), (), (), ["A", "B"][:2 if "xcorr" in s else 1])
        r = u.ret
        cond = band(ge0i(sub(length(sym("A")), ONE)), ge0i(sub(length(sym("B")), ONE)))
        if "hilbert" in s:
            r = fld(drop_undef(restrict(r, disc(r, 1, 2))) if r.op == "ite" else r, 1, 0)
        for case in ((ge0i(sub(length(sym("A")), length(sym("B")))), bnot(ge0i(sub(length(sym("A")), length(sym("B")))))) if "xcorr" in s else (TRUE,)):
            judge(rep, s.split("::")[1], restrict(r, band(cond, case)), band(cond, case), u.bid)
        roots.append(u.bid)
    for s, ns in (("forward_1d_from_matrix", ["MG", "X"]), ("forward_1d_from_points", ["MG", "X", "N"])):
        u = unit(fnpath("fast_fourier_transform::" + s), (), (), ns)
        j = sym("j", "u")
        t = u.ret
        n = 0
        for cube, l in leaves(t):
            n += 1
            ok = l.op == "fft" and str(l.a[0]) == "fwd"
            if not ok and not terms_where(l, inv):
                x = sel(l, j)
                ok = x.op == "sel" and x.a[0].op == "fft"
            rep.instance("%s returns the transform unscaled" % s, ok, "%s: returns %s on %s" % (u.bid, show(l, 5)[:300], showcube(cube)[:200]))
        rep.floor("results of %s" % s, n, 1); roots.append(u.bid)
    # nobody else plans or builds
    seen = reach(roots)
    k = 0
    for bid, b in lib().bodies.items():
        if "::test" in bid: continue
        for i, bl in enumerate(b.blocks):
            t = bl["t"]
            if t["k"] == "call" and "const" in t["f"] and "fn" in t["f"]["const"]:
                p = t["f"]["const"]["fn"]["p"]
                if p.startswith("rustfft::Fft::process"):
                    k += 1
                    rep.instance("transform in %s is one of those judged" % bid.split("::")[-1], bid in seen, "%s: %s is called in a function outside those the rule covers" % (bid, p))
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1].get("k") == "adt" and st[2][1]["p"].endswith("::FftManager"):
                    rep.instance("managers are built by their constructor only", bid in reach([new.bid]), "%s builds an FftManager of its own" % bid)
    rep.floor("transforms executed", k, 2)

def rsub(t, mg):
    return substroot(t, sym("MG"), mg)

def substroot(t, root, val):
    return subst(t, {root: val})

_graph = None
def reach(roots):
    """local functions called (transitively) from the roots, closures included"""
    global _graph
    if _graph is None: _graph = calls.Graph(lib())
    todo = list(roots); seen = set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += _graph.edges.get(x, ())
    return seen
