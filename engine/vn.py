"""Shared access of the value-number checks: evaluation of units, spec terms, comparison."""
import re
from fractions import Fraction
from . import prog, calls
from .machine import *
from .terms import *
from . import terms as TT

L = "visqol_rs::"
PATCHSEL = L + "comparison_patches_selector::ComparisonPatchesSelector::"
PRED = L + "similarity_to_quality_mapper::SimilarityToQualityMapper::predict_quality"
MEAS = L + "patch_similarity_comparator::PatchSimilarityComparator::measure_patch_similarity"
RES = "adt:" + L + "similarity_result::SimilarityResult#0"
CALC = L + "visqol::calculate_similarity"
RESN = "SimilarityResult"
MGR = L + "visqol_manager::VisqolManager::"

class Missing(Exception):
    pass

_lib = None
def lib():
    global _lib
    if _lib is None: _lib = prog.load()
    return _lib[0]
def cli():
    lib(); return _lib[1]

def fnpath(suffix):
    """the function with this path suffix"""
    c = [b for b in lib().bodies if b.endswith(suffix) and "::test" not in b]
    if len(c) != 1: raise Missing("function %s: %d found" % (suffix, len(c)))
    return c[0]

def impls(trait, method):
    """{type path: body id} of a local trait's method"""
    out = {}
    for (tr, m), l in lib().trait_impls.items():
        if tr.endswith("::" + trait) and m == method:
            for i, bid in l:
                out[lib().ty(i["self"]).get("p") or lib().ty(i["self"])["s"]] = bid
    return out

def impl(trait, method, ty):
    c = [b for p, b in impls(trait, method).items() if p.endswith("::" + ty)]
    if len(c) != 1: raise Missing("impl %s::%s for %s: %d found" % (trait, method, ty, len(c)))
    return c[0]

def meas_cuts():
    """the patch similarity measure, through the trait and directly"""
    return [MEAS] + list(impls("PatchSimilarityComparator", "measure_patch_similarity").values())

def adt(suffix):
    c = [a for a in lib().adts if a.endswith("::" + suffix)]
    if len(c) != 1: raise Missing("type %s: %d found" % (suffix, len(c)))
    return c[0]

def fidx(adtname, field):
    p = adt(adtname) if "::" not in adtname else adtname
    fs = lib().adts[p]["v"][0]["f"]
    for i, f in enumerate(fs):
        if f["n"] == field: return i
    raise Missing("field %s of %s" % (field, p))

def variant(adtname, v):
    p = adt(adtname)
    for i, x in enumerate(lib().adts[p]["v"]):
        if x["n"] == v: return i
    raise Missing("variant %s of %s" % (v, p))

def F(t, adtname, field):
    """field of a struct value, by name"""
    return fld(t, 0, fidx(adtname, field))

def mkadt(adtname, **fields):
    p = adt(adtname)
    return agg("adt:%s#0" % p, *[fields[f["n"]] for f in lib().adts[p]["v"][0]["f"]])

class Unit:
    pass

_units = {}
def unit(bid, cuts=(), pure=(), names=None, generics=None, hooks=None, key=None, opts=None):
    k = (bid, tuple(cuts), tuple(pure), tuple(names or ()), key)
    u = _units.get(k)
    if u is None:
        m = Machine(lib(), tuple(cuts) + tuple(pure), opts)
        m.pure = set(pure)
        if hooks: m.hooks = hooks
        if bid not in lib().bodies: raise Missing("function " + bid)
        r, s = m.entry(bid, names, generics)
        u = Unit(); u.m = m; u.ret = r; u.st = s; u.bid = bid
        u.events = m.events; u.fuses = m.fuses; u.loops = m.loops; u.obl = m.obl
        u.out = {n: s.cells.get(c) for n, c in m.incells.items()} if s is not None else {}
        _units[k] = u
    TT.SHAPE = u.m.phi_shape
    return u

# ------------------------------------------------------------------ results
def leafset(t):
    return {l for _, l in leaves1(t)}

def oks(t):
    """(condition of Ok, payload of Ok) of a Result value; leaves that are not constructed count as Ok"""
    c = mapleaves(lambda l: disc(l, 0, 2) if not l.op == "undef" else FALSE, t)
    v = mapleaves(lambda l: fld(l, 0, 0) if not (l.op == "agg" and l.a[0].endswith("#1")) else UNDEF, t)
    return c, drop_undef(v)

def errs(t):
    """[(cube, error payload)]"""
    return [(cube, fld(l, 1, 0)) for cube, l in leaves(t) if l.op == "agg" and l.a[0].endswith("#1")]

def okpart(t):
    """restricts a Result value to the branches where it is Ok, payload only"""
    c, v = oks(t)
    if c is FALSE: raise Missing("a success result")
    return drop_undef(restrict(v, c)) if c is not TRUE else v

def events(u, *suffix):
    return [e for e in u.events if any(e["name"].endswith(s) or e["p"].endswith(s) for s in suffix)]

def samev(a, b, under=None):
    if a is b: return True
    if under is not None:
        a, b = restrict(a, under), restrict(b, under)
        if a is b: return True
    return False

def casewise(got, want, under=None, facts=(), limit=400):
    """None if on every case that can occur (linear entailment) the two agree; else (case, got, want)"""
    from . import lin
    pre = under if under is not None else TRUE
    g, w = leaves(got), leaves(want)
    if len(g) * len(w) > limit: return ([], got, want)
    for c1, x in g:
        for c2, y in w:
            if x is y or x.op == "undef": continue
            if isnumeric(x) and isnumeric(y) and sub(x, y) is ZERO: continue
            c = band(pre, cubecond(c1), cubecond(c2))
            if c is FALSE or lin.valid(bnot(c), facts) is None: continue
            if isnumeric(x) and isnumeric(y) and integral(x) and integral(y) and lin.valid(bimp(c, ieq(x, y)), facts) is None: continue
            x2, y2 = restrict(x, c), restrict(y, c)
            if x2 is y2: continue
            return (c1 + c2, x2, y2)
    return None

def decide(t, cond):
    """t with the linear conditions that cond entails, or excludes, decided everywhere"""
    from . import lin
    for a in sorted({z.a[0] for z in terms_where(t, lambda z: z.op == "ite" and z.a[0].op == "ge0")}, key=lambda z: z.id):
        for v in (True, False):
            if lin.valid(bimp(cond, a if v else bnot(a))) is None:
                t = transform(t, lambda z, v=v: TT.assume(z, a, v) if z.op == "ite" else z); break
    return t

def firstdiff(a, b, d=0):
    """smallest differing sub-terms, for the report"""
    if a is b: return None
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("poly", "num", "sym", "K", "phi") and d < 40:
        for x, y in zip(a.a, b.a):
            if x is y: continue
            if type(x) is T and type(y) is T:
                return firstdiff(x, y, d + 1)
            if x != y: break
    return a, b

def equal(rep, what, got, want, under=None, where="", key=None):
    ok = samev(got, want, under) or casewise(restrict(got, under) if under is not None else got, restrict(want, under) if under is not None else want, under) is None
    det = ""
    if not ok:
        if under is not None: got, want = restrict(got, under), restrict(want, under)
        x = firstdiff(got, want)
        det = "%s%s: the code computes\n      %s\n    where the property requires\n      %s" % (where and where + ": ", what, show(x[0], 7)[:600], show(x[1], 7)[:600])
    return rep.instance(what, ok, det, key or what)

def holds(rep, what, cond, where="", key=None):
    """a condition that must be valid (reduces to TRUE)"""
    ok = cond is TRUE
    return rep.instance(what, ok, "%s%s: not implied; remaining condition %s" % (where and where + ": ", what, show(cond, 8)[:600]), key or what)

def cubecond(cube):
    return band(*[a if v else bnot(a) for a, v in cube]) if cube else TRUE

def showcube(cube):
    return " and ".join(("" if v else "not ") + show(a, 5)[:120] for a, v in cube) or "always"

def uniform_bands(t, P):
    """t with one number of bands for all per-band vectors of the records of P (C39 shows the measure gives them one length)"""
    NB = sym("NBANDS", "u")
    def f(z):
        if z.op == "len" and z.a[0].op == "fld" and z.a[0].a[0].op == "sel" and z.a[0].a[0].a[0] is P: return NB
        return z
    return transform(t, f)

def everywhere(t, c):
    """t with the condition c (one conjunction) decided, also inside comprehensions and sums"""
    cs = [cube for cube, l in leaves(c) if l is TRUE]
    if len(cs) != 1: return t
    def f(z):
        if z.op != "ite": return z
        for a, v in cs[0]: z = TT.assume(z, a, v)
        return z
    return transform(t, f)

def divp(a, b):
    return fdiv(a, b)

def passthrough(rep, field):
    """the manager's entry points return the comparison's record unchanged in this field"""
    for which in ("run", "compute_results"):
        u = u2(which)
        ev = events(u, CALC)
        rep.floor("comparisons in %s" % which, len(ev), 1)
        c, v = oks(u.ret)
        got = F(drop_undef(restrict(v, c)), RESN, field)
        want = [F(fld(e["ret"], 0, 0), RESN, field) for e in ev]
        for cube, l in leaves(got):
            ok = any(restrict(w, band(c, cubecond(cube))) is l or l is w for w in want)
            rep.instance("%s reports the comparison's %s" % (which, field), ok,
                         "%s%s: on %s the reported %s is %s" % (MGR, which, showcube(cube), field, show(l, 6)[:300]))

# ------------------------------------------------------------------ U1
U1N = ["REF", "DEG", "BUILDER", "WINDOW", "CREATOR", "SELECTOR", "MAPPER", "SEARCH"]
def u1():
    b = impls("SpectrogramBuilder", "build")
    cuts = [PATCHSEL + "find_most_optimal_deg_patches", PATCHSEL + "finely_align_and_recreate_patches",
            L + "spectrogram_builder::SpectrogramBuilder::build"] + list(b.values())
    return unit(CALC, cuts, (), U1N)

# ------------------------------------------------------------------ U2
LOAD = L + "audio_utils::load_as_mono"
ALIGN = L + "alignment::globally_align"
def u2(which="run", load=True, align=True):
    names = {"run": ["MGR", "REFPATH", "DEGPATH"], "compute_results": ["MGR", "REFSIG", "DEGSIG"]}[which]
    pure = ([LOAD] if load else []) + ([ALIGN] if align else [])
    return unit(MGR + which, [CALC], pure, names)

# ------------------------------------------------------------------ U3, U5
def maybe(*suffixes):
    """functions cut when they exist under this name, looked through otherwise"""
    out = []
    for s in suffixes:
        c = [b for b in lib().bodies if b.endswith(s) and "::test" not in b and lib().bodies[b].argc]
        if len(c) == 1: out += c
    return out

BUILDT = L + "spectrogram_builder::SpectrogramBuilder::build"
def builds():
    """{type: body} of the spectrogram builders"""
    return impls("SpectrogramBuilder", "build")

def buildcuts():
    return [BUILDT] + list(builds().values())

def u3():
    b = builds()
    if len(b) != 1: raise Missing("one spectrogram builder expected, %d found" % len(b))
    return unit(list(b.values())[0], (), maybe("::make_filters"), ["B", "SIG", "WIN"])

def u5():
    return unit(PATCHSEL + "finely_align_and_recreate_patches", meas_cuts() + buildcuts(),
                [ALIGN] + maybe("ComparisonPatchesSelector::slice"), ["SELF", "SIMS", "REF", "DEG", "B", "WIN"])

U4N = ["SELF", "PATCHES", "IDX", "SPEC", "FD", "RADIUS"]
def u4():
    """the coarse patch search"""
    return unit(PATCHSEL + "find_most_optimal_deg_patches", meas_cuts(), meas_cuts(), U4N, opts={"tables": True})

def meas(u):
    return [e for e in u.events if e["name"].endswith("measure_patch_similarity") or e["p"].endswith("measure_patch_similarity")]

def nsim():
    """the patch similarity measure, convolution kept opaque"""
    b = list(impls("PatchSimilarityComparator", "measure_patch_similarity").values())
    if len(b) != 1: raise Missing("one patch similarity measure expected, %d found" % len(b))
    return unit(b[0], (), maybe("::perform_valid_2d_conv_with_boundary"), ["NS", "RP", "DP"])

def mnew():
    """the manager's constructor: (unit, manager value, variant symbol)"""
    u = unit(MGR + "new", (), (), ["VARIANT", "WINDOW_SIZE"])
    return u

def mfield(t, i):
    return fld(t, 0, i)

def scalars(x, nd=None):
    """a scalar element of x under fresh in-range indices: (element, range condition)"""
    cond = TRUE; k = 0
    while k < 4:
        ls = [l for _, l in leaves(x)]
        if all(l.op not in ("tab", "cat", "upd", "updnd", "array") and not (l.op == "app" and (l.nd or 0) > 0) for l in ls): break
        j = sym("idx%d" % k, "u"); k += 1
        cond = band(cond, ilt(j, length(x)))
        x = restrict(sel(x, j), cond)
    return x, cond

def draws(t, *roots):
    """t mentions one of the roots other than by the size of an array"""
    seen = set()
    def go(x):
        if type(x) is tuple: return any(go(y) for y in x)
        if type(x) is not T or x in seen: return False
        seen.add(x)
        if x in roots: return True
        if x.op in ("len", "dim"): return False
        return any(go(y) for y in x.a)
    return go(t)

def uses(t, root):
    """maximal field paths below the symbol root that t mentions: {path tuple}"""
    out = set(); seen = set()
    def path(x):
        p = []
        while x.op == "fld": p.append(x.a[1:3]); x = x.a[0]
        return tuple(reversed(p)) if x is root else None
    def go(x):
        if type(x) is tuple:
            for y in x: go(y)
            return
        if type(x) is not T or x in seen: return
        seen.add(x)
        p = path(x)
        if p is not None: out.add(p); return
        for y in x.a: go(y)
    go(t)
    return out

def atpath(t, path):
    for v, i in path: t = fld(t, v, i)
    return t

def uneffect(t, names):
    """forgets the effect of the named calls on their arguments: mut(f, k, args) -> args[k]"""
    def f(x):
        if x.op == "mut" and any(x.a[0].endswith(n) for n in names):
            k = x.a[1]
            if type(k) is tuple: return x
            return x.a[2 + k]
        return x
    return transform(t, f)

def terms_where(t, pred):
    out = []; seen = set()
    def go(x):
        if type(x) is tuple:
            for y in x: go(y)
        elif type(x) is T and x not in seen:
            seen.add(x)
            if pred(x): out.append(x)
            for y in x.a: go(y)
    go(t)
    return out

# ------------------------------------------------------------------ the filter cascade
def iir2(n, d, x):
    """output j -> y(j) of the second-order section with numerator n, denominator d (d[0] = 1), from rest"""
    K = freshK()
    xk = x(K)
    coefs = [xk] + list(n) + list(d)
    lvl = max(rvlevel(z) for z in coefs)
    z0, z1 = raw("rv", lvl, 0, sort="f"), raw("rv", lvl, 1, sort="f")
    y = add(mul(n[0], xk), z0)
    b = raw("agg", "tuple", sub(add(mul(n[1], xk), z1), mul(d[1], y)), sub(mul(n[2], xk), mul(d[2], y)))
    l = lam(K, b)
    z = raw("agg", "tuple", ZERO, ZERO)
    def out(j):
        r = mkrec(j, z, l, lvl)
        if r.op == "rec": r.sort = r.sort or "f"
        return add(mul(n[0], x(j)), r)
    return out

def cascade(c, x):
    """the four-stage gammatone cascade; c: role -> coefficient"""
    d = [c["b0"], c["b1"], c["b2"]]
    y = iir2([fdiv(c["a0"], c["gain"]), fdiv(c["a11"], c["gain"]), fdiv(c["a2"], c["gain"])], d, x)
    for s in ("a12", "a13", "a14"):
        y = iir2([c["a0"], c[s], c["a2"]], d, y)
    return y
