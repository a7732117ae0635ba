"""the coarse search's traceback (U4): the stored records by cases"""
from ..vn import *
from .. import lin
from .. import terms as TT

PR = "PatchSimilarityResult"
class Rec: pass
class Trace: pass
_t = None
def trace():
    """n: number of records; recs: [Rec(idx, rng, cube, val)] with idx the patch and rng the iteration's range; off: offset of an iteration, next: following offset (None in a table)"""
    global _t
    if _t: return _t
    t = Trace(); u = t.u = u4()
    t.ok, v = oks(u.ret)
    t.P, t.I, t.S, t.FD = sym("PATCHES"), sym("IDX"), sym("SPEC"), sym("FD")
    v = onewidth(t, drop_undef(restrict(v, t.ok)))
    t.ok = onewidth(t, t.ok)
    t.sure = certain(v, t.ok)
    v = settle(v, t.sure); t.ok = settle(t.ok, t.sure)
    t.n = restrict(length(v), t.ok)
    t.recs = []; t.off = t.next = None; t.loops = []
    for cube, l in leaves(v):
        K = freshK()
        if l.op == "tab":
            rng = ilt(K, l.a[0])
            for c, x in leaves(restrict(app(l.a[1], K), rng)): add_rec(t, K, K, l.a[0], c, x)
        elif l.op == "rec":
            n, inits, step, lvl = l.a; comp = 0
            body = app(step, K)
            if all(x.op == "upd" and x.a[0] is raw("rv", lvl, comp) for _, x in leaves(fld(body, 0, comp))): t.n = length(inits.a[1 + comp])
            t.loops.append((n, inits, step, lvl, comp, K))
            for c, x in leaves(fld(body, 0, comp)):
                if x.op != "upd" or x.a[0] is not raw("rv", lvl, comp):
                    t.recs.append(rec(None, K, n, c, x)); continue
                for c2, y in leaves(x.a[2]): t.recs.append(rec(x.a[1], K, n, list(c) + list(c2), y))
        else: raise Missing("the list of records (%s)" % show(l, 4)[:200])
    _t = t
    return t

def rec(idx, K, n, cube, val):
    r = Rec(); r.idx = idx; r.K = K; r.n = n; r.cube = list(cube); r.val = val; r.rng = ilt(K, n)
    return r
def add_rec(t, idx, K, n, cube, val): t.recs.append(rec(idx, K, n, cube, val))

def onewidth(t, x):
    """all reference patches are equally wide (C36)"""
    w = sym("WIDTH", "u")
    return replace(x, {z: w for z in terms_where(x, lambda z: z.op == "dim" and z.a[0].op == "sel" and z.a[0].a[0] is t.P)})

def certain(*xs):
    """atoms about a first position (at most the end it is looked for up to) that hold anyway"""
    out = []
    for a in {z.a[0] for x in xs for z in terms_where(x, lambda z: z.op == "ite" and z.a[0].op == "ge0")}:
        if not contains(a, lambda z: z.op == "first") or contains(a, lambda z: z.op in ("phi", "rv")): continue
        try:
            if lin.valid(ite(a, TRUE, FALSE)) is None: out.append(a)
        except Exception: pass
    return out

def settle(t, atoms):
    def f(z):
        if z.op != "ite": return z
        for a in atoms: z = TT.assume(z, a, True)
        return z
    return transform(t, f) if atoms else t
