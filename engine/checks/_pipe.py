"""the comparison pipeline (U1, U5): signals and spectrogram pairs in their roles"""
from ..vn import *
from .. import models
from ._prep import conditioned

def meansq(x):
    n = length(x)
    return fdiv(mksum(n, lambda k: powi(sel(x, k), 2)), n)

def root(x): return models.fsqrt(x)

def adata(s): return F(s, "AudioSignal", "data_matrix")
def arate(s): return F(s, "AudioSignal", "sample_rate")

REF, DEG = sym("REF"), sym("DEG")

def scaled_elem(j):
    """the degraded sample at the reference's level"""
    r, d = adata(REF), adata(DEG)
    return mul(sel(d, j), fdiv(root(meansq(r)), root(meansq(d))))

def silent(atom, val):
    """the literal can only hold for a degraded signal without energy (its level is not finite, or its energy is not positive)"""
    if uses(atom, REF): return False
    x = adata(DEG)
    lits = {}
    n = length(x)
    e = mksum(n, lambda k: powi(sel(x, k), 2))
    if atom.op in ("app", "fn", "isfinite", "isnan", "isinf") or atom.op.startswith("is"):
        nm = atom.op if atom.op.startswith("is") else str(atom.a[0])
        arg = atom.a[-1] if atom.op.startswith("is") else atom.a[1]
        if not depends(arg, e): return False
        return ("finite" in nm and not val) or ("nan" in nm and val) or ("infinite" in nm and val)
    if atom.op in ("fgt0", "fge0", "feq0"):
        # holds for zero energy, fails for positive energy
        p = atom.a[0]
        P = sym("E>0", "f")
        q = replace(p, {e: P})
        if uses(q, DEG) - {(((0, fidx("AudioSignal", "data_matrix"))),)} and contains(q, lambda z: z.op == "sel"): return False
        if atom.op == "feq0" and val: return q is P or (q.op == "poly" and len(terms_of(q)) == 1)
        if atom.op == "fgt0" and not val: return q is P
    return False

def is_scaled(sig):
    """why a signal value is not the level-matched degraded signal, or None"""
    n = length(adata(DEG))
    j = sym("j", "u")
    want = scaled_elem(j)
    main = False
    for outer, s in leaves(sig):
        quiet_ = any(silent(a, v) for a, v in outer)
        d = adata(s)
        if length(d) is not n: return "it has %s samples instead of %s" % (show(length(d), 5), show(n, 5))
        if arate(s) is not arate(DEG): return "its sample rate is %s" % show(arate(s), 4)
        for cube, l in leaves(restrict(sel(d, j), ilt(j, n))):
            if l is want: main = True; continue
            if quiet_ or any(silent(a, v) for a, v in cube): continue
            return "sample j is %s on %s, the level-matched sample is %s" % (show(l, 7)[:300], showcube(tuple(outer) + tuple(cube))[:200], show(want, 7)[:300])
    if not main: return "no sample is ever level-matched"
    return None

def uroles():
    """U1's signals: (unit, {term: 'ref'|'deg'|reason}) of all signals handed to builds, patch creation and fine alignment"""
    u = u1()
    p = adt("AudioSignal")
    fi = fidx("AudioSignal", "data_matrix")
    out = []
    memo = {}
    for e in u.events:
        for i, a in enumerate(e["args"]):
            if e["name"].endswith("::build"): issig = i == 1
            else: issig = a in (REF, DEG) or (a.op == "agg" and a.a[0] == "adt:%s#0" % p)
            if not issig: continue
            if a not in memo:
                memo[a] = "ref" if a is REF else (is_scaled(a) or "deg")
            out.append((e, i, memo[a]))
    return u, out

def sides():
    """(build of the reference, build of the degraded signal, conditioned ref, conditioned deg)"""
    u, rs = uroles()
    b = [(e, r) for e, i, r in rs if e["name"].endswith("::build")]
    br = [e for e, r in b if r == "ref"]; bd = [e for e, r in b if r == "deg"]
    if len(br) != 1 or len(bd) != 1:
        raise Missing("one spectrogram of the reference and one of the level-matched degraded signal (signals built: %s)" % [r for _, r in b])
    R, D = [F(fld(e["ret"], 0, 0), "Spectrogram", "data") for e in (br[0], bd[0])]
    wr, wd = conditioned(R, D)
    args = {a for e in u.events for a in e["args"]}
    if not any(depends(a, wr) for a in args):
        d2, r2 = conditioned(D, R)          # the same pair, written from the other side
        if any(depends(a, r2) for a in args): wr, wd = r2, d2
    return u, br[0], bd[0], R, D, wr, wd
