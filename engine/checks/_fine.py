"""fine alignment (U5): the i-th returned record by cases"""
from ..vn import *
from .. import lin

PR = "PatchSimilarityResult"
class Fine: pass
_f = None
def fine():
    global _f
    if _f: return _f
    f = Fine()
    u = f.u = u5()
    f.ok, v = oks(u.ret)
    f.sims = sym("SIMS"); f.i = sym("i", "u")
    f.n = length(drop_undef(restrict(v, f.ok)))
    rng = ilt(f.i, length(f.sims))
    x = restrict(sel(v, f.i), rng)
    f.old = sel(f.sims, f.i)
    f.cases = [(cube, l) for cube, l in leaves(x) if l.op != "undef"]
    _f = f
    return f

def old(f, name): return F(f.old, PR, name)

def measured(l):
    """the measurement a record is built from: (term, why not)"""
    src = set()
    for name in ("freq_band_means", "freq_band_stddevs", "freq_band_deg_energy", "similarity"):
        x = F(l, PR, name)
        k = fidx(PR, name)
        src.add(x.a[0] if x.op == "fld" and x.a[2] == k else None)
    m = src.pop() if len(src) == 1 else None
    if m is None or m.op != "app" or not m.a[0].endswith("measure_patch_similarity"): return None
    return m

def audio(m, k):
    """the audio whose spectrogram is argument k (1 reference, 2 degraded) of a measurement"""
    t = m.a[1 + k]
    b = outermost(t.a[0] if t.op == "tab" else t, lambda z: z.op == "app" and z.a[0].endswith("::build"))
    a = {z.a[2] for z in b}
    return a.pop() if len(a) == 1 else None

def outermost(t, pred):
    """the subterms that satisfy pred, not looking inside them"""
    out = set()
    def f(z):
        if pred(z): out.add(z); return False
    TT.walk(t, f)
    return out

def excludes(cube, cond):
    return lin.valid(bnot(band(cubecond(cube), cond))) is None
