"""the spectrogram's element (band b, frame f) as an expression over the samples"""
from ..vn import *
from ._filters import *

class Spec: pass
_s = None
def spectrogram():
    global _s
    if _s: return _s
    s = Spec()
    u = s.u = u3()
    s.ok, v = oks(u.ret)
    s.r = drop_undef(restrict(v, s.ok))
    s.data, s.freqs = F(s.r, "Spectrogram", "data"), F(s.r, "Spectrogram", "center_freq_bands")
    s.b, s.f = sym("b", "u"), sym("f", "u")
    s.rows, s.cols = length(s.data), ncols(s.data)
    s.care = band(s.ok, ilt(s.b, s.rows), ilt(s.f, s.cols))
    s.E = drop_undef(restrict(sel(sel(s.data, s.b), s.f), s.care))
    s.SIG, s.WIN = sym("SIG"), sym("WIN")
    s.x = F(s.SIG, "AudioSignal", "data_matrix")
    s.W = F(s.WIN, "AnalysisWindow", "size")
    s.hop = trunc(mul(s.W, F(s.WIN, "AnalysisWindow", "overlap")))
    mf = events(u, "::make_filters")
    s.mf = mf[0]["ret"] if len({e["ret"] for e in mf}) == 1 else None
    s.table = fld(s.mf, 0, 0) if s.mf is not None else None
    _s = s
    return s

def rms_cascade(s, coef):
    """reference value of the element for coefficients coef(role)"""
    c = {r: coef(r) for r in ("gain", "a0", "a11", "a12", "a13", "a14", "a2", "b0", "b1", "b2")}
    y = cascade(c, lambda j: sel(s.x, add(j, mul(s.f, s.hop))))
    return fn("sqrt", fdiv(mksum(s.W, lambda j: powi(y(j), 2)), s.W))
