"""conditioning of a pair of spectrograms, as reference expressions"""
from ..vn import *

FLOOR, RANGE = num(-45), num(45)

def decibel(a):
    return ite(feq0(a), FLOOR, fmax(FLOOR, mul(num(10), fn("log10", fabs(a)))))

def conditioned(x, y):
    """the pair of matrices x, y after conditioning as a pair"""
    def col(m, c): return mkext("amax", length(m), lambda r: decibel(sel(sel(m, r), c)))
    both = imin(ncols(x), ncols(y))
    def raised(m):
        def e(r, c):
            v = decibel(sel(sel(m, r), c))
            return ite(ilt(c, both), fmax(sub(fmax(col(x, c), col(y, c)), RANGE), v), v)
        return mktab(length(m), lambda r: mktab(ncols(m), lambda c: e(r, c)))
    a, b = raised(x), raised(y)
    def low(m): return mkext("amin", length(m), lambda r: mkext("amin", ncols(m), lambda c: sel(sel(m, r), c)))
    lo = fmin(low(a), low(b))
    def shift(m): return mktab(length(m), lambda r: mktab(ncols(m), lambda c: sub(sel(sel(m, r), c), lo)))
    return shift(a), shift(b)
