"""roles of the columns of the filter design, from the values make_filters computes"""
from ..vn import *

NB = sym("<NUM_BANDS>", "u")

def design():
    mf = fnpath("::make_filters")
    cf = maybe("::calculate_uniform_center_freqs")
    u = unit(mf, (), cf, ["RATE", "LO", "HI"])
    return u, cf

def formulas(cf, T):
    """role -> value for a band with centre frequency cf and sample period T (Slaney's gammatone sections)"""
    f = lambda x: num(Fraction(x))
    pi = f(3.141592653589793)
    two = num(2)
    erb = add(fdiv(cf, f(9.26449)), f(24.7))
    B = summ(mul(mul(mul(f(1.019), two), pi), erb))
    e = fn("exp", mul(B, T))
    arg = mul(mul(mul(two, cf), pi), T)
    co, si = fn("cos", arg), fn("sin", arg)
    r2 = fn("sqrt", two)
    p = fn("sqrt", add(num(3), mul(two, r2)))
    q = fn("sqrt", sub(num(3), mul(two, r2)))
    def a1(s, r):
        return neg(fdiv(add(fdiv(mul(mul(two, T), co), e), mul(num(s), fdiv(mul(mul(mul(two, r), T), si), e))), two))
    imag = IMAG
    r = fn("sqrt", sub(num(3), mul(two, r2)))
    s_ = fn("sqrt", add(num(3), mul(two, r2)))
    ex = fn("exp", mul(mul(mul(mul(num(4), imag), cf), pi), T))
    x0 = mul(mul(num(-2), ex), T)
    x2 = mul(mul(two, fn("exp", add(neg(mul(B, T)), mul(mul(mul(mul(two, imag), cf), pi), T)))), T)
    x5 = add(sub(fdiv(num(-2), fn("exp", mul(two, mul(B, T)))), mul(two, ex)), fdiv(mul(two, add(ONE, ex)), e))
    pr = ONE
    for k in (neg(r), r, neg(s_), s_):
        pr = mul(pr, add(x0, mul(x2, add(co, mul(k, si)))))
    gain = fn("norm", fdiv(pr, powi(x5, 4)))
    return {"gain": gain, "a0": T, "a11": a1(1, p), "a12": a1(-1, p), "a13": a1(1, q), "a14": a1(-1, q), "a2": ZERO, "b0": ONE,
            "b1": fdiv(mul(num(-2), co), e), "b2": fn("exp", mul(num(-2), mul(B, T)))}

def roles():
    """the design evaluated: (unit, {role: column}, column values, formulas, centre frequency of the row, row, list of frequencies)"""
    u, cf = design()
    k = sym("row", "u")
    table, freqs = fld(u.ret, 0, 0), fld(u.ret, 0, 1)
    care = ilt(k, NB)
    mp = {}
    if length(freqs) is not NB: mp[length(freqs)] = NB
    at = lambda t: restrict(replace(t, mp), care)
    cfk = at(sel(freqs, k))
    want = formulas(cfk, fdiv(ONE, sym("RATE")))
    row = sel(table, k)
    ncol = length(row)
    n = int(ncol.a[0]) if is_num(ncol) else 0
    vals = [at(sel(row, num(i))) for i in range(n)]
    cols = {}
    for r, w in want.items():
        c = [i for i, v in enumerate(vals) if v is w and i not in cols.values()]
        if c: cols[r] = c[0]
    return u, cols, vals, want, cfk, k, freqs
