"""Hash-consed value numbers: the abstract domain of the analysis.

Numbers are polynomials with rational coefficients over atoms (integers and reals share the
representation: integer arithmetic is mathematical, float arithmetic is real arithmetic).
Booleans and gated values are ordered decision diagrams over atomic conditions.
Arrays are comprehensions (tab), loops become tab/sum/fseq/rec nodes with bound variables.
"""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ("id", "op", "a", "sort", "fv", "h", "nd", "__weakref__")
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

REBUILD_LATE = []
_tab = {}
_memo = {}
EMPTY = frozenset()

def _fv_of(a):
    s = EMPTY; h = 0
    for x in a:
        if type(x) is T:
            if x.fv:
                s = s | x.fv if s else x.fv
            if x.h > h:
                h = x.h
        elif type(x) is tuple:
            f, g = _fv_of(x)
            if f: s = s | f
            if g > h: h = g
    return s, h

def raw(op, *a, sort=None):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.id = len(_tab); t.sort = sort; t.nd = None
        f, h = _fv_of(a)
        if op == "lam":
            t.h = a[0] + 1
            f = frozenset(x for x in f if not (x.op == "bv" and x.a[0] == a[0]))
        elif op == "bv":
            t.h = 0
        else:
            t.h = h
        t.fv = f
        if op in ("K", "phi", "bv", "sym"):
            t.fv = frozenset((t,))
            if op == "phi": t.h = 0
        _tab[k] = t
    elif sort is not None and t.sort is None:
        t.sort = sort
    return t

TRUE = raw("true", sort="b")
FALSE = raw("false", sort="b")
UNIT = raw("agg", "tuple")

# ------------------------------------------------------------------ numbers
def num(x):
    return raw("num", Fr(x), sort="n")
ZERO = num(0); ONE = num(1)

def is_num(t):
    return t.op == "num"

def terms_of(t):
    """poly as dict mono->coeff; mono = tuple((atom,exp)) sorted by atom id"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, 1),): Fr(1)}

def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0])))
    return raw("poly", *items, sort="n")

def _addp(a, b, kb=1):
    d = terms_of(a)
    for m, c in terms_of(b).items():
        d[m] = d.get(m, 0) + c * kb
    return _mkpoly(d)

def _mulmono(m1, m2):
    d = {}
    for x, e in m1: d[x] = d.get(x, 0) + e
    for x, e in m2: d[x] = d.get(x, 0) + e
    return d

def _special(x, e):
    return (x.op == "fn" and x.a[0] in ("sqrt", "abs") and abs(e) >= 2) or (x.op == "imag" and (e < 0 or e >= 2))

def _normmono(d, c):
    """dict atom->exp, coeff -> poly term list (handles sqrt^2, i^2)"""
    extra = None
    out = {}
    for x, e in d.items():
        if not e:
            continue
        if x.op == "imag":
            e %= 4
            if e >= 2: c = -c
            if e % 2: out[x] = 1
            continue
        if x.op == "fn" and x.a[0] == "sqrt" and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            p = powi(x.a[1], q if e > 0 else -q)
            extra = p if extra is None else mul(extra, p)
            if r:
                out[x] = r if e > 0 else -r
        elif x.op == "fn" and x.a[0] == "abs" and abs(e) >= 2:
            r = abs(e) % 2
            p = powi(x.a[1], (abs(e) - r) * (1 if e > 0 else -1))
            extra = p if extra is None else mul(extra, p)
            if r:
                out[x] = 1 if e > 0 else -1
        else:
            out[x] = e
    m = tuple(sorted(out.items(), key=lambda xe: xe[0].id))
    r = _mkpoly({m: c})
    return r if extra is None else mul(r, extra)

def _mulp(a, b):
    A, B = terms_of(a), terms_of(b)
    if len(A) > 1 and len(B) > 1 and len(A) * len(B) > 160:
        if len(A) >= len(B):
            a = _wrap(a); A = terms_of(a)
        else:
            b = _wrap(b); B = terms_of(b)
    acc = {}
    others = []
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            d = _mulmono(m1, m2)
            if any(_special(x, e) for x, e in d.items()):
                others.append(_normmono(d, c1 * c2))
                continue
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].id))
            acc[m] = acc.get(m, 0) + c1 * c2
    r = _mkpoly(acc)
    for o in others:
        r = _addp(r, o)
    # (c*q) * psum(q)^-1
    return r

def _lead(p):
    return p.a[0][1] if p.op == "poly" else Fr(1)

def _wrap(p):
    """sum -> scaled atom"""
    if p.op != "poly" or len(p.a) == 1:
        return p
    l = _lead(p)
    q = _mkpoly({m: c / l for m, c in p.a})
    return _mkpoly({((raw("psum", q, sort="f"), 1),): l})

def _invp(p):
    if p.op == "num":
        if p.a[0] == 0:
            return raw("fconst", "inf", sort="f")
        return num(1 / p.a[0])
    if p.op == "poly" and len(p.a) > 1:
        p = _wrap(p)
    (m, c), = terms_of(p).items()
    return _normmono({x: -e for x, e in m}, 1 / c)

def _divp(a, b):
    if b.op == "num" and b.a[0] != 0:
        return _mulp(a, num(1 / b.a[0]))
    if a.op == "poly" and b.op == "poly" and len(a.a) == len(b.a) and len(a.a) > 1:
        k = a.a[0][1] / b.a[0][1]
        if all(m1 == m2 and c1 == k * c2 for (m1, c1), (m2, c2) in zip(a.a, b.a)):
            return num(k)
    return _mulp(a, _invp(b))

def isnumeric(t):
    return t.op in ("num", "poly") or t.sort in ("n", "u", "i", "f")

def lift(f):
    """apply f pointwise over decision diagrams"""
    name = f.__name__
    def g(*args):
        if not any(x.op == "ite" for x in args):
            return f(*args)
        key = (name, args)
        r = _memo.get(key)
        if r is None:
            if sum(_size(x) for x in args if x.op == "ite") > 400:
                return f(*[_box(x) for x in args])
            c = min((x.a[0] for x in args if x.op == "ite"), key=lambda t: t.id)
            hi = g(*[cof(x, c, True) for x in args])
            lo = g(*[cof(x, c, False) for x in args])
            r = ite1(c, hi, lo)
            _memo[key] = r
        return r
    g.__name__ = name
    return g

def _size(t, seen=None):
    if t.op != "ite":
        return 0
    k = ("size", t)
    r = _memo.get(k)
    if r is None:
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x.op == "ite" and x not in seen:
                seen.add(x); st.append(x.a[1]); st.append(x.a[2])
        r = _memo[k] = len(seen)
    return r

def _box(t):
    return raw("box", t, sort="f") if t.op == "ite" else t

add = lift(lambda a, b: _addp(a, b)); 
def _f(a, b): return _addp(a, b)
_f.__name__ = "add"; add = lift(_f)
def _f(a, b): return _addp(a, b, -1)
_f.__name__ = "sub"; sub = lift(_f)
def _f(a, b): return _mulp(a, b)
_f.__name__ = "mul"; mul = lift(_f)
def _f(a, b): return _divp(a, b)
_f.__name__ = "fdiv"; fdiv = lift(_f)
def neg(a): return sub(ZERO, a)

def powi(a, n):
    if n < 0:
        return fdiv(ONE, powi(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r

def summ(*xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r

# atoms known non-negative
def mkext(which, n, f):
    """largest / smallest element of the non-empty family f(k), k < n"""
    K = freshK()
    return ext(which, n, lam(K, f(K)))
def rowwise(n, K, body):
    """a family over n = q * m that depends on k by k div m and k mod m only: (q, m, (i, j) -> its value at i * m + j)"""
    if n.op != "poly" or K not in body.fv: return None
    m = set(); seen = set(); bad = False; st = [body]
    while st and not bad:
        z = st.pop()
        if type(z) is tuple: st += z; continue
        if type(z) is not T or z in seen or K not in z.fv: continue
        seen.add(z)
        if z is K: bad = True
        elif z.op in ("idiv", "imod") and z.a[0] is K and K not in z.a[1].fv: m.add(z.a[1])
        else: st += z.a
    if bad or len(m) != 1: return None
    m = m.pop()
    if m.op in ("num", "ite", "poly"): return None
    t = terms_of(n)
    if any(all(x is not m or e < 1 for x, e in mono) for mono in t): return None
    q = fdiv(n, m)
    if mul(q, m) is not n: return None
    return q, m, lambda i, j: replace(body, {idiv(K, m): i, imod(K, m): j})
def ext(which, n, l):
    if n.op == "ite": return mapleaves(lambda x: ext(which, x, l), n)
    K, body = openl(l)
    body = under_range(body, K, n)
    if K not in body.fv: return body
    rc = rowwise(n, K, body)
    if rc is not None: return mkext(which, rc[0], lambda i: mkext(which, rc[1], lambda j: rc[2](i, j)))
    if is_num(n) and 0 < n.a[0] <= 16:
        r = app(l, ZERO)
        for i in range(1, int(n.a[0])): r = (fmax if which == "amax" else fmin)(r, app(l, num(i)))
        return r
    return raw(which, n, lam(K, body), sort="f" if not integral(body) else "u" if nonneg(body) else "i")
for _w in ("amax", "amin"):
    REBUILD_LATE.append((_w, (lambda w: lambda n, l: ext(w, n, l))(_w)))

def nonneg(t):
    if t.op == "num":
        return t.a[0] >= 0
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(x) or e % 2 == 0 for x, e in m) for m, c in t.a)
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.sort == "u":
        return True
    if t.op == "fn":
        return t.a[0] in ("sqrt", "exp", "abs", "norm")
    if t.op in ("sum", "amax", "amin"):
        return nonneg(t.a[1].a[1])
    if t.op in ("len", "dim", "K", "idiv", "imod", "first", "bv"):
        return True
    if t.op in ("psum", "box"):
        return nonneg(t.a[0])
    return False

def integral(t):
    if t.op == "num":
        return t.a[0].denominator == 1
    if t.op == "poly":
        return all(c.denominator == 1 and all(integral(x) and e > 0 for x, e in m) for m, c in t.a)
    if t.op == "ite":
        return integral(t.a[1]) and integral(t.a[2])
    if t.sort in ("u", "i"):
        return True
    if t.op in ("len", "dim", "K", "idiv", "imod", "first", "trunc", "bv", "ceil", "floor", "round"):
        return True
    if t.op == "fn" and t.a[0] in ("floor", "ceil", "round", "trunc"):
        return True
    if t.op == "sum":
        return integral(t.a[1].a[1])
    return False

# ------------------------------------------------------------------ conditions
def _scale(p):
    """scale so that leading coeff is +-1 (reals) """
    l = abs(_lead(p))
    if l == 1:
        return p
    return _mkpoly({m: c / l for m, c in terms_of(p).items()})

_splits = {}
def _split(p):
    """poly -> (poly without constant, constant)"""
    r = _splits.get(p)
    if r is None:
        d = terms_of(p)
        c = d.pop((), Fr(0))
        r = _splits[p] = (_mkpoly(d), c)
    return r

def _mklead(d):
    return min(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]) if mc[0] else (10**9,))

def _ge0i(p):
    """integer p >= 0"""
    if p.op == "num":
        return TRUE if p.a[0] >= 0 else FALSE
    if nonneg(p):
        return TRUE
    d = terms_of(p)
    c0 = d.pop((), Fr(0))
    # integer normalisation: divide by gcd, floor constant
    from math import gcd
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, int(c * den))
    k = Fr(den, g)
    d = {m: c * k for m, c in d.items()}
    c0 = c0 * k
    c0 = Fr(c0.numerator // c0.denominator)
    m, lc = _mklead(d)
    base = _mkpoly(d)
    # upper-bounded by sign: -u - 1 >= 0 false
    if lc > 0:
        q = _mkpoly({**d, (): c0})
        if nonneg(q): return TRUE
        if nonneg(sub(num(-1), q)): return FALSE
        return ite1(raw("ge0", q, sort="b"), TRUE, FALSE)
    nd = {m: -c for m, c in d.items()}
    q = _mkpoly({**nd, (): -c0 - 1})
    if nonneg(q): return FALSE
    if nonneg(sub(num(-1), q)): return TRUE
    return ite1(raw("ge0", q, sort="b"), FALSE, TRUE)
_ge0i.__name__ = "ge0i"
ge0i = lift(_ge0i)

def _eq0i(p):
    if p.op == "num":
        return TRUE if p.a[0] == 0 else FALSE
    d = terms_of(p)
    if nonneg(p):
        return bnot(_ge0i(_addp(p, num(-1))))
    if nonneg(sub(ZERO, p)):
        return bnot(_ge0i(_addp(neg(p), num(-1))))
    m, lc = _mklead({m: c for m, c in d.items() if m})
    if lc < 0:
        p = neg(p)
    l = abs(lc)
    p = _mkpoly({m: c / l for m, c in terms_of(p).items()})
    if not integral(p) and all(integral(x) for m, c in terms_of(p).items() for x, e in m) and \
       all(e > 0 for m, c in terms_of(p).items() for x, e in m):
        from math import gcd
        den = 1
        for c in terms_of(p).values():
            den = den * c.denominator // gcd(den, c.denominator)
        dd = {m: c * den for m, c in terms_of(p).items()}
        g = 0
        for m, c in dd.items():
            if m: g = gcd(g, int(c))
        if g and dd.get((), Fr(0)) % g:
            return FALSE
    return ite1(raw("eq0", p, sort="b"), TRUE, FALSE)
_eq0i.__name__ = "eq0i"
eq0i = lift(_eq0i)

def _flt(a, b):
    """real a < b"""
    p = _addp(b, a, -1)
    return _fgt0(p)
_flt.__name__ = "flt"

def constval(t):
    """float value of a constant expression, or None"""
    import math
    try:
        if t.op == "num": return float(t.a[0])
        if t.op == "poly":
            s = 0.0
            for m, c in t.a:
                x = float(c)
                for y, e in m:
                    v = constval(y)
                    if v is None: return None
                    x *= v ** e
                s += x
            return s
        if t.op in ("psum", "box"): return constval(t.a[0])
        if t.op == "fn":
            xs = [constval(x) for x in t.a[1:]]
            if None in xs: return None
            f = {"log10": math.log10, "ln": math.log, "log": math.log, "exp": math.exp, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos,
                 "tan": math.tan, "powf": lambda a, b: a ** b, "abs": abs}.get(t.a[0])
            return f(*xs) if f else None
    except (ArithmeticError, ValueError):
        pass
    return None

def _fgt0(p):
    if p.op == "num":
        return TRUE if p.a[0] > 0 else FALSE
    if integral(p):
        return _ge0i(_addp(p, num(-1)))
    if nonneg(neg(p)):
        return FALSE
    if not p.fv:
        v = constval(p)
        if v is not None and abs(v) > 1e-9: return TRUE if v > 0 else FALSE
    d = terms_of(p)
    if all(e == 1 or e > 0 for mm in d for x, e in mm) and all(integral(x) for mm in d for x, e in mm):
        # rational combination of integers: p > 0 iff its integer multiple exceeds the floor of minus the constant
        import math
        L = 1
        for mm, c in d.items():
            if mm: L = L * c.denominator // math.gcd(L, c.denominator)
        c0 = d.get((), Fr(0)) * L
        q = _mkpoly({mm: c * L for mm, c in d.items() if mm})
        return ge0i(_addp(q, num(-(math.floor(-c0) + 1))))
    if len(d) == 1 and nonneg(p): return bnot(feq0(p))
    if d.get((), 0) > 0 and nonneg(p): return TRUE
    m, lc = _mklead({m: c for m, c in d.items() if m})
    if lc > 0:
        return ite1(raw("fgt0", _mkpoly({m: c / lc for m, c in d.items()}), sort="b"), TRUE, FALSE)
    q = _mkpoly({m: c / lc for m, c in d.items()})
    if nonneg(q):
        # p<0 or =0 handled; -p >= 0 => p>0 false
        return FALSE
    return ite1(raw("fge0", q, sort="b"), FALSE, TRUE)
_fgt0.__name__ = "fgt0"
fgt0 = lift(_fgt0)
def fge0(a): return bnot(fgt0(neg(a)))
def flt(a, b): return fgt0(sub(b, a))
def fle(a, b): return bnot(fgt0(sub(a, b)))
def _feq0(p):
    if p.op == "num":
        return TRUE if p.a[0] == 0 else FALSE
    if integral(p):
        return _eq0i(p)
    d = terms_of(p)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) > 1 or m[0][1] != 1:
            return bor(*[feq0(x) for x, e in m if e > 0])
        x = m[0][0]
        if x.op == "fn" and x.a[0] in ("abs", "sqrt") : return feq0(x.a[1])
        if x.op == "fn" and x.a[0] == "exp": return FALSE
    c0 = d.get((), 0)
    if c0 > 0 and nonneg(p) or c0 < 0 and nonneg(neg(p)): return FALSE
    m, lc = _mklead({m: c for m, c in d.items() if m})
    return ite1(raw("feq0", _mkpoly({m: c / lc for m, c in d.items()}), sort="b"), TRUE, FALSE)
_feq0.__name__ = "feq0"
feq0 = lift(_feq0)

def ilt(a, b): return ge0i(sub(sub(b, a), ONE))
def ile(a, b): return ge0i(sub(b, a))
def ieq(a, b): return eq0i(sub(a, b))

# ------------------------------------------------------------------ decision diagrams
def implied(atom, fact, val):
    """truth of atom given fact==val, or None"""
    if atom is fact:
        return val
    o, f = atom.op, fact.op
    if o in ("ge0", "eq0") and f in ("ge0", "eq0"):
        b1, c1 = _split(atom.a[0]); b2, c2 = _split(fact.a[0])
        if b1 is b2:
            s = 1
        else:
            if o == "ge0" and f == "ge0": return None
            # eq0 scaled differently: compare up to sign
            if _addp(b1, b2) is ZERO: s = -1
            else: return None
        # base value v: atom ge0: v+c1>=0 ; in terms of fact's base w, v = s*w
        if f == "eq0" and val:
            w = -c2; v = s * w
            return (v + c1 >= 0) if o == "ge0" else (v + c1 == 0)
        if f == "ge0":
            # val: w >= -c2 ; not val: w <= -c2-1
            if o == "ge0":
                if val and c1 >= c2: return True
                if not val and c1 <= c2: return False
            else:
                v = -c1; w = s * v
                if val and w < -c2: return False
                if not val and w > -c2 - 1: return False
        return None
    if o in ("fgt0", "fge0", "feq0") and f in ("fgt0", "fge0", "feq0"):
        b1, c1 = _split(atom.a[0]); b2, c2 = _split(fact.a[0])
        if b1 is not b2: return None
        # v = base ; lower/upper info
        if f == "feq0":
            if not val: return None
            v = -c2
            return {"fgt0": v + c1 > 0, "fge0": v + c1 >= 0, "feq0": v + c1 == 0}[o]
        strict = (f == "fgt0")
        if val:   # v > -c2 or v >= -c2
            lo = -c2
            if o == "fgt0":
                if -c1 < lo or (-c1 == lo and strict): return True
            elif o == "fge0":
                if -c1 <= lo: return True
            else:
                if -c1 < lo or (-c1 == lo and strict): return False
        else:     # v <= -c2 (strict fact) or v < -c2
            hi = -c2; hs = not strict
            if o == "fgt0":
                if -c1 >= hi: return False
            elif o == "fge0":
                if -c1 > hi or (-c1 == hi and hs): return False
            else:
                if -c1 > hi or (-c1 == hi and hs): return False
        return None
    if o == "disc" and f == "disc" and val and atom.a[0] is fact.a[0]:
        return atom.a[1] == fact.a[1]
    return None

_groups = {}; _gids = {}; _gmask = {}
def _group(atom):
    """number of the family of atoms that can decide one another"""
    r = _groups.get(atom)
    if r is None:
        k = _group_(atom)
        r = _groups[atom] = _gids.setdefault(k, len(_gids))
    return r
def _mask(t):
    """set of families tested in a decision diagram, as bits"""
    if t.op != "ite": return 0
    r = _gmask.get(t)
    if r is None:
        r = _gmask[t] = (1 << _group(t.a[0])) | _mask(t.a[1]) | _mask(t.a[2])
    return r
def _group_(atom):
    o = atom.op
    if o in ("ge0", "eq0", "fgt0", "fge0", "feq0"):
        b, _ = _split(atom.a[0])
        return ("i" if o in ("ge0", "eq0") else "f", frozenset(m for m in terms_of(b)))
    if o == "disc":
        return ("d", atom.a[0])
    return ("x", atom)

def assume(t, atom, val):
    """simplify t knowing atom==val"""
    if t.op != "ite" or not (_mask(t) >> _group(atom)) & 1:
        return t
    k = ("assume", t, atom, val)
    r = _memo.get(k)
    if r is not None:
        return r
    x = t.a[0]
    iv = None
    if x is atom:
        iv = val
    elif _group(x) == _group(atom):
        iv = implied(x, atom, val)
    if iv is True:
        r = assume(t.a[1], atom, val)
    elif iv is False:
        r = assume(t.a[2], atom, val)
    else:
        h = assume(t.a[1], atom, val); l = assume(t.a[2], atom, val)
        r = t if (h is t.a[1] and l is t.a[2]) else ite1(x, h, l)
    _memo[k] = r
    return r

def cof(t, atom, val):
    return assume(t, atom, val)

def ite1(atom, hi, lo):
    if hi is lo:
        return hi
    hi = assume(hi, atom, True); lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    if atom.op == "fge0" and hi.op != "ite" and lo.op != "ite" and isnumeric(hi) and isnumeric(lo):
        # same value on the boundary: max/min written either way round
        d = _addp(hi, lo, -1); p = atom.a[0]
        if d.op != "num":
            l1, l2 = _mklead({m: c for m, c in terms_of(d).items() if m}), _mklead({m: c for m, c in terms_of(p).items() if m})
            if l1[0] == l2[0] and _mkpoly({m: c * l2[1] / l1[1] for m, c in terms_of(d).items()}) is p:
                return ite1(raw("fgt0", p, sort="b"), hi, lo)
    if atom.op == "ge0" and hi.op != "ite" and lo.op != "ite" and isnumeric(hi) and isnumeric(lo):
        # likewise for whole numbers: a > b ? a : b is a >= b ? a : b
        d = _addp(hi, lo, -1)
        if d.op != "num":
            q = _addp(atom.a[0], ONE)
            l1, l2 = _mklead({m: c for m, c in terms_of(d).items() if m}), _mklead({m: c for m, c in terms_of(q).items() if m})
            if l1[0] == l2[0] and _mkpoly({m: c * l2[1] / l1[1] for m, c in terms_of(d).items()}) is q:
                return ite(ge0i(q), hi, lo)
    if atom.op in ("fge0", "fgt0") and hi.op not in ("ite", "num") and isnumeric(hi) and isnumeric(lo) and _addp(hi, lo) is ZERO:
        # x < 0 ? -x : x
        th, p = terms_of(hi), atom.a[0]
        tp = terms_of(p)
        if len(th) == len(tp) and set(th) == set(tp):
            k = {th[m] / tp[m] for m in th}
            if len(k) == 1: return fabs(hi) if k.pop() > 0 else neg(fabs(hi))
    if atom.op == "some" and atom.a[0] is not None and atom.a[0].op == "len":
        # the first k < n with p(k), or else n
        f = raw("first", atom.a[1], atom.a[0], sort="u")
        if hi is f or hi.op not in ("num", "true", "false") and depends(hi, f):
            if replace(hi, {f: atom.a[0]}) is lo:
                n = atom.a[0]
                K, c = openl(atom.a[1])
                f2 = raw("first", lam(K, bor(ieq(n, K), c)), sort="u")
                return f2 if hi is f else replace(hi, {f: f2})
    # keep order: if a smaller atom is on top of a branch, push down
    top = atom
    for b in (hi, lo):
        if b.op == "ite" and b.a[0].id < top.id:
            top = b.a[0]
    if top is not atom:
        return ite1(top, ite1(atom, assume(hi, top, True), assume(lo, top, True)),
                    ite1(atom, assume(hi, top, False), assume(lo, top, False)))
    # redundant test: lo assumed under val equal?
    if assume(lo, atom, True) is hi and lo.op == "ite" and _group(lo.a[0]) == _group(atom):
        return lo
    if assume(hi, atom, False) is lo and hi.op == "ite" and _group(hi.a[0]) == _group(atom):
        return hi
    s = hi.sort if hi.sort == lo.sort else ("n" if isnumeric(hi) and isnumeric(lo) else (hi.sort or lo.sort))
    if hi in (TRUE, FALSE) or lo in (TRUE, FALSE):
        s = "b"
    return raw("ite", atom, hi, lo, sort=s)

def ite(c, a, b):
    """c: decision diagram over TRUE/FALSE"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op != "ite":
        return ite1(c, a, b)
    if a is TRUE and b is FALSE: return c
    k = ("ITE", c, a, b)
    r = _memo.get(k)
    if r is None:
        x = min((y.a[0] for y in (c, a, b) if y.op == "ite"), key=lambda t: t.id)
        r = ite1(x, ite(cof(c, x, True), cof(a, x, True), cof(b, x, True)),
                 ite(cof(c, x, False), cof(a, x, False), cof(b, x, False)))
        _memo[k] = r
    return r

def tobool(t):
    """opaque boolean term -> diagram"""
    if t in (TRUE, FALSE) or t.op == "ite":
        return t
    return ite1(t, TRUE, FALSE)
def bnot(a): return ite(tobool(a), FALSE, TRUE)
def band(*xs):
    r = TRUE
    for x in xs: r = ite(r, tobool(x), FALSE)
    return r
def bor(*xs):
    r = FALSE
    for x in xs: r = ite(r, TRUE, tobool(x))
    return r
def bimp(a, b): return bor(bnot(a), b)

def restrict(f, care):
    """simplify f on the care set (don't care outside)"""
    if care is FALSE or f.op != "ite" or care is TRUE:
        return f
    k = ("restrict", f, care)
    r = _memo.get(k)
    if r is not None:
        return r
    x = min((y.a[0] for y in (f, care) if y.op == "ite"), key=lambda t: t.id)
    ch, cl = cof(care, x, True), cof(care, x, False)
    if ch is FALSE:
        r = restrict(assume(f, x, False), cl)
    elif cl is FALSE:
        r = restrict(assume(f, x, True), ch)
    elif f.a[0] is x:
        r = ite1(x, restrict(assume(f, x, True), ch), restrict(assume(f, x, False), cl))
    else:
        r = restrict(f, bor(ch, cl))
    _memo[k] = r
    return r

def atoms(t):
    """atoms a diagram tests"""
    out = []; seen = set()
    def go(z):
        if z.op != "ite" or z in seen: return
        seen.add(z)
        out.append(z.a[0]); go(z.a[1]); go(z.a[2])
    go(t)
    return out

def leaves(t):
    """[(cube, leaf)] with cube = list of (atom,bool)"""
    out = []
    def go(t, cube):
        if t.op == "ite":
            go(t.a[1], cube + [(t.a[0], True)]); go(t.a[2], cube + [(t.a[0], False)])
        else:
            out.append((cube, t))
    go(t, [])
    return out

def mapleaves(f, t):
    if t.op != "ite":
        return f(t)
    memo = {}
    def go(t):
        if t.op != "ite":
            return f(t)
        r = memo.get(t)
        if r is None:
            r = memo[t] = ite(ite1(t.a[0], TRUE, FALSE), go(t.a[1]), go(t.a[2]))
        return r
    return go(t)

# ------------------------------------------------------------------ binders
def sym(name, sort=None):
    return raw("sym", name, sort=sort)

_fresh = [0]
def freshK():
    _fresh[0] += 1
    return raw("K", ("fresh", _fresh[0]), sort="u")

def lam(K, body):
    """abstract symbol K"""
    h = body.h
    b = raw("bv", h, sort=K.sort or "u")
    return raw("lam", h, rename(body, K, b))

RENRAW = frozenset(("tab", "sum", "sel", "lam", "agg", "fld", "app", "rec", "first", "some", "cat", "slc", "amax", "amin", "mut", "upd", "updf", "generics"))
def rename(t, a, b, memo=None):
    """a renamed to the fresh b: no rule can apply anew, only orderings change"""
    if memo is None: memo = {}
    def go(t):
        if a not in t.fv: return t
        if t is a: return b
        r = memo.get(t)
        if r is not None: return r
        o = t.op
        if o == "poly": r = mappoly(t, go)
        elif o == "ite": r = ite(tobool(go(t.a[0])), go(t.a[1]), go(t.a[2]))
        else:
            x = tuple(sa(y) for y in t.a)
            if o in RENRAW:
                r = raw(o, *x, sort=t.sort)
                if t.nd is not None: r.nd = t.nd
                s = SHAPE.get(t)
                if s is not None and r not in SHAPE: SHAPE[r] = s
            else: r = build(o, x, t.sort, t.nd)
        memo[t] = r
        return r
    def sa(x):
        if type(x) is T: return go(x)
        if type(x) is tuple: return tuple(sa(y) for y in x)
        return x
    return go(t)

_opened = {}
def openc(l):
    """body under a symbol reserved for this binder"""
    r = _opened.get(l)
    if r is None:
        K = raw("K", ("binder", l.id), sort="u")
        r = _opened[l] = (K, rename(l.a[1], raw("bv", l.a[0], sort="u"), K))
    return r

def app(l, arg):
    """instantiate lam"""
    assert l.op == "lam"
    b = raw("bv", l.a[0], sort="u")
    return subst(l.a[1], {b: arg})

def openl(l):
    K = freshK()
    return K, rename(l.a[1], raw("bv", l.a[0], sort="u"), K)

SHAPE = {}
REBUILD = {}
def rebuild(op):
    def d(f):
        REBUILD[op] = f
        return f
    return d

def mappoly(t, f):
    """polynomial with every atom y replaced by f(y)"""
    acc = {}; rest = []
    for m, c in t.a:
        d = {}; odd = False; ys = []
        for y, e in m:
            z = f(y)
            ys.append((z, e))
            if z.op in ("num", "poly", "ite", "psum", "box"): odd = odd or z is not y
            d[z] = d.get(z, 0) + e
        if odd or any(_special(x, e) for x, e in d.items()):
            x = num(c)
            for z, e in ys: x = mul(x, powi(z, e))
            rest.append(x)
        else:
            k = tuple(sorted([(x, e) for x, e in d.items() if e], key=lambda xe: xe[0].id))
            acc[k] = acc.get(k, 0) + c
    r = _mkpoly(acc)
    for x in rest: r = add(r, x)
    return r

def subst(t, mp, memo=None):
    if not t.fv:
        return t
    if memo is None:
        memo = {}
        keys = frozenset(mp)
    else:
        keys = memo["keys"]
    memo["keys"] = keys
    return _subst(t, mp, memo, keys)

def _subst(t, mp, memo, keys):
    if t in mp:
        return mp[t]
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lam":
        b = raw("bv", t.a[0], sort="u")
        K = raw("K", ("binder", t.id), sort="u")
        if b in mp:
            mp2 = {k: v for k, v in mp.items() if k is not b}
            r = lam_s(t, mp2)
        elif K in keys or any(K in v.fv for v in mp.values()):
            r = lam_s(t, mp)
        else:
            K, body = openc(t)
            r = lam(K, _subst(body, mp, memo, keys))
    elif t.op in ("num",):
        r = t
    elif t.op == "poly":
        r = mappoly(t, lambda y: _subst(y, mp, memo, keys))
    elif t.op == "ite":
        r = ite(tobool(_subst(t.a[0], mp, memo, keys)), _subst(t.a[1], mp, memo, keys), _subst(t.a[2], mp, memo, keys))
    else:
        def sa(x):
            if type(x) is T:
                return _subst(x, mp, memo, keys)
            if type(x) is tuple:
                return tuple(sa(y) for y in x)
            return x
        a = tuple(sa(x) for x in t.a)
        r = build(t.op, a, t.sort, t.nd)
    memo[t] = r
    return r

def lam_s(t, mp):
    K, body = openl(t)
    return lam(K, subst(body, mp))

REBUILD.update(dict(REBUILD_LATE))
def build(op, a, sort=None, nd=None):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    r = raw(op, *a, sort=sort)
    if nd is not None: r.nd = nd
    return r

@rebuild("ge0")
def _(p): return ge0i(p)
@rebuild("eq0")
def _(p): return eq0i(p)
@rebuild("fgt0")
def _(p): return fgt0(p)
@rebuild("fge0")
def _(p): return bnot(fgt0(neg(p)))
@rebuild("feq0")
def _(p): return feq0(p)
@rebuild("psum")
def _(p): return p
@rebuild("box")
def _(p): return p

# ------------------------------------------------------------------ aggregates
def agg(kind, *fs):
    if kind.startswith("adt:") and fs:
        # eta
        f0 = fs[0]
        if f0.op == "fld" and f0.a[2] == 0:
            b = f0.a[0]
            if all(f.op == "fld" and f.a[0] is b and f.a[2] == i for i, f in enumerate(fs)) and \
               kind.endswith("#0") and ETA.get(kind, False):
                return b
    return raw("agg", kind, *fs)
ETA = {}
@rebuild("agg")
def _(kind, *fs): return agg(kind, *fs)

UNDEF = raw("undef")
def drop_undef(x):
    """forget branches that cannot be taken (field of another variant)"""
    if x.op != "ite": return x
    c = mapleaves(lambda l: FALSE if l.op == "undef" else TRUE, x)
    if c is TRUE or c is FALSE: return x
    return restrict(x, c)

def _fld(t, v, i):
    if t.op == "undef": return t
    if t.op == "agg":
        if t.a[0].startswith("adt:") and not t.a[0].endswith("#%d" % v): return UNDEF
        if 1 + i < len(t.a):
            return t.a[1 + i]
        return UNDEF
    if t.op == "updf":
        if t.a[1] == i: return t.a[2]
        return _fld(t.a[0], v, i)
    return raw("fld", t, v, i)
def fld(t, v, i, sort=None):
    if t.op == "ite":
        k = ("fld", t, v, i)
        r = _memo.get(k)
        if r is None:
            r = _memo[k] = drop_undef(mapleaves(lambda x: fld(x, v, i, sort), t))
        return r
    r = _fld(t, v, i)
    if sort is not None and r.sort is None:
        r.sort = sort
    return r
@rebuild("fld")
def _(t, v, i): return fld(t, v, i)

def setfld(t, v, i, x, nf=None):
    """functional field update"""
    if t.op == "ite":
        return mapleaves(lambda y: setfld(y, v, i, x, nf), t)
    if t.op == "agg":
        fs = list(t.a[1:])
        while len(fs) <= i:
            fs.append(raw("undef"))
        fs[i] = x
        return agg(t.a[0], *fs)
    if nf is not None:
        return agg(nf[0], *[x if j == i else fld(t, v, j, nf[2][j] if len(nf) > 2 else None) for j in range(nf[1])])
    if x.op == "fld" and x.a[0] is t and x.a[2] == i:
        return t
    if t.op == "updf":
        ups = {}
        b = t
        while b.op == "updf":
            ups.setdefault(b.a[1], b.a[2]); b = b.a[0]
        ups[i] = x
        if x.op == "fld" and x.a[0] is b and x.a[2] == i: ups.pop(i)
        for j in sorted(ups):
            b = raw("updf", b, j, ups[j])
        return b
    return raw("updf", t, i, x)
@rebuild("updf")
def _(t, i, x): return setfld(t, 0, i, x)

def disc(t, k, n=None):
    """is t's variant index k; n = number of variants"""
    if t.op == "ite":
        return mapleaves(lambda x: disc(x, k, n), t)
    if t.op == "agg" and t.a[0].startswith("adt:"):
        return TRUE if t.a[0].endswith("#%d" % k) else FALSE
    if n == 2:
        r = ite1(raw("disc", t, 1, 2, sort="b"), TRUE, FALSE)
        return r if k == 1 else bnot(r)
    return ite1(raw("disc", t, k, n, sort="b"), TRUE, FALSE)
@rebuild("disc")
def _(t, k, n): return disc(t, k, n)

# ------------------------------------------------------------------ arrays
def clip0(p):
    if nonneg(p): return p
    return ite(ge0i(p), p, ZERO)

def under_range(body, K, n):
    """simplify body for 0 <= K < n"""
    if body.op != "ite" and not body.fv & {K}:
        return body
    c = ge0i(sub(sub(n, K), ONE))
    body = simplify_under(body, c)
    if body.op == "ite":
        # the branch for the last (first) item agrees with the general one at that item
        nm = sub(n, ONE)
        for p, gv, e in ((sub(nm, add(K, ONE)), True, nm), (sub(K, nm), False, nm), (sub(K, ONE), True, ZERO), (neg(K), False, ZERO)):
            at = raw("ge0", p, sort="b")
            if not hasatom(body, at): continue
            gen, edge = assume(body, at, gv), assume(body, at, not gv)
            if subst(gen, {K: e}) is subst(edge, {K: e}): return gen
    return body

def hasatom(t, at, seen=None):
    if t.op != "ite": return False
    if seen is None: seen = set()
    if t in seen: return False
    seen.add(t)
    return t.a[0] is at or hasatom(t.a[1], at, seen) or hasatom(t.a[2], at, seen)

def simplify_under(t, cond):
    """deeply simplify gated values under a conjunction of atoms (diagram that is a cube)"""
    if cond is TRUE or cond is FALSE:
        return t
    cube = []
    c = cond
    while c.op == "ite":
        if c.a[2] is FALSE: cube.append((c.a[0], True)); c = c.a[1]
        elif c.a[1] is FALSE: cube.append((c.a[0], False)); c = c.a[2]
        else: return t
    return _deep(t, cube, {})

def _deep(t, cube, memo):
    if t in memo: return memo[t]
    fvs = EMPTY
    for a, _ in cube: fvs = fvs | a.fv
    if fvs and not (t.fv & fvs):
        return t
    if t.op == "ite":
        r = t
        for a, v in cube: r = assume(r, a, v)
        if r.op == "ite":
            h = _deep(r.a[1], cube, memo); l = _deep(r.a[2], cube, memo)
            if h is not r.a[1] or l is not r.a[2]:
                r = ite1(r.a[0], h, l)
        else:
            r = _deep(r, cube, memo)
    elif t.op == "lam":
        r = t
    elif t.op == "poly":
        r = mappoly(t, lambda y: _deep(y, cube, memo))
    elif t.op in ("K", "phi", "sym", "num", "true", "false", "bv"):
        r = t
    else:
        def sa(x):
            if type(x) is T: return _deep(x, cube, memo)
            if type(x) is tuple: return tuple(sa(y) for y in x)
            return x
        a = tuple(sa(x) for x in t.a)
        if t.op in ("idiv", "imod") and a[0].op != "ite" and a[1].op != "ite" and nonneg(a[0]):
            c = ge0i(sub(sub(a[1], a[0]), ONE))
            for at, v in cube: c = assume(c, at, v)
            if c is TRUE: a = (ZERO, a[1]) if t.op == "idiv" else None; r0 = t.a[0]
        if a is None: r = _deep(r0, cube, memo)
        else: r = t if all(x is y for x, y in zip(a, t.a)) else build(t.op, a, t.sort, t.nd)
    memo[t] = r
    return r

def tab(n, l):
    """comprehension [l(k) for k < n]"""
    if n.op == "ite":
        return mapleaves(lambda m: tab(m, l), n)
    K, body = openl(l)
    b2 = under_range(body, K, n)
    if b2 is not body:
        body = b2; l = lam(K, body)
    # eta: [x[k] for k<len(x)] = x
    if body.op == "sel" and body.a[1] is K and not (body.a[0].fv & {K}) and length(body.a[0]) is n:
        return body.a[0]
    if is_num(n) and n.a[0] == 0:
        return raw("tab", ZERO, raw("lam", 0, ZERO))
    # map over a filtered sequence
    if n.op == "len" and n.a[0].op == "fseq" and K in body.fv:
        fs = n.a[0]; pt = raw("sel", fs, K); x = raw("sym", "§fuse"); b3 = replace(body, {pt: x})
        if K not in b3.fv:
            K2, cnd = openl(fs.a[1])
            v = app(fs.a[2], K2)
            if not isnumeric(b3) or True:
                return fseq(fs.a[0], lam(K2, cnd), lam(K2, replace(b3, {x: v})))
    if is_num(n) and n.a[0] <= 16 and n.a[0].denominator == 1 and n.a[0] > 0:
        return raw("agg", "array", *[app(l, num(i)) for i in range(int(n.a[0]))])
    return raw("tab", n, l)
@rebuild("tab")
def _(n, l): return tab(n, l)
def mktab(n, f):
    K = freshK()
    return tab(n, lam(K, f(K)))
def rep(n, v):
    return mktab(n, lambda K: v)
NIL = raw("tab", ZERO, raw("lam", 0, ZERO))

def length(t):
    if t.op == "ite":
        return mapleaves(length, t)
    if t.op == "agg" and t.a[0] == "array":
        return num(len(t.a) - 1)
    if t.op == "tab":
        return t.a[0]
    if t.op == "upd":
        return length(t.a[0])
    if t.op == "cat":
        return summ(*[length(x) for x in t.a])
    if t.op == "str":
        return num(len(t.a[0].encode()))
    if t.op == "sel" and (t.a[0].nd == 2 or t.a[0].op == "rec" and recshape(t.a[0])[1] is not None):
        return ncols(t.a[0])
    if t.op == "sorted":
        return length(t.a[0])
    if t.op == "flat":
        return mul(length(t.a[0]), ncols(t.a[0]))
    if t.op == "fft":
        return t.a[3]
    if t in SHAPE:
        return length(SHAPE[t])
    if t.op == "rec" and recshape(t)[0] is not None:
        return recshape(t)[0]
    return raw("len", t, sort="u")
@rebuild("len")
def _(t): return length(t)

_recshape = {}
def recshape(t):
    """(length, length of every row) of what a recurrence leaves, where each step keeps them; None where unknown"""
    r = _recshape.get(t)
    if r is not None: return r
    _recshape[t] = (None, None)
    n, inits, step, lvl = t.a[:4]
    if inits.op != "agg" or inits.a[1].op in ("num", "poly") or inits.a[1].sort in ("f", "u", "b"): return _recshape[t]
    K, body = openl(step)
    if body.op != "agg" or len(body.a) != len(inits.a): return _recshape[t]
    init = inits.a[1]
    mine = contains(body, lambda z: z.op == "rv" and z.a[0] == lvl and z.a[1] == 0)
    ph = raw("phi", "shape", t)
    SHAPE[ph] = init
    rows = None
    if init.op == "tab":
        k, b = openl(init.a[1])
        if b.op == "tab" or b.nd == 1:
            rows = length(b)
            if k in rows.fv or rows.op == "len" and b.op != "sym": rows = None
    elif init.nd == 2 or init.op == "rec" and recshape(init)[1] is not None or init.op == "phi" and init.a[0] == "shape" and init.nd == 2: rows = ncols(init)
    if rows is not None: ph.nd = 2
    nx = replace(body.a[1], {z: ph for z in mine})
    l = length(nx)
    len0 = length(init)
    if l is not len0: return _recshape[t]
    if rows is not None and length(sel(nx, freshK())) is not rows: rows = None
    _recshape[t] = (len0, rows)
    return _recshape[t]

def ncols(t):
    """second dimension"""
    if t.op == "ite":
        return mapleaves(ncols, t)
    if t.op == "tab":
        K, body = openl(t.a[1])
        n = length(body)
        if not (n.fv & {K}):
            return n
    if t.op == "agg" and t.a[0] == "array" and len(t.a) > 1:
        return length(t.a[1])
    if t.op == "upd":
        return ncols(t.a[0])
    if t.op == "cat" and t.a:
        return ncols(t.a[0])
    if t in SHAPE:
        return ncols(SHAPE[t])
    if t.op == "rec" and recshape(t)[1] is not None:
        return recshape(t)[1]
    return raw("dim", t, 1, sort="u")
@rebuild("dim")
def _(t, k): return ncols(t)

def mknd(t, nd):
    if t.op == "ite":
        for c in (t.a[1], t.a[2]): mknd(c, nd)
    elif t.op not in ("agg", "tab", "num", "poly"):
        t.nd = nd
    return t

def sel(t, i, sort=None):
    if t.op == "ite":
        return mapleaves(lambda x: sel(x, i, sort), t)
    if i.op == "ite":
        return mapleaves(lambda x: sel(t, x, sort), i)
    if t.op == "agg" and t.a[0] in ("array",):
        if is_num(i) and i.a[0].denominator == 1 and 0 <= i.a[0] < len(t.a) - 1:
            return t.a[1 + int(i.a[0])]
        if len(t.a) > 1 and all(x is t.a[1] for x in t.a[1:]):
            return t.a[1]
    if t.op == "tab":
        return app(t.a[1], i)
    if t.op == "upd":
        c = ieq(t.a[1], i)
        return ite(c, t.a[2], sel(t.a[0], i, sort)) if c is not TRUE else t.a[2]
    if t.op == "cat":
        off = ZERO
        x = t.a[0]
        rest = t.a[1:]
        if not rest: return sel(x, i, sort)
        n = length(x)
        return ite(ilt(i, n), sel(x, i, sort), sel(cat(*rest), sub(i, n), sort))
    if t.op == "fft": sort = "c"
    if t.op == "flat":
        w = ncols(t.a[0])
        return sel(sel(t.a[0], idiv(i, w)), imod(i, w), sort)
    r = raw("sel", t, i, sort=sort)
    return r
@rebuild("sel")
def _(t, i): return sel(t, i)

def upd(t, i, v):
    if t.op == "ite":
        return mapleaves(lambda x: upd(x, i, v), t)
    if t.op == "agg" and t.a[0] == "array" and is_num(i) and 0 <= i.a[0] < len(t.a) - 1:
        fs = list(t.a[1:]); fs[int(i.a[0])] = v
        return raw("agg", "array", *fs)
    if v.op == "sel" and v.a[0] is t and v.a[1] is i:
        return t
    if t.op == "upd":
        if t.a[1] is i:
            return upd(t.a[0], i, v)
    return raw("upd", t, i, v)
@rebuild("upd")
def _(t, i, v): return upd(t, i, v)

def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat": ys = list(x.a)
        else: ys = [x]
        for y in ys:
            if y is NIL or (y.op == "agg" and y.a[0] == "array" and len(y.a) == 1): continue
            if out and out[-1].op == "agg" and out[-1].a[0] == "array" and y.op == "agg" and y.a[0] == "array":
                out[-1] = raw("agg", "array", *(out[-1].a[1:] + y.a[1:]))
            else:
                out.append(y)
    if not out: return NIL
    if len(out) == 1: return out[0]
    if any(x.op == "ite" for x in out):
        # distribute while small
        j = [k for k, x in enumerate(out) if x.op == "ite"][0]
        if _size(out[j]) <= 8:
            return mapleaves(lambda y: cat(*(out[:j] + [y] + out[j+1:])), out[j])
    return raw("cat", *out)
@rebuild("cat")
def _(*xs): return cat(*xs)

def slc(t, a, b):
    if a is ZERO and b is length(t):
        return t
    if t.op == "ite":
        return mapleaves(lambda x: slc(x, a, b), t)
    n = sub(b, a)
    return mktab(n, lambda K: sel(t, add(a, K)))

def tsum(n, l):
    if n.op == "ite":
        return mapleaves(lambda m: tsum(m, l), n)
    K, body = openl(l)
    b2 = under_range(body, K, n)
    if b2 is not body:
        body = b2; l = lam(K, body)
    if not (body.fv & {K}):
        return mul(n, body)
    if is_num(n) and n.a[0] <= 16:
        return summ(*[app(l, num(i)) for i in range(max(0, int(n.a[0])))])
    rc = rowwise(n, K, body)
    if rc is not None: return mksum(rc[0], lambda i: mksum(rc[1], lambda j: rc[2](i, j)))
    # pull out constant factors and split sums
    if body.op == "poly":
        tot = ZERO
        for m, c in body.a:
            inv = num(c); dep = ONE
            for x, e in m:
                p = powi(x, e)
                if x.fv & {K}: dep = mul(dep, p)
                else: inv = mul(inv, p)
            tot = add(tot, mul(inv, mul(n, ONE) if dep is ONE else raw("sum", n, lam(K, dep), sort="f" if not integral(dep) else ("u" if nonneg(dep) else "i"))))
        return tot
    return raw("sum", n, l, sort="f" if not integral(body) else ("u" if nonneg(body) else "i"))
@rebuild("sum")
def _(n, l): return tsum(n, l)
def mksum(n, f):
    K = freshK()
    return tsum(n, lam(K, f(K)))

def flat(t):
    """row after row of a matrix"""
    if t.op == "ite": return mapleaves(flat, t)
    if t.op == "agg" and t.a[0] == "array":
        if len(t.a) == 1: return NIL
        if all(is_num(length(x)) for x in t.a[1:]):
            return cat(*[raw("agg", "array", *[sel(x, num(i)) for i in range(int(length(x).a[0]))]) for x in t.a[1:]])
    return raw("flat", t)
@rebuild("flat")
def _(t): return flat(t)

def flatseq(n, l):
    """l(0) ++ l(1) ++ ... ++ l(n-1)"""
    if n.op == "ite": return mapleaves(lambda m: flatseq(m, l), n)
    K, body = openl(l)
    b2 = under_range(body, K, n)
    if b2 is not body:
        body = b2; l = lam(K, body)
    if is_num(n) and n.a[0] <= 16: return cat(*[app(l, num(i)) for i in range(max(0, int(n.a[0])))])
    if not (length(body).fv & {K}): return flat(tab(n, l))
    return raw("flatseq", n, l)
@rebuild("flatseq")
def _(n, l): return flatseq(n, l)

def fseq(n, lc, lv):
    """[lv(k) for k<n if lc(k)]"""
    K, c = openl(lc)
    if c is TRUE: return tab(n, lv)
    if c is FALSE: return NIL
    v = app(lv, K)
    return raw("fseq", n, lam(K, c), lam(K, v))
@rebuild("fseq")
def _(n, lc, lv): return fseq(n, lc, lv)

def some(n, l):
    """exists k<n: l(k)"""
    K, c = openl(l)
    c = under_range(c, K, n) if n is not None else c
    if c is FALSE: return FALSE
    if is_num(n) and n.a[0] <= 16:
        return bor(*[app(l, num(i)) for i in range(max(0, int(n.a[0])))])
    if not (c.fv & {K}):
        return band(ge0i(sub(n, ONE)), c)
    return ite1(raw("some", n, lam(K, c), sort="b"), TRUE, FALSE)
@rebuild("some")
def _(n, l): return some(n, l)

# ------------------------------------------------------------------ functions
def fn(name, *args, sort="f"):
    if any(x.op == "ite" for x in args):
        i = [k for k, x in enumerate(args) if x.op == "ite"][0]
        if _size(args[i]) <= 64:
            return mapleaves(lambda y: fn(name, *(args[:i] + (y,) + args[i+1:]), sort=sort), args[i])
    if name in ("floor", "ceil", "round", "trunc") and integral(args[0]):
        return args[0]
    if name in ("floor", "trunc") and nonneg(args[0]): return trunc(args[0], True)
    if name == "sqrt" and is_num(args[0]) and args[0].a[0] >= 0:
        import math
        v = args[0].a[0]
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator: return num(Fr(p, q))
    if name == "exp" and is_num(args[0]) and args[0].a[0] == 0: return ONE
    if name == "abs": return fabs(args[0])
    if name in ("ipow", "next_pow2"): sort = "u" if all(nonneg(x) or x.op == "num" for x in args[:1]) else sort
    if name == "ipow" and is_num(args[0]) and is_num(args[1]) and 0 <= args[1].a[0] <= 64 and args[1].a[0].denominator == 1:
        return num(args[0].a[0] ** int(args[1].a[0]))
    if name == "next_pow2":
        x = args[0]
        if is_num(x): return num(1 << max(0, (int(x.a[0]) - 1).bit_length()))
        if x.op == "fn" and (x.a[0] == "next_pow2" or x.a[0] == "ipow" and x.a[1] is TWO): return x
        sort = "u"
    return raw("fn", name, *args, sort=sort)
@rebuild("fn")
def _(name, *args): return fn(name, *args)

TWO = num(2)
def smear(t):
    """t as the disjunction of one base value shifted right by constants: (base, offsets)"""
    if t.op == "bit" and t.a[0] == "Shr" and is_num(t.a[2]):
        b, o = smear(t.a[1])
        k = int(t.a[2].a[0])
        return b, frozenset(x + k for x in o)
    if t.op == "bit" and t.a[0] == "BitOr":
        b, o = smear(t.a[1]); b2, o2 = smear(t.a[2])
        if b is b2: return b, o | o2
    return t, frozenset((0,))
def bitor(a, b, sort):
    t = raw("bit", "BitOr", *sorted((a, b), key=lambda t: t.id), sort=sort)
    base, o = smear(t)
    # every bit below the highest one is set: the largest number of that many bits
    if len(o) >= 32 and o >= frozenset(range(32)) and sort == "u": return sub(fn("next_pow2", add(base, ONE)), ONE)
    return t

@rebuild("bit")
def _(op, *xs):
    if op == "BitOr": return bitor(xs[0], xs[1], "u" if all(x.sort == "u" or x.op == "num" and x.a[0] >= 0 or nonneg(x) for x in xs) else "i")
    if op == "Shr" and is_num(xs[0]) and is_num(xs[1]): return num(int(xs[0].a[0]) >> int(xs[1].a[0]))
    return raw("bit", op, *xs, sort="u" if all(nonneg(x) for x in xs) else "i")

def _larger(a, b):
    """condition that picks a over b as the larger, written one way: on a tie either will do"""
    c = fgt0(sub(a, b))
    if c.op == "ite" and c.a[0].op == "fge0": return bnot(fgt0(sub(b, a)))
    return c
def _fmax(a, b): return ite(_larger(a, b), a, b)
def _fmin(a, b): return ite(_larger(a, b), b, a)
def _imax(a, b): return ite(ge0i(sub(b, a)), b, a)
def _imin(a, b): return ite(ge0i(sub(b, a)), a, b)
_fmax.__name__ = "fmax"; _fmin.__name__ = "fmin"; _imax.__name__ = "imax"; _imin.__name__ = "imin"
fmax, fmin, imax, imin = lift(_fmax), lift(_fmin), lift(_imax), lift(_imin)
def _fabs(p):
    if is_num(p): return num(abs(p.a[0]))
    if nonneg(p): return p
    if nonneg(neg(p)): return neg(p)
    if integral(p): return ite(ge0i(p), p, neg(p))
    ts = terms_of(p)
    if len(ts) == 1:
        (m, c), = ts.items()
        r = num(abs(c))
        for x, e in m:
            r = mul(r, powi(x if nonneg(x) else raw("fn", "abs", x, sort="f"), e))
        return r
    (m, c) = _mklead({m: c for m, c in ts.items() if m})
    return mul(num(abs(c)), raw("fn", "abs", _mkpoly({k: v / c for k, v in ts.items()}), sort="f"))
_fabs.__name__ = "fabs"
fabs = lift(_fabs)

def _trunc(p, unsigned):
    if integral(p):
        return clip0(p) if unsigned else p
    if is_num(p):
        v = p.a[0]
        import math
        q = math.trunc(v)
        return num(max(q, 0) if unsigned else q)
    if unsigned and nonneg(neg(p)): return ZERO
    if nonneg(p):
        unsigned = True
        # an integer over a constant: integer division
        import math
        d = 1
        for c in terms_of(p).values(): d = d * c.denominator // math.gcd(d, c.denominator)
        q = mul(num(d), p)
        if d > 1 and integral(q): return idiv(q, num(d))
    return raw("trunc", p, 1 if unsigned else 0, sort="u" if unsigned else "i")
def trunc(p, unsigned=True):
    return mapleaves(lambda x: _trunc(x, unsigned), p)
@rebuild("trunc")
def _(p, u): return trunc(p, bool(u))

def _quot(a, b):
    """a = b*q + r with q, r >= 0 by division on the leading monomial of b; None if nothing divides"""
    if not nonneg(a) or not nonneg(b) or b.op == "num" and b.a[0].denominator != 1: return None
    B = {m: c for m, c in terms_of(b).items() if m}
    if b.op == "num":
        q = {m: Fr(int(c / b.a[0])) for m, c in terms_of(a).items() if c.denominator == 1}
        q = _mkpoly({m: c for m, c in q.items() if c})
        if q is ZERO: return None
        return q, _addp(a, _mulp(q, b), -1)
    m0, c0 = _mklead(B)
    Q = {}
    for m, c in terms_of(a).items():
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in m0):
            for x, e in m0: d[x] -= e
            Q[tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].id))] = c / c0
    q = _mkpoly(Q)
    if q is ZERO or not integral(q) or not nonneg(q): return None
    r = _addp(a, _mulp(q, b), -1)
    if not nonneg(r): return None
    return q, r

def _idiv(a, b):
    if is_num(b) and b.a[0] == 1: return a
    if is_num(a) and is_num(b) and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if a is ZERO: return ZERO
    if b is ZERO: return raw("idiv", a, b, sort="i")
    if b.op != "num" and (b.op != "poly" or len(b.a) == 1):
        r = _mulp(a, _invp(b))
        if integral(r): return r
    if is_num(b):
        r = _mulp(a, num(1 / b.a[0]))
        if integral(r): return r
    if a is b: return ONE
    if a.op == "poly":
        x = _quot(a, b)
        if x: return add(x[0], idiv(x[1], b))
    return raw("idiv", a, b, sort="u" if nonneg(a) and nonneg(b) else "i")
_idiv.__name__ = "idiv"
idiv = lift(_idiv)
@rebuild("idiv")
def _(a, b): return idiv(a, b)
def _imod(a, b):
    if is_num(a) and is_num(b) and b.a[0] != 0:
        q = abs(a.a[0]) % abs(b.a[0])
        return num(q if a.a[0] >= 0 else -q)
    if is_num(b) and b.a[0] == 1: return ZERO
    if b is ZERO: return raw("imod", a, b, sort="i")
    if b.op != "num" and (b.op != "poly" or len(b.a) == 1):
        r = _mulp(a, _invp(b))
        if integral(r): return ZERO
    if a.op == "poly":
        x = _quot(a, b)
        if x: return imod(x[1], b)
    return raw("imod", a, b, sort="u" if nonneg(a) and nonneg(b) else "i")
_imod.__name__ = "imod"
imod = lift(_imod)
@rebuild("imod")
def _(a, b): return imod(a, b)

# ------------------------------------------------------------------ traversal, printing
def walk(t, f, seen=None):
    """calls f on every sub-term (post filter by f returning False to stop descent)"""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if f(x) is False: continue
        def push(y):
            if type(y) is T: st.append(y)
            elif type(y) is tuple:
                for z in y: push(z)
        for y in x.a: push(y)
    return seen

def contains(t, pred):
    found = []
    def f(x):
        if pred(x): found.append(x)
    walk(t, f)
    return found

def depends(t, x):
    return bool(contains(t, lambda y: y is x))

def replace(t, mp, memo=None):
    """replace arbitrary subterms (not under binders capturing)"""
    if memo is None: memo = {}
    if t in mp: return mp[t]
    if t in memo: return memo[t]
    if t.op == "lam":
        K, b = openc(t)
        if any(K in v.fv for v in mp.values() if type(v) is T): K, b = openl(t)
        r = lam(K, replace(b, mp, memo))
    elif t.op == "poly":
        r = mappoly(t, lambda y: replace(y, mp, memo))
    elif t.op == "ite":
        r = ite(tobool(replace(t.a[0], mp, memo)), replace(t.a[1], mp, memo), replace(t.a[2], mp, memo))
    elif not any(type(x) in (T, tuple) for x in t.a):
        r = t
    else:
        def sa(x):
            if type(x) is T: return replace(x, mp, memo)
            if type(x) is tuple: return tuple(sa(y) for y in x)
            return x
        a = tuple(sa(x) for x in t.a)
        r = t if a == t.a else build(t.op, a, t.sort, t.nd)
    memo[t] = r
    return r

def transform(t, f, memo=None):
    """bottom-up rewriting: f(rebuilt node) -> node"""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    go = lambda y: transform(y, f, memo)
    if t.op == "lam":
        K, b = openl(t)
        r = lam(K, go(b))
    elif t.op == "poly":
        r = mappoly(t, go)
    elif t.op == "ite":
        r = ite(tobool(go(t.a[0])), go(t.a[1]), go(t.a[2]))
    elif not any(type(x) in (T, tuple) for x in t.a):
        r = t
    else:
        def sa(x):
            if type(x) is T: return go(x)
            if type(x) is tuple: return tuple(sa(y) for y in x)
            return x
        a = tuple(sa(x) for x in t.a)
        r = t if a == t.a else build(t.op, a, t.sort, t.nd)
    r = f(r)
    memo[t] = r
    return r

def short(p):
    if isinstance(p, str):
        import re
        return re.sub(r"[A-Za-z_0-9]+::", "", p)
    return str(p)

def show(t, d=14):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d) for x in t) + ")"
        return short(t)
    if d <= 0: return "…"
    s = lambda x: show(x, d - 1)
    o = t.op
    if o == "num":
        v = t.a[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if o == "poly":
        parts = []
        for m, c in t.a:
            ms = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            cs = str(c) if c.denominator < 1000 and abs(c) < 10**9 else repr(float(c))
            parts.append(cs if not m else (ms if c == 1 else cs + "*" + ms))
        return "(" + " + ".join(parts) + ")"
    if o == "ite": return "{%s ? %s : %s}" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == "true": return "T"
    if o == "false": return "F"
    if o in ("K",): return "K" + short(t.a[0])[-24:]
    if o == "phi": return "phi<%s>" % short(t.a[2] if len(t.a) > 3 else t.a[-1])
    if o == "bv": return "$%d" % t.a[0]
    if o == "lam": return "\\$%d.%s" % (t.a[0], s(t.a[1]))
    if o == "sel": return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "fld": return "%s.%s" % (s(t.a[0]), t.a[2]) if t.a[1] == 0 else "%s.v%s.%s" % (s(t.a[0]), t.a[1], t.a[2])
    if o == "sym": return str(t.a[0])
    if o == "str": return repr(t.a[0])
    if o == "agg": return "%s{%s}" % (short(t.a[0]), ", ".join(s(x) for x in t.a[1:]))
    if o == "fn": return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else show(x, d - 1) for x in t.a))
