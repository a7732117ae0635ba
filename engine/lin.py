"""Entailment between linear inequalities (the polyhedra domain's inclusion test, by Fourier-Motzkin elimination).

A condition is a decision diagram over atoms; valid(c) holds when every branch to FALSE demands an
infeasible set of linear constraints. Non-linear monomials are variables of their own, linked by
the axioms of quotient, remainder, rounding and sign."""
from fractions import Fraction as Fr
from .terms import *
from . import terms as TT

CAP = 3000

def row(p):
    """{monomial: coef}, () for the constant"""
    return dict(terms_of(p))

def infeasible(rows):
    """rows: [(coefs, strict)] meaning sum >= 0 (> 0 if strict); True if certainly no solution"""
    cur = []
    seen = set()
    def norm(c, s):
        c = {m: x for m, x in c.items() if x}
        k = [abs(x) for m, x in c.items() if m]
        if not k: return c, s
        d = k[0] if len(k) == 1 else min(k)
        return {m: x / d for m, x in c.items()}, s
    def push(l, c, s):
        c, s = norm(c, s)
        if not any(m for m in c):
            k = c.get((), 0)
            return k < 0 or s and k == 0          # contradiction found
        key = (frozenset(c.items()), s)
        if key not in seen:
            seen.add(key); l.append((c, s))
        return False
    for c, s in rows:
        if push(cur, c, s): return True
    while cur:
        pos, neg = {}, {}
        for c, s in cur:
            for m, x in c.items():
                if m: (pos if x > 0 else neg)[m] = (pos if x > 0 else neg).get(m, 0) + 1
        vs = set(pos) | set(neg)
        if not vs: return False
        v = min(vs, key=lambda m: (pos.get(m, 0) * neg.get(m, 0) - pos.get(m, 0) - neg.get(m, 0), str([(x.id, e) for x, e in m])))
        P = [r for r in cur if r[0].get(v, 0) > 0]; N = [r for r in cur if r[0].get(v, 0) < 0]
        nxt = [r for r in cur if not r[0].get(v, 0)]
        if len(nxt) + len(P) * len(N) > CAP: return False
        seen = {(frozenset(c.items()), s) for c, s in nxt}
        for a, sa in P:
            for b, sb in N:
                x, y = a[v], -b[v]
                c = {m: a.get(m, 0) * y + b.get(m, 0) * x for m in set(a) | set(b) if m != v}
                if push(nxt, c, sa or sb): return True
        cur = nxt
    return False

def reached(p):
    """non-negative values at which the predicate certainly holds"""
    k = TT.freshK(); c = TT.app(p, k); out = []
    seen = set(); st = [c]
    while st:
        z = st.pop()
        if type(z) is not T or z.op != "ite" or z in seen: continue
        seen.add(z); a = z.a[0]
        st += [z.a[1], z.a[2]]
        if a.op == "eq0" and a.a[0].op == "poly":
            q = a.a[0]
            for n in (add(q, k), sub(k, q)):
                if k not in n.fv and nonneg(n) and TT.app(p, n) is TRUE: out.append(n)
    return out

def axioms(rows, depth=3):
    """rows about the monomials that occur"""
    done = set(); out = []
    def of(ms):
        new = []
        for m in ms:
            if not m or m in done: continue
            done.add(m)
            t = TT._mkpoly({m: Fr(1)})
            if nonneg(t): out.append(({m: Fr(1)}, False))
            for x, e in m:
                new += about(x)
            # b * (a div b) <= a <= b * (a div b) + b - 1
            for x, e in m:
                if x.op == "idiv" and e == 1 and len(m) > 1:
                    rest = TT._mkpoly({tuple((y, f) for y, f in m if y is not x): Fr(1)})
                    if rest is x.a[1]: new += quot(x)
        return new
    facts = set()
    def quot(x):
        if ("q", x) in facts: return []
        facts.add(("q", x))
        a, b = x.a
        q = mul(x, b)
        l = [(row(sub(a, q)), False)]
        if b.op == "num" or nonneg(sub(b, ONE)): l.append((row(sub(add(q, sub(b, ONE)), a)), False))
        out.extend(l)
        return [m for c, _ in l for m in c]
    def about(x):
        if x in facts: return []
        facts.add(x)
        l = []
        if x.op == "idiv" and x.a[1].op == "num": return quot(x)
        if x.op == "idiv": l.append((row(sub(x.a[0], x)), False))
        if x.op == "imod":
            a, b = x.a
            if nonneg(sub(b, ONE)) or b.op == "num": l.append((row(sub(sub(b, ONE), x)), False))
            l.append((row(sub(a, x)), False))
        if x.op == "first":
            # the first k with p(k) is no later than an N with p(N)
            if len(x.a) > 1: l.append((row(sub(x.a[1], x)), False))
            else:
                for b in reached(x.a[0]): l.append((row(sub(b, x)), False))
        op, p = (x.a[0], x.a[1]) if x.op == "fn" and len(x.a) == 2 else (x.op, x.a[0] if x.a and type(x.a[0]) is T else None)
        if op == "next_pow2":
            l.append((row(sub(x, p)), False)); l.append((row(sub(x, ONE)), False))
        if op == "floor" or op == "trunc" and nonneg(p):
            l.append((row(sub(p, x)), False)); l.append((row(sub(add(x, ONE), p)), True))
        if op == "ceil":
            l.append((row(sub(x, p)), False)); l.append((row(sub(add(p, ONE), x)), True))
        if op == "round":
            h = num(Fr(1, 2))
            l.append((row(sub(add(p, h), x)), False)); l.append((row(sub(add(x, h), p)), False))
        out.extend(l)
        return [m for c, _ in l for m in c]
    todo = [m for c, _ in rows for m in c]
    for _ in range(depth):
        if not todo: break
        todo = of(todo)
    return out

def literal(a, v):
    """rows of a literal, or None if it says nothing linear"""
    p = a.a[0] if a.a and type(a.a[0]) is T else None
    if p is None or p.op == "ite": return None
    if a.op == "ge0":
        return [(row(p), False)] if v else [(row(sub(neg(p), ONE)), False)]
    if a.op == "fgt0":
        return [(row(p), True)] if v else [(row(neg(p)), False)]
    if a.op == "fge0":
        return [(row(p), False)] if v else [(row(neg(p)), True)]
    if a.op in ("eq0", "feq0") and v:
        return [(row(p), False), (row(neg(p)), False)]
    return None

def contradictory(cube, extra=()):
    rows = []
    ne = []
    for a, v in cube:
        l = literal(a, v)
        if l: rows += l
        elif a.op in ("eq0", "feq0") and not v and a.a[0].op != "ite": ne.append(a)
    for p in extra: rows.append((row(p), False))
    # a bound on a quotient, times its divisor
    for c, strict in list(rows):
        for b in {x.a[1] for mm in c if len(mm) == 1 for x, e in mm if x.op == "idiv" and x.a[1].op != "num" and e == 1}:
            if nonneg(b): rows.append((row(mul(TT._mkpoly({mm: Fr(k) for mm, k in c.items() if k}), b)), False))
    def go(rows, ne):
        if infeasible(rows + axioms(rows)): return True
        if not ne: return False
        a = ne[0]; p = a.a[0]
        if a.op == "eq0": alts = [(row(sub(p, ONE)), False), (row(sub(neg(p), ONE)), False)]
        else: alts = [(row(p), True), (row(neg(p)), True)]
        return all(go(rows + [x], ne[1:]) for x in alts)
    return go(rows, ne[:3])

def liftite(c):
    """conditions whose atoms hold ite-valued operands are left to the diagram; nothing to do for most"""
    return c

def valid(c, extra=(), limit=4000):
    """c holds for all values (extra: polynomials known to be >= 0); returns None or a branch it may fail on"""
    n = [0]
    def go(t, cube):
        if t is TRUE: return None
        if t is FALSE or t.op != "ite":
            n[0] += 1
            if n[0] > limit: return cube
            return None if contradictory(cube, extra) else cube
        for v, s in ((True, t.a[1]), (False, t.a[2])):
            r = go(s, cube + [(t.a[0], v)])
            if r is not None: return r
        return None
    return go(c, [])
