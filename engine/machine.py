"""Abstract interpreter: evaluates MIR bodies over value numbers (terms.py).

Control flow joins gate values by path conditions, calls to local functions are analysed in
context, loops are collapsed to closed forms (affine counters, comprehensions, sums) or to
recurrence nodes. No path is enumerated: every block is evaluated once per fixpoint round.
"""
import re
from .terms import *
from . import terms as TT

class Unsupported(Exception):
    pass

class State:
    __slots__ = ("cells", "pc")
    def __init__(self, cells, pc):
        self.cells = cells; self.pc = pc
    def copy(self):
        return State(dict(self.cells), self.pc)

class Frame:
    def __init__(self, body, fk, generics):
        self.body = body; self.fk = fk; self.generics = generics; self.crate = body.crate

class Loop:
    pass

class Call:
    __slots__ = ("p", "r", "args", "argt", "dt", "callee", "fk", "fr", "span", "ctx", "mac", "ga")

def merge(a, b):
    if a is None: return b
    if b is None: return a
    pc = bor(a.pc, b.pc)
    if pc is a.pc and a.pc is b.pc and a.cells == b.cells:
        return a
    c = restrict(a.pc, pc)
    cells = {}
    for k, v in a.cells.items():
        w = b.cells.get(k)
        if w is None: continue
        cells[k] = v if v is w else ite(c, v, w)
    return State(cells, pc)

PRIM_UNS = {"usize", "u8", "u16", "u32", "u64", "u128"}

class Machine:
    def __init__(self, crate, cuts=(), opts=None):
        self.crate = crate
        self.cuts = cuts if callable(cuts) else (lambda p, s=frozenset(cuts): p in s)
        self.events = []       # calls
        self.obl = []          # obligations
        self.facts = []
        self.fuses = []        # applications of partial float functions
        self.once = set(); self.loops = {}
        self.depth = 0
        self.unknown = {}
        self.phi_shape = {}
        self.unrolled = {}
        self.pure = set()
        self.stack = []
        self.analysed = set()
        self.opts = opts or {}
        self.hooks = {}
        TT.SHAPE = self.phi_shape
        from . import models
        self.models = models

    # -------------------------------------------------------------- typed opaque values
    def typed(self, t, ti, crate=None):
        crate = crate or self.crate
        ti = crate.strip(ti) if isinstance(ti, int) else None
        ty = crate.ty(ti) if ti is not None else {"k": "?", "s": ""}
        k = ty["k"]
        if t.op in ("agg", "num", "poly", "ite", "tab", "true", "false", "str", "mref", "cat"):
            return t
        if k == "bool": return tobool(t) if t.op not in ("K",) else t
        if k == "uint": t.sort = t.sort or "u"
        elif k == "int": t.sort = t.sort or "i"
        elif k == "float": t.sort = t.sort or "f"
        elif k == "adt":
            if ty["p"] == "num_complex::Complex": t.sort = t.sort or "c"
            elif ty["p"] == "ndarray::ArrayBase":
                t.nd = nd_of(ty)
        elif k == "tuple":
            if not ty["a"]: return UNIT
        return t

    def param(self, name, ti, crate=None):
        """symbolic value of a type; booleans become diagrams"""
        return self.typed(sym(name), ti, crate)

    def is_adt_struct(self, p):
        a = self.crate.adts.get(p)
        return a is not None and not a["enum"]

    def nvariants(self, p):
        a = self.crate.adts.get(p)
        return len(a["v"]) if a else None

    # -------------------------------------------------------------- entry
    def call_body(self, bid, args, st=None, generics=None, fk=None):
        b = self.crate.bodies[bid]
        st = st or State({}, TRUE)
        return self.inline(b, args, st, generics or {}, fk or ("@" + bid))

    def entry(self, bid, names=None, generics=None):
        """evaluate a function on symbolic arguments; &mut arguments get cells"""
        b = self.crate.bodies[bid]
        st = State({}, TRUE)
        args = []
        self.incells = {}
        for i in range(1, b.argc + 1):
            l = b.locals[i]
            nm = (names[i - 1] if names else None) or l.get("n") or "arg%d" % i
            t = b.crate.ty(l["t"])
            v = nm if type(nm) is T else self.param(nm, l["t"], b.crate)
            if t["k"] == "ref" and t["m"]:
                ck = ("in", nm)
                st.cells[ck] = v
                self.incells[nm] = ck
                args.append(raw("mref", ck, ()))
            else:
                args.append(v)
        ret, st2 = self.inline(b, args, st, generics or {}, "@" + bid)
        self.final = st2
        return ret, st2

    def inline(self, body, args, st, generics, fk):
        if self.depth > 40 or (body.id in self.stack and self.stack.count(body.id) > 1):
            raise Unsupported("recursion in " + body.id)
        self.analysed.add(body.id)
        fr = Frame(body, fk, generics)
        st = st.copy()
        n = len(body.locals)
        for i in range(n): st.cells.pop((fk, i), None)
        for i, a in enumerate(args): st.cells[(fk, i + 1)] = a
        self.depth += 1; self.stack.append(body.id)
        try:
            exits = self.region(fr, set(body.cfg.rpo), 0, st, None)
        finally:
            self.depth -= 1; self.stack.pop()
        out = None
        for lab, s in exits:
            if lab == "return": out = merge(out, s)
        if out is None:
            return None, None
        out = out.copy()
        ret = out.cells.get((fk, 0), UNIT)
        for i in range(n): out.cells.pop((fk, i), None)
        return ret, out

    # -------------------------------------------------------------- regions
    def region(self, fr, blocks, entry, st, header):
        """evaluate the blocks from entry; edges to header are returned as label 'continue'"""
        cfg = fr.body.cfg
        incoming = {entry: [st]}
        exits = []
        for b in cfg.rpo:
            if b not in blocks or b not in incoming: continue
            s = None
            for x in incoming.pop(b): s = merge(s, x)
            if s.pc is FALSE: continue
            if b in cfg.loops and not (b == header):
                outs = self.mirloop(fr, b, s)
            else:
                outs = self.block(fr, b, s)
            for lab, s2 in outs:
                if s2 is None or s2.pc is FALSE: continue
                if lab == "return":
                    exits.append((lab, s2))
                elif lab == header:
                    exits.append(("continue", s2))
                elif lab in blocks:
                    if cfg.num[lab] <= cfg.num[b]:
                        raise Unsupported("retreating edge")
                    incoming.setdefault(lab, []).append(s2)
                else:
                    exits.append((lab, s2))
        return exits

    def mirloop(self, fr, h, st):
        blocks = fr.body.cfg.loops[h]
        lkey = fr.fk + "|L%d" % h
        def body(s):
            ex = self.region(fr, blocks, h, s, h)
            cont = None; out = {}
            order = []
            for lab, x in ex:
                if lab == "continue": cont = merge(cont, x)
                else:
                    if lab not in out: order.append(lab)
                    out[lab] = merge(out.get(lab), x)
            return cont, [(l, out[l]) for l in order]
        n = min([x for x in (fewrefs(v) for c, v in st.cells.items() if isinstance(c, tuple) and c[0] == fr.fk and v.op == "agg") if x], default=None)
        if n:
            r = self.peel(st, body, n)
            if r is not None: return r
        return self.loop(lkey, st, body, where=fr.body.where(self.blockspan(fr.body, h)))

    def peel(self, st, body, n):
        """a loop over a written list of n places, round by round: the place differs from round to round. None if it does not end with the list"""
        mark = (len(self.events), len(self.obl), len(self.facts), len(self.fuses))
        out = {}; order = []
        S = st
        for k in range(n + 1):
            S, exits = body(S.copy())
            for lab, x in exits:
                if lab not in out: order.append(lab)
                out[lab] = merge(out.get(lab), x)
            if S is None or S.pc is FALSE: return [(l, out[l]) for l in order]
        del self.events[mark[0]:]; del self.obl[mark[1]:]; del self.facts[mark[2]:]; del self.fuses[mark[3]:]
        return None

    def blockspan(self, body, b):
        for s in body.blocks[b]["s"]:
            if s[0] == "=": return s[3]
        return body.blocks[b]["t"].get("sp") or body.span

    # -------------------------------------------------------------- loops
    def cellsort(self, cell, path, init):
        if path == () and isinstance(cell, tuple) and isinstance(cell[1], int):
            bid = None
        if isnumeric(init):
            ls = [l for _, l in leaves(init)]
            if all(x.op == "num" or x.sort in ("u", "i", "f", "n") for x in ls):
                if all(integral(x) for x in ls): return "i"
                if any(x.sort == "c" for x in ls): return "c"
                return "f"
        return init.sort if init.sort in ("c",) else None

    def loop(self, lkey, st0, body, where="", N=None):
        K = raw("K", lkey, sort="u")
        phis = {}
        mark = (len(self.events), len(self.obl), len(self.facts), len(self.fuses))
        rounds = 0
        shape_done = set()
        even = {}
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported("loop does not stabilise: " + lkey)
            del self.events[mark[0]:]; del self.obl[mark[1]:]; del self.facts[mark[2]:]; del self.fuses[mark[3]:]
            S = st0.copy()
            for (cell, path), cl in phis.items():
                v = S.cells[cell]
                x = cl if cl is not None else self.phi(lkey, cell, path, get_at(st0.cells[cell], path))
                S.cells[cell] = set_at(v, path, x)
            cont, exits = body(S)
            if cont is None or cont.pc is FALSE:
                self.once.add(lkey)
                return exits
            new = []
            var = frozenset([K] + [self.phi(lkey, c, p, get_at(st0.cells[c], p)) for c, p in phis])
            for cell, v0 in st0.cells.items():
                v1 = cont.cells.get(cell)
                if v1 is None: continue
                v = S.cells[cell]
                if v is v1: continue
                for path in diff(v, v1, (), var):
                    if any(c == cell and path[:len(p)] == p for (c, p) in phis): continue
                    if any(c == cell and path[:len(p)] == p for (c, p) in new): continue
                    new.append((cell, path))
            if new:
                for cell, path in new:
                    for q in [q for q in phis if q[0] == cell and q[1][:len(path)] == path]:
                        del phis[q]
                    phis[(cell, path)] = None
                for q in phis: phis[q] = None
                continue
            progressed = False
            unres = {self.phi(lkey, c, p, get_at(st0.cells[c], p)) for (c, p), cl in phis.items() if cl is None}
            for (cell, path), cl in list(phis.items()):
                if cl is not None: continue
                init = get_at(st0.cells[cell], path)
                ph = self.phi(lkey, cell, path, init)
                nxt = get_at(cont.cells[cell], path)
                if nxt is ph:
                    phis[(cell, path)] = init; progressed = True; continue
                cf = self.solve(K, ph, init, nxt, unres)
                if cf is not None:
                    phis[(cell, path)] = cf; progressed = True
                elif ph not in shape_done:
                    shape_done.add(ph)
                    if ph not in self.phi_shape and self.keeps_shape(nxt, ph):
                        self.phi_shape[ph] = init; progressed = True
                        if init.nd: ph.nd = init.nd
                        elif ph.nd is None and self.rows(init) is not None: ph.nd = 2; even[ph] = (cell, path)
            if not progressed:
                # rows taken to keep their length must do so
                for ph, (cell, path) in list(even.items()):
                    if phis.get((cell, path), 0) is not None: continue
                    nxt = get_at(cont.cells[cell], path); init = get_at(st0.cells[cell], path)
                    if length(sel(nxt, freshK())) is not self.rows(init):
                        ph.nd = None; del even[ph]; progressed = True
            if not progressed:
                todo = {}
                where_ = {}
                for (cell, path), cl in phis.items():
                    if cl is None:
                        init = get_at(st0.cells[cell], path); ph = self.phi(lkey, cell, path, init)
                        todo[ph] = (init, get_at(cont.cells[cell], path)); where_[ph] = (cell, path)
                if todo:
                    sols = self.joint(K, todo, unres) or self.derived(K, todo, unres)
                    for ph, cf in sols.items():
                        phis[where_[ph]] = cf; progressed = True
            if progressed: continue
            break
        info = Loop(); info.K = K; info.key = lkey; info.where = where; info.st0 = st0; info.entry_pc = st0.pc
        info.phis = {}
        order = []
        for (cell, path), cl in phis.items():
            init = get_at(st0.cells[cell], path)
            ph = self.phi(lkey, cell, path, init)
            nxt = get_at(cont.cells[cell], path)
            info.phis[(cell, path)] = (cl, init, nxt, ph)
            if cl is None: order.append(ph)
        info.cont_pc = cont.pc
        self.loops[lkey] = info
        nexts = {ph: (init, nxt) for cl, init, nxt, ph in info.phis.values() if cl is None}
        info.nexts = nexts
        def recmap(count):
            return {ph: self.rec(ph, nexts, K, count) for ph in nexts}
        # exits
        if N is not None:
            info.N = N
            assert len(exits) == 1
            out = []
            mp = {K: N}; mp.update(recmap(N))
            lab, s = exits[0]
            return [(lab, self.substate(s, mp, st0.pc, K, nexts))]
        syms = {K} | set(nexts)
        sols = []
        for lab, s in exits:
            c = restrict(s.pc, st0.pc)
            sols.append(self.solveN(c, K, set(nexts)))
        reg = [i for i, x in enumerate(sols) if x is not None]
        info.N = None
        if len(exits) == 1 and reg:
            n = sols[0]; info.N = n
            mp = {K: n}; mp.update(recmap(n))
            lab, s = exits[0]
            return [(lab, self.substate(s, mp, st0.pc, K, nexts))]
        if len(reg) == len(exits):
            n = sols[0]
            for x in sols[1:]: n = imin(x, n)
            info.N = n
            out = []
            done = FALSE
            for i, (lab, s) in enumerate(exits):
                c = band(ieq(sols[i], n), bnot(done)); done = bor(done, c)
                mp = {K: sols[i]}; mp.update(recmap(sols[i]))
                out.append((lab, self.substate(s, mp, band(st0.pc, c), K, nexts)))
            return out
        # irregular
        irr = [i for i in range(len(exits)) if i not in reg]
        n = None
        for i in reg: n = sols[i] if n is None else imin(sols[i], n)
        info.N = n
        rK = recmap(K)
        conds = {}
        early = FALSE
        for i in irr:
            c = restrict(exits[i][1].pc, st0.pc)
            if n is not None:
                c = restrict(c, ilt(K, n))
            c = subst(c, rK)
            conds[i] = c
            early = bor(early, c)
        el = lam(K, early)
        kx = (closed_first(early, K) or concrete_first(early, K) or raw("first", el, sort="u")) if n is None else raw("first", el, n, sort="u")
        info.first = kx; info.early = early
        ex = some(n, el) if n is not None else TRUE
        out = []
        for i, (lab, s) in enumerate(exits):
            if i in reg:
                mp = {K: n}; mp.update(recmap(n))
                pc = band(st0.pc, bnot(ex))
                if len(reg) > 1: pc = band(pc, ieq(sols[i], n))
            else:
                mp = {K: kx}; mp.update(recmap(kx))
                pc = band(st0.pc, ex)
                c = restrict(conds[i], early)
                if c is not TRUE: pc = band(pc, subst(c, {K: kx}))
            out.append((lab, self.substate(s, mp, pc, K, nexts)))
        return out

    def phi(self, lkey, cell, path, init):
        t = raw("phi", lkey, cell, path, init.id)
        if t.sort is None:
            t.sort = self.cellsort(cell, path, init)
            ty = self.celltype(cell, path)
            if ty: self.typed(t, ty[0], ty[1])
        if t not in self.phi_shape and init.nd and not t.nd: t.nd = init.nd
        return t

    def celltype(self, cell, path):
        if path == () and cell in self.ctypes:
            return self.ctypes[cell]
        return None
    ctypes = {}

    def rows(self, v):
        """the one length of all rows of a table of rows, or None"""
        try:
            if v.op == "tab":
                K, b = openl(v.a[1])
                if b.op not in ("tab", "agg") and b.sort is not None: return None
                n = length(b)
                return None if K in n.fv or n.op == "len" and n.a[0] is b else n
            if v.nd == 2 and v in self.phi_shape: return ncols(v)
        except Exception: pass
        return None

    def keeps_shape(self, nxt, ph):
        """length of nxt equals length of ph"""
        try:
            if nxt.sort in ("u", "i", "f", "b", "n", "c"): return False
            return length(nxt) is length(ph)
        except Exception:
            return False

    def rec(self, ph, nexts, K, count):
        if is_num(count) and 0 <= count.a[0] <= 16:
            sig = tuple((x, nexts[x]) for x in sorted(nexts))
            key = (ph, K, count, sig)
            if key not in self.unrolled:
                v = {x: nexts[x][0] for x in nexts}
                for k in range(int(count.a[0])):
                    mp = dict(v); mp[K] = num(k)
                    v = {x: subst(nexts[x][1], mp) for x in nexts}
                for x in v: self.unrolled[(x, K, count, sig)] = v[x]
            return self.unrolled[key]
        order = [ph]
        i = 0
        while i < len(order):
            for x in sorted((y for y in nexts[order[i]][1].fv if y in nexts), key=lambda y: contains_order(nexts[order[i]][1], y)):
                if x not in order: order.append(x)
            i += 1
        lvl = 0
        for x in order:
            lvl = max(lvl, rvlevel(nexts[x][1]))
        rv = {x: raw("rv", lvl, j, sort=x.sort) for j, x in enumerate(order)}
        for x, r in rv.items():
            r.nd = x.nd
            if x in self.phi_shape: self.phi_shape[r] = self.phi_shape[x]
        if len(order) == 1:
            x = self.extremum(ph, nexts[ph][0], nexts[ph][1], K, count)
            if x is not None: return x
            x = self.argidx(ph, nexts[ph][0], nexts[ph][1], K, count) or self.optext(ph, nexts[ph][0], nexts[ph][1], K, count)
            if x is not None: return x
        if len(order) == 2:
            x = self.argext(ph, order[1], nexts, K, count)
            if x is not None: return x
        body = raw("agg", "tuple", *[subst(nexts[x][1], rv) for x in order])
        r = mkrec(count, raw("agg", "tuple", *[nexts[x][0] for x in order]), lam(K, body), lvl)
        if r.op != "rec": return r
        r.sort = r.sort or ph.sort
        r.nd = ph.nd
        if ph in self.phi_shape: self.phi_shape[r] = self.phi_shape[ph]
        return r

    def argext(self, q, p, nexts, K, count):
        """index of a running strict or non-strict extreme value p -> argmax / argmin of its key, or None"""
        (q0, qn), (p0, pn) = nexts[q], nexts[p]
        if q in pn.fv or not isnumeric(q0) or qn.op != "ite": return None
        upd = mapleaves(lambda l: FALSE if l is q else TRUE, qn)
        if any(l is not q and l is not K for _, l in leaves1(qn)): return None
        v = mapleaves(lambda l: UNDEF if l is p else l, pn)
        v = drop_undef(v)
        if p in v.fv or any(l.op == "undef" for _, l in leaves1(v)): return None
        name = None
        for nm, c in (("argmax1", fgt0(sub(v, p))), ("argmax", bnot(fgt0(sub(p, v)))), ("argmin", fgt0(sub(p, v))), ("argmin9", bnot(fgt0(sub(v, p))))):
            if upd is c and ite(c, v, p) is pn: name = nm; break
        if name is None: return None
        k = raw("fn", name, count, lam(K, v), sort="u")
        some_ = ge0i(sub(count, ONE))
        low = p0.op == "num" and (p0.a[0] <= -Fr(10) ** 300 or p0.a[0] < 0 and fnonneg(v)) or p0.op == "fconst" and p0.a[0] == "-inf"
        high = p0.op == "num" and p0.a[0] >= Fr(10) ** 300 or p0.op == "fconst" and p0.a[0] == "inf"
        if name.startswith("argmax") and (low or p0.op == "num" and p0.a[0] == 0 and fnonneg(v) and q0 is ZERO and name == "argmax1"): return ite(some_, k, q0)
        if name.startswith("argmin") and high: return ite(some_, k, q0)
        if q0 is ZERO and p0 is subst(v, {K: ZERO}) and name in ("argmax1", "argmin"): return ite(some_, k, q0)
        if is_num(q0) and p0 is subst(v, {K: ZERO}) and q0 is ZERO: return ite(some_, k, q0)
        e = ext("amax" if name.startswith("argmax") else "amin", count, lam(K, v))
        d = sub(e, p0) if name.startswith("argmax") else sub(p0, e)
        better = fgt0(d) if name in ("argmax1", "argmin") else bnot(fgt0(neg(d)))
        return ite(band(some_, better), k, q0)

    def optext(self, ph, init, nxt, K, count):
        """the best candidate so far kept in an Option, None before the first -> the same kept in plain variables, or None"""
        if init.op != "agg" or not init.a[0].endswith("::Option#0") or nxt.op != "ite": return None
        d = raw("disc", ph, 1, 2, sort="b")
        first, more = assume(nxt, d, False), assume(nxt, d, True)
        if ph in first.fv or not all(l.op == "agg" and l.a[0].endswith("::Option#1") for _, l in leaves1(first)): return None
        if more.op != "ite" or drop_undef(mapleaves(lambda l: UNDEF if l is ph else l, more)) is not first: return None
        upd = mapleaves(lambda l: FALSE if l is ph else TRUE, more)
        new, old = fld(first, 1, 0), fld(ph, 1, 0)
        ls = [l for _, l in leaves1(new)]
        if all(l.op == "agg" and l.a[0] == "tuple" and len(l.a) == len(ls[0].a) for l in ls):
            n = len(ls[0].a) - 1
            news, olds = [fld(new, 0, j) for j in range(n)], [fld(old, 0, j) for j in range(n)]
        else: n = 1; news, olds = [new], [old]
        val = None
        for j in range(n):
            v, p = news[j], olds[j]
            if not depends(upd, p): continue
            if val is not None: return None
            for w, c in ((-1, fgt0(sub(v, p))), (-1, bnot(fgt0(sub(p, v)))), (1, fgt0(sub(p, v))), (1, bnot(fgt0(sub(v, p))))):
                if upd is c: val = j, w
            if val is None: return None
        if val is None: return None
        q = [raw("phi", "opt", ph, j, sort="f" if j == val[0] else news[j].sort or "u") for j in range(n)]
        up = TT.replace(upd, dict(zip(olds, q)))
        far = num(Fr(val[1]) * Fr(1.7976931348623157e308))
        nx = {x: (far if j == val[0] else ZERO, ite(up, news[j], x)) for j, x in enumerate(q)}
        r = [self.rec(x, nx, K, count) for x in q]
        pay = raw("agg", "tuple", *r) if ls[0].op == "agg" and ls[0].a[0] == "tuple" else r[0]
        some_ = raw("agg", init.a[0][:-1] + "1", pay)
        return ite(ge0i(sub(count, ONE)), some_, init)

    def argidx(self, q, q0, qn, K, count):
        """index of the extreme element, kept alone and compared by looking the element up -> argmax / argmin of the key, or None"""
        if qn.op != "ite" or q0 is not ZERO: return None
        new = {l for _, l in leaves1(qn) if l is not q}
        if len(new) != 1: return None
        new = new.pop()
        if new is not K and new is not add(K, ONE): return None
        upd = mapleaves(lambda l: FALSE if l is q else TRUE, qn)
        def key(t, fuel=12):
            """the element looked up at q, by the cases of its position"""
            a = next((a for a in TT.atoms(t) if a.op in ("ge0", "eq0") and K not in a.fv), None)
            if a is not None:
                if fuel == 0: return None
                x, y = key(assume(t, a, True), fuel - 1), key(assume(t, a, False), fuel - 1)
                return None if x is None or y is None else ite(a, x, y)
            es = contains(t, lambda z: z.op == "sel" and q in z.fv and q not in z.a[0].fv)
            es = [e for e in es if not any(o is not e and depends(o, e) for o in es)]
            return es[0] if len(es) == 1 else None
        e = key(upd)
        if e is None: return None
        for f in (lambda z: z, fabs):
            v = mapleaves(f, e)
            if K in v.fv: return None
            w = subst(v, {q: new})
            for nm, c in (("argmax1", fgt0(sub(w, v))), ("argmax", bnot(fgt0(sub(v, w)))), ("argmin", fgt0(sub(v, w))), ("argmin9", bnot(fgt0(sub(w, v))))):
                if upd is not c: continue
                n = count if new is K else add(count, ONE)
                k = raw("fn", nm, n, lam(K, subst(v, {q: K})), sort="u")
                return k if new is not K else ite(ge0i(sub(count, ONE)), k, ZERO)       # element 0 is among them
        return None

    def extremum(self, ph, init, nxt, K, count):
        """running maximum / minimum -> max(init, amax(n, f))"""
        if nxt.op != "ite" or not isnumeric(init): return None
        def limit(sgn):
            """nxt for ph beyond every value"""
            r = nxt
            for _ in range(64):
                at = next((z for z in TT.atoms(r) if ph in z.fv), None)
                if at is None: break
                c = terms_of(at.a[0]).get(((ph, 1),)) if at.op in ("fgt0", "fge0", "ge0") and type(at.a[0]) is T else None
                if c is None: return None
                r = assume(r, at, c * sgn > 0)
            return r if ph not in r.fv else None
        for w, f, sgn in (("amax", fmax, -1), ("amin", fmin, 1)):
            v = limit(sgn)
            if v is None: continue
            for a, b in ((ph, v), (v, ph)):
                if f(a, b) is nxt or (all(integral(l) for _, l in leaves1(v)) and (imax if w == "amax" else imin)(a, b) is nxt):
                    e = ext(w, count, lam(K, v))
                    lim = Fr(10) ** 300
                    if init.op == "fconst" and init.a[0] == ("-inf" if w == "amax" else "inf"): return e
                    if init.op == "num" and init.a[0] * -sgn <= -lim: return e
                    r = f(init, e) if not (integral(v) and integral(init)) else (imax if w == "amax" else imin)(init, e)
                    return ite(ge0i(sub(count, ONE)), r, init)
        return None

    def substate(self, s, mp, pc, K, nexts):
        keys = frozenset(mp)
        memo = {}
        cells = {}
        for c, v in s.cells.items():
            cells[c] = subst(v, mp) if v.fv & keys else v
        for x in pc.fv & keys: pass
        return State(cells, subst(pc, mp) if pc.fv & keys else pc)

    def solveN(self, c, K, phis):
        """number of iterations after which the exit condition c holds first; None if not affine"""
        if c.fv & phis: return None
        if c is TRUE: return ZERO
        atoms = []
        seen = set()
        st = [c]
        while st:
            x = st.pop()
            if x.op != "ite" or x in seen: continue
            seen.add(x); atoms.append(x.a[0]); st += [x.a[1], x.a[2]]
        free = [a for a in atoms if K not in a.fv]
        if free:
            a = min(free, key=lambda t: t.id)
            h = self.solveN(cof(c, a, True), K, phis); l = self.solveN(cof(c, a, False), K, phis)
            if h is None or l is None: return None
            return ite(ite1(a, TRUE, FALSE), h, l)
        # continue condition must be a conjunction of literals
        d = bnot(c)
        n = None
        while d is not TRUE:
            if d.op != "ite": return None
            if d.a[2] is FALSE: a, v, d = d.a[0], True, d.a[1]
            elif d.a[1] is FALSE: a, v, d = d.a[0], False, d.a[2]
            else: return None
            if a.op != "ge0": return None
            p = a.a[0] if v else sub(neg(a.a[0]), ONE)
            # p = r - b*K >= 0
            ts = terms_of(p)
            b = ts.pop(((K, 1),), 0)
            if b >= 0: return None
            r = TT._mkpoly(ts)
            if K in r.fv: return None
            m = add(r, ONE) if b == -1 else ite(ge0i(r), add(idiv(r, num(-b)), ONE), ZERO)
            m = clip0(m)
            n = m if n is None else imin(m, n)
        return n

    def solve(self, K, ph, init, nxt, unres):
        """closed form of the value at iteration K"""
        if isnumeric(init) and (isnumeric(nxt)) and ph.sort in ("u", "i", "f", "n", "c"):
            d = sub(nxt, ph)
            if not (d.fv & unres):
                if K not in d.fv: return add(init, mul(d, K))
                K2 = freshK()
                return add(init, tsum(K, lam(K2, subst(d, {K: K2}))))
        if not (nxt.fv & unres):
            if K not in nxt.fv and nxt is init: return init
            return ite(ge0i(sub(K, ONE)), subst(nxt, {K: sub(K, ONE)}), init)
        if nxt.fv & unres == {ph}:
            # pushes
            ls = leaves(nxt) if nxt.op == "ite" and TT._size(nxt) <= 6 else [([], nxt)]
            if all(l is ph or (l.op == "cat" and l.a[0] is ph and not any(y.fv & unres for y in l.a[1:])) for _, l in ls):
                tails = mapleaves(lambda l: NIL if l is ph else cat(*l.a[1:]), nxt)
                if not (tails.fv & unres):
                    one = lambda t: t.op == "agg" and t.a[0] == "array" and len(t.a) == 2
                    tl = [l for _, l in leaves(tails)]
                    K2 = freshK()
                    if all(one(l) or l is NIL for l in tl):
                        cnd = mapleaves(lambda l: TRUE if one(l) else FALSE, tails)
                        vals = mapleaves(lambda l: l.a[1] if one(l) else raw("none"), tails)
                        if cnd is TRUE:
                            return cat(init, tab(K, lam(K2, subst(vals, {K: K2}))))
                        vals = restrict(vals, cnd)
                        return cat(init, fseq(K, lam(K2, subst(cnd, {K: K2})), lam(K2, subst(vals, {K: K2}))))
                    return cat(init, flatseq(K, lam(K2, subst(tails, {K: K2}))))
            r = self.scatter(K, ph, init, nxt, unres)
            if r is not None: return r
        return None

    def upd_form(self, ph, nxt):
        """nxt = ph updated (under a condition) at one index: (index, gated new element) or None"""
        idx = None; n = 0
        for _, l in leaves1(nxt):
            if l is ph: continue
            if l.op != "upd" or l.a[0] is not ph: return None
            if idx is None: idx = l.a[1]
            elif idx is not l.a[1]: return None
            n += 1
        if idx is None: return None
        return idx, mapleaves(lambda l: sel(ph, idx) if l is ph else l.a[2], nxt)

    def scatter(self, K, ph, init, nxt, unres, others=None):
        # nxt = [c ?] upd(ph, i(K), v)
        u = self.upd_form(ph, nxt)
        if u is None: return self.pointwise(K, ph, init, nxt, unres)
        i, v = u
        c = sub(i, K)
        if K not in i.fv and not (i.fv & unres):
            # the same row in every iteration
            R = raw("phi", "row", ph, i)
            R.nd = 1 if ph.nd == 2 else None
            R.sort = self.rowsort(sel(init, i))
            if R not in self.phi_shape:
                self.phi_shape[R] = sel(init, i)
            x = replace(v, {sel(ph, i): R})
            if ph in x.fv: return None
            cf = self.solve(K, R, sel(init, i), x, unres | {R})
            if cf is None or cf.fv & (unres | {R}):
                if not (x.fv & unres) and not self.keeps_shape(x, R): return None
                return None
            return upd(init, i, cf)
        from .vn import terms_where
        dv = [z for z in terms_where(i, lambda z: z.op == "idiv" and z.a[0] is K and not (z.a[1].fv & (unres | {K})))] if K in c.fv else []
        if len(dv) == 1 and not (sub(i, dv[0]).fv & (unres | {K})):
            # all elements of a block of a matrix in row-major order
            w = dv[0].a[1]; r0 = sub(i, dv[0])
            u2 = self.upd_form(sel(ph, i), v)
            if u2 is None: return None
            q0 = sub(u2[0], imod(K, w))
            if q0.fv & (unres | {K}): return None
            r, q = freshK(), freshK()
            v2 = replace(u2[1], {raw("sel", raw("sel", ph, i), u2[0]): sel(sel(init, i), u2[0])})
            v2 = subst(replace(v2, {dv[0]: sub(r, r0), imod(K, w): sub(q, q0)}), {K: add(mul(sub(r, r0), w), sub(q, q0))})
            if v2.fv & unres: return None
            n2 = ncols(init)
            inq = band(ile(q0, q), ilt(q, add(q0, w)))
            full = tab(n2, lam(q, ite(inq, v2, sel(sel(init, r), q))))
            part = tab(n2, lam(q, ite(band(inq, ilt(sub(q, q0), imod(K, w))), v2, sel(sel(init, r), q))))
            above = ile(r0, r)
            return tab(length(init), lam(r, ite(band(above, ilt(sub(r, r0), idiv(K, w))), full, ite(band(above, ieq(sub(r, r0), idiv(K, w))), part, sel(init, r)))))
        if K in c.fv or c.fv & unres: return None
        cur = sel(init, i)
        v2 = replace_sel(v, ph, i, cur)
        if v2 is None or v2.fv & unres:
            return None
        n = length(init)
        x = freshK()
        val = subst(v2, {K: sub(x, c)})
        inr = band(ile(c, x), ilt(x, add(c, K)))
        return tab(n, lam(x, ite(inr, val, sel(init, x))))

    def rowsort(self, init):
        return self.cellsort(None, (0,), init)

    def pointwise(self, K, ph, init, nxt, unres):
        """every element of ph evolves on its own: nxt = tab(len, x -> F(ph[x], x, K))"""
        if nxt.op != "tab" or nxt.a[0] is not length(ph): return None
        x, body = openl(nxt.a[1])
        R = raw("phi", "elem", ph)
        ini = sel(init, x)
        R.sort = self.rowsort(ini)
        R.nd = 1 if ph.nd == 2 else None
        if R not in self.phi_shape: self.phi_shape[R] = sel(init, raw("sym", "*", sort="u"))
        b = replace(body, {sel(ph, x): R})
        if ph in b.fv: return None
        cf = self.solve(K, R, ini, b, unres | {R})
        if cf is None or cf.fv & (unres | {R}): return None
        return tab(length(init), lam(x, cf))

    def joint(self, K, todo, unres):
        """arrays of which iteration K touches only element (or column) K: the values read there are the initial ones.
        todo: {ph: (init, nxt)}; returns closed forms"""
        forms = {}
        for ph, (init, nxt) in todo.items():
            u = self.upd_form(ph, nxt)
            if u is not None:
                c = sub(u[0], K)
                if not (c.fv & unres) and K not in c.fv: forms[ph] = (1, u[0], c, u[1])
                continue
            if nxt.op == "tab" and nxt.a[0] is length(ph):
                x, body = openl(nxt.a[1])
                u = self.upd_form(sel(ph, x), body)
                if u is not None:
                    c = sub(u[0], K)
                    if not (c.fv & unres) and K not in c.fv and x not in c.fv: forms[ph] = (2, u[0], c, u[1], x)
        while forms:
            vals = {}
            for ph, f in forms.items():
                v = self.reads_initial(f[3], forms, todo)
                if v.fv & unres: break
                vals[ph] = v
            else: break
            del forms[ph]
        out = {}
        for ph, f in forms.items():
            init = todo[ph][0]; c = f[2]
            n = length(init); k2 = freshK()
            inr = band(ile(c, k2), ilt(k2, add(c, K)))
            if f[0] == 1:
                out[ph] = tab(n, lam(k2, ite(inr, subst(vals[ph], {K: sub(k2, c)}), sel(init, k2))))
            else:
                x = f[4]
                row = sel(init, x)
                out[ph] = tab(n, lam(x, tab(length(row), lam(k2, ite(inr, subst(vals[ph], {K: sub(k2, c)}), sel(row, k2))))))
        return out

    def derived(self, K, todo, unres):
        """values computed from the other recurrences of the loop without feeding back into them"""
        for P, (init, nxt) in todo.items():
            if len(todo) < 2 or any(P in nx.fv for Q, (_, nx) in todo.items() if Q is not P): continue
            others = {Q: f for Q, f in todo.items() if Q is not P}
            def at(v, k):
                mp = {Q: self.rec(Q, others, K, k) for Q in others if Q in v.fv}
                mp[K] = k
                return subst(v, mp)
            if isnumeric(init) and isnumeric(nxt) and P.sort in ("u", "i", "f", "n", "c"):
                d = sub(nxt, P)
                if P not in d.fv: return {P: add(init, mksum(K, lambda k: at(d, k)))}
                continue
            u = self.upd_form(P, nxt)
            if u is not None and not self.opts.get("tables"):
                c = sub(u[0], K)
                if K in c.fv or c.fv & unres: continue
                v = replace_sel(u[1], P, u[0], sel(init, u[0]))
                if v is None or P in v.fv: continue
                x = freshK()
                inr = band(ile(c, x), ilt(x, add(c, K)))
                return {P: tab(length(init), lam(x, ite(inr, at(v, sub(x, c)), sel(init, x))))}
            ls = [l for _, l in leaves1(nxt)]
            if all(l is P or l.op == "cat" and l.a[0] is P and not any(P in y.fv for y in l.a[1:]) for l in ls) and any(l is not P for l in ls):
                tails = mapleaves(lambda l: NIL if l is P else cat(*l.a[1:]), nxt)
                if P in tails.fv: continue
                one = lambda t: t.op == "agg" and t.a[0] == "array" and len(t.a) == 2
                tl = [l for _, l in leaves1(tails)]
                if all(one(l) for l in tl):
                    x = mapleaves(lambda l: l.a[1], tails)
                    return {P: cat(init, mktab(K, lambda k: at(x, k)))}
        return {}

    def reads_initial(self, v, forms, todo):
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if not any(p in t.fv for p in forms):
                r = t
            elif t.op == "sel" and t.a[0] in forms and forms[t.a[0]][0] == 1 and t.a[1] is forms[t.a[0]][1]:
                r = sel(todo[t.a[0]][0], t.a[1], t.sort)
            elif t.op == "sel" and t.a[0].op == "sel" and t.a[0].a[0] in forms and forms[t.a[0].a[0]][0] == 2 and t.a[1] is forms[t.a[0].a[0]][1]:
                p = t.a[0].a[0]
                r = sel(sel(todo[p][0], go(t.a[0].a[1])), t.a[1], t.sort)
            elif t.op in ("len", "dim") and t.a[0] in forms:
                r = length(todo[t.a[0]][0]) if t.op == "len" else ncols(todo[t.a[0]][0])
            elif t.op == "lam":
                k, b = openl(t); r = lam(k, go(b))
            elif t.op == "poly":
                r = ZERO
                for m, c in t.a:
                    y = num(c)
                    for z, e in m: y = mul(y, powi(go(z), e))
                    r = add(r, y)
            elif t.op == "ite":
                r = ite(tobool(go(t.a[0])), go(t.a[1]), go(t.a[2]))
            elif t.op == "phi": r = t
            else:
                def sa(y):
                    if type(y) is T: return go(y)
                    if type(y) is tuple: return tuple(sa(z) for z in y)
                    return y
                r = TT.build(t.op, tuple(sa(y) for y in t.a), t.sort, t.nd)
            memo[t] = r
            return r
        return go(v)

    # -------------------------------------------------------------- memory
    def load(self, st, cell, proj):
        v = st.cells.get(cell)
        if v is None: return raw("undef")
        for p in proj: v = self.get(v, p)
        return v

    def get(self, v, p):
        k = p[0]
        if k == "f":
            return self.getfld(v, p[1], p[2], p[3] if len(p) > 3 else None)
        if k == "i": return sel(v, p[1], p[2] if len(p) > 2 else None)
        if k == "col":
            n = length(v)
            return mktab(n, lambda i: sel(sel(v, i), p[1]))
        if k == "slc": return slc(v, p[1], p[2])
        if k == "cslc": return mktab(length(v), lambda i: slc(sel(v, i), p[1], p[2]))
        if k == "re": return cre(v)
        if k == "im": return cim(v)
        if k == "flat":
            return sel(flat(v), p[1])
        raise Unsupported("proj " + k)

    def getfld(self, v, var, i, meta=None):
        r = fld(v, var, i)
        if meta: return self.typed(r, meta[0], meta[1])
        return r

    def put(self, v, proj, x):
        if not proj: return x
        p = proj[0]; rest = proj[1:]
        if v.op == "ite":
            return mapleaves(lambda y: self.put(y, proj, x), v)
        k = p[0]
        if k == "f":
            cur = self.get(v, p)
            return setfld(v, p[1], p[2], self.put(cur, rest, x) if rest else x, p[4] if len(p) > 4 else None)
        if k == "i":
            return upd(v, p[1], self.put(sel(v, p[1]), rest, x) if rest else x)
        if k == "col":
            if rest and rest[0][0] == "i":
                r = rest[0][1]
                return upd(v, r, self.put(sel(v, r), (("i", p[1]),) + tuple(rest[1:]), x))
            col = self.put(self.get(v, p), rest, x)
            return mktab(length(v), lambda i: upd(sel(v, i), p[1], sel(col, i)))
        if k == "slc":
            if rest and rest[0][0] == "i":
                return self.put(v, (("i", add(p[1], rest[0][1])),) + tuple(rest[1:]), x)
            new = self.put(self.get(v, p), rest, x)
            n = length(v)
            return mktab(n, lambda i: ite(band(ile(p[1], i), ilt(i, p[2])), sel(new, sub(i, p[1])), sel(v, i)))
        if k == "cslc":
            if rest and rest[0][0] == "i":
                return upd(v, rest[0][1], self.put(sel(v, rest[0][1]), (("slc",) + tuple(p[1:]),) + tuple(rest[1:]), x))
            if rest and rest[0][0] == "col":
                return self.put(v, (("col", add(p[1], rest[0][1])),) + tuple(rest[1:]), x)
            new = self.put(self.get(v, p), rest, x)
            return mktab(length(v), lambda i: mktab(ncols(v), lambda j: ite(band(ile(p[1], j), ilt(j, p[2])), sel(sel(new, i), sub(j, p[1])), sel(sel(v, i), j))))
        if k == "re": return add(self.put(cre(v), rest, x), mul(IMAG, cim(v)))
        if k == "im": return add(cre(v), mul(IMAG, self.put(cim(v), rest, x)))
        raise Unsupported("store through " + k)

    def store(self, st, cell, proj, x):
        if not proj:
            st.cells[cell] = x
            return
        v = st.cells.get(cell)
        if v is None:
            v = raw("undef")
        st.cells[cell] = self.put(v, tuple(proj), x)

    def rdref(self, st, r):
        """value behind a reference (or the value itself)"""
        if r.op == "mref": return self.load(st, r.a[0], r.a[1])
        if r.op == "ite" and has_mref(r):
            return mapleaves(lambda x: self.rdref(st, x), r)
        return r

    def val(self, st, r):
        """fully dereferenced"""
        n = 0
        while (r.op == "mref" or (r.op == "ite" and has_mref(r))) and n < 8:
            r = self.rdref(st, r); n += 1
        return r

    def wrref(self, st, r, x):
        if r.op == "mref":
            inner = self.load(st, r.a[0], r.a[1])
            if inner.op == "mref": return self.wrref(st, inner, x)
            self.store(st, r.a[0], r.a[1], x)
        elif r.op == "ite" and has_mref(r):
            for m in sorted({l for _, l in leaves(r)}, key=lambda t: t.id):
                c = mapleaves(lambda l: TRUE if l is m else FALSE, r)
                if m.op != "mref": continue
                old = self.rdref(st, m)
                self.wrref(st, m, ite(c, x, old))
        # writes through an unknown reference are dropped: reported as unsupported
        else:
            self.unknown["write through " + r.op] = self.unknown.get("write through " + r.op, 0) + 1

    def deep(self, st, t, d=0):
        """replace references by the values behind them"""
        if d > 6: return t
        if t.op == "mref": return self.deep(st, self.rdref(st, t), d + 1)
        if t.op == "ite" and has_mref(t): return mapleaves(lambda x: self.deep(st, x, d + 1), t)
        if t.op == "agg" and has_mref(t):
            return raw("agg", t.a[0], *[self.deep(st, x, d + 1) for x in t.a[1:]])
        return t

    # -------------------------------------------------------------- places
    def meta(self, fr, p):
        return (p[4], fr.crate)

    def proj(self, fr, st, p):
        """MIR projection -> machine projection (None for deref)"""
        k = p[0]
        if k in ("field", "ufield"):
            if p[3] == "num_complex::Complex":
                return ("re",) if p[1] == 0 else ("im",)
            nf = None
            if p[3]:
                a = fr.crate.adts.get(p[3])
                if a and not a["enum"] and not a["union"]:
                    nf = ("adt:%s#0" % p[3], len(a["v"][0]["f"]))
                    ETA[nf[0]] = True
            return ("f", 0, p[1], (p[4], fr.crate) if p[4] is not None else None, nf)
        if k == "index":
            return ("i", self.val(st, st.cells[(fr.fk, p[1])]))
        if k == "cindex":
            if p[2]: return ("ie", p[1])
            return ("i", num(p[1]))
        if k == "subslice":
            return ("sub", p[1], p[2], p[3])
        raise Unsupported("projection " + k)

    def lval(self, fr, st, place):
        """resolve a place to (cell, proj) or ('val', value) / gated list"""
        cell = (fr.fk, place[0]); pj = []
        var = None
        val = None     # detached value (behind a shared reference)
        for p in place[1]:
            if p[0] in ("deref", "rawderef"):
                v = val if val is not None else self.load(st, cell, pj)
                if v.op == "mref":
                    cell, pj = v.a[0], list(v.a[1]); val = None
                elif v.op == "ite" and has_mref(v):
                    val = v  # gated reference: handled by caller on demand
                # else shared reference or box: transparent
                continue
            if p[0] == "down":
                var = p[1]; continue
            q = self.proj(fr, st, p)
            if q[0] == "f" and var is not None:
                q = ("f", var, q[2], q[3]); var = None
            if q[0] in ("ie", "sub"):
                base = val if val is not None else self.load(st, cell, pj)
                n = length(self.val(st, base))
                if q[0] == "ie": q = ("i", sub(n, num(q[1])))
                else: q = ("slc", num(q[1]), sub(n, num(q[2])) if q[3] else num(q[2]))
            if val is not None:
                val = self.get(self.val(st, val), q)
            else:
                pj.append(q)
        if val is not None: return ("val", val)
        return (cell, tuple(pj))

    def read(self, fr, st, place):
        lv = self.lval(fr, st, place)
        if lv[0] == "val": return self.val(st, lv[1]) if any(p[0] in ("deref",) for p in place[1][-1:]) else lv[1]
        v = self.load(st, lv[0], lv[1])
        return v

    def write(self, fr, st, place, x):
        # gated reference at the final deref
        lv = self.lval_gated(fr, st, place)
        for c, cell, pj in lv:
            if c is TRUE:
                self.store(st, cell, pj, x)
            else:
                old = self.load(st, cell, pj)
                self.store(st, cell, pj, ite(c, x, old))

    def lval_gated(self, fr, st, place):
        alts = [(TRUE, (fr.fk, place[0]), ())]
        var = None
        for p in place[1]:
            if p[0] in ("deref", "rawderef"):
                new = []
                for c, cell, pj in alts:
                    v = self.load(st, cell, pj)
                    if v.op == "mref": new.append((c, v.a[0], v.a[1]))
                    elif v.op == "ite" and has_mref(v):
                        for m in sorted({l for _, l in leaves(v) if l.op == "mref"}, key=lambda t: t.id):
                            cc = mapleaves(lambda l: TRUE if l is m else FALSE, v)
                            new.append((band(c, cc), m.a[0], m.a[1]))
                    else: new.append((c, cell, pj))
                alts = new
                continue
            if p[0] == "down":
                var = p[1]; continue
            q = self.proj(fr, st, p)
            if q[0] == "f" and var is not None: q = ("f", var) + q[2:4]; var = None
            new = []
            for c, cell, pj in alts:
                if q[0] == "ie":
                    n = length(self.load(st, cell, pj)); qq = ("i", sub(n, num(q[1])))
                else: qq = q
                new.append((c, cell, tuple(pj) + (qq,)))
            alts = new
        return alts

    # -------------------------------------------------------------- operands and constants
    def operand(self, fr, st, o):
        if "copy" in o or "move" in o:
            pl = o.get("copy") or o.get("move")
            v = self.read(fr, st, pl)
            if "t" in o and v.sort is None and v.op not in ("agg", "mref"):
                v = self.typed(v, o["t"], fr.crate)
            return v
        if "const" in o: return self.const(fr, o["const"], o.get("t"))
        return raw("rt")

    def const(self, fr, k, ti=None):
        ty = fr.crate.ty(ti) if ti is not None else {"k": "?"}
        if "int" in k: return num(int(k["int"]))
        if "bool" in k: return TRUE if k["bool"] else FALSE
        if "float" in k:
            import struct
            bits = int(k["float"])
            if ty.get("n") == "f32":
                v = struct.unpack("<f", struct.pack("<I", bits))[0]
            else:
                v = struct.unpack("<d", struct.pack("<Q", bits))[0]
            if v != v: return raw("fconst", "nan", sort="f")
            if v in (float("inf"), float("-inf")): return raw("fconst", "inf" if v > 0 else "-inf", sort="f")
            return num(Fr(v))
        if "str" in k: return raw("str", k["str"])
        if "array" in k:
            et = ty.get("e")
            return raw("agg", "array", *[self.const(fr, x, et) for x in k["array"]])
        if "refto" in k: return self.const(fr, k["refto"], ty.get("e"))
        if "fn" in k:
            c = k["fn"]
            return raw("fnitem", c.get("r") or c["p"], c["p"])
        if "param" in k:
            return fr.generics.get(k["param"]) or sym("<%s>" % k["param"], "u")
        if "promoted" in k:
            return self.promoted(fr, k["promoted"])
        if "item" in k:
            b = fr.crate.bodies.get(k["item"])
            if b is not None:
                g = dict(fr.generics)
                for gp, ga in zip(b.generics, k.get("args", [])):
                    if isinstance(gp, dict) and "c" in gp and isinstance(ga, dict) and "c" in ga:
                        g[gp["c"]] = self.const(fr, ga["c"])
                v, _ = self.inline(b, [], State({}, TRUE), g, "const:" + b.id)
                if v is not None: return v
            return self.typed(raw("constitem", k["item"]), ti, fr.crate) if ti is not None else raw("constitem", k["item"])
        if "zst" in k:
            if ty["k"] == "closure": return raw("agg", "closure:" + ty["p"])
            if ty["k"] == "fndef": return raw("fnitem", ty.get("f", "?"), ty.get("f", "?"))
            if ty["k"] == "adt": return raw("agg", "adt:%s#0" % ty["p"])
            return UNIT
        return raw("const", str(k))

    def promoted(self, fr, i):
        ps = fr.body.d.get("promoted") or []
        from .prog import Body
        key = (fr.body.id, i)
        d = dict(ps[i]); d.setdefault("id", fr.body.id + "::promoted%d" % i); d.setdefault("kind", "Const")
        d.setdefault("argc", 0); d.setdefault("generics", []); d.setdefault("span", fr.body.span)
        d["promoted"] = fr.body.d.get("promoted")
        b = Body(d, fr.crate)
        v, _ = self.inline(b, [], State({}, TRUE), fr.generics, "prom:%s:%d" % (fr.body.id, i))
        return v

    # -------------------------------------------------------------- blocks
    def block(self, fr, b, st):
        blk = fr.body.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(fr, st, s[2], s)
                pl = s[1]
                if not pl[1]:
                    st.cells[(fr.fk, pl[0])] = v
                    self.note_type(fr, pl[0])
                else: self.write(fr, st, pl, v)
            elif k == "dead":
                st.cells.pop((fr.fk, s[1]), None)
            elif k == "setdiscr":
                raise Unsupported("setdiscr")
        return self.term(fr, b, st, blk["t"])

    def note_type(self, fr, l):
        c = (fr.fk, l)
        if c not in self.ctypes:
            self.ctypes[c] = (fr.body.locals[l]["t"], fr.crate)

    def rvalue(self, fr, st, r, s=None):
        k = r[0]
        self.cur_span = s[3] if s else None
        if k == "use": return self.operand(fr, st, r[1])
        if k in ("ref", "reborrow"):
            if not r[2]:
                v = self.read(fr, st, r[1])
                return v
            lv = self.lval(fr, st, r[1])
            if lv[0] == "val": return lv[1]
            v = None
            return raw("mref", lv[0], lv[1])
        if k == "rawptr":
            lv = self.lval(fr, st, r[1])
            return lv[1] if lv[0] == "val" else raw("mref", lv[0], lv[1])
        if k == "bin": return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), r[4], fr.crate)
        if k == "un": return self.unop(fr, r[1], self.operand(fr, st, r[2]), r[3])
        if k == "cast": return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), r[3], r[4], s)
        if k == "agg":
            kk = r[1]; ops = [self.operand(fr, st, o) for o in r[2]]
            if kk["k"] == "adt":
                if kk["p"] == "num_complex::Complex": return add(ops[0], mul(IMAG, ops[1]))
                kind = "adt:%s#%d" % (kk["p"], kk["v"])
                if kind not in ETA: ETA[kind] = self.is_adt_struct(kk["p"])
                return agg(kind, *ops)
            if kk["k"] == "closure": return raw("agg", "closure:" + kk["p"], *ops)
            if kk["k"] == "array": return raw("agg", "array", *ops)
            if kk["k"] == "tuple": return raw("agg", "tuple", *ops)
            return raw("agg", "other", *ops)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = self.const(fr, r[2])
            return rep(n, v)
        if k == "discr":
            v = self.val(st, self.read(fr, st, r[1]))
            ti = fr.crate.strip(r[2]); ty = fr.crate.ty(ti)
            return self.discr(v, ty)
        if k == "tls": return raw("static", r[1])
        raise Unsupported("rvalue " + k + " " + str(r)[:100])

    def discr(self, v, ty):
        p = ty.get("p")
        a = self.crate.adts.get(p) if p else None
        def f(x):
            if x.op == "agg" and x.a[0].startswith("adt:"):
                vi = int(x.a[0].rsplit("#", 1)[1])
                d = int(a["v"][vi]["d"]) if a else vi
                if p == "core::cmp::Ordering": d = vi - 1
                return num(d)
            return raw("discof", x, p or "?", sort="i")
        return mapleaves(f, v)

    def sw_eq(self, d, val, fr, ti):
        """condition that switch operand d equals val"""
        def f(x):
            if x.op == "discof":
                a = self.crate.adts.get(x.a[1])
                if a is None: return ite1(raw("disc", x.a[0], val, None, sort="b"), TRUE, FALSE)
                for i, v in enumerate(a["v"]):
                    if int(v["d"]) == val or x.a[1] == "core::cmp::Ordering" and i - 1 == val:
                        return disc(x.a[0], i, len(a["v"]))
                return FALSE
            if x in (TRUE, FALSE):
                return x if val else bnot(x)
            if x.sort == "b": return tobool(x) if val else bnot(x)
            return ieq(x, num(val))
        ty = fr.crate.ty(ti)
        if ty["k"] == "bool" and d.op == "ite" and all(l in (TRUE, FALSE) for _, l in leaves1(d)):
            return d if val else bnot(d)
        if ty["k"] == "int":
            w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}.get(ty.get("n"), 64)
            val %= 2**w
            if val >= 2**(w - 1): val -= 2**w
        return mapleaves(f, d)

    def term(self, fr, b, st, t):
        k = t["k"]
        cfg = fr.body.cfg
        if k == "goto": return [(t["to"], st)]
        if k == "drop": return [(t["to"], st)]
        if k == "return": return [("return", st)]
        if k in ("unreachable", "resume"): return []
        if k == "assert":
            c = self.operand(fr, st, t["c"])
            c = tobool(c)
            if not t["e"]: c = bnot(c)
            self.require(fr, st, c, t["m"], self.tspan(fr, b), ops=[self.operand(fr, st, o) for o in t.get("ops", [])], block=b)
            return [(t["to"], st)]
        if k == "switch":
            d = self.val(st, self.operand(fr, st, t["d"]))
            outs = []
            rest = TRUE
            alive = []
            dead_edges = False
            for v, to in t["t"]:
                c = self.sw_eq(d, int(v), fr, t["ty"])
                cc = band(rest, c)
                rest = band(rest, bnot(c))
                alive.append((cc, to))
            alive.append((rest, t["o"]))
            live = [(c, to) for c, to in alive if to in cfg.live]
            deadc = FALSE
            for c, to in alive:
                if to not in cfg.live and fr.body.blocks[to]["t"]["k"] != "unreachable":
                    deadc = bor(deadc, c)
            if deadc is not FALSE:
                self.require(fr, st, bnot(deadc), "panic", self.tspan(fr, b), block=b)
            groups = {}
            for c, to in live: groups[to] = bor(groups.get(to, FALSE), c)
            care = FALSE
            for c in groups.values(): care = bor(care, c)
            for to, c in groups.items():
                c = restrict(c, care) if care is not TRUE else c
                s2 = st.copy(); s2.pc = band(st.pc, c)
                if s2.pc is not FALSE: outs.append((to, s2))
            return outs
        if k == "call":
            return self.do_call(fr, b, st, t)
        raise Unsupported("terminator " + k)

    def tspan(self, fr, b):
        sp = fr.body.blocks[b].get("sp")
        return fr.body.where(sp) if sp else fr.body.where(self.blockspan(fr.body, b))

    def require(self, fr, st, cond, what, span, ops=(), block=None):
        if cond is TRUE or st.pc is FALSE: return
        self.obl.append(dict(cond=cond, pc=st.pc, what=what, where=span, fn=fr.body.id, ops=list(ops), fk=fr.fk,
                             stack=tuple(self.stack), nfacts=len(self.facts), loops=None))
        self.facts.append((st.pc, cond))

    # -------------------------------------------------------------- arithmetic
    def tyk(self, ti, crate):
        return crate.ty(ti) if ti is not None else {"k": "?"}

    def binop(self, fr, st, op, a, b, ti, crate):
        a = self.val(st, a); b = self.val(st, b)
        k = self.tyk(ti, crate)["k"]
        isf = k == "float"
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            r = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b)
            ov = self.overflow(r, base, k, self.tyk(ti, crate))
            return raw("agg", "tuple", r, ov)
        if op in ("Add", "AddUnchecked"): return add(a, b)
        if op in ("Sub", "SubUnchecked"): return sub(a, b)
        if op in ("Mul", "MulUnchecked"): return mul(a, b)
        if op == "Div":
            if isf and self.cur_span is not None:
                self.fuses.append(dict(name="/", args=[b], nd=0, pc=st.pc, where=fr.body.where(self.cur_span), fn=fr.body.id, fk=fr.fk, stack=tuple(self.stack)))
            return fdiv(a, b) if isf else idiv(a, b)
        if op == "Rem": return fn("frem", a, b) if isf else imod(a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b, k)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if k == "bool":
                return {"BitAnd": band, "BitOr": bor}[op](a, b) if op != "BitXor" else ite(tobool(a), bnot(b), tobool(b))
            if is_num(a) and is_num(b):
                x, y = int(a.a[0]), int(b.a[0])
                return num(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
            if op == "BitOr": return TT.bitor(a, b, "u" if k == "uint" else "i")
            return raw("bit", op, *sorted((a, b), key=lambda t: t.id), sort="u" if k == "uint" else "i")
        if op in ("Shl", "ShlUnchecked"):
            if is_num(b): return mul(a, num(1 << int(b.a[0])))
            return mul(a, fn("ipow", num(2), b, sort="u"))
        if op in ("Shr", "ShrUnchecked"):
            if is_num(a) and is_num(b): return num(int(a.a[0]) >> int(b.a[0]))
            return raw("bit", "Shr", a, b, sort="u" if k == "uint" else "i")
        if op == "Cmp": return self.ordering(a, b, isf)
        if op == "Offset": return raw("app", "offset", a, b)
        raise Unsupported("binop " + op)

    def overflow(self, r, base, k, ty):
        if k == "uint":
            if base == "Sub":
                return bnot(ge0i(r))
            bits = {"u8": 8, "u16": 16, "u32": 32}.get(ty.get("n"), 64)
            if bits == 64:
                return FALSE if not self.opts.get("upper") else bnot(ge0i(sub(num(2**64 - 1), r)))
            return bnot(ge0i(sub(num(2**bits - 1), r)))
        bits = {"i8": 8, "i16": 16, "i32": 32}.get(ty.get("n"), 64)
        if bits == 64: return FALSE
        return bor(bnot(ge0i(sub(num(2**(bits - 1) - 1), r))), bnot(ge0i(add(r, num(2**(bits - 1))))))

    def compare(self, op, a, b, k):
        if k == "bool":
            eq = ite(tobool(a), tobool(b), bnot(b))
            return eq if op == "Eq" else bnot(eq)
        if k == "float":
            if op == "Eq": return feq0(sub(a, b))
            if op == "Ne": return bnot(feq0(sub(a, b)))
            if op == "Lt": return flt(a, b)
            if op == "Gt": return flt(b, a)
            if op == "Le": return fle(a, b)
            return fle(b, a)
        if (isnumeric(a) or a.op == "ite") and (isnumeric(b) or b.op == "ite") and k in ("int", "uint", "?", "char") or (isnumeric(a) and isnumeric(b)):
            if op == "Eq": return ieq(a, b)
            if op == "Ne": return bnot(ieq(a, b))
            if op == "Lt": return ilt(a, b)
            if op == "Gt": return ilt(b, a)
            if op == "Le": return ile(a, b)
            return ile(b, a)
        if op in ("Eq", "Ne"):
            e = TRUE if a is b else tobool(raw("eq", *sorted((a, b), key=lambda t: t.id), sort="b"))
            return e if op == "Eq" else bnot(e)
        return tobool(raw("cmp", op, a, b, sort="b"))

    def ordering(self, a, b, isf):
        O = "adt:core::cmp::Ordering#%d"
        less, eq, gr = raw("agg", O % 0), raw("agg", O % 1), raw("agg", O % 2)
        if isf:
            return ite(flt(a, b), less, ite(flt(b, a), gr, eq))
        return ite(ilt(a, b), less, ite(ilt(b, a), gr, eq))

    def unop(self, fr, op, a, ti):
        k = self.tyk(ti, fr.crate)["k"]
        if op == "Not":
            if k == "bool": return bnot(a)
            return raw("bit", "Not", a, sort="u" if k == "uint" else "i")
        if op == "Neg": return neg(a)
        if op == "PtrMetadata": return length(a)
        raise Unsupported("unop " + op)

    def cast(self, fr, st, kind, v, fti, tti, s=None):
        if kind in ("IntToInt",):
            f, t = fr.crate.ty(fti), fr.crate.ty(tti)
            if f["k"] == "bool": return ite(tobool(v), ONE, ZERO)
            self.narrow(fr, st, v, f, t, s)
            return self.int_cast(v, f, t)
        if kind == "IntToFloat": return v
        if kind == "FloatToFloat": return v
        if kind == "FloatToInt":
            t = fr.crate.ty(tti)
            return trunc(v, t["k"] == "uint")
        return v

    def int_cast(self, v, f, t):
        return v

    def narrow(self, fr, st, v, f, t, s):
        rng = {"i8": (-2**7, 2**7-1), "u8": (0, 2**8-1), "i16": (-2**15, 2**15-1), "u16": (0, 2**16-1), "i32": (-2**31, 2**31-1),
               "u32": (0, 2**32-1)}
        order = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "isize": 64, "usize": 64}
        fn_, tn = f.get("n"), t.get("n")
        if fn_ == tn: return
        cond = TRUE
        if t["k"] == "uint" and f["k"] == "int":
            cond = band(cond, ge0i(v))
        if tn in rng and order.get(fn_, 64) + (1 if f["k"] == "uint" and t["k"] == "int" else 0) > order[tn]:
            lo, hi = rng[tn]
            cond = band(cond, ge0i(sub(num(hi), v)))
            if lo < 0 and f["k"] == "int": cond = band(cond, ge0i(sub(v, num(lo))))
        if cond is not TRUE and self.opts.get("casts", True):
            self.obl.append(dict(cond=cond, pc=st.pc, what="cast:%s->%s" % (fn_, tn), where=fr.body.where(s[3]) if s else "?",
                                 fn=fr.body.id, ops=[v], fk=fr.fk, stack=tuple(self.stack), nfacts=len(self.facts), loops=None))

    # -------------------------------------------------------------- calls
    def do_call(self, fr, b, st, t):
        fo = t["f"]
        c = Call()
        c.fr = fr; c.fk = fr.fk + "/%d" % b; c.span = self.tspan(fr, b); c.dt = t.get("dt"); c.mac = t.get("xmac")
        c.args = [self.operand(fr, st, a) for a in t["a"]]
        c.argt = [a.get("t") for a in t["a"]]
        callee = None
        if "const" in fo and "fn" in fo["const"]:
            callee = fo["const"]["fn"]
            c.p = callee["p"]; c.r = callee.get("r") or c.p; c.callee = callee
            c.ga = callee.get("a", [])
        else:
            c.p = c.r = "<indirect>"; c.callee = {}; c.ga = []
            f = self.operand(fr, st, fo)
            v = self.call_value(st, f, c.args, c)
            return self.finish_call(fr, st, t, v)
        v = self.dispatch(st, c)
        return self.finish_call(fr, st, t, v)

    def finish_call(self, fr, st, t, v):
        if t.get("to") is None or v is None or st.pc is FALSE:
            return []
        v = self.typed(v, t["dt"], fr.crate) if t.get("dt") is not None else v
        pl = t["d"]
        if not pl[1]:
            st.cells[(fr.fk, pl[0])] = v
            self.note_type(fr, pl[0])
        else: self.write(fr, st, pl, v)
        return [(t["to"], st)]

    def event(self, st, c, args, ret, name=None):
        self.events.append(dict(name=name or c.r, p=c.p, args=args, pc=st.pc, where=c.span, fn=c.fr.body.id, fk=c.fk, ret=ret,
                                stack=tuple(self.stack), nobl=len(self.obl), call=c))

    def fevent(self, st, c, name, args):
        self.fuses.append(dict(name=name, args=list(args), pc=st.pc, where=c.span, fn=c.fr.body.id, fk=c.fk, stack=tuple(self.stack)))

    def divisor(self, st, c, x, nd=0):
        self.fuses.append(dict(name="/", args=[x], nd=nd, pc=st.pc, where=c.span, fn=c.fr.body.id, fk=c.fk, stack=tuple(self.stack)))

    def opaque(self, st, c, name=None, effects=True):
        name = name or c.r
        args = [self.deep(st, a) for a in c.args]
        g = [self.const(c.fr, x["c"]) for x in c.ga if isinstance(x, dict) and "c" in x]
        t = raw("app", name, *args, *([raw("agg", "generics", *g)] if g else []))
        ret = self.typed(t, c.dt, c.fr.crate) if c.dt is not None else t
        self.event(st, c, args, ret, name)
        if effects:
            for i, a in enumerate(c.args):
                self.havoc(st, a, name, i, args)
            # a mutable reference out of a mutable reference: a part of the argument, which later stores go to
            t = c.fr.crate.ty(c.dt) if c.dt is not None else None
            rs = [a for a in c.args if a.op == "mref"]
            if t and t["k"] == "ref" and t["m"] and rs:
                new = self.rdref(st, rs[0])
                self.store(st, rs[0].a[0], rs[0].a[1], raw("agg", "via:" + name, new, ret))
                return raw("mref", rs[0].a[0], tuple(rs[0].a[1]) + (("f", 0, 1),))
        return ret

    def havoc(self, st, a, name, i, args, d=0):
        if d > 4: return
        if a.op == "mref":
            old = self.rdref(st, a)
            new = raw("mut", name, i, *args)
            new.nd = old.nd
            self.store(st, a.a[0], a.a[1], new)
        elif a.op == "agg":
            for j, x in enumerate(a.a[1:]):
                if type(x) is T: self.havoc(st, x, name, (i, j), args, d + 1)
        elif a.op == "ite" and has_mref(a):
            for _, l in leaves(a): self.havoc(st, l, name, i, args, d + 1)

    def dispatch(self, st, c):
        for nm in (c.r, c.p):
            if self.cuts(nm):
                h = self.hooks.get(nm)
                if h: return h(self, st, c)
                return self.opaque(st, c, nm, nm not in self.pure)
        cr = c.fr.crate
        b = cr.bodies.get(c.r) or cr.bodies.get(c.p)
        if b is not None and not re.match(r"core::ops::(function::)?Fn(Mut|Once)?::call", c.p):
            return self.call_local(st, b, c.args, c)
        tr = c.callee.get("trait")
        if tr and (tr, c.callee.get("m")) in cr.trait_impls and c.args:
            v = self.dyn(st, c, tr, c.callee.get("m"))
            if v is not NotImplemented: return v
        v = self.models.call(self, st, c)
        if v is not NotImplemented: return v
        self.unknown[c.p] = self.unknown.get(c.p, 0) + 1
        return self.opaque(st, c)

    def call_local(self, st, b, args, c):
        g = {}
        for gp, ga in zip(b.generics, c.callee.get("ra") or c.ga or []):
            if isinstance(gp, dict) and "c" in gp and isinstance(ga, dict) and "c" in ga:
                g[gp["c"]] = self.const(c.fr, ga["c"])
        ret, s2 = self.inline(b, args, st, g, c.fk + ":" + b.id.rsplit("::", 1)[-1])
        if s2 is None:
            st.pc = FALSE
            return None
        st.cells = s2.cells
        # the callee cannot strengthen the condition except by diverging, which is not tracked
        return ret

    def dyn(self, st, c, tr, m):
        recv = self.val(st, c.args[0])
        impls = c.fr.crate.trait_impls[(tr, m)]
        def target(v):
            if v.op == "agg" and v.a[0].startswith("adt:"):
                p = v.a[0][4:].rsplit("#", 1)[0]
                for i, cid in impls:
                    if c.fr.crate.ty(i["self"]).get("p") == p: return cid
            return None
        ls = leaves(recv)
        if not all(target(l) for _, l in ls): return NotImplemented
        if len(ls) == 1:
            return self.call_local(st, c.fr.crate.bodies[target(ls[0][1])], c.args, c)
        return NotImplemented

    def call_value(self, st, f, args, c):
        """call a closure or function item value"""
        env = f
        f = self.val(st, f)
        if f.op == "agg" and f.a[0].startswith("closure:"):
            b = c.fr.crate.bodies.get(f.a[0][8:])
            if b is None: return self.opaque(st, c)
            fk = c.fk + ":" + b.id.rsplit("::", 1)[-1]
            tmp = (fk, "env")
            st.cells[tmp] = f
            byref = c.fr.crate.ty(b.locals[1]["t"])["k"] == "ref"
            e = raw("mref", tmp, ()) if byref else f
            ret, s2 = self.inline(b, [e] + list(args), st, c.fr.generics, fk)
            if s2 is None:
                st.pc = FALSE; return None
            s2.cells.pop(tmp, None)
            st.cells = s2.cells
            return ret
        if f.op == "agg" and f.a[0] == "inspect":
            tmp = (c.fk + ":seen", "it")
            st.cells[tmp] = args[0]
            r = self.call_value(st, f.a[1], [raw("mref", tmp, ())], c)
            st.cells.pop(tmp, None)
            return None if r is None else args[0]
        if f.op == "fnitem":
            c2 = Call()
            for k in Call.__slots__:
                if hasattr(c, k): setattr(c2, k, getattr(c, k))
            c2.p = f.a[1]; c2.r = f.a[0]; c2.args = list(args); c2.argt = [None] * len(args); c2.callee = {}; c2.ga = []; c2.dt = None
            return self.dispatch(st, c2)
        c2 = Call()
        for k in Call.__slots__:
            if hasattr(c, k): setattr(c2, k, getattr(c, k))
        c2.args = [f] + list(args); c2.argt = [None] * len(c2.args); c2.p = c2.r = "<indirect>"; c2.dt = None
        return self.opaque(st, c2)

# ------------------------------------------------------------------ helpers
IMAG = raw("imag", sort="c")
def cre(v):
    def f(x):
        if x.op == "num": return x
        ts = terms_of(x)
        if all(a.sort in ("u", "i", "f") or a.op in ("len", "dim", "psum") and not has_complex(a) for m, c in ts.items() for a, e in m) and not has_complex(x):
            return x
        r = ZERO; rest = {}
        for m, c in ts.items():
            if (IMAG, 1) in m and not any(has_complex(a) for a, e in m if a is not IMAG): continue
            if not any(has_complex(a) for a, e in m):
                r = add(r, TT._mkpoly({m: c}))
            else: rest[m] = c
        if not rest: return r
        return add(r, raw("re", TT._mkpoly(rest), sort="f"))
    return mapleaves(f, v)
def cim(v):
    def f(x):
        if x.op == "num": return ZERO
        if not has_complex(x): return ZERO
        ts = terms_of(x)
        r = ZERO; rest = {}
        for m, c in ts.items():
            if (IMAG, 1) in m and not any(has_complex(a) for a, e in m if a is not IMAG):
                r = add(r, TT._mkpoly({tuple(y for y in m if y != (IMAG, 1)): c})); continue
            if not any(has_complex(a) for a, e in m): continue
            rest[m] = c
        if not rest: return r
        return add(r, raw("im", TT._mkpoly(rest), sort="f"))
    return mapleaves(f, v)
REBUILD["re"] = lambda p: cre(p)
REBUILD["im"] = lambda p: cim(p)
_hc = {}
def has_complex(t):
    r = _hc.get(t)
    if r is None:
        if t.op in ("re", "im") or (t.op == "fn" and t.a[0] == "norm"): r = False
        elif t.sort == "c" or t is IMAG: r = True
        elif t.op == "poly": r = any(has_complex(a) for m, c in t.a for a, e in m)
        elif t.op in ("psum", "box", "fn", "ite", "sum", "lam"): r = any(has_complex(x) for x in t.a if type(x) is T)
        else: r = False
        _hc[t] = r
    return r

_hm = {}
def has_mref(t):
    r = _hm.get(t)
    if r is None:
        if t.op == "mref": r = True
        elif t.op in ("ite", "agg"): r = any(has_mref(x) for x in t.a if type(x) is T)
        else: r = False
        _hm[t] = r
    return r

def fewrefs(v):
    """how many places an iterator at its start will visit, if it goes through a written list of them"""
    if v.op != "agg" or type(v.a[0]) is not str or not v.a[0].startswith("iter:"): return None
    if v.a[0] == "iter:seq" and v.a[1] is ZERO and v.a[2].op == "agg" and v.a[2].a[0] == "array" and len(v.a[2].a) <= 9 and (has_mref(v.a[2]) or any(x.op in ("agg", "tab", "cat") for x in v.a[2].a[1:])): return len(v.a[2].a) - 1
    return min([x for x in (fewrefs(y) for y in v.a[1:] if type(y) is T) if x], default=None)

def leaves1(t):
    seen = set(); out = []; st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": st += [x.a[1], x.a[2]]
        else: out.append((None, x))
    return out

def struct_kind(v):
    """(kind, number of fields) of a struct-like value, from any of its leaves"""
    for _, l in leaves1(v):
        if l.op == "agg" and l.a[0] != "array" and not l.a[0].startswith("adt:"): return l.a[0], len(l.a) - 1
        if l.op == "agg" and l.a[0].startswith("adt:") and ETA.get(l.a[0]): return l.a[0], len(l.a) - 1
    return None

def expand(v, kind, n):
    if v.op == "agg" and v.a[0] == kind: return v
    return raw("agg", kind, *[fld(v, 0, i) for i in range(n)])

def get_at(v, path):
    for i in path:
        if type(i) is tuple: v = sel(v, i[1])
        else: v = v.a[1 + i] if v.op == "agg" else fld(v, 0, i)
    return v
def set_at(v, path, x):
    if not path: return x
    if type(path[0]) is tuple:
        i = path[0][1]
        if len(path) == 1: return upd(v, i, x)
        return upd(v, i, set_at(sel(v, i), path[1:], x))
    if v.op != "agg":
        k = KINDS.get(v) or struct_kind(v)
        if k is None: raise Unsupported("field of an unknown structure")
        v = expand(v, *k)
    a = list(v.a)
    a[1 + path[0]] = set_at(v.a[1 + path[0]], path[1:], x)
    return raw("agg", *a)
KINDS = {}

def diff(a, b, path, var=None):
    """paths at which b differs from a; var: symbols that change from iteration to iteration"""
    if a is b: return []
    if var is not None:
        idx = []; x = b
        if a.op == "agg" and a.a[0] == "array" and b.op == "agg" and b.a[0] == "array" and len(a.a) == len(b.a):
            out = []
            for i in range(len(a.a) - 1): out += diff(a.a[1 + i], b.a[1 + i], path + (("i", num(i)),), var)
            return out
        base = set()
        y = a
        while y.op == "upd": base.add(y); y = y.a[0]
        base.add(y)
        # element-wise: b is an update chain over a, or over what a was updated from
        while x.op == "upd" and x is not a:
            idx.append(x.a[1]); x = x.a[0]
        if idx and x is not a and x in base:
            z = a
            while z is not x: idx.append(z.a[1]); z = z.a[0]
            x = a
        if idx and x is a and not any(i.fv & var for i in idx):
            u = []
            for i in idx:
                if i not in u: u.append(i)
            if all(ieq(i, j) is FALSE for n, i in enumerate(u) for j in u[:n]):
                out = []
                for i in u: out += diff(sel(a, i), sel(b, i), path + (("i", i),), var)
                return out
    ka, kb = struct_kind(a), struct_kind(b)
    if ka is not None and kb is None and all(l.op in ("sym", "fld", "sel", "phi", "rv", "rec", "app", "mut", "updf") for _, l in leaves1(b)): kb = ka
    if kb is not None and ka is None and all(l.op in ("sym", "fld", "sel", "phi", "rv", "rec", "app", "mut", "updf") for _, l in leaves1(a)): ka = kb
    if ka is not None and ka == kb and not ka[0].startswith("closure:x"):
        x, y = expand(a, *ka), expand(b, *kb)
        KINDS.setdefault(a, ka); KINDS.setdefault(b, kb)
        out = []
        for i in range(1, len(x.a)): out += diff(x.a[i], y.a[i], path + (i - 1,), var)
        return out
    return [path]

def contains_order(t, x):
    """deterministic first-occurrence order of x in t"""
    n = [0]; pos = [None]; seen = set()
    def go(y):
        if pos[0] is not None or y in seen: return
        seen.add(y); n[0] += 1
        if y is x: pos[0] = n[0]; return
        def g(z):
            if type(z) is T: go(z)
            elif type(z) is tuple:
                for w in z: g(w)
        for z in y.a: g(z)
    go(t)
    return pos[0] or 0

def fnonneg(t):
    return all(l.op == "fn" and l.a[0] in ("abs", "norm", "sqrt") or l.op == "num" and l.a[0] >= 0 for _, l in leaves1(t))

def closed_first(early, K):
    """least K with A*K + C >= 0 (A a positive integer free of K), in closed form"""
    if early is TRUE: return ZERO
    if early.op != "ite": return None
    if K not in early.a[0].fv:
        hi, lo = closed_first(early.a[1], K), closed_first(early.a[2], K)
        if hi is None or lo is None: return None
        return ite(tobool(early.a[0]), hi, lo)
    if early.a[0].op != "ge0": return None
    p = early.a[0].a[0]
    if early.a[1] is FALSE and early.a[2] is TRUE: p = sub(neg(p), ONE)
    elif early.a[1] is not TRUE or early.a[2] is not FALSE: return None
    A = {}; C = {}
    for m, c in terms_of(p).items():
        e = dict(m).get(K)
        if e is None:
            if any(K in x.fv for x, _ in m): return None
            C[m] = c
        elif e == 1 and not any(K in x.fv for x, _ in m if x is not K):
            A[tuple((x, y) for x, y in m if x is not K)] = c
        else: return None
    from .terms import _mkpoly
    A, C = _mkpoly(A), _mkpoly(C)
    if A is ZERO or not integral(A) or not nonneg(A): return None
    if nonneg(sub(sub(A, C), ONE)): return idiv(sub(sub(A, C), ONE), A)
    return ite(ge0i(C), ZERO, add(ONE, idiv(sub(neg(C), ONE), A)))

def concrete_first(early, K):
    """least K for which the condition holds, when the first conditions are decided by constants alone"""
    for k in range(65):
        c = subst(early, {K: num(k)})
        if c is TRUE: return num(k)
        if c is not FALSE: return None
    return None

def periodic(count, inits, l, lvl):
    """closed form of a buffer that is filled one item per step and emptied every P-th step, and of lists that get one item at each emptying"""
    m = len(inits.a) - 1
    if m > 4: return None
    K, body = openl(l)
    if body.op != "agg" or len(body.a) - 1 != m: return None
    rv = [raw("rv", lvl, j) for j in range(m)]
    isrv = lambda z: z.op == "rv" and z.a[0] == lvl
    for j in range(m):
        n = body.a[1 + j]
        if n.op != "ite" or length(inits.a[1 + j]) is not ZERO: continue
        at = n.a[0]
        for c, full, more in ((at, n.a[1], n.a[2]), (bnot(at), n.a[2], n.a[1])):
            if length(full) is not ZERO: continue
            L = length(rv[j])
            P = None
            if at.op in ("eq0", "ge0"):
                d = at.a[0]
                for sgn in (1, -1):
                    q = add(d, L) if sgn == 1 else sub(L, d)
                    if not contains(q, isrv) and K not in q.fv:
                        if at.op == "eq0" and c is at or c is at and sgn == -1 or c is not at and sgn == 1:
                            # eq0(P-1-L) | ge0(L-(P-1)) | not ge0(P-2-L)
                            P = add(q, ONE) if at.op == "eq0" or c is at else add(q, num(2))
                        break
            if P is None: continue
            if not (more.op == "cat" and len(more.a) == 2 and more.a[0] is rv[j]) : continue
            last = more.a[1]
            if not (last.op == "agg" and last.a[0] == "array" and len(last.a) == 2): continue
            e = last.a[1]
            if contains(e, isrv): continue
            el = lambda k: subst(e, {K: k})
            pos = ge0i(sub(P, ONE))
            if j == 0:
                r = imod(count, P)
                return ite(pos, mktab(r, lambda i: el(add(sub(count, r), i))), mktab(count, el) if False else raw("rec", count, inits, l, lvl)) if pos is not TRUE else mktab(r, lambda i: el(add(sub(count, r), i)))
            g = body.a[1]
            if g.op != "ite" or g.a[0] is not at: continue
            gf, gm = (g.a[1], g.a[2]) if c is at else (g.a[2], g.a[1])
            if gm is not rv[0]: continue
            vals = []
            bad = []
            def item(x):
                if x.op == "cat" and len(x.a) == 2 and x.a[0] is rv[0] and x.a[1].op == "agg" and x.a[1].a[0] == "array" and len(x.a[1].a) == 2: return x.a[1].a[1]
                bad.append(x); return ZERO
            v = mapleaves(item, gf)
            if bad or any(contains(v, lambda z, k=k: z is rv[k]) for k in range(m) if k != j): continue
            def at_chunk(q):
                base = mul(q, P)
                buf = mktab(sub(P, ONE), lambda i: el(add(base, i)))
                w = replace(v, {rv[j]: buf})
                return subst(w, {K: add(base, sub(P, ONE))})
            closed = cat(inits.a[1], mktab(idiv(count, P), at_chunk))
            return closed if pos is TRUE else ite(pos, closed, inits.a[1])
    return None

def unroll(n, inits, l, lvl):
    st = list(inits.a[1:])
    for k in range(n):
        K, body = openl(l)
        mp = {raw("rv", lvl, j): v for j, v in enumerate(st)}
        mp[K] = num(k)
        b = replace(body, mp)
        if b.op != "agg" or len(b.a) - 1 != len(st): return None
        st = list(b.a[1:])
        if sum(TT._size(x) for x in st) > 400: return None
    return st[0]

def mkrec(count, inits, l, lvl):
    """value of the first component after count steps"""
    if count is ZERO: return inits.a[1]
    if l.a[1].op == "agg" and len(l.a[1].a) > 1 and l.a[1].a[1] is raw("rv", lvl, 0): return inits.a[1]
    if all(x is ZERO for x in inits.a[1:]):
        # a recurrence at rest stays at rest
        key = (inits, l, lvl); r = _rest.get(key)
        if r is None:
            r = False
            if not contains(l, lambda x: x.op == "rec" and x.a[3] == lvl):
                K, body = openl(l)
                b = replace(body, {raw("rv", lvl, j): ZERO for j in range(len(inits.a) - 1)})
                r = b is inits
            _rest[key] = r
        if r: return inits.a[1]
    if is_num(count) and 0 < count.a[0] <= 64:
        key = (count, inits, l, lvl); r = _unr.get(key)
        if r is None:
            r = unroll(int(count.a[0]), inits, l, lvl) or False
            _unr[key] = r
        if r: return r
    key = (count, inits, l, lvl)
    if key not in _per: _per[key] = periodic(count, inits, l, lvl)
    if _per[key] is not None: return _per[key]
    return raw("rec", count, inits, l, lvl)
_rest = {}
_unr = {}
_per = {}
REBUILD["rec"] = mkrec

_rl = {}
def rvlevel(t):
    """1 + highest recurrence level bound inside t"""
    r = _rl.get(t)
    if r is None:
        r = 0
        if t.op == "rv": r = t.a[0] + 1
        def g(z):
            nonlocal r
            if type(z) is T: r = max(r, rvlevel(z))
            elif type(z) is tuple:
                for w in z: g(w)
        for z in t.a: g(z)
        _rl[t] = r
    return r

def replace_sel(v, ph, i, cur):
    """v with sel(ph,i) -> cur; result may still mention ph"""
    return replace(v, {raw("sel", ph, i): cur})

def nd_of(ty):
    m = re.search(r"Dim<\[usize; (\d)\]>", ty.get("s", ""))
    if m: return int(m.group(1))
    if "Array1" in ty.get("s", ""): return 1
    if "Array2" in ty.get("s", ""): return 2
    return None
