"""C33: every loop of library and tool makes progress towards a bound"""
from ..vn import *
from .. import lin, calls, prog
from ..machine import Machine

def crates():
    l, c = prog.load()
    return [("library", l), ("tool", c)]

# ---- iterators that end by themselves
ENDLESS = ("RangeFrom", "Repeat", "RepeatWith", "Cycle", "Successors", "FromFn", "RepeatN_", "FromCoroutine", "Incoming", "Iter_", "IntoIter_")
def finite(crate, ti, depth=0):
    """True: an iterator of this type yields finitely many items; False: it may not end; None: unknown"""
    t = crate.ty(ti)
    if depth > 12: return None
    if t["k"] == "ref": return finite(crate, t["e"], depth + 1)
    if t["k"] == "slice" or t["k"] == "array": return True
    if t["k"] != "adt": return None
    p, a = t["p"], [x for x in t["a"] if isinstance(x, int)]
    n = p.rsplit("::", 1)[-1]
    if p.startswith("core::ops::range::"): return n != "RangeFrom"
    if p.startswith(("core::iter", "itertools")):
        if n in ("Take", "Once", "Empty", "RepeatN", "OnceWith"): return True
        if n in ("Repeat", "RepeatWith", "Cycle", "Successors", "FromFn", "RepeatCall", "Iterate", "Unfold"): return False
        if n in ("Zip", "ZipEq_"):
            fs = [finite(crate, x, depth + 1) for x in a]
            return True if any(fs) else (False if fs and all(f is False for f in fs) else None)
        if n == "TakeWhile" or n == "MapWhile" or n == "Scan":
            return True if a and finite(crate, a[0], depth + 1) else None
        if n in ("Chain", "Interleave", "ZipLongest"):
            fs = [finite(crate, x, depth + 1) for x in a]
            return True if fs and all(fs) else (False if any(f is False for f in fs) else None)
        if n in ("Flatten", "FlatMap"):
            return True if a and finite(crate, a[0], depth + 1) else None
        return finite(crate, a[0], depth + 1) if a else None
    if p.startswith(("core::slice", "alloc::vec", "alloc::collections", "std::collections", "core::option", "core::result", "core::str", "ndarray::", "core::array", "core::char", "std::env", "alloc::string")): return True
    # items of a file or of a fixed collection: as many as the file or collection has
    if p.startswith(("hound::", "csv::", "std::io::", "std::path::", "std::fs::", "clap", "serde_json::map", "hashbrown", "indexmap")): return n not in ("Repeat", "Incoming")
    return None

CONSUME = {"collect", "sum", "product", "fold", "for_each", "count", "last", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "extend", "partition", "unzip", "nth_back",
           "reduce", "try_fold", "try_for_each", "rposition", "collect_vec", "sorted", "join", "collect_into", "from_iter", "fold_with", "rfold", "rev"}

def nextcalls(g, body, blocks):
    """[(block, type index of the iterator)] of calls that take the next item inside these blocks"""
    out = []
    for s in g.sites[body.id]:
        if s.block in blocks and s.p.rsplit("::", 1)[-1] in ("next", "next_back") and s.t["a"]:
            trait = s.fn.get("trait") or s.p
            if "Iterator" in trait or "iter" in s.p: out.append((s.block, s))
    return out

def optype(body, o):
    """type of an operand"""
    for k in ("copy", "move", "const"):
        if isinstance(o, dict) and k in o: return o.get("t")
    return None

def iterated(g, crate, body, blocks, header):
    """the loop takes an item of one finite iterator on every way round and leaves when there is none"""
    cfg = body.cfg
    latches = [b for b in blocks if header in cfg.succ[b]]
    for s in g.sites[body.id]:
        # keys and elements handed out by a deserialiser (derived code)
        if s.block in blocks and (s.fn.get("trait") or "").startswith("serde") and (s.fn.get("m") or "").startswith("next_") and s.xmac and all(cfg.dominates(s.block, l) for l in latches):
            return s.where
    for blk, s in nextcalls(g, body, blocks):
        if not all(cfg.dominates(blk, l) for l in latches): continue
        ti = optype(body, s.t["a"][0])
        if ti is None: continue
        f = finite(crate, ti)
        if not f: continue
        # the item decides: the block behind the call switches on it, one way leads out
        # the iterator itself is not replaced inside the loop
        it = root(body, s.t["a"][0], blocks)
        if it is None: continue
        if replaced(body, it, blocks, s): continue
        if leaves_on_none(crate, body, cfg, blocks, s): return "%s (%s)" % (s.where, crate.ty(ti)["s"][:80])
    return None

def root(body, o, blocks):
    """the local whose address the operand is, looked through reborrows: set of locals"""
    for k in ("copy", "move"):
        if k in o: l = o[k][0]; break
    else: return None
    seen = {l}; todo = [l]
    while todo:
        l = todo.pop()
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[1] == [l, []] and s[2][0] in ("ref", "use", "rawptr"):
                    x = s[2]
                    pl = None
                    if x[0] == "ref" or x[0] == "rawptr": pl = next((y for y in x[1:] if isinstance(y, list) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], list)), None)
                    elif isinstance(x[1], dict): pl = x[1].get("copy") or x[1].get("move")
                    if pl and pl[0] not in seen: seen.add(pl[0]); todo.append(pl[0])
    return seen

def replaced(body, ls, blocks, site):
    """an iterator local (not a reference to it) is assigned inside the loop"""
    for b in blocks:
        for s in body.blocks[b]["s"]:
            if s[0] == "=" and s[1][0] in ls and not s[1][1]:
                t = body.crate.ty(body.locals[s[1][0]]["t"])
                if t["k"] != "ref": return True
        t = body.blocks[b]["t"]
        if t["k"] == "call":
            d = t.get("d")
            if d and d[0] in ls and body.crate.ty(body.locals[d[0]]["t"])["k"] != "ref": return True
    return False

def leaves_on_none(crate, body, cfg, blocks, s):
    t = s.t
    d = t.get("d")
    if not d: return False
    x = t.get("to"); seen = set()
    while x is not None and x in blocks and x not in seen:
        seen.add(x)
        tt = body.blocks[x]["t"]
        if tt["k"] == "switch":
            outs = [y for y in body.succs(x)]
            # value 0 is None
            none = [b for v, b in tt["t"] if int(v) == 0] or [tt["o"]]
            return all(not returns(cfg, b, blocks, s.block) for b in none)
        ss = body.succs(x)
        if len(ss) != 1: return False
        x = ss[0]
    return False

def returns(cfg, b, blocks, header):
    """from b the loop can come back to this block"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen or x not in blocks: continue
        seen.add(x)
        if x == header: return True
        st += cfg.succ[x]
    return False

# ---- loops with counters
def measures(info):
    """terms that may bound the rounds: what conditions compare, lengths and unsigned values that change"""
    pc = restrict(info.cont_pc, info.entry_pc)
    out = []; st = [pc]; seen = set()
    while st:
        x = st.pop()
        if x.op != "ite" or x in seen: continue
        seen.add(x); a = x.a[0]
        if a.op == "ge0":
            out += [a.a[0], sub(neg(a.a[0]), ONE)]
        if a.op == "eq0": out += [a.a[0], neg(a.a[0])]
        st += [x.a[1], x.a[2]]
    for cl, init, nxt, ph in info.phis.values():
        if cl is None and isnumeric(init): out.append(ph)
        elif cl is None:
            try: out.append(length(ph))
            except Exception: pass
    return [x for i, x in enumerate(out) if x not in out[:i]]

def stepping(info):
    """t -> its value in the next round"""
    K = info.K
    step = {ph: nxt for cl, init, nxt, ph in info.phis.values() if cl is None}
    def nxt(t):
        t = TT.subst(t, {K: add(K, ONE)}) if K in t.fv else t
        return TT.subst(t, {p: n for p, n in step.items() if p in t.fv})
    start = lambda t: TT.subst(TT.subst(t, {K: ZERO}), {p: init for cl, init, nx, p in info.phis.values() if cl is None})
    return nxt, start, set(step) | {K}

def kept(info):
    """measures that are never negative, by induction"""
    nxt, start, vs = stepping(info)
    out = []
    for f in measures(info):
        try:
            if f.fv & vs and TT.integral(f) and lin.valid(bimp(info.entry_pc, ge0i(start(f)))) is None and lin.valid(bimp(band(info.cont_pc, ge0i(f)), ge0i(nxt(f)))) is None: out.append(f)
        except Exception: continue
    return out

def advances(info, depth=3):
    """a measure that drops on every way round, one for each case of what the loop does not change"""
    f = advance(info)
    if f is not None or depth == 0: return f
    vs = stepping(info)[2]
    for a in sorted({z.a[0] for z in terms_where(restrict(info.cont_pc, info.entry_pc), lambda z: z.op == "ite")}, key=lambda z: z.id):
        if a.fv & vs or a.op not in ("ge0", "eq0"): continue
        r = [advances(under(info, c), depth - 1) for c in (a, bnot(a))]
        return r[0] if None not in r else None
    return None

class View: pass
def mapped(info, f):
    w = View(); w.K = info.K; w.entry_pc, w.cont_pc = f(info.entry_pc), f(info.cont_pc); w.N = f(info.N) if info.N is not None else None
    w.phis = {k: (cl, f(init) if type(init) is T else init, f(nxt) if type(nxt) is T else nxt, ph) for k, (cl, init, nxt, ph) in info.phis.items()}
    return w
def under(info, c):
    """the loop where c, which it does not change, holds"""
    w = mapped(info, lambda t: restrict(t, c))
    w.entry_pc, w.cont_pc = band(w.entry_pc, c), band(w.cont_pc, c)
    return w

def startbounds(info, nxt):
    """counters that never fall below (rise above) the number they start at, by induction"""
    out = TRUE
    for cl, init, nx, ph in info.phis.values():
        if cl is not None or type(init) is not T or not is_num(init): continue
        for c in (ge0i(sub(ph, init)), ge0i(sub(init, ph))):
            try:
                if TT.integral(ph) and lin.valid(bimp(band(info.cont_pc, c), nxt(c))) is None: out = band(out, c)
            except Exception: continue
    return out

def advance(info):
    """a measure that stays non-negative and drops by at least one on every way round"""
    nxt, start, vs = stepping(info)
    base = startbounds(info, nxt)
    for f in measures(info):
        cont = band(info.cont_pc, base)
        if not (f.fv & vs): continue
        if not TT.integral(f): continue
        try:
            inv = TRUE
            if lin.valid(bimp(info.entry_pc, ge0i(start(f)))) is None and lin.valid(bimp(band(cont, ge0i(f)), ge0i(nxt(f)))) is None: inv = ge0i(f)
            if lin.valid(bimp(cont, ge0i(f))) is not None:
                if inv is TRUE: continue
            cont = band(cont, inv)
            if lin.valid(bimp(cont, ge0i(sub(sub(f, nxt(f)), ONE)))) is None: return f
        except Exception: continue
    return None

def configured():
    """{type: [value, condition]}: the values of own types the manager is constructed with, by mode"""
    out = {}
    try:
        from ._modes import modes
        for m in modes().values():
            for t in {z for z in terms_where(m.value, lambda z: z.op == "agg" and z.a[0].startswith("adt:") and z.a[0].endswith("#0"))}:
                out.setdefault(t.a[0][4:].split("#")[0], []).append((t, m.cond))
    except Exception: pass
    return out

def inmode(info, v, cond):
    """the loop with the receiver the manager is constructed with"""
    me = sym("A0")
    return mapped(info, lambda t: restrict(replace(t, {me: v}), cond))

def counted(crate, body):
    """{header block: (verdict, text)} by value numbering of the function alone"""
    own = {b for b in crate.bodies if b != body.id and not b.startswith(body.id + "::{closure")}
    m = Machine(crate, tuple(sorted(own)), None)
    m.entry(body.id, ["A%d" % i for i in range(body.argc)], None)
    out = {}
    for key, info in m.loops.items():
        out.setdefault(key, info)
    return m, out

def istest(b): return "::test" in b or "::tests" in b

def recursion(g, bodies):
    """cycles of the call graph: [[body ids]]"""
    index, low, on, st, out = {}, {}, set(), [], []
    n = [0]
    for r in bodies:
        if r in index: continue
        work = [(r, iter(sorted(g.edges[r])))]
        index[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in g.edges: continue
                if y not in index:
                    index[y] = low[y] = n[0]; n[0] += 1; st.append(y); on.add(y)
                    work.append((y, iter(sorted(g.edges[y])))); break
                if y in on: low[x] = min(low[x], index[y])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == index[x]:
                    c = []
                    while True:
                        y = st.pop(); on.discard(y); c.append(y)
                        if y == x: break
                    if len(c) > 1 or x in g.edges[x]: out.append(sorted(c))
    return out

def run(rep):
    rep.rule("every natural loop of the control flow graphs takes an item of one finite iterator on every way round and leaves when there is none (iterator type, dominance), or has an integral "
             "measure that stays non-negative and drops by at least one on every way round (value numbering of the function, ranking by linear entailment); no function calls itself; no "
             "endless iterator is consumed")
    conf = configured()
    for name, crate in crates():
        g = calls.Graph(crate)
        bodies = [b for b in sorted(crate.bodies) if not istest(b) and crate.bodies[b].kind in ("Fn", "AssocFn", "Closure")]
        nl = 0
        for b in bodies:
            body = crate.bodies[b]
            loops = body.cfg.loops
            if not loops: continue
            left = {}
            for h, blocks in loops.items():
                nl += 1
                r = iterated(g, crate, body, blocks, h)
                if r: rep.instance("a loop over a finite sequence (%s)" % name, True, r)
                else: left[h] = blocks
            if not left: continue
            try: m, infos = counted(crate, body)
            except Exception as e:
                m, infos, why = None, {}, "%s: %s" % (type(e).__name__, e)
            for h in sorted(left):
                where = body.where(None if not body.blocks[h]["s"] else body.blocks[h]["s"][0][3] if body.blocks[h]["s"][0][0] == "=" else None)
                at = "%s: %s" % (b, where)
                if m is None:
                    rep.instance("a loop with progress (%s)" % name, False, "%s: the loop cannot be analysed: %s" % (at, why[:200])); continue
                mine = [i for k, i in infos.items() if k.endswith("|L%d" % h) and k.count("|") == 1]
                once = any(k.endswith("|L%d" % h) and k.count("|") == 1 for k in m.once)
                ok = bool(mine) or once; text = "never repeats" if once else "the loop is not reached by the analysis"
                for i in mine:
                    if i.N is not None: text = "ends after %s rounds at most" % show(i.N, 4)[:120]; continue
                    f = advances(i)
                    if f is None and name == "library" and body.argc:
                        # as constructed for a comparison
                        st = crate.ty(crate.strip(body.locals[1]["t"]))
                        vs = conf.get(st.get("p"), []) if conf is not None else []
                        fs = [advances(inmode(i, v, c)) for v, c in vs]
                        if fs and all(fs): f = fs[0]
                    if f is None: ok = False; text = "no measure drops on every way round; repeats while %s" % show(restrict(i.cont_pc, i.entry_pc), 5)[:300]
                    else: text = "%s drops on every way round" % show(f, 4)[:120]
                rep.instance("a loop with progress (%s)" % name, ok, "%s: %s" % (at, text))
        rep.floor("loops (%s)" % name, nl, 10 if name == "library" else 1)
        for c in recursion(g, bodies):
            rep.instance("functions do not call themselves (%s)" % name, False, "%s calls itself" % " -> ".join(c))
        rep.instance("call graph examined for recursion (%s)" % name, True, "%d functions" % len(bodies))
        for b in bodies:
            for s in g.sites[b]:
                meth = s.p.rsplit("::", 1)[-1]
                if meth not in CONSUME or "ter" not in s.p: continue
                for o in s.t["a"]:
                    ti = optype(crate.bodies[b], o)
                    if ti is not None and crate.ty(crate.strip(ti))["k"] == "adt" and crate.ty(crate.strip(ti))["p"].startswith(("core::iter", "itertools", "core::ops::range")) and finite(crate, ti) is False:
                        rep.instance("no endless iterator is consumed (%s)" % name, False, "%s: %s: %s of %s" % (b, s.where, meth, crate.ty(ti)["s"][:100]))
