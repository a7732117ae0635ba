"""The compiled program: MIR facts plus derived indices."""
import json, os
from . import facts as F

class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.name = d["crate"]
        self.types = d["types"]
        self.files = d["files"]
        self.adts = {a["p"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.foreign = d["foreign"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = Body(b, self)
        self.trait_impls = {}
        for i in self.impls:
            if i["trait"]:
                for n, c in i["items"]:
                    self.trait_impls.setdefault((i["trait"], n), []).append((i, c))

    def ty(self, i):
        return self.types[i] if isinstance(i, int) else {"k": "?", "s": "?"}

    def where(self, sp):
        if not sp: return "?"
        return "%s:%d" % (self.files[sp[0]], sp[1])

    def strip(self, i):
        """type index with references, boxes and arcs removed"""
        t = self.ty(i)
        while True:
            if t["k"] in ("ref", "ptr"): i = t["e"]
            elif t["k"] == "adt" and t["p"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc"): i = t["a"][0]
            else: return i
            t = self.ty(i)

class Body:
    def __init__(self, d, crate):
        self.d = d; self.crate = crate
        self.id = d["id"]; self.kind = d["kind"]; self.blocks = d["blocks"]
        self.locals = d["locals"]; self.argc = d["argc"]; self.generics = d["generics"]
        self.span = d["span"]
        self._cfg = None

    def succs(self, b):
        return term_succs(self.blocks[b]["t"])

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

    def where(self, sp=None):
        return self.crate.where(sp or self.span)

def term_succs(t):
    k = t["k"]
    if k == "goto": return [t["to"]]
    if k == "switch": return [b for _, b in t["t"]] + [t["o"]]
    if k in ("drop", "assert"): return [t["to"]]
    if k == "call": return [t["to"]] if t.get("to") is not None else []
    return []

class Cfg:
    """control flow without unwinding: RPO, dominators, natural loops, doomed blocks"""
    def __init__(self, body):
        n = len(body.blocks)
        succ = [body.succs(i) for i in range(n)]
        # doomed: cannot reach return
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]: pred[s].append(i)
        live = set(); st = [i for i in range(n) if body.blocks[i]["t"]["k"] == "return"]
        while st:
            x = st.pop()
            if x in live: continue
            live.add(x); st.extend(pred[x])
        self.live = live
        self.succ = [[s for s in succ[i]] for i in range(n)]
        order = []; seen = set()
        def dfs(r):
            st = [(r, iter(self.succ[r]))]; seen.add(r)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ[s]))); break
                else:
                    order.append(x); st.pop()
        dfs(0)
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = None
                for p in ps:
                    new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        self.idom = idom
        self.pred = pred
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body_: continue
                        body_.add(x); st.extend(p for p in pred[x] if p in self.num)
                elif self.num[s] <= self.num[b]:
                    raise ValueError("irreducible control flow in " + body.id)
    def _inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]: a = idom[a]
            while self.num[b] > self.num[a]: b = idom[b]
        return a
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0 or b not in self.idom: return False
            b = self.idom[b]

_cache = {}
def load():
    if "lib" not in _cache:
        d = F.build()
        _cache["lib"] = Crate(os.path.join(d, "visqol_rs.json"))
        _cache["cli"] = Crate(os.path.join(d, "visqol.bin.json"))
    return _cache["lib"], _cache["cli"]
