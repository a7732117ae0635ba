"""Call graph of a crate: resolved call sites, closures, function items, dynamic dispatch."""
class Site:
    __slots__ = ("body", "block", "t", "p", "r", "fn", "where", "xmac", "mac")

def consts(x):
    """all constant operands inside a JSON fragment"""
    if isinstance(x, dict):
        if "const" in x and isinstance(x["const"], dict): yield x["const"], x.get("t")
        for v in x.values(): yield from consts(v)
    elif isinstance(x, list):
        for v in x: yield from consts(v)

def sites(body):
    out = []
    for i, b in enumerate(body.blocks):
        if b["cleanup"]: continue
        t = b["t"]
        if t["k"] == "call":
            s = Site(); s.body = body; s.block = i; s.t = t
            f = t["f"].get("const", {}).get("fn") if isinstance(t["f"], dict) else None
            s.fn = f or {}
            s.p = s.fn.get("p", "<indirect>"); s.r = s.fn.get("r") or s.p
            s.where = body.where(b.get("sp")); s.xmac = t.get("xmac"); s.mac = t.get("mac")
            out.append(s)
    return out

class Graph:
    def __init__(self, crate):
        self.crate = crate
        self.sites = {bid: sites(b) for bid, b in crate.bodies.items()}
        self.edges = {}
        for bid, b in crate.bodies.items():
            e = set()
            for s in self.sites[bid]: e |= self.targets(s)
            for c, ti in consts(b.blocks): e |= self.const_targets(c, ti)
            for p in b.d.get("promoted") or []:
                for c, ti in consts(p): e |= self.const_targets(c, ti)
            # closures built here
            for blk in b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "closure":
                        e.add(s[2][1]["p"])
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt": pass
                # drop glue of local types
                if blk["t"]["k"] == "drop": e |= self.drops(b, blk["t"]["p"])
            e |= {x for x in crate.bodies if x.startswith(bid + "::{closure#")}
            self.edges[bid] = {x for x in e if x in crate.bodies}

    def drops(self, b, place):
        out = set()
        for (tr, m), impls in self.crate.trait_impls.items():
            if tr == "core::ops::drop::Drop":
                for i, c in impls: out.add(c)
        return out

    def targets(self, s):
        out = {s.r, s.p}
        tr = s.fn.get("trait")
        if tr and s.fn.get("rk") != "item":
            for i, c in self.crate.trait_impls.get((tr, s.fn.get("m")), []): out.add(c)
        return out

    def const_targets(self, c, ti):
        out = set()
        if "fn" in c:
            f = c["fn"]; out |= {f.get("r") or f["p"], f["p"]}
            if f.get("trait") and f.get("rk") != "item":
                for i, cid in self.crate.trait_impls.get((f["trait"], f.get("m")), []): out.add(cid)
        if "item" in c: out.add(c["item"])
        if "zst" in c and ti is not None:
            ty = self.crate.ty(ti)
            if ty["k"] == "closure": out.add(ty["p"])
            if ty["k"] == "fndef" and isinstance(ty.get("f"), dict): out.add(ty["f"].get("r") or ty["f"]["p"])
        return out

    def reach(self, roots):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            x, par = st.pop()
            if x in seen or x not in self.crate.bodies: continue
            seen[x] = par
            for y in sorted(self.edges[x]): st.append((y, x))
        return seen

    def path(self, seen, x):
        out = [x]
        while seen.get(x): x = seen[x]; out.append(x)
        return " <- ".join(out[:6])
