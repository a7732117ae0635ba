"""Typestate of failures: assume one fallible call failed and follow that failure through the function.

The failure is a typestate (failed Result, absent Option, broken ControlFlow, ...) that is propagated over the
control flow graph; switches on it are decided by it, local callees are followed with it as argument."""
from . import calls

ERR, NONE, BRK, RAW, TRUE, FALSE = ("Err",), ("None",), ("Break",), ("raw",), ("b", 1), ("b", 0)
DISC = {"core::result::Result": {"Err": 1, "Ok": 0}, "core::option::Option": {"None": 0, "Some": 1},
        "core::ops::control_flow::ControlFlow": {"Break": 1, "Continue": 0}}
def failed(v):
    return v is not None and (v[0] in ("Err", "Break") or (v[0] in ("Some", "Ready") and len(v) > 1 and failed(v[1])))

def tracked_result(crate, ti, skip, depth=0):
    """shape of a failure of this type: ERR, ("Some", ERR), ... or None if it cannot fail"""
    t = crate.ty(ti)
    if t["k"] == "ref": return tracked_result(crate, t["e"], skip, depth)
    if t["k"] != "adt": return None
    if t["p"] == "core::result::Result":
        e = crate.ty(t["a"][1])["s"]
        if e == "!" or any(x in e for x in skip): return None
        return ERR
    if t["p"] == "core::option::Option" and depth < 2:
        r = tracked_result(crate, t["a"][0], skip, depth + 1)
        return ("Some", r) if r else None
    return None

def yields_result(crate, ti, skip):
    """an iterator whose items are fallible"""
    t = crate.ty(ti)
    if t["k"] == "ref": return yields_result(crate, t["e"], skip)
    if t["k"] != "adt": return False
    p = t["p"]
    if p.rsplit("::", 1)[-1] in ("WavSamples", "WavIntoSamples", "StringRecordsIter", "StringRecordsIntoIter", "DeserializeRecordsIter", "DeserializeRecordsIntoIter", "Lines"): return True
    if p.endswith("::Map"):
        c = crate.ty(t["a"][1])
        if c["k"] == "closure" and c["p"] in crate.bodies:
            b = crate.bodies[c["p"]]
            return tracked_result(crate, b.locals[0]["t"], skip) is not None
        if c["k"] == "fndef": return True
        return False
    if p.startswith(("core::iter::adapters", "itertools")):
        if p.rsplit("::", 1)[-1] in ("FilterMap", "FlatMap", "Flatten", "MapWhile", "Scan"): return False
        return any(isinstance(a, int) and yields_result(crate, a, skip) for a in t["a"])
    return False

class Flow:
    def __init__(self, crate, skip, diverge_ok):
        self.crate = crate; self.skip = skip; self.diverge_ok = diverge_ok
        self.memo = {}; self.steps = 0

    # -- places
    def read(self, env, pl, ti=None):
        v = env.get(pl[0])
        for e in pl[1]:
            if v is None: return None
            if e[0] == "deref": continue
            if e[0] == "down":
                if v[0] == "tup" or v[0] == "raw": return None
                if e[2] != v[0]: return None
                continue
            if e[0] == "field":
                if v[0] == "tup": v = v[1][e[1]] if e[1] < len(v[1]) else None
                elif v[0] == "Err": v = RAW
                elif v[0] == "Break": v = v[1] if len(v) > 1 else ERR
                elif v[0] in ("Some", "Ok", "Continue"): v = v[1] if len(v) > 1 else None
                else: return None
                continue
            return None
        return v
    def write(self, env, pl, v):
        if not pl[1]:
            if v is None: env.pop(pl[0], None)
            else: env[pl[0]] = v
    def op(self, env, o):
        if "copy" in o: return self.read(env, o["copy"])
        if "move" in o: return self.read(env, o["move"])
        return None
    def rvalue(self, env, r, body):
        k = r[0]
        if k == "use": return self.op(env, r[1])
        if k in ("ref", "reborrow"):
            return self.read(env, r[1] if k == "ref" else r[2])
        if k == "cast": return self.op(env, r[2])
        if k == "discr":
            v = self.read(env, r[1])
            t = self.crate.ty(r[2])
            if v is not None and t["k"] == "adt" and t["p"] in DISC and v[0] in DISC[t["p"]]: return ("d", DISC[t["p"]][v[0]])
            return None
        if k == "un" and r[1] == "Not":
            v = self.op(env, r[2])
            if v is not None and v[0] == "b": return ("b", 1 - v[1])
            return None
        if k == "agg":
            vs = [self.op(env, x) for x in r[2]]
            kk = r[1]
            if kk["k"] == "tuple" and any(vs): return ("tup", tuple(vs))
            if kk["k"] == "adt":
                if kk["p"] == "core::result::Result" and kk["vn"] == "Err": return ERR
                if kk["p"] == "core::option::Option" and kk["vn"] == "Some" and vs[0]: return ("Some", vs[0])
                if kk["p"] == "core::result::Result" and kk["vn"] == "Ok" and vs and vs[0]: return ("Ok", vs[0])
                if kk["p"] == "core::ops::control_flow::ControlFlow" and kk["vn"] == "Break" and vs and vs[0]: return ("Break", vs[0])
            if kk["k"] == "closure" and any(vs): return ("tup", tuple(vs))
        return None

    # -- calls
    def closure_of(self, op):
        t = self.crate.ty(op.get("t"))
        while t["k"] == "ref": t = self.crate.ty(t["e"])
        if t["k"] == "closure" and t["p"] in self.crate.bodies: return t["p"]
        if t["k"] == "fndef":
            f = t["f"]; n = f.get("r") or f["p"]
            return n if n in self.crate.bodies else None
        return None

    def call(self, env, t, body, depth):
        """-> list of resulting abstract values; 'diverge' and 'stop' are special"""
        f = t["f"].get("const", {}).get("fn") if isinstance(t["f"], dict) else None
        args = t["a"]; vs = [self.op(env, a) for a in args]
        if not f:
            return [None]
        r = f.get("r") or f["p"]
        if t.get("to") is None: return ["diverge"]
        if not any(v is not None for v in vs): return [None]
        if r in self.crate.bodies: return self.summary(r, tuple(vs), depth + 1)
        m = r.rsplit("::", 1)[-1]
        v = vs[0]
        dt = self.crate.ty(t["dt"])
        dp = dt.get("p")
        def clos(i, *a):
            c = self.closure_of(args[i])
            if c is None: return [None]
            isc = self.crate.bodies[c].kind == "Closure" or "{closure" in c
            return self.summary(c, ((vs[i],) if isc else ()) + a, depth + 1)
        if m in ("call", "call_mut", "call_once") and len(vs) == 2:
            a = vs[1][1] if vs[1] and vs[1][0] == "tup" else ()
            return clos(0, *a)
        if m == "push" and len(vs) > 1 and failed(vs[1]): return ["stop"]
        if v is None:
            if m == "unwrap_or" and len(vs) > 1: return [None]
            return [None]
        if v[0] == "raw":
            if dp == "core::result::Result": return [ERR]
            if dp == "core::option::Option": return [("Some", RAW)]
            return [RAW]
        if m == "branch":
            if v[0] in ("Err", "None"): return [("Break", v)]
            if v[0] == "Some" or v[0] == "Ok": return [("Continue", v[1]) if len(v) > 1 else None]
        if m == "from_residual": return [NONE if dp == "core::option::Option" else ERR]
        if m in ("from", "into", "as_ref", "as_mut", "as_deref", "as_deref_mut", "clone", "cloned", "copied", "inspect", "inspect_err", "borrow", "deref", "by_ref", "to_owned", "take"): return [v]
        if v[0] == "Err":
            if m in ("map", "map_err", "and_then", "and", "from_output", "flatten"): return [ERR]
            if m == "ok": return [NONE]
            if m == "err": return [("Some", RAW)]
            if m in ("unwrap", "expect"): return ["diverge"]
            if m in ("unwrap_err", "expect_err", "into_err"): return [RAW]
            if m == "is_err": return [TRUE]
            if m == "is_ok": return [FALSE]
            if m == "is_ok_and": return [FALSE]
            if m in ("or_else", "unwrap_or_else"): return clos(1, RAW)
            if m == "map_or_else": return clos(1, RAW)
            if m in ("map_or", "unwrap_or", "or") and len(vs) > 1: return [vs[1]]
            if m == "transpose": return [("Some", ERR)]
        if v[0] == "None":
            if m in ("ok_or", "ok_or_else"): return [ERR]
            if m in ("map", "and_then", "filter", "and", "zip", "flatten"): return [NONE]
            if m in ("unwrap", "expect"): return ["diverge"]
            if m == "is_none": return [TRUE]
            if m == "is_some": return [FALSE]
            if m in ("or_else", "unwrap_or_else", "map_or_else"): return clos(1)
            if m in ("map_or", "unwrap_or", "or") and len(vs) > 1: return [vs[1]]
        if v[0] == "Some":
            x = v[1] if len(v) > 1 else None
            if m in ("unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "unwrap_unchecked"): return [x]
            if m == "transpose" and failed(x): return [ERR]
            if m in ("ok_or", "ok_or_else"): return [("Ok", x)]
            if m in ("map", "and_then"):
                rs = clos(1, x)
                return [("Some", y) if m == "map" and isinstance(y, tuple) else y for y in rs]
            if m == "is_some": return [TRUE]
            if m == "is_none": return [FALSE]
            if m == "flatten": return [x]
        return [None]

    def summary(self, bid, args, depth):
        if depth > 12: return [None]
        key = (bid, args)
        if key in self.memo: return self.memo[key]
        self.memo[key] = [None]
        b = self.crate.bodies[bid]
        env = {i + 1: v for i, v in enumerate(args) if v is not None}
        # closures called with a tuple spread get their parameters directly
        out = self.explore(b, 0, env, depth)
        self.memo[key] = out
        return out

    def explore(self, body, start, env, depth=0):
        """abstract return values of every way from here to the end of the function"""
        out = []
        seen = set()
        st = [(start, dict(env))]
        while st:
            bi, e = st.pop()
            key = (bi, tuple(sorted(e.items())))
            if key in seen: continue
            seen.add(key); self.steps += 1
            if len(seen) > 60000: raise ValueError("failure flow does not converge in " + body.id)
            blk = body.blocks[bi]
            for s in blk["s"]:
                if s[0] == "=": self.write(e, s[1], self.rvalue(e, s[2], body))
                elif s[0] == "dead": e.pop(s[1], None)
            t = blk["t"]; k = t["k"]
            if k == "return":
                v = e.get(0)
                if v not in out: out.append(v)
            elif k == "goto": st.append((t["to"], e))
            elif k == "drop":
                if not t["p"][1]: e.pop(t["p"][0], None)
                st.append((t["to"], e))
            elif k == "assert": st.append((t["to"], e))
            elif k == "switch":
                v = self.op(e, t["d"])
                if v is not None and v[0] in ("d", "b"):
                    to = t["o"]
                    for x, b in t["t"]:
                        if int(x) == v[1]: to = b
                    st.append((to, e))
                else:
                    for x, b in t["t"]: st.append((b, dict(e)))
                    st.append((t["o"], dict(e)))
            elif k == "call":
                for v in self.call(e, t, body, depth):
                    if v == "diverge":
                        if "diverge" not in out: out.append("diverge")
                        continue
                    if v == "stop":
                        if "stop" not in out: out.append("stop")
                        continue
                    e2 = dict(e)
                    for a in t["a"]:
                        if "move" in a and not a["move"][1]: e2.pop(a["move"][0], None)
                    self.write(e2, t["d"], v)
                    if t.get("to") is not None: st.append((t["to"], e2))
        return out

SINKS = ("ok", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok", "is_err", "into_iter", "err")

def check(rep, crate, bodies, skip, diverge_ok, none_fns=(), skip_body=lambda b: False, what="failure"):
    """every fallible call in bodies: its failure ends in a failed return of the function"""
    fl = Flow(crate, skip, diverge_ok)
    n = 0; perfn = {}
    inspected = set()
    for bid in sorted(bodies):
        for s in calls.sites(crate.bodies[bid]):
            if s.r.rsplit("::", 1)[-1] in ("inspect", "inspect_err"):
                for a in s.t["a"]:
                    c = fl.closure_of(a)
                    if c: inspected.add(c)
    for bid in sorted(bodies):
        b = crate.bodies[bid]
        if skip_body(b): continue
        srcs = []
        for s in calls.sites(b):
            if s.xmac and "Serial" in s.r: continue
            m = s.r.rsplit("::", 1)[-1]
            if m in ("branch", "from_residual"): continue
            shape = tracked_result(crate, s.t["dt"], skip)
            if shape is None and s.r in none_fns and crate.ty(s.t["dt"]).get("p") == "core::option::Option": shape = NONE
            name = "call of " + s.r
            if shape is not None and s.t.get("to") is not None:
                srcs.append((name, s.where, s.t["to"], {s.t["d"][0]: shape} if not s.t["d"][1] else None))
            # function items that erase failures handed to a combinator
            for a in s.t["a"]:
                c = a.get("const", {}).get("fn") if "const" in a else None
                if c:
                    q = c.get("r") or c["p"]
                    if q.startswith("core::result::Result::") and q.rsplit("::", 1)[-1] in SINKS:
                        recv = crate.ty(s.t["a"][0].get("t"))["s"] if s.t["a"] else ""
                        if not any(x in recv for x in skip) or yields_result(crate, s.t["a"][0].get("t"), skip):
                            rep.violation("%s erased by %s in %s" % (what, q, bid), "%s: %s passes %s, which drops the error, to %s" % (s.where, bid, q, s.r))
            if m in ("flatten", "flat_map") and s.t["a"] and yields_result(crate, s.t["a"][0].get("t"), skip):
                rep.violation("%s skipped by %s in %s" % (what, m, bid), "%s: %s skips failed items of %s" % (s.where, bid, crate.ty(s.t["a"][0]["t"])["s"]))
        if "{closure" in bid and bid not in inspected:
            for i in range(2, b.argc + 1):
                ti = b.locals[i]["t"]
                shape = tracked_result(crate, ti, skip)
                if shape is not None: srcs.append(("item given to the closure", b.where(), 0, {i: shape}))
        for name, where, to, env in srcs:
            n += 1
            k = (name, bid); perfn[k] = perfn.get(k, 0) + 1
            key = "%s of %s #%d in %s" % (what, name, perfn[k], bid)
            if env is None:
                rep.instance(key, False, "%s: the result of %s in %s is stored where its failure cannot be followed" % (where, name, bid)); continue
            outs = fl.explore(b, to, env)
            bad = []
            for o in outs:
                if o == "diverge":
                    if not diverge_ok: bad.append("panics")
                elif o == "stop": pass
                elif o == NONE and bid in none_fns: pass
                elif not failed(o):
                    bad.append("goes on and returns as if nothing had failed")
            rep.instance(key, not bad, "%s: when the %s fails, %s %s" % (where, name, bid, " or ".join(sorted(set(bad)))))
    rep.cov["typestate_steps"] = fl.steps
    return n
