"""No unsafe operation in the workspace's own code."""
from engine import prog, calls

def places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(p, list) and p and isinstance(p[0], str) for p in x[1]):
            yield x
        else:
            for v in x: yield from places(v)
    elif isinstance(x, dict):
        for v in x.values(): yield from places(v)

def unsafe_ops(body, blocks):
    for i, b in enumerate(blocks):
        if b["cleanup"]: continue
        for s in b["s"]:
            xm = s[0] == "=" and len(s) > 4 and s[4]
            for p in places(s[1:3]):
                for e in p[1]:
                    if e[0] == "rawderef" and not xm: yield i, "dereference of a raw pointer", body.where(b["sp"])
                    if e[0] == "ufield" and not xm: yield i, "access to a union field", body.where(b["sp"])
            if s[0] == "=" and s[2][0] == "cast" and "Transmute" in str(s[2][1]): yield i, "transmute", body.where(s[3])
            if s[0] == "=" and s[2][0] == "tls": pass
        t = b["t"]
        if t["k"] == "asm": yield i, "inline assembly", body.where(b["sp"])
        if t["k"] == "call":
            f = t["f"].get("const", {}).get("fn") if isinstance(t["f"], dict) else None
            if f and f.get("unsafe") and not t.get("xmac") and not (f.get("r") or f["p"]).startswith("core::fmt::"):
                yield i, "call of unsafe function " + (f.get("r") or f["p"]), body.where(b["sp"])
            if not f:
                ty = body.crate.ty(t["f"].get("t"))
                if ty["k"] == "fnptr" and ty["s"].startswith("unsafe"): yield i, "call through an unsafe function pointer", body.where(b["sp"])
            for p in places([t.get("a"), t.get("d")]):
                for e in p[1]:
                    if e[0] == "rawderef" and not t.get("xmac"): yield i, "dereference of a raw pointer", body.where(b["sp"])

def run(rep):
    rep.rule("no MIR body of the workspace's crates dereferences a raw pointer, reads a union field, transmutes, contains assembly, "
             "calls an unsafe function written outside foreign macros, declares an unsafe fn, static mut, foreign item or unsafe impl")
    n = blocks = sites = 0
    for crate in prog.load():
        for bid, b in crate.bodies.items():
            n += 1; blocks += len(b.blocks)
            bad = list(unsafe_ops(b, b.blocks))
            for p in b.d.get("promoted") or []: bad += list(unsafe_ops(b, p["blocks"]))
            sites += len(calls.sites(b))
            if b.d.get("unsafe"): bad.append((0, "declared unsafe fn", b.where()))
            if "mutability: Mut" in b.kind: bad.append((0, "static mut", b.where()))
            # one instance per body
            rep.instance(crate.name + " " + bid, not bad, "; ".join("%s: %s in %s" % (w, t, bid) for _, t, w in bad))
        for i in crate.impls:
            if i.get("unsafe"): rep.violation("unsafe impl " + str(i.get("trait")), "unsafe impl of %s for %s" % (i.get("trait"), i.get("self")))
        for f in crate.foreign: rep.violation("foreign " + str(f), "foreign item %s" % (f,))
    rep.floor("bodies", n, 200); rep.cov["basic_blocks"] = blocks; rep.cov["call_sites"] = sites
