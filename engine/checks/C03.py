"""C03: the builder state a comparison reads is the part no comparison changes."""
from ..vn import *

def interior(rep, start):
    """no interior mutability in the types a manager owns"""
    seen = set(); todo = [start]; n = 0
    c = lib()
    bad = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|Mutex|RwLock|Atomic\w+|OnceLock|LazyLock|LazyCell)\b")
    def types(i):
        t = c.ty(i)
        yield t
        for k in ("e",):
            if isinstance(t.get(k), int): yield from types(t[k])
        for x in t.get("a") or []:
            if isinstance(x, int): yield from types(x)
    while todo:
        p = todo.pop()
        if p in seen: continue
        seen.add(p)
        for v in c.adts[p]["v"]:
            for f in v["f"]:
                n += 1
                if "t" not in f: continue
                ts = list(types(f["t"]))
                s = c.ty(f["t"])["s"]
                rep.instance("field %s::%s has no interior mutability" % (p.split("::")[-1], f["n"]), not bad.search(s),
                             "%s: field %s: %s can change during a comparison without being visible in its type" % (p, f["n"], s))
                for t in ts:
                    if t.get("p") in c.adts: todo.append(t["p"])
                    m = re.search(r"dyn (?:[\w:]+::)?(\w+)", t.get("s", ""))
                    if m:
                        for (tr, _), l in c.trait_impls.items():
                            if tr.endswith("::" + m.group(1)):
                                for i, _b in l:
                                    q = c.ty(i["self"]).get("p")
                                    if q in c.adts: todo.append(q)
    return n, seen

def run(rep):
    rep.rule("def-use over the value expressions: the spectrogram builder's result mentions only builder fields that the builder leaves unchanged; "
             "calculate_similarity and fine alignment change the builder only through build; the manager's other fields are never written; no manager-owned "
             "type has interior mutability")
    u = u3()
    B = sym("B")
    deps = uses(u.ret, B)
    for e in u.events:
        for a in e["args"]: deps |= uses(a, B)
    rep.cov["builder fields the result depends on"] = len(deps)
    bp = [t for t in builds()][0]
    def nm(path):
        return ".".join(str(i) for _, i in path) or "(whole builder)"
    for d in sorted(deps):
        ok = bool(d) and atpath(u.out["B"], d) is atpath(B, d)
        rep.instance("build leaves builder field %s as it found it" % nm(d), ok,
                     "%s: the spectrogram depends on builder field %s, which an earlier build changes to %s" % (
                         u.bid, nm(d), show(atpath(u.out["B"], d), 6)[:400] if d else "another value"))
    cuts = [b.split("::")[-1] for b in builds().values()]
    eff = ["::build", "::finely_align_and_recreate_patches", "::find_most_optimal_deg_patches"]
    n = 0
    def same(t, root, what, where):
        t = uneffect(t, eff)
        for d in sorted(deps):
            a, b = atpath(t, d), atpath(root, d)
            ok = all(l is b for l in leafset(a))
            rep.instance("%s keeps builder field %s" % (what, nm(d)), ok, "%s: builder field %s becomes %s" % (where, nm(d), show(a, 6)[:400]))
    for name, un, root in (("fine alignment", u5(), "B"), ("calculate_similarity", u1(), "BUILDER")):
        R = sym(root)
        same(un.out[root], R, name, un.bid)
        ph = {}
        for k, l in un.loops.items():
            for (c, p), (cl, i, nx, t) in l.phis.items():
                if c == ("in", root): ph[t] = nx
        for t, nx in ph.items():
            # inductive: the loop's next value keeps the fields of its current value
            x = uneffect(nx, eff)
            for d in sorted(deps):
                rep.instance("loop in %s keeps builder field %s" % (name, nm(d)), all(l is atpath(t, d) for l in leafset(atpath(x, d))),
                             "%s: a loop changes builder field %s to %s" % (un.bid, nm(d), show(atpath(x, d), 6)[:300]))
        for e in events(un, "::build"):
            n += 1
            t = uneffect(e["args"][0], eff)
            ok = t is R or t in ph or all(all(l is atpath(R, d) or any(l is atpath(q, d) for q in ph) for l in leafset(atpath(t, d))) for d in deps)
            rep.instance("%s builds with the configured builder" % name, ok, "%s: build is called on %s" % (e["where"], show(t, 6)[:300]))
    rep.floor("spectrogram builds on the comparison path", n, 4)
    M = sym("MGR")
    fs = [f["n"] for f in lib().adts[adt("VisqolManager")]["v"][0]["f"]]
    for which in ("run", "compute_results"):
        u = u2(which)
        for i, f in enumerate(fs):
            t = fld(u.out["MGR"], 0, i)
            o = fld(M, 0, i)
            t = uneffect(t, ["::calculate_similarity"])
            if all(l is o for l in leafset(t)): ok = True
            else: ok = "GammatoneSpectrogramBuilder" in lib().ty(lib().adts[adt("VisqolManager")]["v"][0]["f"][i]["t"])["s"] and \
                  all(all(l is atpath(o, d) for l in leafset(atpath(t, d))) for d in deps)
            rep.instance("%s leaves manager field %s" % (which, f), ok, "%s%s: manager field %s becomes %s" % (MGR, which, f, show(t, 6)[:300]))
        for e in events(u, CALC):
            for i, a in enumerate(e["args"]):
                bad = [x for x in uses(a, M) if not x]
                rep.instance("%s passes plain configuration to the comparison" % which, not bad, "%s: argument %d is %s" % (e["where"], i, show(a, 5)[:200]))
    n, seen = interior(rep, adt("VisqolManager"))
    rep.cov["types reachable from a manager"] = len(seen)
