"""Serialisation of the result record writes every field, under its own name, with its own value."""
from engine import prog, calls
TYPES = ("visqol_rs::similarity_result::SimilarityResult", "visqol_rs::patch_similarity_comparator::PatchSimilarityResult")

def field_of_self(body, op, depth=0):
    """the self field an operand refers to, through copies and reborrows"""
    pl = op.get("copy") or op.get("move") if isinstance(op, dict) else op
    if not pl or depth > 12: return None
    names = [e[2] for e in pl[1] if e[0] == "field"]
    if pl[0] == 1: return names[0] if len(names) == 1 and all(e[0] in ("deref", "field") for e in pl[1]) else None
    if any(e[0] != "deref" for e in pl[1]): return None
    defs = [s for b in body.blocks if not b["cleanup"] for s in b["s"] if s[0] == "=" and s[1] == [pl[0], []]]
    cdefs = [b["t"] for b in body.blocks if not b["cleanup"] and b["t"]["k"] == "call" and b["t"]["d"] == [pl[0], []]]
    if len(defs) != 1 or cdefs: return None
    r = defs[0][2]
    if r[0] == "use": return field_of_self(body, r[1], depth + 1)
    if r[0] == "ref": return field_of_self(body, {"copy": r[1]}, depth + 1)
    if r[0] == "reborrow": return field_of_self(body, {"copy": r[2]}, depth + 1)
    if r[0] == "cast": return field_of_self(body, r[2], depth + 1)
    return None

def str_const(body, op, depth=0):
    if "const" in op:
        c = op["const"]
        if "str" in c: return c["str"]
        if "refto" in c and "str" in c["refto"]: return c["refto"]["str"]
        return None
    pl = op.get("copy") or op.get("move")
    if not pl or depth > 8: return None
    defs = [s for b in body.blocks if not b["cleanup"] for s in b["s"] if s[0] == "=" and s[1] == [pl[0], []]]
    if len(defs) == 1 and defs[0][2][0] == "use": return str_const(body, defs[0][2][1], depth + 1)
    if len(defs) == 1 and defs[0][2][0] in ("ref", "reborrow"): return str_const(body, {"copy": defs[0][2][1 if defs[0][2][0] == "ref" else 2]}, depth + 1)
    return None

def run(rep):
    lib, _ = prog.load()
    rep.rule("the Serialize implementation of each record type writes, on every way to a successful end, one struct entry per declared field, whose key is the field's name and whose value is that field of self")
    total = 0
    for ty in TYPES:
        adt = lib.adts.get(ty)
        short = ty.rsplit("::", 1)[-1]
        impl = [c for i, c in lib.trait_impls.get(("serde_core::ser::Serialize", "serialize"), []) if c.startswith("<" + ty + " as")]
        if not adt or len(impl) != 1 or impl[0] not in lib.bodies:
            rep.violation("no Serialize of " + short, "%s has no Serialize implementation of its own" % ty); continue
        body = lib.bodies[impl[0]]
        fields = [f["n"] for f in adt["v"][0]["f"]]
        sites = calls.sites(body)
        ends = [s.block for s in sites if s.r.endswith("::SerializeStruct::end") or s.p.endswith("::SerializeStruct::end")]
        got = {}
        for s in sites:
            m = s.p.rsplit("::", 1)[-1]
            if m == "serialize_field":
                k = str_const(body, s.t["a"][1]); f = field_of_self(body, s.t["a"][2])
                got.setdefault(k, []).append((f, s))
        if not ends: rep.violation("end of " + short, "%s: the serialisation of %s never ends a struct" % (body.where(), ty))
        for f in fields:
            total += 1
            e = got.get(f, [])
            if len(e) != 1:
                rep.instance("%s.%s" % (short, f), False, "%s: field %s of %s is serialised %d times under its own name" % (body.where(), f, ty, len(e))); continue
            src, s = e[0]
            dom = all(body.cfg.dominates(s.block, x) for x in ends)
            rep.instance("%s.%s" % (short, f), src == f and dom,
                         "%s: entry \"%s\" of %s %s" % (s.where, f, ty, "holds %s" % (("the field " + src) if src else "a value other than the field itself") if src != f else "is left out on some way"))
        for k in got:
            if k not in fields: rep.violation("%s extra %s" % (short, k), "%s: entry %s of %s is no field's name" % (body.where(), k, ty))
    rep.floor("fields", total, 10)
