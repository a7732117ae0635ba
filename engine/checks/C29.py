"""Every command line option has its documented effect."""
from engine.checks import _cli
from engine.checks._cli import *

def variantname(t):
    p = t.a[0][4:].split("#")
    for a, d in vn.cli().adts.items():
        if a == p[0]: return d["v"][int(p[1])]["n"]
    return None

def manager(t):
    """the constructor call behind a manager's state"""
    return [x for x in terms_where(t, lambda y: y.op == "app" and y.a[0] == VNEW)]

def run(rep):
    rep.rule("the commands built for clap are read off as values: each documented option exists under its name, fills its own field of the parsed record, and the options it refers to "
             "exist; the two file options require one another and exclude the batch file; flags are set by their presence; an option that must have a value has a default. "
             "main is evaluated for every class of command lines: mode, flag or model path and search radius are exactly those the comparison's manager is built with; "
             "verbose output names each pair's two files")
    top, subs, groups = declared()
    filltop, fillsub, names = filled()
    ty = args_type(); fields = vn.cli().adts[ty]["v"][0]["f"]
    acts = [v["n"] for v in vn.cli().adts[cliadt("ArgAction")]["v"]]
    act = lambda d: acts[int(d["action"])] if d["action"] is not None else "Set"
    for scope, defs in [("", top)] + sorted(subs.items()):
        ids = [d["id"] for d in defs] + [d["id"] for d in top]
        for d in defs:
            n = (scope + " " if scope else "") + "--%s" % d["long"]
            rep.instance("%s unique" % n, sum(1 for x in defs if x["id"] == d["id"] or x["long"] == d["long"]) == 1, "option %s is declared twice" % n)
            for r in d["refs"]:
                rep.instance("%s refers to %s" % (n, r), r in ids or r in groups,
                             "the declaration of %s in %s refers to the option id \"%s\", which no option has: clap rejects every command line" % (n, ty, r))
    for o in OPTS:
        ds = [d for d in top if d["long"] == o]
        rep.instance("--%s declared" % o, len(ds) == 1, "the documented option --%s is declared %d times in %s" % (o, len(ds), ty))
        if len(ds) != 1: continue
        try: fieldof(o); bad = None
        except Missing as e: bad = str(e)
        rep.instance("--%s consumed" % o, bad is None, "%s" % bad)
        want = "SetTrue" if o == "verbose" else "Set"
        rep.instance("--%s action" % o, act(ds[0]) == want, "--%s is stored by %s instead of %s" % (o, act(ds[0]), want))
        if o == "search_window_radius":
            rep.instance("--%s default" % o, ds[0]["default"] is not None, "--%s has no default, so a command line without it is refused" % o)
    byo = {d["long"]: d for d in top}
    idof = lambda o: byo[o]["id"] if o in byo else None
    for a, b in (("reference_file", "degraded_file"), ("degraded_file", "reference_file")):
        if a in byo and b in byo:
            rep.instance("--%s requires --%s" % (a, b), idof(b) in byo[a]["requires"], "--%s can be given without --%s: nothing is compared and no error is reported" % (a, b))
    for a in ("reference_file", "degraded_file"):
        if a in byo and "batch_input_csv" in byo:
            rep.instance("--%s excludes --batch_input_csv" % a, idof(a) in byo["batch_input_csv"]["conflicts"] or idof("batch_input_csv") in byo[a]["conflicts"],
                         "--%s and --batch_input_csv are accepted together, and one is ignored" % a)
    for i, f in enumerate(fields):
        if i in filltop and not filltop[i]: rep.violation("field " + f["n"], "field %s of %s is filled by no option" % (f["n"], ty))
    for mode, (opt, vname, bands) in MODES.items():
        ds = [d for d in subs.get(mode, []) if d["long"] == opt]
        rep.instance("%s --%s declared" % (mode, opt), len(ds) == 1, "the documented option --%s of mode %s is declared %d times" % (opt, mode, len(ds)))
        if len(ds) == 1:
            rep.instance("%s --%s action" % (mode, opt), act(ds[0]) == ("SetTrue" if mode == "wideband" else "Set"), "%s --%s is stored by %s" % (mode, opt, act(ds[0])))
            if mode == "fullband": rep.instance("%s --%s default" % (mode, opt), ds[0]["default"] is not None, "%s --%s has no default" % (mode, opt))
        modevariant(mode)
        for batch in (False, True):
            c = case(mode, batch)
            rep.floor("comparisons, " + c.name, len(c.runs), 1)
            for e in c.runs:
                mgrs = [n for n in c.events if (n["name"] == VNEW or n["p"] == VNEW)]
                rep.instance("%s: one kind of manager" % c.name, len(mgrs) == 1, "%s: %d managers are built for %s" % (e["where"], len(mgrs), c.name))
                for n in mgrs:
                    v, w = n["args"]
                    ok = v.op == "agg" and variantname(v) == vname and len(v.a) == 2 and (settled(v.a[1]) is settled(UNSCALED) if mode == "wideband" else v.a[1] is MODEL)
                    rep.instance("%s: mode and its option" % c.name, ok, "%s: for %s the manager is built for %s %s" % (n["where"], c.name, variantname(v) if v.op == "agg" else "", show(v, 5)[:200]))
                    rep.instance("%s: search radius" % c.name, w is RADIUS, "%s: for %s the search window radius is %s, not the option's value" % (n["where"], c.name, show(w, 5)[:200]))
                    g = [x for x in n["ret"].a if type(x) is T and x.op == "agg" and x.a[0] == "generics"] if n["ret"].op == "app" else []
                    rep.instance("%s: bands" % c.name, len(g) == 1 and g[0].a[1:] == (num(bands),), "%s: the manager for %s is built for %s bands instead of %d" % (n["where"], c.name, show(g[0], 3) if g else "?", bands))
            for role in ("reference", "degraded"):
                pr = []
                for e in c.events:
                    if e["name"].endswith("stdio::_print"):
                        K = kof(c, e)
                        if any(is_path(c, y, role, K) for a in e["args"] for y in printed(a)): pr.append(dict(e, pc=restrict(e["pc"], tobool(VERBOSE))))
                w = everypair(c, pr) if pr else "it is nowhere printed"
                rep.instance("%s: verbose names the %s file" % (c.name, role), w is None, "%s: naming each pair's %s file with --verbose: %s" % (c.name, role, w))
            quiet = [e for e in c.events if "print" in last(e["name"]) and restrict(e["pc"], bnot(tobool(VERBOSE))) is FALSE and restrict(e["pc"], tobool(VERBOSE)) is not FALSE]
            for f in ("fvnsim", "patch_sims"):
                got = [e for e in c.events if any(any(resfield(y, f) is not None for y in terms_where(a, lambda z: z.op == "fld")) for a in e["args"])
                       and restrict(e["pc"], tobool(VERBOSE)) is not FALSE]
                rep.instance("%s: verbose shows %s" % (c.name, f), bool(got), "%s: nothing shows the record's %s with --verbose" % (c.name, f))
            rep.instance("%s: verbose output" % c.name, bool(quiet), "%s: --verbose changes nothing" % c.name)
    rep.cov["options"] = len(top) + sum(len(l) for l in subs.values())

def settled(t):
    """c ? true : false is c"""
    return tobool(t)

def printed(t):
    """values handed to the formatting of a printed line, not what their computation mentions"""
    out = []; st = [t]
    while st:
        x = st.pop()
        if x.op == "agg" or (x.op == "app" and ("fmt" in x.a[0] or last(x.a[0]) in ("to_string", "display", "as_str", "deref", "format", "must_use"))):
            st += [y for y in x.a[1:] if type(y) is T]
        else: out.append(x)
    return out
