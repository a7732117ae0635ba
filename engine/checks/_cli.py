"""The command line tool as a value graph: its declared options (the clap commands it builds), which field each fills, and
main evaluated for a class of command lines (mode, single pair or batch, outputs asked for or not)."""
from engine import prog
from engine.vn import *
from engine import vn
from engine.models import Some, NONE, Ok, NIL

VRUN = "visqol_rs::visqol_manager::VisqolManager::run"
VNEW = "visqol_rs::visqol_manager::VisqolManager::new"
OPTS = ("batch_input_csv", "reference_file", "degraded_file", "results_csv", "verbose", "output_debug", "search_window_radius")
MODES = {"wideband": ("use_unscaled_speech_mos_mapping", "Wideband", 21), "fullband": ("similarity_to_quality_model", "Fullband", 32)}

def last(n):
    return n.rsplit("::", 1)[-1]

def text(t):
    """the text of a string constant"""
    if t.op in ("str", "K") and t.a and isinstance(t.a[0], str): return t.a[0]
    if t.op == "app" and len(t.a) == 2 and last(t.a[0]) in ("from", "into", "to_string", "to_owned"): return text(t.a[1])
    if t.op == "const":
        import ast
        try: d = ast.literal_eval(t.a[0]).get("dbg")
        except (ValueError, SyntaxError, AttributeError): d = None
        if isinstance(d, str) and len(d) > 1 and d[0] == d[-1] == '"': return d[1:-1]
    return None

def chain(t, meth="new"):
    """builder calls of a fluent value, innermost first: [(method, args)]"""
    out = []
    while t.op == "app" and type(t.a[1] if len(t.a) > 1 else None) is T:
        n = last(t.a[0])
        if n == meth: out.append((n, t.a[1:])); break
        out.append((n, t.a[2:])); t = t.a[1]
    return out[::-1], t

def machine():
    m = Machine(vn.cli(), (), {}); m.pure = set()
    return m

def one(suffix):
    c = [b for b in vn.cli().bodies if b.endswith(suffix)]
    if len(c) != 1: raise Missing("function %s of the tool: %d found" % (suffix, len(c)))
    return c[0]

def cliadt(suffix):
    c = [a for a in vn.cli().adts if a.endswith("::" + suffix)]
    if len(c) != 1: raise Missing("type %s: %d found" % (suffix, len(c)))
    return c[0]

def clifield(suffix, f):
    for i, x in enumerate(vn.cli().adts[cliadt(suffix)]["v"][0]["f"]):
        if x["n"] == f: return i
    raise Missing("field %s of %s" % (f, suffix))

def argdef(t):
    ch, root = chain(t)
    if not ch or ch[0][0] != "new": return None
    d = dict(id=text(ch[0][1][0]), calls=ch)
    d["long"] = next((text(a[0]) for n, a in ch if n == "long"), None)
    d["conflicts"] = strings(ch, ("conflicts_with", "conflicts_with_all"))
    d["requires"] = strings(ch, ("requires", "requires_all"))
    d["action"] = next((a[0].a[0].split("#")[-1] for n, a in ch if n == "action" and a[0].op == "agg"), None)
    d["default"] = next((a[0] for n, a in ch if n in ("default_value", "default_values")), None)
    d["refs"] = strings(ch, ("conflicts_with", "conflicts_with_all", "requires", "requires_all", "overrides_with", "overrides_with_all",
                             "required_unless_present", "required_unless_present_any", "required_unless_present_all", "group"))
    return d

def strings(ch, names):
    out = []
    for n, a in ch:
        if n in names:
            for x in a:
                for y in (x.a[1:] if x.op == "agg" else [x]): out.append(text(y))
    return out

def args_type():
    """the type the tool parses its command line into"""
    c = [b for b in vn.cli().bodies if " as clap_builder::derive::CommandFactory>::command" in b and b.endswith("command")]
    if len(c) != 1: raise Missing("one parsed command line type expected, %d found" % len(c))
    return c[0][1:].split(" as ")[0]

def declared():
    """({option id: definition}, {subcommand: {option id: definition}})"""
    ty = args_type()
    m = machine(); r, _ = m.entry(one("<%s as clap_builder::derive::Args>::augment_args" % ty))
    top = {}; subs = {}; groups = set()
    def walk(t, into):
        ch, root = chain(t)
        for n, a in ch:
            if n == "arg":
                d = argdef(a[0])
                if d is None or d["id"] is None: raise Missing("an option definition of a known form")
                into.append(d)
            elif n == "group":
                g, _ = chain(a[0])
                if g and g[0][0] == "new": groups.add(text(g[0][1][0]))
            elif n == "subcommand":
                g, _ = chain(a[0])
                name = text(g[0][1][0]) if g and g[0][0] == "new" else None
                l = []; walk(a[0], l); subs[name] = l
        return ch
    l = []; walk(r, l)
    return l, subs, groups

def filled():
    """what the parsed record takes from the command line: ({field: option id}, {(variant, field): option id}, {variant: subcommand})"""
    ty = args_type()
    m = machine(); r, _ = m.entry(one("<%s as clap_builder::derive::FromArgMatches>::from_arg_matches_mut" % ty))
    _, v = oks(r)
    top = {}; sub = {}; names = {}
    def outer(t):
        """the option a value is taken from: the look-ups the value is, not those before it"""
        while t.op in ("fld", "not"): t = t.a[0]
        if t.op == "app":
            return {text(t.a[-1])} if last(t.a[0]) in ("remove_one", "get_one", "get_flag", "remove_many", "get_many") else set()
        if t.op == "ite": return outer(t.a[0]) | outer(t.a[1]) | outer(t.a[2])
        if t.op in ("atom", "bool", "truth"): return set().union(*[outer(x) for x in t.a if type(x) is T]) if t.a else set()
        return set()
    for cube, l in leaves(v):
        if l.op != "agg" or not l.a[0].startswith("adt:" + ty): continue
        for i, x in enumerate(l.a[1:]):
            for cube2, y in leaves(x):
                if y.op == "agg" and y.a[0].startswith("adt:visqol::"):
                    var = int(y.a[0].split("#")[-1]); p = y.a[0][4:].split("#")[0]
                    for k, z in enumerate(y.a[1:]): sub.setdefault((p, var, k), set()).update(outer(z))
                    for a, pos in tuple(cube) + tuple(cube2):
                        if pos and a.op == "app" and last(a.a[0]) == "eq" and text(a.a[-1]): names.setdefault((p, var), set()).add(text(a.a[-1]))
                        if not pos and a.op == "app" and last(a.a[0]) == "eq" and text(a.a[-1]): names.setdefault((p, var), set()).add("!" + text(a.a[-1]))
                else: top.setdefault(i, set()).update(outer(x)); break
    return top, sub, names

REF, DEG, BATCH, CSV, DEBUG, MODEL = (sym(n) for n in ("REFERENCE", "DEGRADED", "BATCH", "RESULTS_CSV", "OUTPUT_DEBUG", "MODEL"))
VERBOSE, UNSCALED = sym("VERBOSE", "b"), sym("UNSCALED", "b")
RADIUS = sym("RADIUS", "u")

def fieldof(opt):
    """index of the record's field an option fills"""
    ids = [d["id"] for d in declared()[0] if d["long"] == opt]
    top = filled()[0]
    c = [i for i, s in top.items() if len(ids) == 1 and s == {ids[0]}]
    if len(c) != 1: raise Missing("the value of --%s: %d fields take it" % (opt, len(c)))
    return c[0]

def modevariant(mode):
    """(type, variant, field index) of a mode's option"""
    opt, _, _ = MODES[mode]
    subs = declared()[1]
    _, sub, names = filled()
    ids = [d["id"] for d in subs.get(mode, []) if d["long"] == opt]
    c = [k for k, s in sub.items() if len(ids) == 1 and s == {ids[0]}]
    if len(c) != 1: raise Missing("the value of --%s of %s: %d fields take it" % (opt, mode, len(c)))
    pos = {n for n in names.get(c[0][:2], ()) if not n.startswith("!")}
    neg = {n[1:] for n in names.get(c[0][:2], ()) if n.startswith("!")}
    if mode in neg or (pos and pos != {mode}): raise Missing("mode %s filling its own variant" % mode)
    return c[0]

class Case:
    pass

_cases = {}
def case(mode, batch, csv=True, debug=True):
    """main for one class of command lines"""
    k = (mode, batch, csv, debug)
    if k in _cases:
        TT.SHAPE = _cases[k].m.phi_shape
        return _cases[k]
    ty = args_type()
    fs = vn.cli().adts[ty]["v"][0]["f"]
    vals = [None] * len(fs)
    p, var, fi = modevariant(mode)
    n = len(vn.cli().adts[p]["v"][var]["f"])
    if n != 1: raise Missing("one option of mode " + mode)
    for i, f in enumerate(fs):
        if vn.cli().ty(f["t"]).get("p") == p: vals[i] = raw("agg", "adt:%s#%d" % (p, var), UNSCALED if mode == "wideband" else MODEL)
    def put(opt, v): vals[fieldof(opt)] = v
    put("batch_input_csv", Some(BATCH) if batch else NONE)
    put("reference_file", NONE if batch else Some(REF)); put("degraded_file", NONE if batch else Some(DEG))
    put("results_csv", Some(CSV) if csv else NONE); put("output_debug", Some(DEBUG) if debug else NONE)
    put("verbose", VERBOSE); put("search_window_radius", RADIUS)
    if any(v is None for v in vals): raise Missing("a known option behind every field of the parsed command line")
    rec = raw("agg", "adt:%s#0" % ty, *vals)
    parse = lambda wrap: (lambda m, st, c: (m.opaque(st, c, effects=False), wrap(rec))[1])
    P = "clap_builder::derive::Parser::"
    hooks = {P + "parse": parse(lambda x: x), P + "parse_from": parse(lambda x: x), P + "try_parse": parse(Ok), P + "try_parse_from": parse(Ok)}
    m = Machine(vn.cli(), lambda q: q in hooks, {}); m.pure = set(); m.hooks = hooks
    r, s = m.entry("visqol::main")
    c = Case(); c.m = m; c.ret = r; c.st = s; c.mode = mode; c.batch = batch; c.csv = csv; c.debug = debug
    c.name = "%s, %s" % (mode, "batch" if batch else "single pair")
    c.ok = TRUE
    if r is not None and any(l.op == "agg" and l.a[0].startswith("adt:core::result::Result") for _, l in leaves(r)): c.ok = oks(r)[0]
    c.events = [e for e in m.events if restrict(e["pc"], c.ok) is not FALSE]
    if not any(e["name"] in hooks or e["p"] in hooks for e in m.events): raise Missing("main parsing its command line")
    c.runs = [e for e in c.events if e["name"] == VRUN or e["p"] == VRUN]
    _cases[k] = c
    return c

# ------------------------------------------------------------------ the requested pairs
CSVREC, CSVDE = "csv::records", "csv::deserialized"
def named_columns():
    """serialised name -> field index of the pair record, as its Deserialize implementation matches names"""
    ty = cliadt("PathPair")
    c = [b for b in vn.cli().bodies if b.startswith("<<%s as " % ty) and b.endswith("__FieldVisitor as serde_core::de::Visitor>::visit_str")]
    if len(c) != 1: return {}
    m = machine(); r, _ = m.entry(c[0])
    out = {}
    for cube, l in leaves(okpart(r)):
        pos = [text(a.a[-1]) for a, v in cube if v and a.op == "app" and last(a.a[0]) == "eq"]
        if pos and l.op == "agg": out[pos[-1]] = int(l.a[0].split("#")[-1])
    return out

def seq_fields():
    """column -> field index when the pair record is read by position"""
    ty = cliadt("PathPair")
    c = [b for b in vn.cli().bodies if b.startswith("<<%s as " % ty) and b.endswith("__Visitor as serde_core::de::Visitor>::visit_seq")]
    return {0: 0, 1: 1} if len(c) == 1 else {}

def column(t):
    """(sequence of records, index, column name or number) a path is read from"""
    if t.op != "fld": 
        if t.op == "sel": rec, col = t.a[0], t.a[1]
        else: return None
        if col.op != "num": return None
        r = okrecord(rec)
        return None if r is None else (r[0], r[1], int(col.a[0]))
    x, var, i = t.a[0], t.a[1], t.a[2]
    if x.op == "fld" and x.a[1:3] == (0, 0) and x.a[0].op == "app":
        y = x.a[0]
        if y.a[0].endswith("StringRecord::deserialize"):
            r = okrecord(y.a[1])
            if r is None: return None
            h = y.a[2]
            if h.op == "agg" and h.a[0].endswith("Option#1"):
                hs = [text(z) for z in h.a[1].a[1:]] if h.a[1].op == "agg" else []
                by = {f: n for n, f in named_columns().items()}
                if by.get(i) in hs: return r[0], r[1], hs.index(by[i])
                return None
            if h.op == "agg" and h.a[0].endswith("Option#0"):
                inv = {f: c for c, f in seq_fields().items()}
                return (r[0], r[1], inv[i]) if i in inv else None
            return None
        if y.a[0] == CSVDE:
            r = y.a[1]
            by = {f: n for n, f in named_columns().items()}
            return (r.a[0], r.a[1], by.get(i)) if r.op == "sel" else None
    return None

def okrecord(t):
    """(sequence, index) of a record that was read"""
    if t.op == "fld" and t.a[1:3] == (0, 0) and t.a[0].op == "sel": return t.a[0].a[0], t.a[0].a[1]
    return None

def source_ok(seq):
    """the records of the batch file, header skipped, comma separated, none left out"""
    if seq.op != "app" or seq.a[0] != CSVREC: return "the records do not come from a CSV reader"
    b, path = seq.a[1:3] if len(seq.a) > 2 else (None, seq.a[1])
    if not (path is BATCH or terms_where(path, lambda x: x is BATCH)): return "the records are read from %s, not from the batch file" % show(path, 4)
    if b is not None:
        ch, _ = chain(b)
        for n, a in ch:
            if n in ("new", "flexible", "buffer_capacity"): continue
            if n == "has_headers" and a[0] is TRUE: continue
            if n == "delimiter" and a[0].op == "num" and a[0].a[0] == 44: continue
            return "the CSV reader is configured with %s(%s)" % (n, ", ".join(show(x, 3) for x in a))
    return None

COLS = {"reference": (0, "reference"), "degraded": (1, "degraded")}
def is_path(c, t, role, K):
    """the term is the path of this role of pair number K"""
    if not c.batch: return t is (REF if role == "reference" else DEG)
    x = column(t)
    return x is not None and x[1] is K and x[2] in COLS[role] and source_ok(x[0]) is None

def count(c):
    """number of requested pairs"""
    if not c.batch: return ONE
    for e in c.runs:
        for a in e["args"][1:3]:
            for x in terms_where(a, lambda y: y.op == "app" and y.a[0] == CSVREC): return length(x)
    raise Missing("the batch records among the compared paths")

def ks(t):
    """loop counters a term depends on"""
    return sorted(terms_where(t, lambda y: y.op == "K"), key=lambda t: t.id)

def each(c, e, K):
    """the event happens for every pair number K, and once"""
    pc = restrict(e["pc"], c.ok)
    if c.batch:
        for x in terms_where(pc, lambda y: y.op == "sel" and y.a[0].op == "app" and y.a[0].a[0] == CSVREC): pc = restrict(pc, disc(x, 0, 2))
        for x in terms_where(pc, lambda y: y.op == "app" and y.a[0].endswith("StringRecord::deserialize")): pc = restrict(pc, disc(x, 0, 2))
    want = ilt(K, count(c)) if K is not None else TRUE
    return pc, want

def kof(c, e):
    """the pair counter of an event"""
    if c.batch:
        l = {x.a[1] for a in e["args"] for x in terms_where(a, lambda y: y.op == "sel" and y.a[0].op == "app" and y.a[0].a[0] == CSVREC)}
        l = {x for x in l if x.op == "K"} if any(x.op == "K" for x in l) else l
        return l.pop() if len(l) == 1 else None
    l = ks(restrict(e["pc"], c.ok))
    return l[0] if len(l) == 1 else None

def everypair(c, evs):
    """None when exactly one of the events happens for every pair"""
    pcs = []
    K0 = None
    for e in evs:
        K = kof(c, e)
        if c.batch and K is None: return "%s: the pair it concerns is not the loop's" % e["where"]
        pc, want = each(c, e, K)
        pcs.append((e, pc, want, K))
    if not pcs: return "it is nowhere done"
    got = pcs[0][1]
    for e, pc, want, K in pcs[1:]:
        if K is not pcs[0][3]: return "%s: done in two places" % e["where"]
        if band(got, pc) is not FALSE: return "%s: done twice for one pair" % e["where"]
        got = bor(got, pc)
    K = pcs[0][3]
    if K is not None and not c.batch:
        nxt = add(sym("k1", "u"), ONE)
        if TT.subst(got, {K: ZERO}) is TRUE and TT.subst(got, {K: nxt}) is FALSE: return None
    if got is not pcs[0][2]:
        return "%s: done when %s instead of for each of the %s pairs" % (evs[0]["where"], show(got, 6)[:300], show(count(c), 3)[:80])
    return None

def is_result(c, t, K):
    """the term is the record of pair number K's comparison"""
    if t.op == "fld" and t.a[1:3] == (0, 0): t = t.a[0]
    else: return False
    return t.op == "app" and t.a[0] == VRUN and is_path(c, t.a[2], "reference", K) and is_path(c, t.a[3], "degraded", K)

def resfield(t, name):
    """the record a field is read from"""
    i = clifield("SimilarityResult", name)
    return t.a[0] if t.op == "fld" and t.a[1:3] == (0, i) else None
