"""Every compared pair reaches every requested output, in order."""
from engine.checks import _cli
from engine.checks._cli import *
JSON = ("to_string_pretty", "to_string", "to_vec", "to_vec_pretty", "to_writer", "to_writer_pretty")
ROW = ("serialize", "write_record", "write_byte_record")
SINK = ("write_all", "write", "write_fmt", "write_str", "to_writer", "to_writer_pretty")

def where(e): return e["where"]

def scores(c, t, K):
    """scores of pair K in a term"""
    return [x for x in terms_where(t, lambda y: y.op == "fld" and resfield(y, "moslqo") is not None) if is_result(c, resfield(x, "moslqo"), K)]

def is_score(c, t, K):
    x = resfield(t, "moslqo")
    return x is not None and is_result(c, x, K)

def flat(c, t):
    """columns of a row value"""
    if t.op == "agg":
        return [y for x in t.a[1:] for y in flat(c, x)]
    return [t]

def row_ok(c, t, K):
    cols = flat(c, t)
    if len(cols) == 2: cols = [fld(cols[0], 0, clifield("PathPair", "reference")), fld(cols[0], 0, clifield("PathPair", "degraded")), cols[1]]
    return len(cols) == 3 and is_path(c, cols[0], "reference", K) and is_path(c, cols[1], "degraded", K) and is_score(c, cols[2], K)

def is_csv_writer(e):
    return "csv::writer::" in e["name"] or "csv::writer::" in e["p"]

def origin(t):
    """values carried round a loop, as they are when it is entered"""
    for _ in range(8):
        ph = [x for x in t.fv if x.op == "phi" and x in INIT]
        if not ph: break
        t = TT.subst(t, {x: INIT[x] for x in ph})
    return t
INIT = {}

def json_calls(t):
    return terms_where(t, lambda y: y.op == "app" and y.a[0].startswith("serde_json::") and last(y.a[0]) in JSON)

def json_arg(x):
    return [a for a in x.a[1:] if type(a) is T and not (a.op == "agg" and a.a[0] == "generics")][-1]

def complete(c, t):
    """the data contains the JSON of every pair's record, in order"""
    n = count(c)
    def elem(l):
        K = sym("Kpair", "u")
        b = TT.app(l, K)
        return any(is_result(c, json_arg(x), K) for x in json_calls(b)), b
    for x in terms_where(t, lambda y: y.op == "rec" and y.a[0] is n):
        ok, b = elem(x.a[2])
        if ok and keeps(t, x) and all(keeps(y, z) for y in b.a[1:] for z in terms_where(y, lambda w: w.op == "rv" and w.a[0] == x.a[3])
                                      if any(is_result(c, json_arg(w), sym("Kpair", "u")) for w in json_calls(y))): return True
    for x in terms_where(t, lambda y: y.op == "tab" and y.a[0] is n):
        ok, b = elem(x.a[1])
        if ok: return True
    for x in json_calls(t):
        a = json_arg(x)
        if a.op == "tab" and a.a[0] is n:
            K = sym("Kpair", "u")
            if is_result(c, TT.app(a.a[1], K), K): return True
        if a.op == "agg" and a.a[0] == "array" and not c.batch and len(a.a) == 2 and is_result(c, a.a[1], None): return True
        if not c.batch and is_result(c, a, None): return True
    return False

DROPS = ("clear", "truncate", "pop", "remove", "drain", "retain", "split_off", "replace_range", "set_len", "resize", "swap", "take", "replace")
def keeps(t, old):
    """text t still holds all of the text old it was made from"""
    if t is old: return True
    if old not in t.fv and not terms_where(t, lambda y: y is old): return True
    if t.op == "mut" and last(t.a[0]) in DROPS and terms_where(t, lambda y: y is old): return False
    return all(keeps(x, old) for x in t.a if type(x) is T) if t.op in ("mut", "app", "agg", "fld") else True

def opened(t):
    """how a file was opened: (path, why earlier content is lost or None)"""
    t = origin(t)
    for x in terms_where(t, lambda y: y.op == "app" and last(y.a[0]) in ("open", "create", "create_new", "open_buffered", "create_buffered") and "fs" in y.a[0]):
        m = last(x.a[0])
        if x.a[0].endswith("OpenOptions::open"):
            ch, _ = chain(x.a[1])
            on = {n for n, a in ch if a and a[0] is TRUE}; off = {n for n, a in ch if a and a[0] is FALSE}
            for n, a in ch:
                if a and a[0] not in (TRUE, FALSE): return x.a[2], "the option %s depends on %s" % (n, show(a[0], 3))
            why = None
            if "truncate" in on and "truncate" not in off: why = "it is truncated"
            elif "create_new" in on: why = "it must not exist yet"
            elif "append" not in on or "append" in off: why = "it is not opened for appending"
            elif "create" not in on: why = "it must exist already"
            return x.a[2], why
        return x.a[1], "%s empties it" % x.a[0]
    return None, None

def run(rep):
    rep.rule("main is evaluated for every class of command lines: for each pair number exactly one printed line holds the score of that pair's comparison, whatever --verbose says; with --results_csv "
             "the file is opened once, a header row and then for each pair number one row of that pair's reference path, degraded path and score is written; with --output_debug "
             "the JSON of every pair's record reaches a file opened for appending under the given name")
    for mode in MODES:
        for batch in (False, True):
            c = case(mode, batch)
            INIT.clear(); INIT.update({ph: v[0] for l in c.m.loops.values() for ph, v in l.nexts.items()})
            # the terminal
            pr = []
            for e in c.events:
                if e["name"].endswith("stdio::_print") or (last(e["name"]) in SINK and any(terms_where(a, lambda y: y.op == "app" and y.a[0].endswith("io::stdio::stdout")) for a in e["args"])):
                    K = kof(c, e)
                    if any(scores(c, a, K) for a in e["args"]): pr.append(e)
            w = everypair(c, pr)
            rep.instance("%s: score printed" % c.name, w is None, "%s: printing a pair's score: %s" % (c.name, w))
            # the CSV file
            mk = [e for e in c.events if is_csv_writer(e) and last(e["name"]) in ("from_path", "from_writer")]
            rep.floor("results writers, " + c.name, len(mk), 1)
            for e in mk:
                p = e["args"][-1]
                if last(e["name"]) == "from_writer": p, _ = opened(p)
                rep.instance("%s: results file" % c.name, p is CSV, "%s: the results are written to %s" % (where(e), "nothing" if p is None else show(p, 4)))
                inloop = batch and (ks(restrict(e["pc"], c.ok)) != [])
                rep.instance("%s: results file opened once" % c.name, restrict(e["pc"], c.ok) is TRUE or (not batch), "%s: the results file is opened when %s; rows written before are lost" % (where(e), show(e["pc"], 5)[:200]))
                if e["name"].endswith("Builder::from_path") or e["name"].endswith("Builder::from_writer"):
                    ch, _ = chain(e["args"][0])
                    for n, a in ch:
                        ok = n in ("new", "has_headers", "buffer_capacity", "flexible") or (n == "delimiter" and a[0].op == "num" and a[0].a[0] == 44)
                        rep.instance("%s: results format %s" % (c.name, n), ok, "%s: the results writer is configured with %s" % (where(e), n))
            rows = [e for e in c.events if is_csv_writer(e) and last(e["name"]) in ROW]
            head = [e for e in rows if [text(x) for x in flat(c, e["args"][1])] == ["reference", "degraded", "moslqo"]]
            data = [e for e in rows if e not in head]
            for e in data:
                K = kof(c, e)
                rep.instance("%s: results row" % c.name, row_ok(c, e["args"][1], K), "%s: a row of the results is %s, not the pair's paths and score" % (where(e), show(e["args"][1], 6)[:300]))
            w = everypair(c, data)
            rep.instance("%s: one row per pair" % c.name, w is None, "%s: writing a pair's row: %s" % (c.name, w))
            hok = len(head) == 1 and restrict(head[0]["pc"], c.ok) is TRUE and data and c.events.index(head[0]) < c.events.index(data[0])
            rep.instance("%s: header row" % c.name, hok, "%s: the results do not start with exactly one header row" % (where(head[0]) if head else c.name))
            # the JSON file
            snk = []
            for e in c.events:
                if last(e["name"]) in SINK and "csv" not in e["name"]:
                    p, why = opened(e["args"][0])
                    if p is DEBUG:
                        snk.append(e)
                        rep.instance("%s: debug file kept" % c.name, why is None, "%s: the debug file's earlier records are lost or it cannot be written: %s" % (where(e), why))
            single = []; whole = []
            for e in snk:
                K = kof(c, e)
                if last(e["name"]).startswith("to_writer"): data_ok = is_result(c, e["args"][1], K)
                else: data_ok = any(is_result(c, json_arg(x), K) for a in e["args"][1:] for x in json_calls(a))
                if batch and K is None and any(complete(c, a) for a in e["args"][1:]): whole.append(e)
                elif data_ok: single.append(e)
            if whole:
                rep.instance("%s: debug records" % c.name, len(whole) == 1 and restrict(whole[0]["pc"], band(c.ok, *[opened_ok(whole[0])])) is TRUE,
                             "%s: the debug records are written %d times, or only when %s" % (where(whole[0]), len(whole), show(restrict(whole[0]["pc"], c.ok), 5)[:300]))
            else:
                for e in single: e["pc2"] = e["pc"]
                w = everypair(c, [dict(e, pc=restrict(e["pc"], opened_ok(e))) for e in single])
                rep.instance("%s: debug records" % c.name, w is None, "%s: writing a pair's record to the debug file: %s" % (c.name, w))
            # not asked for: nothing written
            q = case(mode, batch, csv=False, debug=False)
            for e in q.events:
                if "fs::" in e["name"] and last(e["name"]) in ("open", "create", "write", "create_new") or (is_csv_writer(e) and last(e["name"]).startswith("from_")):
                    rep.violation("%s: unasked file" % c.name, "%s: a file is written although no output option asks for one" % where(e))
    rep.cov["command line classes"] = len(_cli._cases)

def opened_ok(e):
    """the file could be opened"""
    out = TRUE
    for a in e["args"]:
        for x in terms_where(origin(a), lambda y: y.op == "app" and last(y.a[0]) in ("open", "create") and "fs" in y.a[0]):
            out = band(out, disc(x, 0, 2))
    return out
