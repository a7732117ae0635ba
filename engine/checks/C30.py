"""The tool ends with a failure status when anything failed."""
from engine import prog, calls, failflow
SKIP = ("fmt::Error", "Infallible", "std::result::Result<!")
WRITERS = ("csv::writer::Writer", "std::io::buffered::bufwriter::BufWriter", "std::io::buffered::linewriter::LineWriter", "alloc::io::", "std::io::BufWriter")
FINISH = ("flush", "into_inner", "into_parts", "finish")

def writer_type(crate, ti):
    t = crate.ty(ti)
    while t["k"] == "ref": t = crate.ty(t["e"])
    return t["k"] == "adt" and (t["p"] in WRITERS or t["p"].rsplit("::", 1)[-1] in ("BufWriter", "LineWriter") or t["p"] == "csv::writer::Writer")

def leaves_clean(crate, bid, param, memo):
    """a local callee given &mut writer ends with everything flushed"""
    k = (bid, param)
    if k in memo: return memo[k]
    memo[k] = False
    memo[k] = not unflushed(crate, crate.bodies[bid], memo, param)
    return memo[k]

def unflushed(crate, body, memo, param=None):
    """places where a buffered writer that was written to is dropped, or the function returns, without a flush"""
    bad = []
    owners = [i for i, l in enumerate(body.locals) if crate.ty(l["t"])["k"] != "ref" and writer_type(crate, l["t"])]
    if param is not None: owners = [param]
    if not owners: return bad
    # dirty writers (by type: one flag per function suffices; moves between locals keep it)
    st = [(0, frozenset([param] if param is not None else []))]; seen = set()
    while st:
        bi, dirty = st.pop()
        if (bi, dirty) in seen: continue
        seen.add((bi, dirty))
        blk = body.blocks[bi]; t = blk["t"]; k = t["k"]
        if k == "return":
            if param is not None and dirty: bad.append(body.where(blk["sp"]))
            continue
        if k == "drop" and not t["p"][1] and t["p"][0] in owners and dirty and param is None:
            # the drop of an owner that was already moved out is a no-op; a live one with unflushed data is reported
            if t["p"][0] in dirty: bad.append(body.where(blk["sp"]))
        d2 = set(dirty)
        for s in blk["s"]:
            if s[0] == "=" and s[2][0] == "use" and "move" in s[2][1] and not s[2][1]["move"][1] and not s[1][1]:
                a, b = s[2][1]["move"][0], s[1][0]
                if a in d2: d2.discard(a); d2.add(b)
        if k == "call":
            f = t["f"].get("const", {}).get("fn") if isinstance(t["f"], dict) else None
            r = (f or {}).get("r") or (f or {}).get("p", "?")
            m = r.rsplit("::", 1)[-1]
            for ai, a in enumerate(t["a"]):
                ty = crate.ty(a.get("t"))
                if not writer_type(crate, a.get("t")): continue
                if ty["k"] == "ref" and ty.get("m"):
                    if m in FINISH: d2.clear()
                    elif r in crate.bodies and leaves_clean(crate, r, ai + 1, memo): d2.clear()
                    elif m in ("get_ref", "get_mut"): pass
                    else:
                        for o in owners: d2.add(o)
                elif ty["k"] == "adt":
                    pl = a.get("move")
                    if pl and not pl[1]: d2.discard(pl[0])
            if writer_type(crate, t["dt"]) and not t["d"][1]: d2.discard(t["d"][0])
        if k == "switch" or k in ("goto", "drop", "assert", "call"):
            for s in body.succs(bi): st.append((s, frozenset(d2)))
    return bad

def run(rep):
    _, cli = prog.load()
    rep.rule("for every call of the tool that can fail, the failed typestate is followed over all control flow: each way out of the function returns a failed "
             "Result or ends in a panic, and main hands that Result to the runtime; exit statuses given explicitly are not 0 on such ways; "
             "a buffered writer is flushed, with the result checked, after the last write and before it is dropped; no panic is caught")
    g = calls.Graph(cli)
    seen = g.reach(["visqol::main"])
    derived = lambda b: " as clap_builder" in b.id or " as serde_core" in b.id or " as core::" in b.id or " as clap" in b.id
    n = failflow.check(rep, cli, seen, SKIP, True, skip_body=derived)
    rep.floor("fallible calls", n, 12)
    rep.instance("main returns a Result", failflow.tracked_result(cli, cli.bodies["visqol::main"].locals[0]["t"], ()) is not None
                 or "ExitCode" in cli.ty(cli.bodies["visqol::main"].locals[0]["t"])["s"])
    memo = {}
    for bid in sorted(seen):
        b = cli.bodies[bid]
        if derived(b): continue
        for s in g.sites[bid]:
            if "catch_unwind" in s.r or "panic::set_hook" in s.r or "panic::take_hook" in s.r:
                rep.violation("catch_unwind in " + bid, "%s: %s intercepts panics" % (s.where, bid))
            if s.r == "std::process::exit":
                c = s.t["a"][0].get("const", {})
                if c.get("int") == "0" or "int" not in c: rep.violation("exit in " + bid, "%s: %s ends the process with a status that may be 0" % (s.where, bid))
            if s.r.endswith("::process::abort"): pass
            if s.r.rsplit("::", 1)[-1] in ("write", "write_vectored", "write_str") and "io" in s.r.split("::"):
                rep.violation("partial write in " + bid, "%s: %s uses %s, which may write a part only" % (s.where, bid, s.r))
        w = unflushed(cli, b, memo)
        if any(writer_type(cli, l["t"]) for l in b.locals):
            rep.instance("writers flushed in " + bid, not w, "%s: %s lets go of a buffered writer without flushing it; a failed write goes unnoticed" % (", ".join(w[:2]), bid))
    rep.cov["bodies"] = len(seen)
