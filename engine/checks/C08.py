"""Failures of reading and of pipeline stages reach the caller as errors."""
from engine import prog, calls, failflow
SKIP = ("ShapeError", "MinMaxError", "QuantileError", "ffsvm::", "fmt::Error", "Infallible", "TryFromIntError", "EmptyInput", "EmptyError", "PoisonError", "std::result::Result<!")

def run(rep):
    lib, _ = prog.load()
    rep.rule("for every call on the comparison path that can fail (and every fallible item a closure receives), the failed typestate is followed over all "
             "control flow: each way out of the function returns a failed Result; none panics, returns a value, or loses the failure")
    g = calls.Graph(lib)
    m = "visqol_rs::visqol_manager::VisqolManager::"
    seen = g.reach([m + "run", m + "compute_results"])
    none_fns = {b for b in lib.bodies if b.startswith("visqol_rs::alignment::")}
    n = failflow.check(rep, lib, seen, SKIP, False, none_fns)
    rep.floor("fallible calls", n, 18)
    opens = [s for b in seen for s in g.sites[b] if s.r == "hound::read::WavReader::open"]
    rep.floor("wav open sites", len(opens), 1)
    run_ret = lib.bodies[m + "run"]
    rep.instance("run returns a Result", failflow.tracked_result(lib, run_ret.locals[0]["t"], ()) is not None)
    for b in seen:
        for s in g.sites[b]:
            if "catch_unwind" in s.r: rep.violation("catch_unwind in " + b, "%s: %s intercepts panics" % (s.where, b))
