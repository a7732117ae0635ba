"""Effect analysis: the library's call graph reaches no source of non-determinism and no effect but reading its inputs."""
import re
from engine import prog, calls

PURE = ("core", "alloc", "ndarray", "ndarray_stats", "num_complex", "num_traits", "num_integer", "num", "rustfft", "itertools", "hound", "ffsvm",
        "simd_aligned", "serde", "serde_core", "serde_derive", "log", "noisy_float", "thiserror", "thiserror_core", "transpose", "strength_reduce", "primal_check")
STD_OK = re.compile(r"^std::(error|f32|f64|num|path|ffi::os_str|collections|hash|string|vec|ascii|io::error|io::Error|io::Read\b|io::BufRead|io::impls|io::cursor|fs::read_to_string|fs::read\b|fs::File::open|fs::File as std::io::Read|io::buffered::bufreader|panicking::(begin_panic|panic)|sync::lazy_lock|sync::once_lock|macros|keyword)")
DENY = [
    (r"^std::fs::(?!read_to_string$|read$|File::open$)", "touches the file system beyond reading an input"),
    (r"std::fs::File as std::io::Write|std::io::Write\b|std::io::BufWriter|std::io::buffered::(bufwriter|linewriter)", "writes"),
    (r"std::io::stdio", "uses the standard streams"),
    (r"^std::net|std::os::", "opens sockets or uses operating system handles"),
    (r"^std::process|core::intrinsics::abort|std::rt::", "starts or ends a process"),
    (r"^std::thread|std::sync::mpsc|rayon|crossbeam|tokio|ndarray::parallel", "uses threads"),
    (r"std::time|core::arch|chrono", "reads a clock or the machine"),
    (r"^std::env", "reads the environment"),
    (r"\brand(_core|_chacha|om)?::|fastrand|getrandom|std::hash::random", "uses randomness"),
    (r"core::sync::atomic", "uses shared mutable state"),
    (r"hound::write", "writes audio"),
    (r"core::panic::|std::panic::catch_unwind|std::panicking::try|std::panic::set_hook", "intercepts panics"),
    (r"log::set_|log::max_level_set", "changes process-global state"),
]
HASHITER = re.compile(r"std::collections::hash::(map|set)|hashbrown")
ITERM = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "retain", "into_keys", "into_values", "extract_if", "next", "fmt")
READS = re.compile(r"hound::read::(WavReader::open)|std::fs::(read_to_string|read|File::open)$|std::path::Path::(exists|metadata|is_file|is_dir|read_dir|canonicalize)")

def judge(name, local_root):
    for rx, why in DENY:
        if re.search(rx, name): return why
    if HASHITER.search(name) and name.rsplit("::", 1)[-1] in ITERM: return "depends on hash order"
    for m in re.finditer(r"(?<![\w:])([a-z_]\w*)::", name):
        root = m.group(1)
        if root in PURE or root == local_root or re.match(r"^(f32|f64|[iu](8|16|32|64|128|size)|bool|char|str)$", root): continue
        if root == "std":
            tail = name[m.start():]
            if STD_OK.match(tail): continue
            return "not known to be free of effects"
        return "calls into a crate not known to be free of effects"
    return None

def run(rep):
    lib, _ = prog.load()
    g = calls.Graph(lib)
    roots = [b for b, x in lib.bodies.items() if x.d.get("pub")]
    mgr = [b for b in lib.bodies if b.startswith("visqol_rs::visqol_manager::VisqolManager::")]
    seen = g.reach(roots + mgr)
    rep.rule("every callee reachable over the call graph (closures, function items, drop glue, all implementations of a dynamic call) from the library's "
             "public functions belongs to code without effects; the only exceptions are opening the audio file and reading the model file; "
             "no reachable body touches a mutable or interior-mutable static, a thread local or a pointer's address")
    run_roots = [b for b in mgr if b.rsplit("::", 1)[-1] in ("run", "compute_results")]
    rrun = g.reach(run_roots)
    n = 0; names = set()
    stat = {s["p"]: s for s in lib.statics}
    for bid in sorted(seen):
        body = lib.bodies[bid]
        for s in g.sites[bid]:
            n += 1
            for name in {s.p, s.r}:
                if name in lib.bodies: continue
                if name == "<indirect>": continue
                names.add(name)
                why = judge(name, lib.name)
                if why: rep.violation("%s in %s" % (name, bid), "%s: %s %s (%s); reached by %s" % (s.where, bid, why, name, g.path(seen, bid)))
                if READS.search(name):
                    if not (name.startswith("hound::") or bid not in rrun):
                        rep.violation("read %s in %s" % (name, bid), "%s: a comparison reads a file through %s; reached by %s" % (s.where, name, g.path(rrun, bid)))
        for blk in [body.blocks] + [p["blocks"] for p in body.d.get("promoted") or []]:
            for c, ti in calls.consts(blk):
                if "fn" in c:
                    nm = c["fn"].get("r") or c["fn"]["p"]
                    if nm not in lib.bodies:
                        why = judge(nm, lib.name)
                        if why: rep.violation("%s in %s" % (nm, bid), "%s: %s %s (%s)" % (body.where(), bid, why, nm))
                if "static" in c:
                    st = stat.get(c["static"])
                    if c.get("mutable"):
                        t = lib.ty(lib.ty(ti).get("e", ti))
                        ts = t["s"]
                        lazy = ts.startswith(("std::sync::LazyLock<", "std::sync::lazy_lock::LazyLock<")) and not re.search(r"Cell|Mutex|RwLock|Atomic|OnceLock", ts)
                        if not lazy:
                            rep.violation("static %s in %s" % (c["static"], bid), "%s: %s uses the process-global mutable %s" % (body.where(), bid, c["static"]))
            for b in blk:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "tls":
                        rep.violation("thread local in " + bid, "%s: %s uses a thread local" % (body.where(st[3]), bid))
                    if st[0] == "=" and st[2][0] == "cast" and "Expose" in str(st[2][1]):
                        rep.violation("address in " + bid, "%s: %s turns a pointer into a number" % (body.where(st[3]), bid))
    for bid in sorted(seen): rep.instance("effects of " + bid, True)
    rep.floor("reachable bodies", len(seen), 150)
    rep.floor("call sites", n, 700)
    rep.cov["distinct_external_callees"] = len(names)
    rep.floor("file reads", sum(1 for x in names if READS.search(x)), 2)
