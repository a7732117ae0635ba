"""Regenerates the MIR facts of /repo's current working tree (cached by content hash)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VQ_REPO", "/repo")
BUILD = os.environ.get("VQ_BUILD", os.path.join(VERIF, ".build"))

class FactsError(Exception):
    pass

def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            d = f.read()
        h.update(str(len(d)).encode() + b"\0" + d)
    return h.hexdigest()

def source_files():
    out = []
    for dp, dn, fn in os.walk(REPO):
        dn[:] = [d for d in dn if d not in ("target", ".git", "model", "node_modules", "test_data", "testdata")]
        for f in fn:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(dp, f))
    return out

def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "RUSTC"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True)
    if sr.returncode:
        raise FactsError("nightly toolchain missing: " + sr.stderr)
    e["LD_LIBRARY_PATH"] = os.path.join(sr.stdout.strip(), "lib")
    return e

def _run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise FactsError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, r.stderr[-4000:]))
    return r

def build():
    """Returns the facts directory for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        drv = [os.path.join(VERIF, "driver", "src", f) for f in os.listdir(os.path.join(VERIF, "driver", "src"))]
        drv.append(os.path.join(VERIF, "driver", "Cargo.toml"))
        key = _hash_files(source_files() + drv)[:24]
        out = os.path.join(BUILD, "facts", key)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        env = _env()
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "drv")
        _run(["cargo", "build", "--offline"], os.path.join(VERIF, "driver"), env)
        target = os.path.join(BUILD, "target")
        for sub in ("debug/build", "debug/.fingerprint"):
            d = os.path.join(target, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("visqol"):
                        shutil.rmtree(os.path.join(d, n))
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        env["CARGO_TARGET_DIR"] = target
        env["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(BUILD, "drv", "debug", "vqfacts")
        env["VQFACTS_OUT"] = out
        _run(["cargo", "check", "--workspace", "--lib", "--bins", "--offline"], REPO, env)
        for f in ("visqol_rs.json", "visqol.bin.json"):
            if not os.path.exists(os.path.join(out, f)):
                raise FactsError("facts file %s was not produced" % f)
        open(os.path.join(out, "ok"), "w").close()
        return out

if __name__ == "__main__":
    print(build())
