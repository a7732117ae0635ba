"""Meaning of library functions (core, alloc, ndarray, itertools, num-complex, rustfft, ...) on value numbers.

call(machine, state, call) returns the value of the call, None if it never returns, or NotImplemented.
Iterators are aggregates "iter:<kind>" with a cursor; consuming adapters become loops of the machine."""
from .terms import *
from . import terms as TT

OPT = "adt:core::option::Option#%d"
RES = "adt:core::result::Result#%d"
CF = "adt:core::ops::control_flow::ControlFlow#%d"
ORD = "adt:core::cmp::Ordering#%d"
NONE = raw("agg", OPT % 0)
def Some(x): return raw("agg", OPT % 1, x)
def Ok(x): return raw("agg", RES % 0, x)
def Err(x): return raw("agg", RES % 1, x)
LESS, EQUAL, GREATER = (raw("agg", ORD % i) for i in range(3))
def tup(*xs): return raw("agg", "tuple", *xs)
def arr(*xs): return raw("agg", "array", *xs) if xs else NIL

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

IT = "core::iter::traits::iterator::Iterator::"

def call(m, st, c):
    f = MODELS.get(c.p) or MODELS.get(c.r)
    if f is None: return NotImplemented
    return f(m, st, c)

# ------------------------------------------------------------------ helpers
def V(m, st, c, i): return m.val(st, c.args[i])
def ty(m, c, i):
    t = c.argt[i] if i < len(c.argt) else None
    return c.fr.crate.ty(c.fr.crate.strip(t)) if t is not None else {"k": "?", "s": "", "p": ""}
def isarr(t): return t.get("p") == "ndarray::ArrayBase"
def strip_ref(c, t):
    while t.get("k") == "ref": t = c.fr.crate.ty(t["e"])
    return t
def rank_ty(t, v):
    from .machine import nd_of
    return nd_of(t) or guess_rank(v)
def rank(m, c, i, v=None):
    t = ty(m, c, i)
    from .machine import nd_of
    if isarr(t): return nd_of(t) or 1
    if v is not None: return guess_rank(v)
    return 1
def guess_rank(v):
    for l in leafs(v):
        if l.nd: return l.nd
        if l.op == "tab":
            K, b = openl(l.a[1])
            bl = leafs(b)[0]
            return 2 if bl.op in ("tab",) or (bl.op == "agg" and bl.a[0] == "array") or bl.op in ("cat", "upd") else 1
        if l.op == "agg" and l.a[0] == "array" and len(l.a) > 1:
            bl = leafs(l.a[1])[0]
            return 2 if bl.op in ("tab", "cat", "upd") or (bl.op == "agg" and bl.a[0] == "array") else 1
    return 1
def leafs(t):
    seen = set(); out = []; s = [t]
    while s:
        x = s.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": s += [x.a[1], x.a[2]]
        else: out.append(x)
    return out

def mref_ext(m, st, r, *ps):
    """reference to a component"""
    def f(x):
        if x.op == "mref":
            v = m.load(st, x.a[0], x.a[1])
            if v.op == "mref" or (v.op == "ite" and has_mref(v)): return mref_ext(m, st, v, *ps)
            return raw("mref", x.a[0], tuple(x.a[1]) + tuple(ps))
        v = x
        for p in ps: v = m.get(v, p)
        return v
    return mapleaves(f, r)
def has_mref(t):
    from .machine import has_mref as h
    return h(t)
def ismref(r): return r.op == "mref" or (r.op == "ite" and has_mref(r))
def final_ref(m, st, r):
    while r.op == "mref":
        v = m.load(st, r.a[0], r.a[1])
        if v.op == "mref": r = v
        else: return r
    return r

def require(m, st, c, cond, what, ops=()):
    m.require(c.fr, st, cond, what, c.span, ops=ops)

def guarded(m, st, cond, thunk):
    """run thunk in the states satisfying cond; effects are gated. returns its value"""
    if cond is TRUE: return thunk(st)
    if cond is FALSE or band(st.pc, cond) is FALSE: return None
    from .machine import State, merge
    s1 = State(dict(st.cells), band(st.pc, cond))
    v = thunk(s1)
    if v is None and s1.pc is FALSE:
        return None
    s0 = State(st.cells, band(st.pc, bnot(cond)))
    out = State({}, st.pc)
    for k, x in s0.cells.items():
        y = s1.cells.get(k)
        if y is None: continue
        out.cells[k] = x if x is y else ite(cond, y, x)
    st.cells = out.cells
    return v

def gate(cond, a, b):
    if a is None: return b
    if b is None: return a
    return ite(cond, a, b)

def is_some(m, x): return mapleaves(lambda l: disc(l, 1, 2), x)
def is_ok(m, x): return mapleaves(lambda l: disc(l, 0, 2), x)
def payload(x, var): 
    def f(l):
        if l.op == "agg" and l.a[0].startswith("adt:") and not l.a[0].endswith("#%d" % var): return raw("undef")
        return fld(l, var, 0)
    return drop_undef(mapleaves(f, x))
def ptype(m, c, v, var=1):
    """type the payload of an option/result by the destination type"""
    return v

# ------------------------------------------------------------------ option, result, ?
@model("core::ops::try_trait::Try::branch")
def _(m, st, c):
    x = V(m, st, c, 0)
    t = ty(m, c, 0)
    if t.get("p") == "core::option::Option":
        k = is_some(m, x)
        return ite(k, raw("agg", CF % 0, pt(m, c, x, 1)), raw("agg", CF % 1, NONE))
    if t.get("p") == "core::result::Result":
        k = is_ok(m, x)
        return ite(k, raw("agg", CF % 0, pt(m, c, x, 0)), raw("agg", CF % 1, Err(pt(m, c, x, 1))))
    return NotImplemented
def pt(m, c, x, var, i=0):
    """payload, typed"""
    v = payload(x, var)
    t = ty(m, c, i)
    ti = None
    if t.get("p") == "core::option::Option": ti = t["a"][0]
    elif t.get("p") == "core::result::Result": ti = t["a"][var]
    return m.typed(v, ti, c.fr.crate) if isinstance(ti, int) else v

@model("core::ops::try_trait::FromResidual::from_residual")
def _(m, st, c):
    x = V(m, st, c, 0)
    d = c.fr.crate.ty(c.dt) if c.dt is not None else {}
    if d.get("p") == "core::option::Option": return NONE
    return Err(pt(m, c, x, 1))
@model("core::ops::try_trait::Try::from_output")
def _(m, st, c):
    d = c.fr.crate.ty(c.dt) if c.dt is not None else {}
    return Some(c.args[0]) if d.get("p") == "core::option::Option" else Ok(c.args[0])

@model("core::option::Option::expect", "core::option::Option::unwrap", "core::option::Option::unwrap_unchecked")
def _(m, st, c):
    x = V(m, st, c, 0)
    require(m, st, c, is_some(m, x), "unwrap", [x])
    return pt(m, c, x, 1)
@model("core::result::Result::expect", "core::result::Result::unwrap")
def _(m, st, c):
    x = V(m, st, c, 0)
    require(m, st, c, is_ok(m, x), "unwrap", [x])
    return pt(m, c, x, 0)
@model("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def _(m, st, c):
    x = V(m, st, c, 0)
    o = "option" in c.p
    k = is_some(m, x) if o else is_ok(m, x)
    return ite(k, pt(m, c, x, 1 if o else 0), c.args[1])
@model("core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else")
def _(m, st, c):
    x = V(m, st, c, 0)
    o = "option" in c.p
    k = is_some(m, x) if o else is_ok(m, x)
    r = guarded(m, st, bnot(k), lambda s: m.call_value(s, c.args[1], [] if o else [pt(m, c, x, 1)], c)) if k is not TRUE else None
    if r is None: require(m, st, c, k, "panic", [x])
    p = pt(m, c, x, 1 if o else 0)
    return p if r is None else ite(k, p, r)
@model("core::option::Option::unwrap_or_default")
def _(m, st, c):
    x = V(m, st, c, 0)
    d = default_of(m, c.dt, c.fr.crate, c.fr)
    if d is None: return NotImplemented
    return ite(is_some(m, x), pt(m, c, x, 1), d)
@model("core::option::Option::ok_or")
def _(m, st, c):
    x = V(m, st, c, 0)
    return ite(is_some(m, x), Ok(pt(m, c, x, 1)), Err(c.args[1]))
@model("core::option::Option::ok_or_else")
def _(m, st, c):
    x = V(m, st, c, 0); k = is_some(m, x)
    e = guarded(m, st, bnot(k), lambda s: m.call_value(s, c.args[1], [], c))
    return gate(k, Ok(pt(m, c, x, 1)), None if e is None else Err(e))
@model("core::option::Option::map", "core::result::Result::map", "core::option::Option::and_then", "core::result::Result::and_then", "core::result::Result::map_err",
       "core::option::Option::map_or", "core::result::Result::map_or", "core::option::Option::map_or_else", "core::result::Result::or_else", "core::option::Option::or_else",
       "core::option::Option::filter", "core::result::Result::map_or_else", "core::option::Option::is_some_and", "core::option::Option::is_none_or", "core::result::Result::is_ok_and")
def _(m, st, c):
    x = V(m, st, c, 0)
    o = c.p.startswith("core::option"); meth = c.p.rsplit("::", 1)[1]
    k = is_some(m, x) if o else is_ok(m, x)
    good = pt(m, c, x, 1 if o else 0)
    bad = None if o else pt(m, c, x, 1)
    wrap = Some if o else Ok
    if meth == "map":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [good], c)) if k is not FALSE else None
        return gate(k, None if r is None else wrap(r), NONE if o else Err(bad))
    if meth == "and_then":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [good], c)) if k is not FALSE else None
        return gate(k, r, NONE if o else Err(bad))
    if meth == "map_err":
        r = guarded(m, st, bnot(k), lambda s: m.call_value(s, c.args[1], [bad], c)) if k is not TRUE else None
        return gate(k, Ok(good), None if r is None else Err(r))
    if meth == "or_else":
        r = guarded(m, st, bnot(k), lambda s: m.call_value(s, c.args[1], [] if o else [bad], c)) if k is not TRUE else None
        return gate(k, wrap(good), r)
    if meth == "map_or":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[2], [good], c)) if k is not FALSE else None
        return gate(k, r, c.args[1])
    if meth == "map_or_else":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[2], [good], c)) if k is not FALSE else None
        e = guarded(m, st, bnot(k), lambda s: m.call_value(s, c.args[1], [] if o else [bad], c)) if k is not TRUE else None
        return gate(k, r, e)
    if meth == "filter":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [good], c)) if k is not FALSE else FALSE
        return ite(band(k, tobool(r)), x, NONE)
    if meth in ("is_some_and", "is_ok_and"):
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [good], c)) if k is not FALSE else FALSE
        return band(k, tobool(r))
    if meth == "is_none_or":
        r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [good], c)) if k is not FALSE else FALSE
        return bor(bnot(k), tobool(r))
    return NotImplemented
@model("core::option::Option::is_some")
def _(m, st, c): return is_some(m, V(m, st, c, 0))
@model("core::option::Option::is_none")
def _(m, st, c): return bnot(is_some(m, V(m, st, c, 0)))
@model("core::result::Result::is_ok")
def _(m, st, c): return is_ok(m, V(m, st, c, 0))
@model("core::result::Result::is_err")
def _(m, st, c): return bnot(is_ok(m, V(m, st, c, 0)))
@model("core::result::Result::ok")
def _(m, st, c):
    x = V(m, st, c, 0)
    return ite(is_ok(m, x), Some(pt(m, c, x, 0)), NONE)
@model("core::result::Result::err")
def _(m, st, c):
    x = V(m, st, c, 0)
    return ite(is_ok(m, x), NONE, Some(pt(m, c, x, 1)))
@model("core::option::Option::as_ref", "core::option::Option::copied", "core::option::Option::cloned", "core::option::Option::as_deref", "core::result::Result::as_ref",
       "core::result::Result::copied", "core::result::Result::cloned", "core::result::Result::as_deref")
def _(m, st, c): return V(m, st, c, 0)
@model("core::option::Option::as_mut", "core::option::Option::as_deref_mut")
def _(m, st, c):
    x = V(m, st, c, 0)
    if not ismref(c.args[0]): return x
    return ite(is_some(m, x), Some(mref_ext(m, st, c.args[0], ("f", 1, 0))), NONE)
@model("core::option::Option::take", "core::mem::take")
def _(m, st, c):
    x = V(m, st, c, 0)
    d = NONE if "option" in c.p else default_of(m, c.dt, c.fr.crate, c.fr)
    if d is None or not ismref(c.args[0]): return NotImplemented
    m.wrref(st, c.args[0], d)
    return x
@model("core::mem::replace")
def _(m, st, c):
    if not ismref(c.args[0]): return NotImplemented
    x = V(m, st, c, 0)
    m.wrref(st, c.args[0], c.args[1])
    return x
@model("core::mem::swap")
def _(m, st, c):
    if not (ismref(c.args[0]) and ismref(c.args[1])): return NotImplemented
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    m.wrref(st, c.args[0], b); m.wrref(st, c.args[1], a)
    return UNIT
@model("core::mem::drop", "core::hint::black_box")
def _(m, st, c): return c.args[0] if "black" in c.p else UNIT
@model("core::option::Option::zip")
def _(m, st, c):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    return ite(band(is_some(m, a), is_some(m, b)), Some(tup(payload(a, 1), payload(b, 1))), NONE)
@model("core::bool::then", "bool::then")
def _(m, st, c):
    k = tobool(V(m, st, c, 0))
    r = guarded(m, st, k, lambda s: m.call_value(s, c.args[1], [], c)) if k is not FALSE else None
    return gate(k, None if r is None else Some(r), NONE)
@model("core::bool::then_some", "bool::then_some")
def _(m, st, c): return ite(tobool(V(m, st, c, 0)), Some(c.args[1]), NONE)

@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _(m, st, c):
    a = V(m, st, c, 1)
    args = list(a.a[1:]) if a.op == "agg" and a.a[0] == "tuple" else [a]
    return m.call_value(st, c.args[0], args, c)

# ------------------------------------------------------------------ transparent wrappers
def ident(m, st, c): return c.args[0]
for n in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "core::convert::AsRef::as_ref",
          "alloc::vec::Vec::as_mut_slice", "alloc::vec::Vec::as_slice", "alloc::boxed::Box::new", "alloc::string::String::as_str", "alloc::vec::Vec::into_boxed_slice",
          "[T]::into_vec", "alloc::slice::into_vec", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "alloc::sync::Arc::new", "alloc::rc::Rc::new",
          "[T]::as_ref", "core::slice::as_slice", "[T;_]::as_slice", "[T;_]::as_mut_slice", "core::array::as_slice", "core::array::as_mut_slice", "alloc::vec::Vec::leak", "core::iter::traits::collect::IntoIterator::into_iter_",
          "alloc::boxed::box_new", "core::pin::Pin::new", "alloc::sync::Arc::as_ref", "alloc::slice::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::write", "core::slice::iter::Iter::as_slice"):
    MODELS[n] = ident
def valm(m, st, c): return V(m, st, c, 0)
for n in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "ndarray::ArrayBase::to_owned", "ndarray::ArrayBase::view", "ndarray::ArrayBase::to_vec", "[T]::to_vec",
          "ndarray::ArrayBase::into_raw_vec", "ndarray::ArrayBase::into_owned", "alloc::vec::Vec::to_vec", "ndarray::ArrayBase::into_raw_vec_and_offset_", "alloc::string::ToString::to_string", "alloc::string::String::from_str",
          "ndarray::ArrayBase::from_vec", "ndarray::free_functions::aview1", "ndarray::free_functions::arr1", "ndarray::free_functions::arr2", "ndarray::free_functions::rcarr1",
          "core::str::to_owned", "ndarray::ArrayBase::to_shared", "ndarray::ArrayBase::as_standard_layout", "core::option::Option::to_owned", "alloc::vec::Vec::from", "ndarray::shape_builder::ShapeBuilder::into_shape_with_order_",
          "alloc::borrow::Cow::into_owned", "str::to_string", "str::to_owned", "core::num::wrapping::Wrapping", "alloc::vec::Vec::into_iter_"):
    MODELS[n] = valm
@model("ndarray::ArrayBase::view_mut", "ndarray::ArrayBase::reborrow")
def _(m, st, c): return c.args[0]

@model("core::convert::From::from", "core::convert::Into::into")
def _(m, st, c):
    x = c.args[0]
    s, d = ty(m, c, 0), (c.fr.crate.ty(c.fr.crate.strip(c.dt)) if c.dt is not None else {"k": "?"})
    if "SliceInfoElem" in c.r or d.get("p", "").endswith("SliceInfoElem"): return V(m, st, c, 0)
    if d.get("p", "") in ("ndarray::Slice", "ndarray::slice::Slice"): return V(m, st, c, 0)
    num_ = ("int", "uint", "float")
    if s["k"] == "bool" and d["k"] in num_: return ite(tobool(V(m, st, c, 0)), ONE, ZERO)
    if s["k"] in num_ and d["k"] in num_: return V(m, st, c, 0)
    if d.get("p") == "num_complex::Complex" and s["k"] in num_: return V(m, st, c, 0)
    if d.get("p") in ("alloc::string::String", "alloc::vec::Vec", "alloc::boxed::Box", "ndarray::ArrayBase", "std::path::PathBuf", "alloc::borrow::Cow", "csv::string_record::StringRecord") or d["k"] in ("dyn", "slice", "str"):
        v = V(m, st, c, 0)
        return v
    if d.get("p") == "core::option::Option" and s.get("p") != "core::option::Option": return Some(x)
    if d.get("p") is not None and d.get("p") == s.get("p"): return x
    return NotImplemented
@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def _(m, st, c):
    s, d = ty(m, c, 0), (c.fr.crate.ty(c.dt) if c.dt is not None else {"k": "?"})
    if d.get("p") != "core::result::Result": return NotImplemented
    t = c.fr.crate.ty(d["a"][0])
    x = V(m, st, c, 0)
    if s["k"] in ("int", "uint") and t["k"] in ("int", "uint"):
        lo, hi = int_range(t.get("n"))
        k = band(ge0i(sub(x, num(lo))), ge0i(sub(num(hi), x)) if hi < 2**63 - 1 else TRUE)
        return ite(k, Ok(x), Err(raw("app", "tryfrom")))
    if t["k"] == "array" and s["k"] in ("slice", "array") or (t["k"] == "array" and s.get("p") == "alloc::vec::Vec"):
        return Ok(x)
    return NotImplemented
def int_range(n):
    b = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32}.get(n, 64)
    return (0, 2**b - 1) if n and n.startswith("u") else (-2**(b - 1), 2**(b - 1) - 1)

def default_of(m, ti, crate, fr=None):
    if ti is None: return None
    t = crate.ty(ti)
    k = t["k"]
    if k in ("int", "uint", "float"): return ZERO
    if k == "bool": return FALSE
    if k == "adt":
        if t["p"] in ("alloc::vec::Vec",): return NIL
        if t["p"] == "core::option::Option": return NONE
        if t["p"] == "num_complex::Complex": return ZERO
        if t["p"] == "alloc::string::String": return raw("str", "")
    if k == "tuple":
        xs = [default_of(m, x, crate, fr) for x in t["a"]]
        return None if any(x is None for x in xs) else tup(*xs)
    if k == "array" and fr is not None:
        x = default_of(m, t["e"], crate, fr)
        return None if x is None else rep(m.const(fr, t["n"]), x)
    return None
@model("core::default::Default::default")
def _(m, st, c):
    d = default_of(m, c.dt, c.fr.crate, c.fr)
    return NotImplemented if d is None else d

# ------------------------------------------------------------------ scalar arithmetic
def scalar(m, st, c, i): return V(m, st, c, i)
F1 = {}
for n in ("exp", "ln", "log2", "log10", "floor", "ceil", "round", "sin", "cos", "tan", "tanh", "exp2", "signum", "trunc", "cbrt", "ln_1p", "exp_m1", "fract", "atan", "asin", "acos", "sinh", "cosh"):
    F1[n] = n
def flog(name, x):
    return mapleaves(lambda y: fn(name, y), x)
def fsqrt(x):
    return mapleaves(sqrt1, x)
def sqrt1(x):
    if is_num(x): return fn("sqrt", x)
    ts = terms_of(x)
    if len(ts) == 1:
        (mono, co), = ts.items()
        if co > 0 and all(nonneg(a) or e % 2 == 0 for a, e in mono):
            r = fn("sqrt", num(co)) if co != 1 else ONE
            for a, e in mono:
                q, o = divmod(abs(e), 2)
                if nonneg(a): p = mul(powi(a, q), fn("sqrt", a) if o else ONE)
                else: p = powi(fabs(a), q)
                r = mul(r, p) if e > 0 else fdiv(r, p)
            return r
    return fn("sqrt", x)
def fexp(x, base="e"):
    return mapleaves(lambda y: exp1(y, base), x)
def exp1(x, base):
    """base^x with logarithms of that base turned back into factors"""
    lg = {"e": "ln", 10: "log10", 2: "log2"}.get(base)
    rest = {}; out = ONE
    for mono, co in terms_of(x).items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "fn" and mono[0][0].a[0] == lg:
            if co.denominator == 1 and abs(co) < 9:
                out = mul(out, powi(mono[0][0].a[1], int(co))); continue
            if co.denominator == 2 and abs(co) < 9:
                s = fsqrt(mono[0][0].a[1])
                out = mul(out, powi(s, int(co * 2))); continue
        rest[mono] = co
    p = TT._mkpoly(rest)
    if p is ZERO: return out
    if base == "e": e = fn("exp", p)
    else: e = fn("pow", num(base), p)
    return mul(out, e)
def fpow(x, y):
    if y.op == "ite" or x.op == "ite":
        if y.op == "ite": return mapleaves(lambda z: fpow(x, z), y)
        return mapleaves(lambda z: fpow(z, y), x)
    if is_num(y):
        v = y.a[0]
        if v.denominator == 1 and abs(v) <= 8: return powi(x, int(v))
        if v == Fr(1, 2): return fsqrt(x)
        if is_num(x) and v.denominator == 2 and 0 < v < 8:
            return mul(powi(x, int(v - Fr(1, 2))), fn("sqrt", x))
    if is_num(x) and x.a[0] in (10, 2): return exp1(y, int(x.a[0]))
    return fn("pow", x, y)
def _f1(name):
    def f(m, st, c):
        x = V(m, st, c, 0)
        m.fevent(st, c, name, [x])
        if name == "exp": return fexp(x)
        if name == "exp2": return fexp(x, 2)
        return mapleaves(lambda y: fn(name, y), x)
    return f
for t_ in ("f64", "f32"):
    for n in F1: MODELS["%s::%s" % (t_, n)] = _f1(n)
@model("f64::sqrt", "f32::sqrt")
def _(m, st, c):
    x = V(m, st, c, 0)
    m.fevent(st, c, "sqrt", [x])
    return fsqrt(x)
@model("f64::powf", "f32::powf")
def _(m, st, c):
    x, y = V(m, st, c, 0), V(m, st, c, 1)
    m.fevent(st, c, "powf", [x, y])
    return fpow(x, y)
@model("f64::powi", "f32::powi")
def _(m, st, c):
    x, y = V(m, st, c, 0), V(m, st, c, 1)
    if is_num(y) and abs(y.a[0]) <= 8: return mapleaves(lambda z: powi(z, int(y.a[0])), x)
    return fn("pow", x, y)
@model("f64::mul_add")
def _(m, st, c): return add(mul(V(m, st, c, 0), V(m, st, c, 1)), V(m, st, c, 2))
@model("f64::hypot")
def _(m, st, c):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    return fsqrt(add(mul(a, a), mul(b, b)))
@model("f64::recip")
def _(m, st, c):
    x = V(m, st, c, 0); m.divisor(st, c, x)
    return fdiv(ONE, x)
@model("f64::abs", "f32::abs")
def _(m, st, c): return mapleaves(fabs, V(m, st, c, 0))
@model("f64::max", "f32::max", "f64::maximum")
def _(m, st, c): return fmaxl(V(m, st, c, 0), V(m, st, c, 1))
@model("f64::min", "f32::min", "f64::minimum")
def _(m, st, c): return fminl(V(m, st, c, 0), V(m, st, c, 1))
def dropinf(a, b, lo):
    for x, y in ((a, b), (b, a)):
        if x.op == "fconst" and x.a[0] == ("-inf" if lo else "inf"): return y
        if x.op == "fconst" and x.a[0] == "nan": return y
    return None
def fmaxl(a, b): return dropinf(a, b, True) or fmax(a, b)
def fminl(a, b): return dropinf(a, b, False) or fmin(a, b)
@model("f64::clamp", "f32::clamp")
def _(m, st, c):
    x, lo, hi = (V(m, st, c, i) for i in range(3))
    return fmin(fmax(x, lo), hi)
@model("f64::is_finite")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(lambda y: TRUE if is_num(y) else FALSE if y.op == "fconst" else tobool(raw("isfinite", y, sort="b")), x)
@model("f64::is_nan")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(lambda y: FALSE if is_num(y) else tobool(raw("isnan", y, sort="b")), x)
@model("f64::is_infinite")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(lambda y: FALSE if is_num(y) else tobool(raw("isinf", y, sort="b")), x)
@model("f64::total_cmp")
def _(m, st, c): return m.ordering(V(m, st, c, 0), V(m, st, c, 1), True)
@model("f64::is_sign_negative")
def _(m, st, c): return flt(V(m, st, c, 0), ZERO)
@model("f64::rem_euclid", "f64::div_euclid", "f64::atan2", "f64::log", "f64::copysign")
def _(m, st, c): return fn(c.p.rsplit("::", 1)[1], *[V(m, st, c, i) for i in range(len(c.args))])

INTS = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128")
def imodel(*names):
    def d(f):
        for t in INTS:
            for n in names:
                def g(m, st, c, t=t, n=n): return f(m, st, c, t, n)
                MODELS["%s::%s" % (t, n)] = g
        return f
    return d
def sat(x, t):
    lo, hi = int_range(t)
    if t.startswith("u"): x = clip0l(x)
    else:
        if hi < 2**40: x = imax(x, num(lo))
    if hi < 2**40: x = imin(x, num(hi))
    return x
def clip0l(x): return mapleaves(TT.clip0, x)
@imodel("saturating_sub", "saturating_add", "saturating_mul", "saturating_pow")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    if n.endswith("pow"): return NotImplemented
    r = {"sub": sub, "add": add, "mul": mul}[n[11:]](a, b)
    return sat(r, t)
@imodel("checked_sub", "checked_add", "checked_mul", "checked_div", "checked_rem")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    if n in ("checked_div", "checked_rem"):
        return ite(ieq(b, ZERO), NONE, Some((idiv if n == "checked_div" else imod)(a, b)))
    r = {"sub": sub, "add": add, "mul": mul}[n[8:]](a, b)
    lo, hi = int_range(t)
    k = TRUE
    if n == "checked_sub" or lo < 0: k = band(k, ge0i(sub(r, num(lo))) if lo == 0 or hi < 2**40 else TRUE)
    if hi < 2**40: k = band(k, ge0i(sub(num(hi), r)))
    return ite(k, Some(r), NONE)
@imodel("wrapping_sub", "wrapping_add", "wrapping_mul")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    r = {"sub": sub, "add": add, "mul": mul}[n[9:]](a, b)
    lo, hi = int_range(t)
    inr = band(ge0i(sub(r, num(lo))), ge0i(sub(num(hi), r)) if hi < 2**40 else TRUE)
    return ite(inr, r, raw("app", n, a, b))
@imodel("overflowing_sub", "overflowing_add")
def _(m, st, c, t, n): return NotImplemented
@imodel("pow")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    if is_num(b) and 0 <= b.a[0] <= 16: return mapleaves(lambda z: powi(z, int(b.a[0])), a)
    return fn("ipow", a, b, sort="u" if t.startswith("u") else "i")
@imodel("abs", "unsigned_abs")
def _(m, st, c, t, n):
    return mapleaves(lambda x: x if nonneg(x) else ite(ge0i(x), x, neg(x)), V(m, st, c, 0))
@imodel("abs_diff")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    return ite(ge0i(sub(a, b)), sub(a, b), sub(b, a))
@imodel("div_ceil")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, bnot(ieq(b, ZERO)), "DivisionByZero", [a, b])
    return ceildiv(a, b)
def ceildiv(a, b):
    if is_num(b): return idiv(add(a, sub(b, ONE)), b)
    return idiv(add(a, sub(b, ONE)), b)
@imodel("is_multiple_of")
def _(m, st, c, t, n): return ieq(imod(V(m, st, c, 0), V(m, st, c, 1)), ZERO)
@imodel("div_euclid", "rem_euclid")
def _(m, st, c, t, n):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, bnot(ieq(b, ZERO)), "DivisionByZero", [a, b])
    if t.startswith("u"): return (idiv if n[0] == "d" else imod)(a, b)
    return NotImplemented
@imodel("min_value")
def _(m, st, c, t, n): return num(int_range(t)[0])
@imodel("max_value")
def _(m, st, c, t, n): return num(int_range(t)[1])
@imodel("next_power_of_two")
def _(m, st, c, t, n): return fn("next_pow2", V(m, st, c, 0), sort="u")
@imodel("is_power_of_two")
def _(m, st, c, t, n): return tobool(raw("ispow2", V(m, st, c, 0), sort="b"))
@imodel("leading_zeros", "trailing_zeros", "count_ones", "ilog10", "isqrt")
def _(m, st, c, t, n): return raw("fn", n, V(m, st, c, 0), sort="u")
@imodel("ilog2")
def _(m, st, c, t, n): return fn("floor", fn("log2", V(m, st, c, 0)))
@imodel("is_negative", "is_positive")
def _(m, st, c, t, n):
    x = V(m, st, c, 0)
    return mapleaves(lambda z: ge0i(sub(neg(z) if n == "is_negative" else z, ONE)), x)
@imodel("signum")
def _(m, st, c, t, n):
    x = V(m, st, c, 0)
    return ite(ge0i(sub(x, ONE)), ONE, ite(ge0i(x), ZERO, num(-1)))

def fkind(m, c, i=0):
    return ty(m, c, i)["k"] == "float"
@model("core::cmp::Ord::max", "core::cmp::max")
def _(m, st, c): return imax(V(m, st, c, 0), V(m, st, c, 1))
@model("core::cmp::Ord::min", "core::cmp::min")
def _(m, st, c): return imin(V(m, st, c, 0), V(m, st, c, 1))
@model("core::cmp::Ord::clamp")
def _(m, st, c): return imin(imax(V(m, st, c, 0), V(m, st, c, 1)), V(m, st, c, 2))
@model("core::cmp::Ord::cmp")
def _(m, st, c):
    t = ty(m, c, 0)
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    if t["k"] in ("int", "uint") or (isnumeric(a) and isnumeric(b)): return m.ordering(a, b, False)
    return NotImplemented
@model("core::cmp::PartialOrd::partial_cmp")
def _(m, st, c):
    t = ty(m, c, 0)
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    if t["k"] == "float": return Some(m.ordering(a, b, True))
    if t["k"] in ("int", "uint"): return Some(m.ordering(a, b, False))
    return NotImplemented
def _cmp(op):
    def f(m, st, c):
        a, b = V(m, st, c, 0), V(m, st, c, 1)
        k = ty(m, c, 0)["k"]
        if k in ("int", "uint", "float", "bool"): return m.compare(op, a, b, k)
        if op in ("Eq", "Ne"):
            e = equal(m, a, b)
            if e is not None: return e if op == "Eq" else bnot(e)
        return NotImplemented
    return f
for n, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")): MODELS["core::cmp::PartialOrd::" + n] = _cmp(o)
MODELS["core::cmp::PartialEq::eq"] = _cmp("Eq"); MODELS["core::cmp::PartialEq::ne"] = _cmp("Ne")
def equal(m, a, b):
    if a is b: return TRUE
    if a.op == "ite": 
        xs = [equal(m, l, b) for l in leafs(a)]
        if any(x is None for x in xs): return None
        return mapleaves(lambda l: equal(m, l, b), a)
    if b.op == "ite": return equal(m, b, a)
    if a.op == "agg" and b.op == "agg" and a.a[0].startswith("adt:") and b.a[0].startswith("adt:"):
        if a.a[0] != b.a[0]: return FALSE
        r = TRUE
        for x, y in zip(a.a[1:], b.a[1:]):
            e = equal(m, x, y)
            if e is None: return None
            r = band(r, e)
        return r
    if b.op == "agg" and b.a[0].startswith("adt:"): a, b = b, a
    if a.op == "agg" and a.a[0].startswith("adt:") and len(a.a) == 1:
        p, k = a.a[0][4:].rsplit("#", 1)
        n = {"core::cmp::Ordering": 3, "core::option::Option": 2}.get(p) or m.nvariants(p)
        return disc(b, int(k), n) if n else None
    if isnumeric(a) and isnumeric(b):
        if integral(a) and integral(b): return ieq(a, b)
        return feq0(sub(a, b))
    if a.op == "str" and b.op == "str": return TRUE if a.a[0] == b.a[0] else FALSE
    return None
@model("core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_gt", "core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_ge", "core::cmp::Ordering::is_ne")
def _(m, st, c):
    x = V(m, st, c, 0); l, e, g = disc(x, 0, 3), disc(x, 1, 3), disc(x, 2, 3)
    return {"lt": l, "gt": g, "eq": e, "le": bnot(g), "ge": bnot(l), "ne": bnot(e)}[c.p[-2:]]
@model("core::cmp::Ordering::reverse")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(lambda y: {LESS: GREATER, GREATER: LESS, EQUAL: EQUAL}.get(y, raw("app", "ordrev", y)), x)
@model("core::cmp::Ordering::then", "core::cmp::Ordering::then_with")
def _(m, st, c): return NotImplemented

OPS = {"add": add, "sub": sub, "mul": mul, "div": fdiv}
def arith(op):
    def f(m, st, c):
        a, b = V(m, st, c, 0), V(m, st, c, 1)
        return arith2(m, st, c, op, a, b, ty(m, c, 0), ty(m, c, 1))
    return f
def arith2(m, st, c, op, a, b, ta, tb):
    from .machine import nd_of
    if isarr(ta) or isarr(tb):
        nda = (nd_of(ta) or guess_rank(a)) if isarr(ta) else 0
        ndb = (nd_of(tb) or guess_rank(b)) if isarr(tb) else 0
        if nda and ndb and nda != ndb: return NotImplemented
        if op == "rem": return NotImplemented
        if op == "div": m.divisor(st, c, b, ndb)
        return nd2(OPS[op], a, b, nda, ndb)
    if op == "rem":
        if ta["k"] == "float": return fn("frem", a, b)
        return imod(a, b)
    if ta["k"] in ("int", "uint") and tb["k"] in ("int", "uint"):
        r = (OPS[op] if op != "div" else idiv)(a, b)
        if op == "sub" and ta["k"] == "uint": require(m, st, c, ge0i(r), "Overflow(Sub)", [a, b])
        if op == "div": require(m, st, c, bnot(ieq(b, ZERO)), "DivisionByZero", [a, b])
        return r
    okp = lambda t: t["k"] in ("float", "int", "uint") or t.get("p") == "num_complex::Complex" or t["k"] == "param"
    if okp(ta) and okp(tb) and a.op not in ("agg", "undef") and b.op not in ("agg", "undef"):
        if op == "div": m.divisor(st, c, b)
        return cmplx_fix(OPS[op](a, b))
    return NotImplemented
def cmplx_fix(x): return x
for n in ("add", "sub", "mul", "div", "rem"):
    MODELS["core::ops::arith::%s::%s" % (n.capitalize(), n)] = arith(n)
@model("core::ops::arith::Neg::neg")
def _(m, st, c):
    a = V(m, st, c, 0); t = ty(m, c, 0)
    if isarr(t): return nd1(neg, a, rank(m, c, 0, a))
    return neg(a)
@model("core::ops::bit::Not::not")
def _(m, st, c):
    if ty(m, c, 0)["k"] == "bool": return bnot(V(m, st, c, 0))
    return NotImplemented
def arith_assign(op):
    def f(m, st, c):
        r = c.args[0]
        a, b = V(m, st, c, 0), V(m, st, c, 1)
        x = arith2(m, st, c, op, a, b, ty(m, c, 0), ty(m, c, 1))
        if x is NotImplemented or not ismref(r): return NotImplemented
        m.wrref(st, r, x)
        return UNIT
    return f
for n in ("add", "sub", "mul", "div", "rem"):
    MODELS["core::ops::arith::%sAssign::%s_assign" % (n.capitalize(), n)] = arith_assign(n)

# elementwise array operations
def nd1(f, a, nd):
    if nd == 0: return mapleaves(f, a)
    if a.op == "ite" and TT._size(a) <= 4: return mapleaves(lambda x: nd1(f, x, nd), a)
    if nd == 1: return mktab(length(a), lambda i: mapleaves(f, sel(a, i)))
    n, k = length(a), ncols(a)
    return mktab(n, lambda i: mktab(k, lambda j: mapleaves(f, sel(sel(a, i), j))))
def nd2(f, a, b, nda, ndb):
    nd = max(nda, ndb)
    x = a if nda else b
    if x.op == "ite" and TT._size(x) <= 4:
        return mapleaves(lambda y: nd2(f, y if nda else a, b if nda else y, nda, ndb), x)
    ga = (lambda *i: a) if not nda else (lambda *i: selm(a, i))
    gb = (lambda *i: b) if not ndb else (lambda *i: selm(b, i))
    n = length(x)
    if nd == 1: return mktab(n, lambda i: f(ga(i), gb(i)))
    k = ncols(x)
    return mktab(n, lambda i: mktab(k, lambda j: f(ga(i, j), gb(i, j))))
def selm(a, idx):
    for i in idx: a = sel(a, i, "f" if i is idx[-1] else None)
    return a

# complex
from .machine import IMAG, cre, cim, has_complex
@model("num_complex::Complex::new")
def _(m, st, c): return add(V(m, st, c, 0), mul(IMAG, V(m, st, c, 1)))
@model("num_complex::Complex::conj")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(conj, x)
def conj(x):
    r = ZERO
    for mono, co in terms_of(x).items():
        t = num(co)
        for a, e in mono:
            if a is IMAG: t = mul(t, powi(neg(IMAG), e))
            elif has_complex(a): t = mul(t, powi(raw("fn", "conj", a, sort="c") if not (a.op == "fn" and a.a[0] == "conj") else a.a[1], e))
            else: t = mul(t, powi(a, e))
        r = add(r, t)
    return r
@model("num_complex::Complex::norm", "num_complex::Complex::abs")
def _(m, st, c):
    def f(x):
        if not has_complex(x): return fabs(x)
        return raw("fn", "norm", x, sort="f")
    return mapleaves(f, V(m, st, c, 0))
@model("num_complex::Complex::norm_sqr")
def _(m, st, c):
    def f(x):
        if not has_complex(x): return mul(x, x)
        return powi(raw("fn", "norm", x, sort="f"), 2)
    return mapleaves(f, V(m, st, c, 0))
def cfn(n):
    def f(m, st, c):
        def g(x):
            r = exp1(x, "e") if n == "exp" else fn(n, x, sort="c" if has_complex(x) else "f")
            return r
        return mapleaves(g, V(m, st, c, 0))
    return f
for n in ("exp", "sin", "cos", "sqrt", "ln", "tan"): MODELS["num_complex::Complex::" + n] = cfn(n)
@model("num_complex::Complex::powf", "num_complex::Complex::powi", "num_complex::Complex::powu")
def _(m, st, c):
    x, y = V(m, st, c, 0), V(m, st, c, 1)
    if is_num(y) and y.a[0].denominator == 1 and abs(y.a[0]) <= 8: return mapleaves(lambda z: powi(z, int(y.a[0])), x)
    return mapleaves(lambda z: fn("pow", z, y, sort="c" if has_complex(z) else "f"), x)
@model("num_complex::Complex::scale")
def _(m, st, c): return mul(V(m, st, c, 0), V(m, st, c, 1))
@model("num_complex::Complex::unscale")
def _(m, st, c): return fdiv(V(m, st, c, 0), V(m, st, c, 1))
@model("num_complex::Complex::i")
def _(m, st, c): return IMAG
@model("num_complex::Complex::from_polar")
def _(m, st, c): return NotImplemented
@model("num_traits::identities::Zero::zero")
def _(m, st, c):
    t = c.fr.crate.ty(c.dt) if c.dt is not None else {"k": "?"}
    if t["k"] in ("float", "int", "uint") or t.get("p") == "num_complex::Complex": return ZERO
    return NotImplemented
@model("num_traits::identities::One::one")
def _(m, st, c): return ONE

# ------------------------------------------------------------------ indexing
RNG = "adt:core::ops::range::"
def range_of(v, n):
    """(a, b) of a range value over a sequence of length n"""
    if v.op != "agg": return None
    k = v.a[0]
    if k == RNG + "Range#0": return v.a[1], v.a[2]
    if k == RNG + "RangeFrom#0": return v.a[1], n
    if k == RNG + "RangeTo#0": return ZERO, v.a[1]
    if k == RNG + "RangeFull#0": return ZERO, n
    if k == RNG + "RangeInclusive#0": return v.a[1], add(v.a[2], ONE)
    if k == RNG + "RangeToInclusive#0": return ZERO, add(v.a[1], ONE)
    return None
def idx_projs(m, st, c, v, idx, check=True):
    if idx.op == "agg" and idx.a[0] in ("tuple", "array"):
        out = []; cur = v
        for k, i in enumerate(idx.a[1:]):
            i = m.val(st, i)
            n = length(cur) if k == 0 else ncols(v) if k == 1 else None
            if check and n is not None: require(m, st, c, ilt(i, n), "BoundsCheck", [n, i])
            out.append(("i", i, None))
            cur = sel(cur, i)
        return out
    r = range_of(idx, length(v))
    if r is not None:
        a, b = r
        if check: require(m, st, c, band(ile(a, b), ile(b, length(v))), "slice", [length(v), a, b])
        return [("slc", a, b)]
    if check: require(m, st, c, ilt(idx, length(v)), "BoundsCheck", [length(v), idx])
    return [("i", idx, None)]
@model("core::ops::index::Index::index")
def _(m, st, c):
    v, idx = V(m, st, c, 0), V(m, st, c, 1)
    t = ty(m, c, 0)
    if t.get("p") not in ("alloc::vec::Vec", "ndarray::ArrayBase", "csv::string_record::StringRecord") and t["k"] not in ("slice", "array", "param", "alias"): return NotImplemented
    for p in idx_projs(m, st, c, v, idx): v = m.get(v, p)
    return v
@model("core::ops::index::IndexMut::index_mut")
def _(m, st, c):
    v, idx = V(m, st, c, 0), V(m, st, c, 1)
    return mref_ext(m, st, c.args[0], *idx_projs(m, st, c, v, idx))
def isidx(idx): return range_of(idx, ZERO) is None
@model("[T]::get", "ndarray::ArrayBase::get", "alloc::vec::Vec::get")
def _(m, st, c):
    v, idx = V(m, st, c, 0), V(m, st, c, 1)
    r = range_of(idx, length(v))
    if r: return ite(band(ile(r[0], r[1]), ile(r[1], length(v))), Some(slc(v, *r)), NONE)
    if idx.op == "agg": return NotImplemented
    return ite(ilt(idx, length(v)), Some(sel(v, idx)), NONE)
@model("[T]::get_mut", "alloc::vec::Vec::get_mut")
def _(m, st, c):
    v, idx = V(m, st, c, 0), V(m, st, c, 1)
    r = range_of(idx, length(v))
    if r: return ite(band(ile(r[0], r[1]), ile(r[1], length(v))), Some(mref_ext(m, st, c.args[0], ("slc",) + r)), NONE)
    if idx.op == "agg": return NotImplemented
    return ite(ilt(idx, length(v)), Some(mref_ext(m, st, c.args[0], ("i", idx, None))), NONE)
@model("[T]::first", "[T]::last", "ndarray::ArrayBase::first", "ndarray::ArrayBase::last")
def _(m, st, c):
    v = V(m, st, c, 0); n = length(v)
    i = ZERO if c.p.endswith("first") else sub(n, ONE)
    return ite(ge0i(sub(n, ONE)), Some(sel(v, i)), NONE)
@model("[T]::split_at")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ile(i, length(v)), "slice", [length(v), i])
    return tup(slc(v, ZERO, i), slc(v, i, length(v)))
@model("[T]::split_at_mut")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ile(i, length(v)), "slice", [length(v), i])
    return tup(mref_ext(m, st, c.args[0], ("slc", ZERO, i)), mref_ext(m, st, c.args[0], ("slc", i, length(v))))
@model("[T]::split_first")
def _(m, st, c):
    v = V(m, st, c, 0); n = length(v)
    return ite(ge0i(sub(n, ONE)), Some(tup(sel(v, ZERO), slc(v, ONE, n))), NONE)
@model("[T]::len", "alloc::vec::Vec::len", "core::iter::traits::exact_size::ExactSizeIterator::len_", "str::len", "alloc::string::String::len", "core::slice::len")
def _(m, st, c): return length(V(m, st, c, 0))
@model("[T]::is_empty", "alloc::vec::Vec::is_empty", "str::is_empty", "alloc::string::String::is_empty", "ndarray::ArrayBase::is_empty")
def _(m, st, c): return ieq(length(V(m, st, c, 0)), ZERO)
@model("ndarray::ArrayBase::len")
def _(m, st, c):
    v = V(m, st, c, 0)
    return length(v) if rank(m, c, 0, v) == 1 else mul(length(v), ncols(v))
@model("ndarray::ArrayBase::nrows")
def _(m, st, c): return length(V(m, st, c, 0))
@model("ndarray::ArrayBase::ncols")
def _(m, st, c): return ncols(V(m, st, c, 0))
@model("ndarray::ArrayBase::len_of")
def _(m, st, c):
    k = axis(m, st, c, 1); v = V(m, st, c, 0)
    return length(v) if k == 0 else ncols(v)
@model("ndarray::ArrayBase::dim")
def _(m, st, c):
    v = V(m, st, c, 0)
    return length(v) if rank(m, c, 0, v) == 1 else tup(length(v), ncols(v))
@model("ndarray::ArrayBase::raw_dim")
def _(m, st, c):
    v = V(m, st, c, 0)
    return length(v) if rank(m, c, 0, v) == 1 else tup(length(v), ncols(v))
@model("ndarray::ArrayBase::shape")
def _(m, st, c):
    v = V(m, st, c, 0)
    return arr(length(v)) if rank(m, c, 0, v) == 1 else arr(length(v), ncols(v))
def axis(m, st, c, i):
    v = V(m, st, c, i)
    x = fld(v, 0, 0)
    return int(x.a[0]) if is_num(x) else None

# ------------------------------------------------------------------ vectors and slices
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::vec::Vec::new_in")
def _(m, st, c): return NIL
@model("alloc::vec::from_elem")
def _(m, st, c):
    return rep(V(m, st, c, 1), V(m, st, c, 0))
def W(m, st, c, i, x):
    if not ismref(c.args[i]): 
        m.unknown["write through " + c.p] = m.unknown.get("write through " + c.p, 0) + 1
        return UNIT
    m.wrref(st, c.args[i], x)
    return UNIT
@model("alloc::vec::Vec::push")
def _(m, st, c): return W(m, st, c, 0, cat(V(m, st, c, 0), arr(c.args[1])))
@model("alloc::vec::Vec::clear")
def _(m, st, c): return W(m, st, c, 0, NIL)
@model("alloc::vec::Vec::reserve", "alloc::vec::Vec::shrink_to_fit", "alloc::vec::Vec::reserve_exact")
def _(m, st, c): return UNIT
@model("alloc::vec::Vec::append")
def _(m, st, c):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    W(m, st, c, 0, cat(a, b)); W(m, st, c, 1, NIL)
    return UNIT
@model("alloc::vec::Vec::extend_from_slice")
def _(m, st, c): return W(m, st, c, 0, cat(V(m, st, c, 0), V(m, st, c, 1)))
@model("alloc::vec::Vec::insert")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    return W(m, st, c, 0, cat(slc(v, ZERO, i), arr(c.args[2]), slc(v, i, length(v))))
@model("alloc::vec::Vec::truncate")
def _(m, st, c):
    v, n = V(m, st, c, 0), V(m, st, c, 1)
    return W(m, st, c, 0, ite(ilt(n, length(v)), slc(v, ZERO, n), v))
@model("alloc::vec::Vec::pop")
def _(m, st, c):
    v = V(m, st, c, 0); n = length(v)
    k = ge0i(sub(n, ONE))
    if v.op == "cat" and v.a[-1].op == "agg" and v.a[-1].a[0] == "array" and len(v.a[-1].a) >= 2:
        last = v.a[-1]
        W(m, st, c, 0, cat(*(list(v.a[:-1]) + [arr(*last.a[1:-1])])))
        return Some(last.a[-1])
    r = ite(k, Some(sel(v, sub(n, ONE))), NONE)
    W(m, st, c, 0, ite(k, slc(v, ZERO, sub(n, ONE)), v))
    return r
@model("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _(m, st, c):
    if c.p.endswith("swap_remove"): return NotImplemented
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ilt(i, length(v)), "BoundsCheck", [length(v), i])
    W(m, st, c, 0, cat(slc(v, ZERO, i), slc(v, add(i, ONE), length(v))))
    return sel(v, i)
@model("alloc::vec::Vec::resize")
def _(m, st, c):
    v, n, x = V(m, st, c, 0), V(m, st, c, 1), V(m, st, c, 2)
    l = length(v)
    return W(m, st, c, 0, resize(v, n, x, st.pc))
def resize(v, n, x, pc=TRUE):
    if v.op == "ite" and TT._size(v) <= 4: return mapleaves(lambda y: resize(y, n, x), v)
    l = length(v)
    return ite(ge0i(sub(n, l)), cat(v, rep(sub(n, l), x)), slc(v, ZERO, n))
@model("[T]::fill")
def _(m, st, c):
    v, x = V(m, st, c, 0), V(m, st, c, 1)
    return W(m, st, c, 0, rep(length(v), x))
@model("ndarray::ArrayBase::fill")
def _(m, st, c):
    v, x = V(m, st, c, 0), V(m, st, c, 1)
    return W(m, st, c, 0, nd1(lambda y: x, v, rank(m, c, 0, v)))
@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def _(m, st, c):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ieq(length(a), length(b)), "copy_from_slice", [length(a), length(b)])
    return W(m, st, c, 0, slc_keep(b, length(a)))
def slc_keep(b, n):
    return b if length(b) is n else mktab(n, lambda i: sel(b, i))
@model("ndarray::ArrayBase::assign")
def _(m, st, c):
    a, b = V(m, st, c, 0), V(m, st, c, 1)
    ra, rb = rank(m, c, 0, a), rank(m, c, 1, b)
    if ra != rb: return NotImplemented
    return W(m, st, c, 0, nd2(lambda x, y: y, a, b, ra, rb))
@model("[T]::swap")
def _(m, st, c):
    v, i, j = V(m, st, c, 0), V(m, st, c, 1), V(m, st, c, 2)
    return W(m, st, c, 0, upd(upd(v, i, sel(v, j)), j, sel(v, i)))
def reversed_(v):
    if v.op == "ite": return mapleaves(reversed_, v)
    if v.op == "sorted": return raw("sorted", v.a[0], "desc" if v.a[1] == "asc" else "asc")
    n = length(v)
    return mktab(n, lambda i: sel(v, sub(sub(n, ONE), i)))
@model("[T]::reverse")
def _(m, st, c): return W(m, st, c, 0, reversed_(V(m, st, c, 0)))
def sorted_(v, d):
    if v.op == "ite": return mapleaves(lambda x: sorted_(x, d), v)
    if v.op == "sorted": return raw("sorted", v.a[0], d)
    r = raw("sorted", v, d)
    return r
@model("[T]::sort_by", "[T]::sort_unstable_by", "alloc::slice::sort_by")
def _(m, st, c):
    v = V(m, st, c, 0)
    a, b = sym("#cmp_a", "f"), sym("#cmp_b", "f")
    s = st.copy(); no = len(m.obl), len(m.facts), len(m.events)
    r = m.call_value(s, c.args[1], [a, b], c)
    del m.obl[no[0]:]; del m.facts[no[1]:]; del m.events[no[2]:]
    if r is m.ordering(a, b, True): d = "asc"
    elif r is m.ordering(b, a, True): d = "desc"
    else: d = "other"
    return W(m, st, c, 0, sorted_(v, d))
@model("[T]::sort", "[T]::sort_unstable")
def _(m, st, c): return W(m, st, c, 0, sorted_(V(m, st, c, 0), "asc"))
@model("[T]::concat")
def _(m, st, c):
    v = V(m, st, c, 0)
    if v.op == "agg" and v.a[0] == "array": return cat(*[m.val(st, x) for x in v.a[1:]])
    return NotImplemented
@model("[T]::contains")
def _(m, st, c):
    v, x = V(m, st, c, 0), V(m, st, c, 1)
    K = freshK()
    return some(length(v), lam(K, ieq(sel(v, K), x) if integral(x) else feq0(sub(sel(v, K), x))))
@model("[T]::repeat")
def _(m, st, c): return NotImplemented
@model("alloc::vec::Vec::split_off")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ile(i, length(v)), "slice", [length(v), i])
    W(m, st, c, 0, slc(v, ZERO, i))
    return slc(v, i, length(v))
@model("alloc::vec::Vec::drain")
def _(m, st, c):
    v, r = V(m, st, c, 0), V(m, st, c, 1)
    ab = range_of(r, length(v))
    if ab is None: return NotImplemented
    require(m, st, c, band(ile(ab[0], ab[1]), ile(ab[1], length(v))), "slice", [length(v), ab[0], ab[1]])
    W(m, st, c, 0, cat(slc(v, ZERO, ab[0]), slc(v, ab[1], length(v))))
    return raw("agg", "iter:seq", ZERO, slc(v, *ab))
@model("core::array::from_fn")
def _(m, st, c):
    d = c.fr.crate.ty(c.dt)
    n = None
    for g in c.ga:
        if isinstance(g, dict) and "c" in g: n = m.const(c.fr, g["c"])
    if n is None: return NotImplemented
    return seq_of(m, st, c, raw("agg", "iter:map", raw("agg", "iter:range", ZERO, n), c.args[0]))
@model("core::array::map", "[T;_]::map")
def _(m, st, c):
    v = c.args[0]
    if v.op == "agg" and v.a[0] == "array":
        out = []
        for x in v.a[1:]:
            y = m.call_value(st, c.args[1], [x], c)
            if y is None: return None
            out.append(y)
        return arr(*out)
    return seq_of(m, st, c, it("map", it("seq", ZERO, V(m, st, c, 0)), c.args[1]))

# ------------------------------------------------------------------ ndarray
def shape_of(m, st, v):
    v = m.val(st, v)
    if v.op == "agg" and v.a[0] in ("fshape", "strided"): v = v.a[1]
    if v.op == "agg" and v.a[0] in ("tuple", "array"): return [m.val(st, x) for x in v.a[1:]]
    return [v]
def filled(sh, v):
    for n in reversed(sh): v = rep(n, v)
    return v
@model("ndarray::shape_builder::ShapeBuilder::f")
def _(m, st, c): return raw("agg", "fshape", V(m, st, c, 0))
@model("ndarray::shape_builder::ShapeBuilder::strides")
def _(m, st, c): return raw("agg", "strided", V(m, st, c, 0), V(m, st, c, 1))
@model("ndarray::shape_builder::ShapeBuilder::into_shape_with_order", "ndarray::dimension::conversion::IntoDimension::into_dimension")
def _(m, st, c): return V(m, st, c, 0)
@model("ndarray::ArrayBase::zeros", "ndarray::ArrayBase::default")
def _(m, st, c): return filled(shape_of(m, st, c.args[0]), ZERO)
@model("ndarray::ArrayBase::ones")
def _(m, st, c): return filled(shape_of(m, st, c.args[0]), ONE)
@model("ndarray::ArrayBase::from_elem")
def _(m, st, c): return filled(shape_of(m, st, c.args[0]), V(m, st, c, 1))
@model("ndarray::ArrayBase::from_shape_fn")
def _(m, st, c):
    sh = shape_of(m, st, c.args[0])
    if len(sh) == 1:
        return seq_of(m, st, c, raw("agg", "iter:map", raw("agg", "iter:range", ZERO, sh[0]), c.args[1]))
    if len(sh) == 2:
        def row(s, i): return consume_tab(m, s, c, raw("agg", "iter:range", ZERO, sh[1]), lambda s2, j: m.call_value(s2, c.args[1], [tup(i, j)], c), "|j")
        return consume_tab(m, st, c, raw("agg", "iter:range", ZERO, sh[0]), row, "|i")
    return NotImplemented
@model("ndarray::ArrayBase::from_iter", "ndarray::ArrayBase::from_iter_")
def _(m, st, c): return seq_of(m, st, c, to_iter(m, st, c, 0))
@model("ndarray::ArrayBase::from_shape_vec")
def _(m, st, c):
    s = V(m, st, c, 0); v = V(m, st, c, 1); sh = shape_of(m, st, s)
    if len(sh) == 1: return Ok(v)
    if len(sh) != 2: return NotImplemented
    if s.op == "agg" and s.a[0] == "fshape": st_ = (ONE, sh[0])
    elif s.op == "agg" and s.a[0] == "strided":
        ss = shape_of(m, st, s.a[2]); st_ = (ss[0], ss[1])
    else: st_ = (sh[1], ONE)
    return Ok(mktab(sh[0], lambda i: mktab(sh[1], lambda j: sel(v, add(mul(i, st_[0]), mul(j, st_[1]))))))
@model("ndarray::ArrayBase::as_slice", "ndarray::ArrayBase::as_slice_memory_order", "ndarray::ArrayBase::to_slice")
def _(m, st, c): return Some(V(m, st, c, 0))
@model("ndarray::ArrayBase::as_slice_mut", "ndarray::ArrayBase::as_slice_memory_order_mut")
def _(m, st, c): return Some(c.args[0])
@model("ndarray::ArrayBase::row")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ilt(i, length(v)), "BoundsCheck", [length(v), i])
    return sel(v, i)
@model("ndarray::ArrayBase::row_mut")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ilt(i, length(v)), "BoundsCheck", [length(v), i])
    return mref_ext(m, st, c.args[0], ("i", i, None))
@model("ndarray::ArrayBase::column")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ilt(i, ncols(v)), "BoundsCheck", [ncols(v), i])
    return m.get(v, ("col", i))
@model("ndarray::ArrayBase::column_mut")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    require(m, st, c, ilt(i, ncols(v)), "BoundsCheck", [ncols(v), i])
    return mref_ext(m, st, c.args[0], ("col", i))
@model("ndarray::ArrayBase::index_axis", "ndarray::ArrayBase::index_axis_move", "ndarray::ArrayBase::select_")
def _(m, st, c):
    v, k, i = V(m, st, c, 0), axis(m, st, c, 1), V(m, st, c, 2)
    if rank(m, c, 0, v) == 1: return sel(v, i)
    require(m, st, c, ilt(i, length(v) if k == 0 else ncols(v)), "BoundsCheck", [length(v) if k == 0 else ncols(v), i])
    return sel(v, i) if k == 0 else m.get(v, ("col", i))
@model("ndarray::ArrayBase::index_axis_mut")
def _(m, st, c):
    v, k, i = V(m, st, c, 0), axis(m, st, c, 1), V(m, st, c, 2)
    require(m, st, c, ilt(i, length(v) if k == 0 else ncols(v)), "BoundsCheck", [length(v) if k == 0 else ncols(v), i])
    return mref_ext(m, st, c.args[0], ("i", i, None) if k == 0 else ("col", i))
@model("ndarray::slice::SliceInfo::new_unchecked", "ndarray::slice::SliceInfo::new_unchecked_")
def _(m, st, c): return V(m, st, c, 0)
@model("ndarray::slice::SliceNextDim::next_in_dim", "ndarray::slice::SliceNextDim::next_out_dim")
def _(m, st, c): return UNIT
@model("ndarray::slice::Slice::step_by", "ndarray::Slice::step_by")
def _(m, st, c):
    x, k = V(m, st, c, 0), V(m, st, c, 1)
    if x.op == "agg" and x.a[0] == "nslice": return raw("agg", "nslice", x.a[1], mul(x.a[2], k))
    return raw("agg", "nslice", x, k)
@model("ndarray::slice::Slice::from", "<ndarray::Slice as core::convert::From>::from", "<ndarray::slice::Slice as core::convert::From>::from")
def _(m, st, c): return V(m, st, c, 0)
def stepped(x, n):
    """(range, count, i -> index) of a strided slice of n items"""
    if not (x.op == "agg" and x.a[0] == "nslice"): return None
    r = range_of(x.a[1], n); k = x.a[2]
    if r is None or not is_num(k) or k is ZERO: return None
    w = abs(int(k.a[0]))
    cnt = idiv(add(sub(r[1], r[0]), num(w - 1)), num(w)) if w > 1 else sub(r[1], r[0])
    if k.a[0] > 0: return r, cnt, lambda i: add(r[0], mul(i, k))
    return r, cnt, lambda i: sub(sub(r[1], ONE), mul(i, num(w)))
@model("ndarray::ArrayBase::slice", "ndarray::ArrayBase::slice_move", "ndarray::ArrayBase::slice_mut")
def _(m, st, c):
    v, s = V(m, st, c, 0), V(m, st, c, 1)
    if s.op == "agg" and s.a[0] == "array":
        el = [m.val(st, x) for x in s.a[1:]]
        if any(x.op == "agg" and x.a[0] == "nslice" for x in el) and len(el) <= 2:
            if c.p.endswith("_mut"): return NotImplemented
            ix = []
            for x, n in zip(el, (length(v), ncols(v) if len(el) == 2 else None)):
                q = stepped(x, n)
                if q is None:
                    r = range_of(x, n)
                    if r is not None: q = (r, sub(r[1], r[0]), lambda i, r=r: add(r[0], i))
                    elif isnumeric(x) and integral(x): q = (None, None, x)
                    else: return NotImplemented
                if q[0] is not None: require(m, st, c, band(ile(q[0][0], q[0][1]), ile(q[0][1], n)), "slice", [n, q[0][0], q[0][1]])
                else: require(m, st, c, ilt(x, n), "BoundsCheck", [n, x])
                ix.append(q)
            if len(ix) == 1: return mktab(ix[0][1], lambda i: sel(v, ix[0][2](i)))
            (_, n0, f0), (_, n1, f1) = ix
            if n0 is None: return mktab(n1, lambda j: sel(sel(v, f0), f1(j)))
            if n1 is None: return mktab(n0, lambda i: sel(sel(v, f0(i)), f1))
            return mktab(n0, lambda i: mktab(n1, lambda j: sel(sel(v, f0(i)), f1(j))))
    if not (s.op == "agg" and s.a[0] == "array"): return NotImplemented
    el = [m.val(st, x) for x in s.a[1:]]
    mut = c.p.endswith("_mut")
    def rng(x, n):
        r = range_of(x, n)
        if r is not None:
            require(m, st, c, band(ile(r[0], r[1]), ile(r[1], n)), "slice", [n, r[0], r[1]])
        elif isnumeric(x) and integral(x):
            require(m, st, c, ilt(x, n), "BoundsCheck", [n, x])
        return r
    if len(el) == 1:
        r = rng(el[0], length(v))
        if mut: return mref_ext(m, st, c.args[0], ("slc",) + r) if r else mref_ext(m, st, c.args[0], ("i", el[0], None))
        return slc(v, *r) if r else sel(v, el[0])
    if len(el) == 2:
        n, k = length(v), ncols(v)
        r0, r1 = rng(el[0], n), rng(el[1], k)
        if mut:
            full0 = r0 is not None and r0[0] is ZERO and r0[1] is n
            full1 = r1 is not None and r1[0] is ZERO and r1[1] is k
            if r0 is not None and full1: return mref_ext(m, st, c.args[0], *([] if full0 else [("slc",) + r0]))
            if r0 is None and r1 is not None: return mref_ext(m, st, c.args[0], ("i", el[0], None), *([] if full1 else [("slc",) + r1]))
            if full0 and r1 is None: return mref_ext(m, st, c.args[0], ("col", el[1]))
            if full0 and r1 is not None: return mref_ext(m, st, c.args[0], ("cslc",) + r1)
            if r0 is not None and r1 is not None: return mref_ext(m, st, c.args[0], ("slc",) + r0, ("cslc",) + r1)
            if r0 is not None and r1 is None: return mref_ext(m, st, c.args[0], ("slc",) + r0, ("col", el[1]))
            return NotImplemented
        if r0 is None and r1 is None: return sel(sel(v, el[0]), el[1])
        if r0 is None: return slc(sel(v, el[0]), *r1)
        if r1 is None: return mktab(sub(r0[1], r0[0]), lambda i: sel(sel(v, add(r0[0], i)), el[1]))
        if r0[0] is ZERO and r0[1] is n and r1[0] is ZERO and r1[1] is k: return v
        return mktab(sub(r0[1], r0[0]), lambda i: mktab(sub(r1[1], r1[0]), lambda j: sel(sel(v, add(r0[0], i)), add(r1[0], j))))
    return NotImplemented
@model("ndarray::ArrayBase::slice_axis")
def _(m, st, c):
    v, k, x = V(m, st, c, 0), axis(m, st, c, 1), V(m, st, c, 2)
    n = length(v) if k == 0 else ncols(v)
    q = stepped(x, n)
    if q is None:
        r = range_of(x, n)
        if r is None: return NotImplemented
        q = (r, sub(r[1], r[0]), lambda i: add(r[0], i))
    require(m, st, c, band(ile(q[0][0], q[0][1]), ile(q[0][1], n)), "slice", [n, q[0][0], q[0][1]])
    if k == 0: return mktab(q[1], lambda i: sel(v, q[2](i)))
    return mktab(length(v), lambda i: mktab(q[1], lambda j: sel(sel(v, i), q[2](j))))
@model("ndarray::ArrayBase::invert_axis")
def _(m, st, c):
    v, k = V(m, st, c, 0), axis(m, st, c, 1)
    if k == 0: return W(m, st, c, 0, reversed_(v))
    n = length(v)
    return W(m, st, c, 0, mktab(n, lambda i: reversed_(sel(v, i))))
@model("ndarray::ArrayBase::t", "ndarray::ArrayBase::reversed_axes")
def _(m, st, c):
    v = V(m, st, c, 0)
    if rank(m, c, 0, v) == 1: return v
    return transpose(v)
def transpose(v):
    n, k = length(v), ncols(v)
    return mktab(k, lambda j: mktab(n, lambda i: sel(sel(v, i), j)))
@model("ndarray::stacking::concatenate")
def _(m, st, c):
    k = axis(m, st, c, 0); vs = V(m, st, c, 1)
    if not (vs.op == "agg" and vs.a[0] == "array"): return NotImplemented
    xs = [m.val(st, x) for x in vs.a[1:]]
    nd = rank1(m, c, 1, xs[0])
    if k == 0: return Ok(cat(*xs))
    if k == 1: return Ok(mktab(length(xs[0]), lambda i: cat(*[sel(x, i) for x in xs])))
    return NotImplemented
def rank1(m, c, i, v): return guess_rank(v)
@model("ndarray::ArrayBase::append")
def _(m, st, c):
    k = axis(m, st, c, 1); a, b = V(m, st, c, 0), V(m, st, c, 2)
    if k == 0: W(m, st, c, 0, cat(a, b)); return Ok(UNIT)
    if k == 1: W(m, st, c, 0, mktab(length(a), lambda i: cat(sel(a, i), sel(b, i)))); return Ok(UNIT)
    return NotImplemented
def nsum(v, nd):
    if nd == 1: return mksum(length(v), lambda i: sel(v, i, "f"))
    return mksum(length(v), lambda i: mksum(ncols(v), lambda j: sel(sel(v, i), j, "f")))
@model("ndarray::ArrayBase::sum")
def _(m, st, c):
    v = V(m, st, c, 0)
    return mapleaves(lambda x: nsum(x, rank(m, c, 0, x)), v)
@model("ndarray::ArrayBase::dot", "ndarray::linalg::impl_linalg::Dot::dot", "ndarray::linalg::Dot::dot")
def _(m, st, c):
    x, y = V(m, st, c, 0), V(m, st, c, 1)
    if rank(m, c, 0, x) != 1 or rank(m, c, 1, y) != 1: return NotImplemented
    m.need(st, c, beq(length(x), length(y))) if hasattr(m, "need") else None
    return mksum(length(x), lambda i: mul(sel(x, i, "f"), sel(y, i, "f")))
@model("ndarray::ArrayBase::mean")
def _(m, st, c):
    v = V(m, st, c, 0); nd = rank(m, c, 0, v)
    n = length(v) if nd == 1 else mul(length(v), ncols(v))
    m.divisor(st, c, n)
    return ite(ge0i(sub(n, ONE)), Some(fdiv(mapleaves(lambda x: nsum(x, nd), v), n)), NONE)
def axsum(v, k):
    n, w = length(v), ncols(v)
    if k == 1: return mktab(n, lambda i: mksum(w, lambda j: sel(sel(v, i), j, "f")))
    return mktab(w, lambda j: mksum(n, lambda i: sel(sel(v, i), j, "f")))
@model("ndarray::ArrayBase::sum_axis")
def _(m, st, c):
    v, k = V(m, st, c, 0), axis(m, st, c, 1)
    if rank(m, c, 0, v) != 2: return NotImplemented
    return mapleaves(lambda x: axsum(x, k), v)
@model("ndarray::ArrayBase::mean_axis")
def _(m, st, c):
    v, k = V(m, st, c, 0), axis(m, st, c, 1)
    if rank(m, c, 0, v) != 2: return NotImplemented
    def f(v):
        n = ncols(v) if k == 1 else length(v)
        return ite(ge0i(sub(n, ONE)), Some(nd1(lambda x: fdiv(x, n), axsum(v, k), 1)), NONE)
    return mapleaves(f, v)
@model("ndarray::ArrayBase::var_axis", "ndarray::ArrayBase::std_axis")
def _(m, st, c):
    v, k, dd = V(m, st, c, 0), axis(m, st, c, 1), V(m, st, c, 2)
    def f(v):
        n = ncols(v) if k == 1 else length(v)
        r = length(v) if k == 1 else ncols(v)
        g = (lambda i, j: sel(sel(v, i), j, "f")) if k == 1 else (lambda i, j: sel(sel(v, j), i, "f"))
        def one(i):
            mu = fdiv(mksum(n, lambda j: g(i, j)), n)
            x = fdiv(mksum(n, lambda j: powi(sub(g(i, j), mu), 2)), sub(n, dd))
            return fsqrt(x) if c.p.endswith("std_axis") else x
        return mktab(r, one)
    return mapleaves(f, v)
@model("ndarray::ArrayBase::map_inplace", "ndarray::ArrayBase::par_map_inplace")
def _(m, st, c): return elementwise_mut(m, st, c, lambda s, r: m.call_value(s, c.args[1], [r], c))
@model("ndarray::ArrayBase::mapv_inplace", "ndarray::ArrayBase::par_mapv_inplace")
def _(m, st, c):
    def f(s, r):
        v = m.call_value(s, c.args[1], [m.val(s, r)], c)
        if v is None: return None
        m.wrref(s, r, v); return UNIT
    return elementwise_mut(m, st, c, f)
def elementwise_mut(m, st, c, f, r=None, i=0):
    r = c.args[i] if r is None else r
    v = m.val(st, r)
    if not ismref(r): return NotImplemented
    nd = rank(m, c, i, v)
    if nd == 1:
        return consume(m, st, c, raw("agg", "iter:mut", ZERO, r), f)
    def row(s, x): return consume(m, s, c, raw("agg", "iter:mut", ZERO, x), f, tag="|j")
    return consume(m, st, c, raw("agg", "iter:mut", ZERO, r), row, tag="|i")
@model("ndarray::ArrayBase::map", "ndarray::ArrayBase::mapv", "ndarray::ArrayBase::mapv_into", "ndarray::ArrayBase::map_mut_")
def _(m, st, c):
    v = V(m, st, c, 0); nd = rank(m, c, 0, v)
    f = lambda s, x: m.call_value(s, c.args[1], [x], c)
    return map_nd(m, st, c, v, nd, f)
def map_nd(m, st, c, v, nd, f):
    if nd == 1: return consume_tab(m, st, c, raw("agg", "iter:seq", ZERO, v), f)
    return consume_tab(m, st, c, raw("agg", "iter:seq", ZERO, v),
                       lambda s, r: consume_tab(m, s, c, raw("agg", "iter:seq", ZERO, r), f, "|j"), "|i")
@model("ndarray::ArrayBase::map_axis")
def _(m, st, c):
    v, k = V(m, st, c, 0), axis(m, st, c, 1)
    seq = v if k == 1 else transpose(v)
    return consume_tab(m, st, c, raw("agg", "iter:seq", ZERO, seq), lambda s, r: m.call_value(s, c.args[2], [r], c))
@model("ndarray::ArrayBase::zip_mut_with")
def _(m, st, c):
    b = V(m, st, c, 1); v = V(m, st, c, 0); nd = rank(m, c, 0, v)
    if not ismref(c.args[0]): return NotImplemented
    f = lambda s, t: m.call_value(s, c.args[2], [t.a[1], t.a[2]], c)
    z = lambda r, q: raw("agg", "iter:zip", raw("agg", "iter:mut", ZERO, r), raw("agg", "iter:seq", ZERO, q))
    if nd == 1: return consume(m, st, c, z(c.args[0], b), f)
    return consume(m, st, c, z(c.args[0], b), lambda s, t: consume(m, s, c, z(t.a[1], t.a[2]), f, tag="|j"), tag="|i")
@model("ndarray::zip::Zip::from")
def _(m, st, c): return raw("agg", "ndzip", nditem(m, st, c, 0))
@model("ndarray::zip::Zip::and")
def _(m, st, c):
    z = V(m, st, c, 0)
    return raw("agg", "ndzip", *z.a[1:], nditem(m, st, c, 1))
@model("ndarray::zip::Zip::indexed")
def _(m, st, c):
    x = nditem(m, st, c, 0)
    return raw("agg", "ndzip", raw("agg", "ndidx"), x)
def nditem(m, st, c, i):
    a = c.args[i]; t = ty(m, c, i)
    from .machine import nd_of
    return raw("agg", "nditem", a, num(nd_of(t) or guess_rank(m.val(st, a))))
@model("ndarray::zip::Zip::for_each", "ndarray::zip::Zip::par_for_each", "ndarray::zip::Zip::map_collect", "ndarray::zip::Zip::apply")
def _(m, st, c):
    z = V(m, st, c, 0); items = list(z.a[1:])
    idx = items[0].a[0] == "ndidx"
    its = [x for x in items if x.a[0] == "nditem"]
    nd = int(its[0].a[2].a[0])
    coll = c.p.endswith("map_collect")
    def mk(xs):
        it = None
        for r in xs:
            one = raw("agg", "iter:mut", ZERO, r) if ismref(r) else raw("agg", "iter:seq", ZERO, r)
            it = one if it is None else raw("agg", "iter:zip", it, one)
        return it
    def un(t, n):
        out = []
        for _ in range(n - 1): out.append(t.a[2]); t = t.a[1]
        return [t] + out[::-1]
    n = len(its)
    xs = [x.a[1] for x in its]
    en = lambda it: raw("agg", "iter:enum", ZERO, it)
    run = consume_tab if coll else (lambda m, s, c, it, f, tag="|it": consume(m, s, c, it, f, tag=tag))
    if nd == 1:
        return run(m, st, c, en(mk(xs)), lambda s, t: m.call_value(s, c.args[1], ([t.a[1]] if idx else []) + un(t.a[2], n), c))
    def outer(s, t):
        i = t.a[1]
        return run(m, s, c, en(mk(un(t.a[2], n))), lambda s2, u: m.call_value(s2, c.args[1], ([tup(i, u.a[1])] if idx else []) + un(u.a[2], n), c), "|j")
    return run(m, st, c, en(mk(xs)), outer, "|i")
def extremum(m, v, nd, which):
    def one(v):
        if nd == 1: return mkext(which, length(v), lambda i: sel(v, i, "f"))
        return mkext(which, length(v), lambda i: mkext(which, ncols(v), lambda j: sel(sel(v, i), j, "f")))
    return mapleaves(one, v)
@model("ndarray_stats::quantile::QuantileExt::max", "ndarray_stats::quantile::QuantileExt::min",
       "ndarray_stats::quantile::QuantileExt::max_skipnan", "ndarray_stats::quantile::QuantileExt::min_skipnan")
def _(m, st, c):
    v = V(m, st, c, 0); nd = rank(m, c, 0, v)
    which = "amax" if "::max" in c.p else "amin"
    r = extremum(m, v, nd, which)
    if "skipnan" in c.p: return r
    n = length(v) if nd == 1 else mul(length(v), ncols(v))
    return ite(ge0i(sub(n, ONE)), Ok(r), Err(raw("app", "MinMaxError")))

# ------------------------------------------------------------------ iterators
def it(kind, *a): return raw("agg", "iter:" + kind, *a)
def isiter(v): return v.op == "agg" and v.a[0].startswith("iter:")

def to_iter(m, st, c, i, v=None, t=None):
    x = c.args[i] if v is None else v
    w = x
    if w.op == "mref":
        inner = m.val(st, w)
        if isiter(inner): return it("ref", w)
        r = range_iter(inner)
        if r is not None: return it("ref", w)
        tt = t if t is not None else (c.fr.crate.ty(c.argt[i]) if i < len(c.argt) and c.argt[i] is not None else {})
        if inner.op == "agg" and inner.a[0].startswith("adt:core::option::Option"): return NotImplemented
        r = final_ref(m, st, w)
        if isarr(strip_ref(c, tt)) and ismref(r) and rank_ty(strip_ref(c, tt), inner) == 2: return it("flatmut", ZERO, r)
        return it("mut", ZERO, r)
    if w.op == "ite" and has_mref(w): return NotImplemented
    if isiter(w): return w
    r = range_iter(w)
    if r is not None: return r
    if w.op == "agg" and w.a[0].startswith("adt:core::option::Option"): 
        return it("seq", ZERO, arr(*w.a[1:]))
    tt = t if t is not None else ty(m, c, i)
    if isarr(tt) and rank(m, c, i, w) == 2: return it("seq", ZERO, flatten(w))
    if tt.get("p") == "core::option::Option": return NotImplemented
    return it("seq", ZERO, w)
def open_len(m, st, i):
    """the number of items where there is any"""
    k = i.a[0][5:] if i.op == "agg" and i.a[0].startswith("iter:") else ""
    a = i.a[1:]
    if k == "range": return sub(a[1], a[0])
    if k == "map": return open_len(m, st, a[0])
    if k in ("enum", "enum2") and a[0] is ZERO: return open_len(m, st, a[1])
    return ilen(m, st, i)
def range_iter(v):
    if v.op != "agg": return None
    k = v.a[0]
    if k == RNG + "Range#0": return it("range", v.a[1], v.a[2])
    if k == RNG + "RangeFrom#0": return it("from", v.a[1])
    if k == RNG + "RangeInclusive#0": return it("range", v.a[1], add(v.a[2], ONE))
    return None
@model("core::ops::range::RangeInclusive::new")
def _(m, st, c): return raw("agg", RNG + "RangeInclusive#0", V(m, st, c, 0), V(m, st, c, 1))
@model("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def _(m, st, c):
    v, x = V(m, st, c, 0), V(m, st, c, 1)
    if isnumeric(x) and integral(x): 
        ab = range_of(v, ZERO)
        return band(ile(ab[0], x), ilt(x, ab[1])) if ab else NotImplemented
    if v.op == "agg": return band(fle(v.a[1], x), (fle if "Inclusive" in c.p else flt)(x, v.a[2]))
    return NotImplemented
@model("core::ops::range::Range::is_empty", "core::iter::traits::exact_size::ExactSizeIterator::is_empty")
def _(m, st, c): 
    i = as_iter(m, st, c, 0)
    return bnot(has(m, st, i))
def flatten(v): 
    if v.op == "ite": return mapleaves(flatten, v)
    return flat(v)

def has(m, st, i):
    k = i.a[0][5:]; a = i.a[1:]
    if k == "mapop": return has(m, st, a[0])
    if k == "range": return ge0i(sub(sub(a[1], a[0]), ONE))
    if k == "from": return TRUE
    if k == "seq": return ge0i(sub(sub(length(a[1]), a[0]), ONE))
    if k in ("mut",): return ge0i(sub(sub(length(m.val(st, a[1])), a[0]), ONE))
    if k == "colmut": return ge0i(sub(sub(ncols(m.val(st, a[1])), a[0]), ONE))
    if k == "flatmut": return ge0i(sub(sub(mul(length(m.val(st, a[1])), ncols(m.val(st, a[1]))), a[0]), ONE))
    if k in ("enum", "enum2"): return has(m, st, a[1])
    if k in ("map", "stepby", "mapw"): return has(m, st, a[0])
    if k == "zip": return band(has(m, st, a[0]), has(m, st, a[1]))
    if k == "take": return band(has(m, st, a[0]), ge0i(sub(a[1], ONE)))
    if k == "rev": return ge0i(sub(sub(ilen(m, st, a[1]), a[0]), ONE))
    if k == "chain": return ge0i(sub(sub(add(ilen(m, st, a[1]), ilen(m, st, a[2])), a[0]), ONE))
    if k == "windows": return ge0i(sub(sub(length(a[1]), a[2]), a[0]))
    if k == "chunks": return ge0i(sub(sub(length(a[1]), mul(a[0], a[2])), ONE))
    if k == "chunksx": return ge0i(sub(length(a[1]), mul(add(a[0], ONE), a[2])))
    if k in ("chunksmut",): return ge0i(sub(sub(length(m.val(st, a[1])), mul(a[0], a[2])), ONE))
    if k in ("chunksxmut",): return ge0i(sub(length(m.val(st, a[1])), mul(add(a[0], ONE), a[2])))
    if k == "once": return tobool(a[0])
    if k == "repeat": return TRUE
    if k == "ref": return has(m, st, inner_it(m, st, i))
    raise Unsup("iterator " + k)
def Unsup(x):
    from .machine import Unsupported
    return Unsupported(x)
def inner_it(m, st, i):
    v = m.val(st, i.a[1])
    return v if isiter(v) else range_iter(v)
def ilen(m, st, i):
    k = i.a[0][5:]; a = i.a[1:]
    if k == "range": return clip0l(sub(a[1], a[0]))
    if k == "from" or k == "repeat": return None
    if k == "seq": return clip0l(sub(length(a[1]), a[0])) if a[0] is not ZERO else length(a[1])
    if k == "mut":
        n = length(m.val(st, a[1]))
        return clip0l(sub(n, a[0])) if a[0] is not ZERO else n
    if k == "colmut":
        return clip0l(sub(ncols(m.val(st, a[1])), a[0]))
    if k == "flatmut":
        n = mul(length(m.val(st, a[1])), ncols(m.val(st, a[1])))
        return n if a[0] is ZERO else clip0l(sub(n, a[0]))
    if k in ("enum", "enum2"): return ilen(m, st, a[1])
    if k in ("map", "mapw", "mapop"): return ilen(m, st, a[0])
    if k == "stepby":
        n = ilen(m, st, a[0])
        return None if n is None else ite(ge0i(sub(n, ONE)), add(idiv(sub(n, ONE), a[1]), ONE), ZERO)
    if k == "zip":
        x, y = ilen(m, st, a[0]), ilen(m, st, a[1])
        if x is None: return y
        if y is None: return x
        return imin(x, y)
    if k == "take":
        x = ilen(m, st, a[0])
        return a[1] if x is None else imin(x, a[1])
    if k == "rev": 
        n = ilen(m, st, a[1])
        return n if a[0] is ZERO else clip0l(sub(n, a[0]))
    if k == "chain": 
        n = add(ilen(m, st, a[1]), ilen(m, st, a[2]))
        return n if a[0] is ZERO else clip0l(sub(n, a[0]))
    if k == "windows": return clip0l(sub(add(sub(length(a[1]), a[2]), ONE), a[0]))
    if k in ("chunks", "chunksmut"):
        n = length(a[1] if k == "chunks" else m.val(st, a[1]))
        n = clip0l(sub(n, mul(a[0], a[2])))
        return ite(ge0i(sub(n, ONE)), add(idiv(sub(n, ONE), a[2]), ONE), ZERO)
    if k in ("chunksx", "chunksxmut"):
        return clip0l(sub(idiv(length(a[1] if k == "chunksx" else m.val(st, a[1])), a[2]), a[0]))
    if k == "once": return ite(tobool(a[0]), ONE, ZERO)
    if k == "ref": return ilen(m, st, inner_it(m, st, i))
    raise Unsup("iterator " + k)
def get(m, st, i, j, c):
    """j-th remaining element; closures run in st"""
    k = i.a[0][5:]; a = i.a[1:]
    if k in ("range", "from"): return add(a[0], j)
    if k == "seq": return sel(a[1], add(a[0], j))
    if k == "mut": return mref_ext(m, st, a[1], ("i", add(a[0], j), None))
    if k == "colmut": return mref_ext(m, st, a[1], ("col", add(a[0], j)))
    if k == "flatmut":
        w = ncols(m.val(st, a[1])); q = add(a[0], j)
        return mref_ext(m, st, mref_ext(m, st, a[1], ("i", idiv(q, w), None)), ("i", imod(q, w), None))
    if k == "enum": return tup(add(a[0], j), get(m, st, a[1], j, c))
    if k == "enum2": return tup(tup(idiv(add(a[0], j), a[2]), imod(add(a[0], j), a[2])), get(m, st, a[1], j, c))
    if k == "map":
        x = get(m, st, a[0], j, c)
        if x is None: return None
        return m.call_value(st, a[1], [x], c)
    if k == "mapop":
        x = get(m, st, a[0], j, c)
        return None if x is None else raw("app", a[1].a[0], x)
    if k == "stepby": return get(m, st, a[0], mul(j, a[1]), c)
    if k == "zip":
        x = get(m, st, a[0], j, c); y = get(m, st, a[1], j, c)
        return None if x is None or y is None else tup(x, y)
    if k == "take": return get(m, st, a[0], j, c)
    if k == "rev": return get(m, st, a[1], sub(sub(open_len(m, st, a[1]), ONE), add(a[0], j)), c)
    if k == "chain":
        n = ilen(m, st, a[1]); p = add(a[0], j)
        cnd = ilt(p, n)
        x = get(m, st, a[1], p, c); y = get(m, st, a[2], sub(p, n), c)
        return ite(cnd, x, y)
    if k == "windows": return slc(a[1], add(a[0], j), add(add(a[0], j), a[2]))
    if k in ("chunks", "chunksx"):
        p = mul(add(a[0], j), a[2])
        e = add(p, a[2])
        return slc(a[1], p, e if k == "chunksx" else imin(e, length(a[1])))
    if k in ("chunksmut", "chunksxmut"):
        p = mul(add(a[0], j), a[2]); e = add(p, a[2])
        return mref_ext(m, st, a[1], ("slc", p, e if k == "chunksxmut" else imin(e, length(m.val(st, a[1])))))
    if k == "mapw":
        x = get(m, st, a[0], j, c)
        return it("seq", ZERO, x)
    if k == "once": return a[1]
    if k == "repeat": return a[0]
    if k == "ref": return get(m, st, inner_it(m, st, i), j, c)
    raise Unsup("iterator " + k)
def adv(m, st, i, n):
    k = i.a[0][5:]; a = list(i.a[1:])
    if k in ("range", "from", "seq", "mut", "colmut", "flatmut", "rev", "chain", "windows", "chunks", "chunksx", "chunksmut", "chunksxmut"):
        a[0] = add(a[0], n)
    elif k in ("enum", "enum2"): a[0] = add(a[0], n); a[1] = adv(m, st, a[1], n)
    elif k in ("map", "mapw", "mapop"): a[0] = adv(m, st, a[0], n)
    elif k == "stepby": a[0] = adv(m, st, a[0], mul(n, a[1]))
    elif k == "zip": a[0] = adv(m, st, a[0], n); a[1] = adv(m, st, a[1], n)
    elif k == "take": a[0] = adv(m, st, a[0], n); a[1] = sub(a[1], n)
    elif k == "once": a[0] = FALSE
    elif k == "repeat": pass
    elif k == "ref":
        m.wrref(st, a[0], adv(m, st, inner_it(m, st, i), n)); return i
    else: raise Unsup("iterator " + k)
    return raw("agg", i.a[0], *a)

def as_iter(m, st, c, i):
    v = m.val(st, c.args[i]) if c.args[i].op == "mref" and isiter(m.val(st, c.args[i])) else c.args[i]
    if isiter(v): return v
    return to_iter(m, st, c, i)

@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(m, st, c): return to_iter(m, st, c, 0)
@model("[T]::iter", "ndarray::ArrayBase::iter", "alloc::vec::Vec::iter", "ndarray::ArrayBase::outer_iter_", "[T;_]::iter")
def _(m, st, c):
    v = V(m, st, c, 0)
    if isarr(ty(m, c, 0)) and rank(m, c, 0, v) == 2: return it("seq", ZERO, flatten(v))
    return it("seq", ZERO, v)
@model("[T]::iter_mut", "ndarray::ArrayBase::iter_mut", "alloc::vec::Vec::iter_mut")
def _(m, st, c):
    r = c.args[0]
    if r.op == "ite": return NotImplemented
    if isarr(ty(m, c, 0)) and rank(m, c, 0, V(m, st, c, 0)) == 2: return it("flatmut", ZERO, final_ref(m, st, r)) if ismref(r) else NotImplemented
    return it("mut", ZERO, final_ref(m, st, r)) if ismref(r) else it("seq", ZERO, r)
@model("ndarray::ArrayBase::rows", "ndarray::ArrayBase::outer_iter", "ndarray::ArrayBase::genrows")
def _(m, st, c): return it("seq", ZERO, V(m, st, c, 0))
@model("ndarray::ArrayBase::columns", "ndarray::ArrayBase::gencolumns")
def _(m, st, c): return it("seq", ZERO, transpose(V(m, st, c, 0)))
@model("ndarray::ArrayBase::axis_iter")
def _(m, st, c):
    v = V(m, st, c, 0)
    return it("seq", ZERO, v if axis(m, st, c, 1) == 0 else transpose(v))
@model("ndarray::ArrayBase::rows_mut", "ndarray::ArrayBase::outer_iter_mut")
def _(m, st, c): return it("mut", ZERO, final_ref(m, st, c.args[0])) if ismref(c.args[0]) else NotImplemented
@model("ndarray::ArrayBase::columns_mut")
def _(m, st, c): return it("colmut", ZERO, final_ref(m, st, c.args[0])) if ismref(c.args[0]) else NotImplemented
@model("ndarray::ArrayBase::axis_iter_mut")
def _(m, st, c):
    if not ismref(c.args[0]): return NotImplemented
    return it("mut" if axis(m, st, c, 1) == 0 else "colmut", ZERO, final_ref(m, st, c.args[0]))
@model("ndarray::ArrayBase::indexed_iter")
def _(m, st, c):
    v = V(m, st, c, 0)
    if rank(m, c, 0, v) == 1: return it("enum", ZERO, it("seq", ZERO, v))
    if rank(m, c, 0, v) == 2: return it("enum2", ZERO, it("seq", ZERO, flatten(v)), ncols(v))
    return NotImplemented
@model("ndarray::ArrayBase::indexed_iter_mut")
def _(m, st, c):
    v = V(m, st, c, 0)
    if rank(m, c, 0, v) == 1: return it("enum", ZERO, it("mut", ZERO, final_ref(m, st, c.args[0])))
    if rank(m, c, 0, v) == 2 and ismref(c.args[0]): return it("enum2", ZERO, it("flatmut", ZERO, final_ref(m, st, c.args[0])), ncols(v))
    return NotImplemented
@model("[T]::windows", "ndarray::ArrayBase::windows")
def _(m, st, c):
    w = V(m, st, c, 1)
    if w.op == "agg" and w.a[0] in ("tuple", "array"): w = w.a[1]
    require(m, st, c, bnot(ieq(w, ZERO)), "windows(0)", [w])
    return it("windows", ZERO, V(m, st, c, 0), w)
@model("[T]::chunks", "ndarray::ArrayBase::exact_chunks_")
def _(m, st, c):
    require(m, st, c, bnot(ieq(V(m, st, c, 1), ZERO)), "chunks(0)", [V(m, st, c, 1)])
    return it("chunks", ZERO, V(m, st, c, 0), V(m, st, c, 1))
@model("[T]::chunks_exact", "ndarray::ArrayBase::exact_chunks")
def _(m, st, c):
    w = V(m, st, c, 1)
    if w.op == "agg" and w.a[0] in ("tuple", "array"): w = w.a[1]
    require(m, st, c, bnot(ieq(w, ZERO)), "chunks(0)", [w])
    return it("chunksx", ZERO, V(m, st, c, 0), w)
@model("[T]::chunks_mut", "[T]::chunks_exact_mut")
def _(m, st, c):
    if not ismref(c.args[0]): return NotImplemented
    require(m, st, c, bnot(ieq(V(m, st, c, 1), ZERO)), "chunks(0)", [V(m, st, c, 1)])
    return it("chunksxmut" if "exact" in c.p else "chunksmut", ZERO, final_ref(m, st, c.args[0]), V(m, st, c, 1))
@model("itertools::Itertools::chunks")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    s = seq_of(m, st, c, i)
    require(m, st, c, bnot(ieq(V(m, st, c, 1), ZERO)), "chunks(0)", [V(m, st, c, 1)])
    return it("mapw", it("chunks", ZERO, s, V(m, st, c, 1)))
@model("itertools::free::zip", "core::iter::adapters::zip::zip", "itertools::Itertools::zip_eq")
def _(m, st, c): return it("zip", to_iter(m, st, c, 0), to_iter(m, st, c, 1))
@model("itertools::Itertools::collect_vec")
def _(m, st, c): return seq_of(m, st, c, as_iter(m, st, c, 0))
@model(IT + "enumerate")
def _(m, st, c): return it("enum", ZERO, as_iter(m, st, c, 0))
@model(IT + "zip")
def _(m, st, c):
    a, b = as_iter(m, st, c, 0), to_iter(m, st, c, 1)
    return it("zip", a, b) if b is not NotImplemented else b
@model(IT + "map")
def _(m, st, c): return it("map", as_iter(m, st, c, 0), c.args[1])
@model(IT + "rev")
def _(m, st, c): return it("rev", ZERO, as_iter(m, st, c, 0))
@model(IT + "step_by")
def _(m, st, c):
    require(m, st, c, bnot(ieq(V(m, st, c, 1), ZERO)), "step_by(0)", [V(m, st, c, 1)])
    return it("stepby", as_iter(m, st, c, 0), V(m, st, c, 1))
@model(IT + "take")
def _(m, st, c): return it("take", as_iter(m, st, c, 0), V(m, st, c, 1))
@model(IT + "skip")
def _(m, st, c): return adv(m, st, as_iter(m, st, c, 0), V(m, st, c, 1))
@model(IT + "chain")
def _(m, st, c): return it("chain", ZERO, as_iter(m, st, c, 0), to_iter(m, st, c, 1))
@model(IT + "cloned", IT + "copied", IT + "fuse", IT + "by_ref_", IT + "peekable_")
def _(m, st, c): return as_iter(m, st, c, 0)
@model(IT + "by_ref")
def _(m, st, c): return c.args[0]
@model("core::iter::sources::once::once")
def _(m, st, c): return it("once", TRUE, c.args[0])
@model("core::iter::sources::repeat::repeat")
def _(m, st, c): return it("repeat", c.args[0])
@model("core::iter::sources::repeat_n::repeat_n")
def _(m, st, c): return it("take", it("repeat", c.args[0]), V(m, st, c, 1))
@model("core::iter::sources::empty::empty")
def _(m, st, c): return it("seq", ZERO, NIL)
@model(IT + "filter", IT + "filter_map")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    n = ilen(m, st, i)
    if n is None: return NotImplemented
    K = freshK()
    s = st.copy(); s.pc = band(s.pc, ilt(K, n))
    x = get(m, s, i, K, c)
    f = m.call_value(s, c.args[1], [x], c)
    if f is None or any(s.cells.get(q) is not v for q, v in st.cells.items()) or has_mref(x): return NotImplemented
    if c.p.endswith("filter_map"): return it("seq", ZERO, fseq(n, lam(K, is_some(m, f)), lam(K, payload(f, 1))))
    return it("seq", ZERO, fseq(n, lam(K, tobool(f)), lam(K, x)))
@model(IT + "inspect")
def _(m, st, c): return it("map", as_iter(m, st, c, 0), raw("agg", "inspect", c.args[1]))
@model(IT + "take_while", IT + "skip_while")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    p = predicate(m, st, c, i, lambda s, x: m.call_value(s, c.args[1], [x], c))
    if p is None: return NotImplemented
    n, K, cond, x = p
    k = ite(some(n, lam(K, bnot(cond))), raw("first", lam(K, bnot(cond)), n, sort="u"), n)
    return it("take", i, k) if c.p.endswith("take_while") else adv(m, st, i, k)
@model(IT + "flatten", IT + "flat_map", IT + "scan", IT + "map_while", IT + "peekable", IT + "cycle")
def _(m, st, c): raise Unsup("iterator adapter " + c.p)

@model(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _(m, st, c):
    r = c.args[0]
    i = m.val(st, r)
    if not isiter(i):
        i = range_iter(i)
        if i is None: return NotImplemented
        isrange = True
    if c.p.endswith("next_back"): return NotImplemented
    return next_of(m, st, c, r, i)
def next_of(m, st, c, r, i):
    h = has(m, st, i)
    if band(st.pc, h) is FALSE: return NONE
    x = guarded(m, st, h, lambda s: get(m, s, i, ZERO, c))
    if not ismref(r): return NotImplemented
    m.wrref(st, final_ref(m, st, r), adv(m, st, i, ONE))
    if x is None: return NONE
    x = typed_elem(m, c, x)
    return ite(h, Some(x), NONE)
def typed_elem(m, c, x):
    d = c.fr.crate.ty(c.dt) if c.dt is not None else {}
    if d.get("p") == "core::option::Option" and x.op not in ("agg", "mref"):
        return m.typed(x, d["a"][0], c.fr.crate)
    return x

# a CSV reader is the sequence of its records (each a Result) with a cursor
CSVREC = "csv::records"
CSVDE = "csv::deserialized"
@model("csv::reader::ReaderBuilder::from_path", "csv::reader::ReaderBuilder::from_reader", "csv::reader::Reader::from_path", "csv::reader::Reader::from_reader")
def _(m, st, c):
    r = m.opaque(st, c, effects=False)
    args = [m.deep(st, a) for a in c.args]
    s = it("seq", ZERO, raw("app", CSVREC, *args))
    if c.p.endswith("from_reader"): return s
    return ite(disc(r, 0, 2), Ok(s), Err(fld(r, 1, 0)))
@model("csv::reader::Reader::records")
def _(m, st, c):
    if not ismref(c.args[0]) or not isiter(V(m, st, c, 0)): return NotImplemented
    return it("ref", final_ref(m, st, c.args[0]))
@model("csv::reader::Reader::read_record")
def _(m, st, c):
    r = c.args[0]
    if not ismref(r) or not ismref(c.args[1]) or not isiter(V(m, st, c, 0)): return NotImplemented
    i = V(m, st, c, 0)
    h = has(m, st, i)
    x = guarded(m, st, h, lambda s: get(m, s, i, ZERO, c))
    m.wrref(st, final_ref(m, st, r), adv(m, st, i, ONE))
    if x is None: return Ok(FALSE)
    m.wrref(st, final_ref(m, st, c.args[1]), ite(h, fld(x, 0, 0), NIL))      # cleared at the end; of no use after an error
    return ite(h, ite(disc(x, 0, 2), Ok(TRUE), Err(fld(x, 1, 0))), Ok(FALSE))
@model("csv::reader::Reader::into_records")
def _(m, st, c): return c.args[0] if isiter(c.args[0]) else NotImplemented
@model("csv::reader::Reader::deserialize", "csv::reader::Reader::into_deserialize")
def _(m, st, c):
    into = "into" in c.p
    if not isiter(V(m, st, c, 0)) or not (into or ismref(c.args[0])): return NotImplemented
    return it("mapop", c.args[0] if into else it("ref", final_ref(m, st, c.args[0])), raw("opname", CSVDE))
@model("csv::reader::Reader::headers", "csv::reader::Reader::byte_headers", "csv::reader::Reader::has_headers")
def _(m, st, c): return m.opaque(st, c, effects=False)

@model("csv::string_record::StringRecord::get")
def _(m, st, c):
    v, i = V(m, st, c, 0), V(m, st, c, 1)
    return ite(ilt(i, length(v)), Some(sel(v, i)), NONE)
@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(m, st, c):
    v = V(m, st, c, 0)
    while v.op == "agg" and len(v.a) == 2: v = v.a[1]
    if v.op == "updf" and v.a[-1].op == "agg" and "ManuallyDrop" in v.a[-1].a[0]: return v.a[-1].a[1]
    return NotImplemented

# consumers
def consume(m, st, c, i, f, tag="|it", init=None):
    """run f(state, element) for every element, in order"""
    cell = (c.fk + tag, "it")
    n = ilen(m, st, i)
    if n is None: raise Unsup("unbounded iterator consumed")
    n = mapleaves(lambda x: x, n)
    st.cells[cell] = i
    from .machine import State, fewrefs
    if fewrefs(i) and n.op == "num":
        for k in range(int(n.a[0])):
            x = get(m, st, st.cells[cell], ZERO, c)
            st.cells[cell] = adv(m, st, st.cells[cell], ONE)
            if f(st, x) is None and st.pc is FALSE: return None
        st.cells.pop(cell, None)
        return UNIT
    def body(S):
        head = S
        s = S.copy()
        cur = s.cells[cell]
        h = has(m, s, cur)
        s.pc = band(s.pc, h)
        if s.pc is FALSE: return None, [("done", head)]
        x = get(m, s, cur, ZERO, c)
        if x is None: return None, [("done", head)]
        s.cells[cell] = adv(m, s, cur, ONE)
        r = f(s, x)
        if r is None and s.pc is FALSE: return None, [("done", head)]
        return s, [("done", head)]
    out = m.loop(c.fk + tag, st, body, where=c.span, N=n)
    s = out[0][1]
    s.cells.pop(cell, None)
    st.cells = s.cells
    return UNIT
def consume_tab(m, st, c, i, f, tag="|it"):
    cell = (c.fk + tag, "acc")
    st.cells[cell] = NIL
    def g(s, x):
        y = f(s, x)
        if y is None: return None
        s.cells[cell] = cat(s.cells[cell], arr(m.deep(s, y)))
        return UNIT
    consume(m, st, c, i, g, tag)
    return st.cells.pop(cell)
def seq_of(m, st, c, i, tag="|it"):
    """sequence of the elements of an iterator"""
    if i.a[0] == "iter:seq" and i.a[1] is ZERO: return i.a[2]
    return consume_tab(m, st, c, i, lambda s, x: x, tag)
@model(IT + "for_each")
def _(m, st, c): return consume(m, st, c, as_iter(m, st, c, 0), lambda s, x: m.call_value(s, c.args[1], [x], c))
def accum(m, st, c, i, init, f, tag="|it"):
    cell = (c.fk + tag, "acc")
    st.cells[cell] = init
    def g(s, x):
        y = f(s, s.cells[cell], x)
        if y is None: return None
        s.cells[cell] = y
        return UNIT
    consume(m, st, c, i, g, tag)
    return st.cells.pop(cell)
@model(IT + "fold", "ndarray::ArrayBase::fold")
def _(m, st, c):
    if c.p.startswith("ndarray"):
        v = V(m, st, c, 0)
        i = it("seq", ZERO, v)
        if rank(m, c, 0, v) == 2:
            return accum(m, st, c, i, c.args[1], lambda s, a, r: accum(m, s, c, it("seq", ZERO, r), a, lambda s2, a2, x: m.call_value(s2, c.args[2], [a2, x], c), "|j"), "|i")
    else: i = as_iter(m, st, c, 0)
    return accum(m, st, c, i, c.args[1], lambda s, a, x: m.call_value(s, c.args[2], [a, x], c))
@model(IT + "sum")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    if i.a[0] == "iter:seq" and i.a[2].op == "flat" and i.a[1] is ZERO: return nsum(i.a[2].a[0], 2)
    return accum(m, st, c, i, ZERO, lambda s, a, x: add(a, m.val(s, x)))
@model(IT + "product")
def _(m, st, c): return accum(m, st, c, as_iter(m, st, c, 0), ONE, lambda s, a, x: mul(a, m.val(s, x)))
@model(IT + "count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _(m, st, c): return ilen(m, st, as_iter(m, st, c, 0))
@model(IT + "last")
def _(m, st, c):
    i = as_iter(m, st, c, 0); n = ilen(m, st, i)
    return ite(ge0i(sub(n, ONE)), Some(get(m, st, i, sub(n, ONE), c)), NONE)
@model(IT + "nth")
def _(m, st, c):
    i = as_iter(m, st, c, 0); n = ilen(m, st, i); k = V(m, st, c, 1)
    x = get(m, st, i, k, c)
    if ismref(c.args[0]): m.wrref(st, c.args[0], adv(m, st, i, add(k, ONE)))
    cond = TRUE if n is None else ilt(k, n)
    return ite(cond, Some(x), NONE)
def predicate(m, st, c, i, f):
    """(n, K, condition, element) of a pure predicate over the iterator"""
    n = ilen(m, st, i)
    if n is None: return None
    K = freshK()
    s = st.copy(); s.pc = band(s.pc, ilt(K, n))
    x = get(m, s, i, K, c)
    r = f(s, x)
    if r is None or any(s.cells.get(q) is not v for q, v in st.cells.items()): raise Unsup("effects in a predicate")
    return n, K, tobool(r), x
@model(IT + "any", IT + "all", IT + "position", IT + "rposition", IT + "find")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    w = c.p[len(IT):]
    if w == "rposition": i = it("rev", ZERO, i)
    n, K, cond, x = predicate(m, st, c, i, lambda s, x: m.call_value(s, c.args[1], [x], c))
    if w == "rposition":
        k = raw("first", lam(K, cond), n, sort="u")
        return ite(some(n, lam(K, cond)), Some(sub(sub(n, ONE), k)), NONE)
    if w == "any": return some(n, lam(K, cond))
    if w == "all": return bnot(some(n, lam(K, bnot(cond))))
    ex = some(n, lam(K, cond))
    k = raw("first", lam(K, cond), n, sort="u")
    if w == "position": return ite(ex, Some(k), NONE)
    return ite(ex, Some(subst(x, {K: k})), NONE)
@model(IT + "max_by", IT + "min_by", IT + "max_by_key", IT + "min_by_key")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    w = c.p[len(IT):]
    s = seq_of(m, st, c, i)
    n = length(s)
    a, b = sym("#cmp_a", "f"), sym("#cmp_b", "f")
    mark = len(m.obl), len(m.facts), len(m.events)
    t = st.copy()
    probe = [a, b] if w.endswith("_by") else [a]
    try: r = m.call_value(t, c.args[1], probe, c)
    except Exception: r = None
    del m.obl[mark[0]:]; del m.facts[mark[1]:]; del m.events[mark[2]:]
    if w.endswith("_by") and r is m.ordering(a, b, True):
        v = mkext("amax" if w == "max_by" else "amin", n, lambda k: sel(s, k, "f"))
        return ite(ge0i(sub(n, ONE)), Some(v), NONE)
    k = argbest(m, st, c, w, s, n)
    if k is None:
        key = raw("lam2", r) if r is not None else raw("lam2", sym("?"))
        k = raw("fn", w, s, key, sort="u")
    return ite(ge0i(sub(n, ONE)), Some(sel(s, k)), NONE)
def argbest(m, st, c, w, s, n):
    """index of the extreme element as argmax / argmin of a key (last maximum, first minimum), or None"""
    A, B = sym("#ix_a", "u"), sym("#ix_b", "u")
    def skel(x, at, i, tag):
        """x with its scalars replaced by symbols: (skeleton, {symbol: scalar})"""
        ls = [l for _, l in leaves(x)]
        if ls and all(l.op == "agg" for l in ls) and len({(l.a[0], len(l.a)) for l in ls}) == 1:
            mp = {}; fs = []
            for k in range(len(ls[0].a) - 1):
                y, q = skel(fld(x, int(ls[0].a[0].split("#")[1]) if "#" in ls[0].a[0] else 0, k), at, i, tag + ".%d" % k); fs.append(y); mp.update(q)
            return raw("agg", ls[0].a[0], *fs), mp
        srt = "u" if x is at else next((l.sort for l in ls if l.sort in ("f", "u", "i", "b")), "f")
        v = sym("#cmp%s%s" % (tag, srt), srt)
        return v, {v: x}
    x, mx = skel(sel(s, A), A, 0, "a"); y, my = skel(sel(s, B), B, 0, "b")
    mark = len(m.obl), len(m.facts), len(m.events)
    t = st.copy()
    try: r = m.call_value(t, c.args[1], [x, y] if w.endswith("_by") else [x], c)
    except Exception: return None
    finally: del m.obl[mark[0]:]; del m.facts[mark[1]:]; del m.events[mark[2]:]
    if r is None: return None
    if not w.endswith("_by"): f = r
    else:
        f = None; other = dict(zip(mx, my))
        for at in TT.atoms(r):
            if at.op not in ("fgt0", "fge0", "ge0") or type(at.a[0]) is not T: continue
            p = TT.terms_of(at.a[0])
            for sg in (1, -1):
                g = TT._mkpoly({mm: cc * sg for mm, cc in p.items() if any(z in mx or contains(z, lambda q: q in mx) for z, _ in mm)})
                if g is not ZERO and (m.ordering(g, TT.replace(g, other), True) is r or m.ordering(g, TT.replace(g, other), False) is r): f = g; break
            if f is not None: break
        if f is None: return None
    K = freshK()
    return raw("fn", "argmax" if w.startswith("max") else "argmin", n, lam(K, TT.replace(TT.replace(f, mx), {A: K})), sort="u")
@model(IT + "max", IT + "min")
def _(m, st, c):
    i = as_iter(m, st, c, 0); s = seq_of(m, st, c, i); n = length(s)
    return ite(ge0i(sub(n, ONE)), Some(mkext("amax" if c.p.endswith("max") else "amin", n, lambda k: sel(s, k))), NONE)
@model(IT + "reduce")
def _(m, st, c):
    i = as_iter(m, st, c, 0); n = ilen(m, st, i)
    cond = ge0i(sub(n, ONE))
    first = get(m, st, i, ZERO, c)
    r = accum(m, st, c, adv(m, st, i, ONE), first, lambda s, a, x: m.call_value(s, c.args[1], [a, x], c))
    return ite(cond, Some(r), NONE)
@model(IT + "unzip")
def _(m, st, c):
    s = seq_of(m, st, c, as_iter(m, st, c, 0)); n = length(s)
    return tup(mktab(n, lambda k: fld(sel(s, k), 0, 0)), mktab(n, lambda k: fld(sel(s, k), 0, 1)))
@model(IT + "try_for_each", IT + "try_fold", IT + "partition", IT + "eq", IT + "min_by_", IT + "cmp")
def _(m, st, c): raise Unsup("iterator consumer " + c.p)
def elem_ty(m, crate, ti):
    t = crate.ty(ti)
    if t["k"] in ("slice", "array"): return t.get("e")
    if t.get("p") in ("alloc::vec::Vec", "ndarray::ArrayBase"): return t["a"][0]
    return None
@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(m, st, c):
    i = as_iter(m, st, c, 0)
    if i is NotImplemented: return i
    return collect_as(m, st, c, i, c.dt)
def collect_as(m, st, c, i, dt):
    t = c.fr.crate.ty(dt) if dt is not None else {}
    if t.get("p") in ("core::result::Result", "core::option::Option"):
        o = t["p"].endswith("Option")
        s = seq_of(m, st, c, i); n = length(s)
        K = freshK()
        x = sel(s, K)
        bad = lam(K, bnot(is_some(m, x) if o else is_ok(m, x)))
        ex = some(n, bad)
        et = t["a"][0] if o else t["a"][0]
        ti = elem_ty(m, c.fr.crate, et)
        def pv(k):
            v = payload(sel(s, k), 1 if o else 0)
            return m.typed(v, ti, c.fr.crate) if ti is not None else v
        good = mktab(n, pv)
        K2 = raw("first", bad, n, sort="u")
        return ite(ex, NONE if o else Err(payload(sel(s, K2), 1)), (Some if o else Ok)(good))
    return seq_of(m, st, c, i)
@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend")
def _(m, st, c):
    v = V(m, st, c, 0)
    i = to_iter(m, st, c, 1)
    if i is NotImplemented: return i
    s = seq_of(m, st, c, i)
    return W(m, st, c, 0, cat(m.val(st, c.args[0]), s))

# ------------------------------------------------------------------ FFT
@model("rustfft::plan::FftPlanner::new", "rustfft::plan::FftPlannerScalar::new")
def _(m, st, c): return raw("agg", "fftplanner")
@model("rustfft::plan::FftPlanner::plan_fft_forward")
def _(m, st, c): return raw("agg", "fft:fwd", V(m, st, c, 1))
@model("rustfft::plan::FftPlanner::plan_fft_inverse")
def _(m, st, c): return raw("agg", "fft:inv", V(m, st, c, 1))
@model("rustfft::plan::FftPlanner::plan_fft")
def _(m, st, c): 
    d = V(m, st, c, 2)
    if d.op == "agg" and d.a[0].startswith("adt:"): return raw("agg", "fft:fwd" if d.a[0].endswith("#0") else "fft:inv", V(m, st, c, 1))
    return NotImplemented
@model("rustfft::Fft::get_outofplace_scratch_len", "rustfft::Fft::get_inplace_scratch_len", "rustfft::Fft::get_immutable_scratch_len")
def _(m, st, c): return raw("app", "scratch_len", V(m, st, c, 0), sort="u")
def plan(x):
    """(direction, size) terms of a planned transform value"""
    def f(l):
        if l.op == "agg" and l.a[0].startswith("fft:"): return l
        return l
    return mapleaves(f, x)
def fft_apply(x, inp, outlen):
    def f(l):
        if l.op == "agg" and l.a[0].startswith("fft:"):
            return raw("fft", l.a[0][4:], l.a[1], inp, outlen)
        return raw("fft", l, ONE, inp, outlen)
    return mapleaves(f, x)
@model("rustfft::Fft::process_outofplace_with_scratch", "rustfft::Fft::process_immutable_with_scratch")
def _(m, st, c):
    p, i, o = V(m, st, c, 0), V(m, st, c, 1), V(m, st, c, 2)
    m.event(st, c, [p, i, o, V(m, st, c, 3)], UNIT)
    W(m, st, c, 2, fft_apply(p, i, length(o)))
    if "outofplace" in c.p: W(m, st, c, 1, raw("mut", "fftin", i))
    if ismref(c.args[3]): W(m, st, c, 3, raw("mut", "scratch", V(m, st, c, 3)))
    return UNIT
@model("rustfft::Fft::process", "rustfft::Fft::process_with_scratch")
def _(m, st, c):
    p, i = V(m, st, c, 0), V(m, st, c, 1)
    m.event(st, c, [p, i], UNIT)
    return W(m, st, c, 1, fft_apply(p, i, length(i)))
@model("rustfft::Length::len", "rustfft::Fft::len")
def _(m, st, c):
    x = V(m, st, c, 0)
    return mapleaves(lambda l: l.a[1] if l.op == "agg" and l.a[0].startswith("fft:") else length(l), x)

# ------------------------------------------------------------------ misc
@model("core::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1",
       "core::fmt::rt::Argument::new_lower_exp", "core::fmt::rt::Argument::new_lower_hex")
def _(m, st, c): return raw("app", c.p, *[m.deep(st, a) for a in c.args])
@model("log::__private_api::log", "log::__private_api::loc", "log::max_level", "log::__private_api::enabled", "log::__private_api::log_impl")
def _(m, st, c): return raw("app", c.p)
