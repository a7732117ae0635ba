"""C04: an element of column f mentions only samples f*hop+j, and vanishes for a silent frame whatever came before."""
from ._spect import *

def run(rep):
    rep.rule("dependence analysis of the spectrogram element (band b, frame f): every sample it mentions lies at f*hop plus an offset free of f, nothing else in it "
             "depends on f or on mutable builder state, and replacing the frame's samples by zero makes it 0 (filter state starts at rest)")
    s = spectrogram()
    S = sym("FRAME")
    n = 0
    for cube, E in leaves(s.E):
        sites = [z for z in terms_where(E, lambda z: z.op == "sel" and z.a[0] is s.x)]
        n += len(sites)
        mp = {}
        for z in sites:
            off = sub(z.a[1], mul(s.f, s.hop))
            ok = s.f not in off.fv
            rep.instance("sample index of a column is frame start plus offset", ok,
                         "%s: column f mentions sample %s, which is not at a fixed offset of its frame start f*(%s)" % (s.u.bid, show(z.a[1], 8)[:300], show(s.hop, 4)))
            if ok: mp[z] = raw("sel", S, off, sort="f")
        def shift(t):
            if t.op == "sel" and t.a[0] is s.x:
                off = sub(t.a[1], mul(s.f, s.hop))
                if s.f not in off.fv: return raw("sel", S, off, sort="f")
            return t
        E2 = transform(E, shift)
        bad = s.f in E2.fv or contains(E2, lambda z: z is s.f)
        rep.instance("column depends on its frame only", not bad,
                     "%s: the value of a column depends on the frame number beyond its own samples: %s" % (s.u.bid, show(next((z for z in terms_where(E2, lambda z: s.f in z.fv and z.op in ("sel", "rec", "phi", "first", "sum", "fld"))), E2), 6)[:500]))
        rest = [z for z in terms_where(E2, lambda z: z.op == "phi")]
        rep.instance("no state carried over from outside the frame", not rest, "%s: the column depends on state carried around the frame loop: %s" % (s.u.bid, [show(z, 3) for z in rest[:3]]))
        st = [p for p in uses(E2, sym("B")) if not p or lib_field_is_state(p)]
        rep.instance("no filter state of earlier frames or signals", not st, "%s: the column depends on the filterbank's previous state (field path %s)" % (s.u.bid, st[:3]))
        Z = transform(E2, lambda t: ZERO if t.op == "sel" and t.a[0] is S else t)
        rep.instance("a silent frame gives zero in every band", Z is ZERO,
                     "%s: with an all-zero frame the column is %s instead of 0: a filter stage does not start from rest" % (s.u.bid, show(Z, 7)[:500]))
    rep.floor("sample references in a column", n, 4)

def lib_field_is_state(path):
    """a field of the builder that building changes"""
    s = spectrogram()
    B = sym("B")
    return atpath(s.u.out["B"], path) is not atpath(B, path)
