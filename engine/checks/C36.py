"""C36: patches are cut at their starts, contiguous and inside the spectrogram"""
from ._modes import *
from .. import lin

def same(care, e, want, i):
    """e = want under care, for the first patch and for a later one"""
    for at in (ZERO, add(sym("i2", "u"), ONE)):
        w = replace(want, {i: at})
        for q, x in leaves(replace(e, {i: at})):
            if x is not w and lin.valid(bimp(band(replace(care, {i: at}), cubecond(q)), ieq(x, w))) is not None: return False
    return True

def anysize(rep, m, ty):
    """the same clauses for a patch creator of any size of at least two frames"""
    b = method("PatchCreator", "create_ref_patch_indices", ty)
    u = unit(b, (), [fnpath("::get_voice_activity")], ["SELF", "SPEC", "REFSIG", "WIN"])
    c, v = oks(u.ret)
    size, cols, i = sym("P", "u"), sym("cols", "u"), sym("i", "u")
    field = F(sym("SELF"), ty.split("::")[-1], "patch_size")
    rp = lambda t: replace(replace(t, {ncols(sym("SPEC")): cols}), {field: size})
    c, v = rp(c), rp(drop_undef(restrict(v, c)))
    pre = ge0i(sub(size, num(2)))
    want = add(sub(idiv(size, num(2)), ONE), mul(size, i))
    for cube, l in leaves(restrict(v, band(pre, c))):
        cc = band(pre, c, cubecond(cube))
        if cc is FALSE or lin.valid(bnot(cc)) is None: continue
        if l.op == "fseq": e, nn = app(l.a[2], i), None
        else:
            nn = length(l)
            if nn is ZERO: continue
            e = restrict(sel(l, i), band(cc, ilt(i, nn)))
        care = cc if nn is None else band(cc, ilt(i, nn))
        rep.instance("%s: starts lie one patch width apart, whatever the width" % m.name, same(care, e, want, i),
                     "%s: patches of width P: start i is %s" % (b, show(e, 6)[:200]))
    c = restrict(c, pre)
    bad = lin.valid(bimp(band(pre, c), ile(add(sub(idiv(size, num(2)), ONE), size), cols)))
    rep.instance("%s: a spectrogram without room for a patch of any width is refused" % m.name, bad is None, "%s: accepted when %s" % (b, show(c, 6)[:300]))
    b = method("PatchCreator", "create_patches_from_indices", ty)
    u = unit(b, (), (), ["SELF", "SPEC", "IDX"])
    S, I = sym("SPEC"), sym("IDX")
    t = replace(u.ret, {field: size})
    k, r, j = sym("k", "u"), sym("r", "u"), sym("j", "u")
    p = restrict(sel(t, k), band(pre, ilt(k, length(I))))
    row = restrict(sel(p, r), band(pre, ilt(r, length(S))))
    n = restrict(length(row), pre)
    rep.instance("%s: patches are as wide as configured" % m.name, n is size, "%s: %s columns" % (b, show(n, 6)[:200]))
    equal(rep, "%s: element (r, j) of patch k of any width is element (r, start k + j) of the spectrogram" % m.name, restrict(sel(row, j), band(pre, ilt(j, size))), sel(sel(S, r), add(sel(I, k), j)), where=b)

def run(rep):
    rep.rule("value numbering of both patch creators in the configuration of their mode: element (r, j) of patch k is element (r, start k + j) of the spectrogram; starts lie on a "
             "grid of one patch width; every patch fits, and the fullband grid leaves no room for another patch (linear entailment over quotients); grid and patches also for a symbolic width")
    M = modes()
    S, I = sym("SPEC"), sym("IDX")
    for m, P in ((M["wideband"], 20), (M["fullband"], 30)):
        ty = one(rep, "the %s patch creator" % m.name, m.patch_creator)
        if ty is None: continue
        conf = lambda t: restrict(replace(t, {sym("SELF"): m.patch_creator}), m.cond)
        b = method("PatchCreator", "create_patches_from_indices", ty)
        u = unit(b, (), (), ["SELF", "SPEC", "IDX"])
        t = conf(u.ret)
        k, r, j = sym("k", "u"), sym("r", "u"), sym("j", "u")
        p = restrict(sel(t, k), ilt(k, length(I)))
        n = length(t)
        rep.instance("%s: one patch per start" % m.name, n is length(I), "%s: %s patches" % (b, show(n, 6)[:200]))
        rep.instance("%s: patches have all bands" % m.name, length(p) is length(S), "%s: %s rows" % (b, show(length(p), 6)[:200]))
        row = restrict(sel(p, r), ilt(r, length(S)))
        x = restrict(sel(row, j), ilt(j, num(P)))
        equal(rep, "%s: element (r, j) of patch k is element (r, start k + j) of the spectrogram" % m.name, x, sel(sel(S, r), add(sel(I, k), j)), where=b)
        anysize(rep, m, ty)
        # starts
        b = method("PatchCreator", "create_ref_patch_indices", ty)
        u = unit(b, (), [fnpath("::get_voice_activity")], ["SELF", "SPEC", "REFSIG", "WIN"])
        c, v = oks(u.ret)
        c, v = conf(c), conf(drop_undef(restrict(v, c)))
        cols = sym("cols", "u")
        rp = lambda t: replace(t, {ncols(S): cols})
        c, v = rp(c), rp(v)
        first = P // 2 - 1
        # accepted iff a patch fits behind the margin the creator demands
        N = length(v)
        i = sym("i", "u")
        if m.name == "fullband":
            for cube, l in leaves(v):
                cc = band(c, cubecond(cube))
                nn = length(l)
                e = restrict(sel(l, i), band(cc, ilt(i, nn)))
                care = band(cc, ilt(i, nn))
                rep.instance("fullband: patch i starts at column %d + %d i" % (first, P), all(x is add(num(first), mul(num(P), i)) or lin.valid(bimp(band(care, cubecond(q)), ieq(x, add(num(first), mul(num(P), i))))) is None for q, x in leaves(e)),
                             "%s: patch i starts at %s" % (b, show(e, 6)[:200]))
                bad = lin.valid(bimp(care, ile(num(0), sub(sub(cols, num(first + P)), mul(num(P), i)))))
                rep.instance("fullband: every patch ends inside the spectrogram", bad is None, "%s: patch i < %s, columns %s on %s" % (b, show(nn, 6)[:200], first, bad and showcube(bad)[:200]))
                bad = lin.valid(bimp(cc, ge0i(sub(nn, ONE))))
                rep.instance("fullband: there is at least one patch", bad is None, "%s: %s patches" % (b, show(nn, 6)[:200]))
                left = sub(sub(cols, num(first)), mul(num(P), nn))
                bad = lin.valid(bimp(cc, ile(left, num(P + 1))))
                rep.instance("fullband: no further patch fits behind the last", bad is None, "%s: %s patches; columns left over not below %d on %s" % (b, show(nn, 6)[:200], P + 2, bad and showcube(bad)[:200]))
        else:
            for cube, l in leaves(v):
                cc = band(c, cubecond(cube))
                if l.op != "fseq":
                    ok = length(l) is ZERO
                    rep.instance("wideband: starts are taken from the grid of patches", ok, "%s: starts are %s" % (b, show(l, 5)[:300])); continue
                nn, lc, lv = l.a
                e = app(lv, i)
                rep.instance("wideband: grid cell i starts at column %d + %d i" % (first, P), e is add(num(first), mul(num(P), i)), "%s: cell i starts at %s" % (b, show(e, 6)[:200]))
        # too short a reference is refused
        need = bnot(c)
        bad = lin.valid(bimp(c, ile(num(first + P), cols)))
        rep.instance("%s: a spectrogram without room for a patch is refused" % m.name, bad is None, "%s: accepted when %s" % (b, show(c, 6)[:300]))
