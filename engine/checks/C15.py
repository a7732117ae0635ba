"""C15: FFT sizes are powers of two that fit the data"""
from ..vn import *

def ispow2(t):
    if t.op == "num": return t.a[0].denominator == 1 and t.a[0] > 0 and bin(int(t.a[0])).count("1") == 1
    return t.op == "fn" and (t.a[0] == "next_pow2" or t.a[0] == "ipow" and ispow2(t.a[1]))

def arg(t, name):
    """x if t is name(x)"""
    return t.a[1] if t.op == "fn" and t.a[0] == name else None

def below(t):
    """integer terms that the power of two t is never smaller than"""
    out = [t, ONE]
    if t.op != "fn": return out
    if t.a[0] == "next_pow2": out.append(t.a[1])
    if t.a[0] == "ipow" and t.a[1] is num(2):
        e = t.a[2]
        for x in terms_where(e, lambda z: z.op == "fn" and z.a[0] == "log2"):
            m = x.a[1]
            if not integral(m): continue
            for r, gain in ((fn("floor", x), -1), (fn("ceil", x), 0)):
                d = sub(e, r)           # 2^(floor(log2 m) + 1) > m,  2^ceil(log2 m) >= m
                if is_num(d) and d.a[0] + gain >= 0: out.append(add(m, ONE) if gain == -1 or d.a[0] > 0 else m)
    return out

def atleast(l, n, cube):
    """size leaf l is at least n on the cube"""
    pc = cubecond(cube)
    cand = below(l)
    for a, v in cube:                       # other powers of two the cube bounds l by
        for x in terms_where(a, lambda z: z.op == "fn" and z.a[0] in ("next_pow2", "ipow")):
            if bimp(pc, ge0i(sub(l, x))) is TRUE: cand += below(x)
    return any(bimp(pc, ge0i(sub(c, n))) is TRUE for c in cand)

def sized(rep, what, t, least, cond, where):
    """every leaf of size t is a power of two and at least each of the given terms"""
    n = 0
    for cube, l in leaves(restrict(t, cond)):
        cc = [(a, v) for a, v in cube]
        pc = band(cond, cubecond(cube))
        if pc is FALSE or l.op == "undef": continue
        for c2, _ in leaves(pc):
            if _ is not TRUE: continue
            n += 1
            rep.instance("%s is a power of two" % what, ispow2(l), "%s: %s is %s on %s" % (where, what, show(l, 6)[:200], showcube(c2)))
            for name, k in least:
                kk = restrict(k, cubecond(c2))
                rep.instance("%s is at least %s" % (what, name), atleast(l, kk, c2), "%s: %s is %s, which may be less than %s on %s" % (where, what, show(l, 6)[:200], show(kk, 5)[:100], showcube(c2)))
    return n

def run(rep):
    rep.rule("value numbering of the size computations: every leaf of an FFT size is a power of two by form (constant, next power of two, or 2 to an integer) and its lower bounds "
             "(next_pow2(x) >= x, 2^(floor(log2 m)+1) > m) entail the required length; the transforms of the cross-correlation read each signal in full, followed by zeros")
    N = sym("LEN", "u")
    nz = ge0i(sub(N, ONE))
    u = unit(fnpath("math_utils::next_pow_two"), (), (), ["LEN"])
    rep.floor("size leaves of next_pow_two", sized(rep, "the next power of two", replace(u.ret, {sym("LEN"): N}), [("its argument", N)], nz, u.bid), 1)
    u = unit(fnpath("fft_manager::FftManager::new"), (), (), ["LEN"])
    v = replace(u.ret, {sym("LEN"): N})
    mn = num(32)
    rep.floor("size leaves of FftManager::new", sized(rep, "the FFT size", F(v, "FftManager", "fft_size"), [("the number of samples", N), ("the minimum size", mn)], nz, u.bid), 1)
    p = F(v, "FftManager", "samples_per_channel")
    rep.instance("the manager is made for the number of samples given", restrict(p, nz) is N, "%s: samples_per_channel is %s" % (u.bid, show(p, 5)[:200]))
    # cross-correlation
    u = unit(fnpath("xcorr::calculate_inverse_fft_pointwise_product"), (), (), ["A", "B"])
    A, B = sym("A"), sym("B")
    la, lb = length(A), length(B)
    pos = band(ge0i(sub(la, ONE)), ge0i(sub(lb, ONE)))
    j = sym("j", "u")
    el = restrict(sel(u.ret, j), band(pos, ilt(j, length(u.ret))))
    nf = 0
    for name, case, m in (("first signal longer", ge0i(sub(la, lb)), la), ("second signal longer", bnot(ge0i(sub(la, lb))), lb)):
        pc = band(pos, case)
        x = restrict(el, pc)
        ts = terms_where(x, lambda z: z.op == "fft" and str(z.a[0]) == "fwd")
        sizes = set(); seen = {}
        for t in ts:
            nf += sized(rep, "the correlation's FFT size (%s)" % name, t.a[1], [("twice the longer length minus one", sub(mul(num(2), m), ONE))], pc, u.bid)
            for cube, s in leaves(restrict(t.a[1], pc)): sizes.add(s)
            k = sym("k", "u")
            v = restrict(sel(t.a[2], k), band(pc, ilt(k, restrict(t.a[1], pc)), ilt(k, length(restrict(t.a[2], pc)))))
            for who, S in (("first", A), ("second", B)):
                if not draws(v, S): continue
                seen[who] = 1
                want = ite(ilt(k, length(S)), sel(S, k), ZERO)
                cond = band(pc, ilt(k, restrict(t.a[1], pc)), ilt(k, length(restrict(t.a[2], pc))))
                pw = terms_where(v, lambda z: ispow2(z) and z.op == "fn")
                facts = [sub(l, b) for l in pw for b in below(l)]
                ok = restrict(v, cond) is restrict(want, cond) or casewise(restrict(v, cond), restrict(want, cond), cond, facts) is None
                rep.instance("the %s signal is transformed in full, then zeros (%s)" % (who, name), ok, "%s: sample k of the transform's input is %s, not %s" % (u.bid, show(v, 6)[:300], show(want, 5)))
        rep.instance("both signals are transformed (%s)" % name, set(seen) == {"first", "second"}, "%s: only %s" % (u.bid, sorted(seen)))
        szs = {restrict(s, pc) for t in ts for s in [t.a[1]]}
        rep.instance("both signals are padded to a common size (%s)" % name, len(szs) == 1, "%s: sizes %s" % (u.bid, "; ".join(show(s, 5)[:150] for s in szs)))
    rep.floor("transforms in the cross-correlation", nf, 4)
