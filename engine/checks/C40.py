"""C40: a time slice of a signal is sample accurate, silence where the signal has no samples"""
from ..vn import *
from .. import lin
SLICE = "ComparisonPatchesSelector::slice"

def run(rep):
    rep.rule("value numbering of the segment from time a to time b (0 <= a <= b, and a < 0 <= b apart): by cases, its length is the difference of the two sample indices, and sample j is the "
             "signal's own at the start index + j or zero exactly outside the signal (index inequalities by linear entailment with the axioms of truncation)")
    P, Q = fn("sqrt", sym("P")), fn("sqrt", sym("Q"))
    for name, a, b in (("a start inside", P, add(P, Q)), ("a start before", neg(P), Q)):
        u = unit(fnpath(SLICE), (), (), ["SIG", a, b])
        S = sym("SIG"); X = F(S, "AudioSignal", "data_matrix"); r = F(S, "AudioSignal", "sample_rate")
        n = length(X)
        first = trunc(mul(P, r), True); last = trunc(mul(b, r), True)
        inside = a is P
        off = first if inside else neg(first)
        N = sub(last, first) if inside else add(last, first)
        pre = band(ile(first, n) if inside else TRUE, ile(first, last) if inside else TRUE, *([] if inside else [fgt0(P), fgt0(r)]))
        # the part behind the signal: trunc(x - n) = max(0, trunc(x) - n)
        X_ = mul(b, r)
        lemma = {trunc(sub(X_, n), True): imax(ZERO, sub(last, n))}
        prep = lambda t: restrict(replace(t, lemma), pre)
        D = F(u.ret, "AudioSignal", "data_matrix")
        equal(rep, "the segment keeps the sample rate (%s)" % name, F(u.ret, "AudioSignal", "sample_rate"), r, pre, u.bid)
        k = 0
        for cube, l in leaves(prep(length(D))):
            q = band(pre, cubecond(cube))
            if lin.valid(bnot(q)) is None: continue
            k += 1
            rep.instance("a segment is as long as its time span (%s)" % name, lin.valid(bimp(q, ieq(l, N))) is None, "%s: on %s it has %s samples" % (u.bid, showcube(cube)[:400], show(l, 6)[:200]))
        rep.floor("cases of a segment's length (%s)" % name, k, 1)
        j = sym("j", "u"); k = 0
        for cube, l in leaves(prep(restrict(sel(D, j), ilt(j, length(D))))):
            q = band(pre, cubecond(cube), ilt(j, N))
            if lin.valid(bnot(q)) is None: continue
            k += 1
            at = "%s: on %s sample j is %s" % (u.bid, showcube(cube)[:500], show(l, 6)[:200])
            i = add(off, j)
            isin = band(ge0i(i), ilt(i, n))
            if l is ZERO: rep.instance("silence stands only where the signal has no sample (%s)" % name, lin.valid(bimp(q, bnot(isin))) is None, at)
            else:
                ok = l.op == "sel" and l.a[0] is X and lin.valid(bimp(q, band(ieq(l.a[1], i), isin))) is None
                rep.instance("every other sample is the signal's own (%s)" % name, ok, at)
        rep.floor("cases of a segment's sample (%s)" % name, k, 2)
