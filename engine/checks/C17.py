"""C17: the coefficient designed for a role is the one the cascade uses in that role."""
from ._spect import *

def run(rep):
    rep.rule("value numbering: each column of make_filters' table is identified by the value computed for it (gammatone section formulas over the band's centre "
             "frequency); the spectrogram element equals the four-section cascade whose coefficients are exactly those columns of one row")
    u, cols, vals, want, cfk, k, freqs = roles()
    rep.cov["columns of the design table"] = len(vals)
    for r in want:
        rep.instance("design provides coefficient %s" % r, r in cols,
                     "%s: no column of the table holds the %s coefficient of the section: expected\n      %s\n    columns not matched: %s" % (
                         u.bid, r, show(replace(want[r], {cfk: sym("CF")}), 9)[:500],
                         ["%d: %s" % (i, show(replace(v, {cfk: sym("CF")}), 7)[:200]) for i, v in enumerate(vals) if i not in cols.values()]))
    if len(cols) < len(want): return
    s = spectrogram()
    if s.table is None: raise Missing("a single call of the filter design")
    rows = {z.a[0].a[1] for z in terms_where(s.E, lambda z: z.op == "sel" and z.a[0].op == "sel" and z.a[0].a[0] is s.table)}
    rep.instance("all coefficients of a band come from one row of the design", len(rows) == 1, "%s: rows used together: %s" % (s.u.bid, [show(r, 5) for r in rows]))
    if len(rows) != 1: return
    row = rows.pop()
    spec = rms_cascade(s, lambda r: sel(sel(s.table, row), num(cols[r])))
    equal(rep, "cascade applies every coefficient in its role", s.E, spec, None, s.u.bid)
    rep.count("sections compared", 4)
    # the filterbank on its own, with arbitrary coefficient fields: gain divides one numerator once
