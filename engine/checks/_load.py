"""the loader evaluated: Result<AudioSignal> as an expression over the opened file"""
from ..vn import *

OPEN = "hound::read::WavReader::open"
HOUND = ["hound::read::WavReader::samples", "hound::read::WavReader::into_samples", "hound::read::WavReader::duration", "hound::read::WavReader::len",
         "hound::read::WavReader::spec"]

class Ld: pass
_l = None
def loader():
    global _l
    if _l: return _l
    l = Ld()
    u = l.u = unit(fnpath("audio_utils::load_as_mono"), (), (), ["PATH"])
    ops = events(u, "WavReader::open")
    if len({e["ret"] for e in ops}) != 1: raise Missing("a single open of the file")
    l.open = ops[0]
    l.ret = uneffect(u.ret, HOUND)
    l.reader = fld(l.open["ret"], 0, 0)
    sp = {uneffect(e["ret"], HOUND) for e in events(u, "WavReader::spec")}
    if len(sp) != 1: raise Missing("a single header of the file (%d found)" % len(sp))
    l.spec = sp.pop()
    l.channels, l.rate, l.bits = fld(l.spec, 0, 0), fld(l.spec, 0, 1), fld(l.spec, 0, 2)
    sa = {uneffect(e["ret"], HOUND) for e in events(u, "WavReader::samples", "WavReader::into_samples")}
    if len(sa) != 1: raise Missing("a single sample stream (%d found)" % len(sa))
    l.samples = sa.pop()
    l.ok, v = oks(l.ret)
    l.sig = drop_undef(restrict(v, l.ok))
    l.opened = bnot(disc(l.open["ret"], 1, 2))
    _l = l
    return l
