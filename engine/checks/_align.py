"""the global alignment and its parts, as values"""
from ..vn import *
from .. import lin

AL = "alignment::globally_align"; TRUNC = "alignment::align_and_truncate"; LAG = "xcorr::calculate_best_lag"; ENV = "envelope::calculate_upper_env"
XC = "xcorr::calculate_inverse_fft_pointwise_product"; HIL = "envelope::calculate_hilbert"

def somes(t):
    """[(cube, payload)] of an Option or Result"""
    out = []
    for cube, l in leaves(t):
        if l.op == "undef": continue
        if l.op == "agg":
            if "Option#1" in l.a[0]: out.append((cube, l.a[1]))
            elif "Result#0" in l.a[0]: out.append((cube, l.a[1]))
    return out

def implied(cube, c):
    """the branch's condition entails c"""
    return lin.valid(bimp(cubecond(cube), c)) is None
