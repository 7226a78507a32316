"""N06: for an NTF description the output is the input plus the quantization error filtered by the NTF."""
import itertools
from sa.simul import *


def run(rep, tier):
    rep.explanation = ("Output and quantizer input of each simulator, as value graphs over symbolic input, zeros and poles (real ones and conjugate pairs), "
                       "must satisfy v = u + NTF (v - y), the filter being written as a difference equation from the polynomials of the zeros and poles.")
    rep.rule("shaped", "value graph of v == graph of u + difference equation of the NTF applied to v - y")
    jobs = []
    for b in BACKENDS:
        for xn, xmax in itertools.product((False, True), repeat=2):
            for lab, nl in (("one level count", NL1), ("vector of one level count", lst(NL1))):
                jobs.append(("shaped", "%s, store_xn=%d store_xmax=%d, %s" % (b, xn, xmax, lab), "output", "shaped", [U1, NTF, nl, const(b), const(xn), const(xmax)]))
    compare_all(rep, "c07", jobs, 30 if tier == "quick" else 200, rtol=1e-6, atol=1e-7)
