"""C12: audio weighting curves against the published filters."""
from sa.ctx import *


def run(rep, tier):
    rep.explanation = ("The value graphs of the curve functions (all four combinations of normal/power, scalar and array frequency) "
                       "are compared with the magnitude of the published zero/pole/gain data taken from the module's own source.")
    rep.rule("filter-magnitude", "unnormalised amplitude curve(f) == |k prod(j2pi f - z)/prod(j2pi f - p)|")
    rep.rule("filter-shape", "curve(f)/curve(1000) == |H(f)|/|H(1000)|, amplitude and power")
    rep.rule("power-is-square", "power form == square of the gain form")
    rep.rule("unit-at-1kHz", "normalised gain at 1 kHz == 1 and default arguments == normalised power form")
    it = new_interp(modules=["pydsm.audio_weightings"], specs=("c12",))
    S = Spec(rep, it, "c12")
    N = sym("N", kind="int", lo=1)
    n = 14 if tier == "quick" else 200
    rep.assumptions = ["floating-point rounding: agreement to 1e-6 relative (curve constants are published with about 10 digits)"]

    def freq(E):
        return 10 ** E.rng.uniform(0.3, 5)

    def freqs(E):
        return 10 ** E.rng.uniform(0.3, 5, size=int(E.ev(N)))
    env = it.get(it.modules["pydsm.audio_weightings"]).data
    names = sorted(k[:-4] for k in env if k.endswith("_zpk"))
    if len(names) < 5:
        raise AnalysisError("published filters vanished: %s" % names)
    for c in names:
        nc = const(c)
        for lab, f, dom in (("scalar", sym("f", kind="real", lo=0, lo_open=True), {"f": freq}), ("array", arr("fa", N, lo=0), {"fa": freqs})):
            kw = dict(domain=dom, n=n, rtol=1e-6, atol=0)
            G = it.glob

            def same(rule, what, a, b):
                S.same(rule, "%s-weighting %s (%s f)" % (c.upper(), what, lab), G("specs.c12." + a), b, [nc, f], **kw)
            S.same("filter-magnitude", "%s-weighting unnormalised curve (%s f)" % (c.upper(), lab), G("specs.c12.amp"), "filt", [nc, f], domain=dom, n=n, rtol=1e-3, atol=0)
            same("filter-shape", "unnormalised curve", "amp_rel", "filt_rel")
            same("filter-shape", "normalised curve", "amp_n", "filt_n")
            same("filter-shape", "normalised power curve", "pow_n", "filt_rel_sq")
            same("power-is-square", "normalised", "pow_n", "sq_amp_n")
            same("power-is-square", "unnormalised", "pow_u", "sq_amp_u")
            same("unit-at-1kHz", "defaults", "dflt", "pow_n")
            if lab == "scalar":
                same("unit-at-1kHz", "gain at 1 kHz", "at1k", "one")
    rep.add("weightings", len(names))
