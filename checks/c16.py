"""C16: noise gains and weighting coefficients integrate the documented integrand."""
from sa.ctx import *


def run(rep, tier):
    rep.explanation = ("Value graph of each merit-factor / coefficient function, integrand closure included, on symbolic NTFs (any number of "
                       "zeros, poles, coefficients), weightings (callable, zpk, ba, none), bands, orders; compared with the graph of the documented integral.")
    rep.rule("integral", "value graph (integrand, bounds and factor of every quadrature) == graph of the documented formula")
    it = new_interp(specs=("c16",))
    S = Spec(rep, it, "c16")
    G = lambda n: it.glob("specs.c16." + n)
    n = 5 if tier == "quick" else 40

    def filt(s):
        """zpk and ba descriptions with symbolic sizes"""
        zpk = tup(arr("z" + s, sym("nz" + s, kind="int", lo=0), complex=True), arr("p" + s, sym("np" + s, kind="int", lo=0), complex=True), sym("k" + s, kind="real"))
        ba = tup(arr("b" + s, sym("nb" + s, kind="int", lo=1)), arr("a" + s, sym("na" + s, kind="int", lo=1)))
        lzpk = tup(plist("lz" + s, sym("lz0" + s, kind="real"), sym("lz1" + s, kind="real")), plist("lp" + s, sym("lp0" + s, kind="real")), sym("lk" + s, kind="real"))
        return (("zpk", zpk), ("ba", ba), ("zpk of lists", lzpk))
    w = sym("w", kind="callable", realvalued=True)
    wc = sym("wc", kind="callable")
    f1, f2 = sym("f1", kind="real", lo=0, hi=0.5), sym("f2", kind="real", lo=0, hi=0.5)
    bounds = tup(f1, f2)
    dom = {"f1": lambda E: E.rng.uniform(0, 0.2), "f2": lambda E: E.rng.uniform(0.25, 0.5)}
    avg = sym("avg", kind="bool")

    def cf(construct, impl, spec, args, kw=None, **k):
        k.setdefault("n", n)
        k.setdefault("rtol", 1e-6)
        S.same("integral", construct, impl, spec, args, kw, **k)
    q = "pydsm.NTFdesign.merit_factors.quantization_noise_gain"
    NT = filt("n")
    WS = (("none", None), ("callable", w)) + filt("w")
    from sa.terms import const as K
    for ln, ntf in NT:
        for lw, ww in WS:
            a = [ntf] + ([] if ww is None else [ww])
            lab = "quantization_noise_gain(NTF %s, w %s" % (ln, lw)
            cf(lab + ")", q, "qng", a)
            a2 = [ntf, K(None) if ww is None else ww]
            cf(lab + ", bounds)", q, "qng", a2 + [bounds], domain=dom)
            cf(lab + ", bounds, avg)", q, "qng", a2 + [bounds, avg], domain=dom)
            cf(lab + ", bounds=, avg=)", q, "qng", a2, {"bounds": lst(f1, f2), "avg": avg}, domain=dom)
            cf(lab + ", avg=True)", q, "qng", a2, {"avg": K(True)})
    P = sym("P", kind="int", lo=0)
    cvx = (("callable", w),) + filt("w")
    for lw, ww in cvx:
        cf("q0_weighting(P, %s)" % lw, "pydsm.NTFdesign.weighting.q0_weighting", "q0", [P, ww])
        cf("q0_from_noise_weighting(P, %s)" % lw, "pydsm.NTFdesign.weighting.q0_from_noise_weighting", "q0", [P, ww])
    imp = arr("h", sym("L", kind="int", lo=1))
    himp = sym("L", kind="int", lo=1)
    lim = {"P": lambda E: int(E.rng.integers(0, int(E.ev(himp)) + 1))}
    hm = sym("hm", kind="callable", realvalued=True)
    HS = [("zpk", filt("w")[0][1], {}), ("ba", filt("w")[1][1], {}), ("imp", imp, lim), ("mag", hm, {})]
    for nm, spec, first in (("quantization_noise_gain", "qng_filter", None), ("q0_from_filter", "q0_filter", P)):
        qn = "pydsm.NTFdesign.filter_based." + nm
        for lh, hh, d in HS:
            for ln, ntf in (NT[:2] if first is None else (("", None),)):
                a = [ntf if first is None else P, hh]
                cf("filter_based.%s(%s, %s)" % (nm, ln or "P", lh), qn, spec, a + [K(lh)], domain=d)
                cf("filter_based.%s(%s, H_type=%s)" % (nm, ln or "P", lh), qn, spec, a, {"H_type": K(lh)}, domain=d)
                if lh == "zpk":
                    cf("filter_based.%s(%s, default type)" % (nm, ln or "P"), qn, spec, a, domain=d)
    for ln, ntf in NT[:2]:
        for lh, hh in (("zpk", HS[0][1]), ("ba", HS[1][1]), ("imp", imp)):
            db = sym("db", kind="real", lo=1)
            for m in ("legacy", "filter_based"):
                qn = "pydsm.NTFdesign.%s.quantization_noise_gain_by_conv" % m
                cf("%s.quantization_noise_gain_by_conv(%s, %s, db)" % (m, ln, lh), qn, "by_conv", [ntf, hh, K(lh), db])
                cf("%s.quantization_noise_gain_by_conv(%s, %s)" % (m, ln, lh), qn, "by_conv", [ntf, hh, K(lh)])
    cf("legacy.q0_from_filter_ir", "pydsm.NTFdesign.legacy.q0_from_filter_ir", "q0_ir", [P, imp], domain=lim)
    m = sym("m", kind="int", lo=1)
    cf("impulse_response(zpk, m)", "pydsm.ir.impulse_response", "ir_zpk", [NT[0][1], m])
    cf("impulse_response(ba, m)", "pydsm.ir.impulse_response", "ir_ba", [NT[1][1], m])
