"""C14: ISO 226 formulas and tables."""
from sa.ctx import *


def run(rep, tier):
    rep.explanation = ("Value graphs of every table and formula of the loudness module, for symbolic level and with/without the "
                       "20 kHz extension, compared with the graphs of the standard's formulas over the standard's tables.")
    rep.rule("table", "published table == table of ISO 226:2003 (+ first entry at 20 kHz when extended)")
    rep.rule("formula", "contour level / loudness level == formula of the standard, element by element")
    rep.rule("inverse", "loudness(level of the contour) == loudness, up to the rounding of the standard's constants (0.1 phon)")
    it = new_interp(modules=["pydsm.iso226"], specs=("c14",))
    S = Spec(rep, it, "c14")
    M = "pydsm.iso226."
    n = 14 if tier == "quick" else 120
    LN = sym("L_N", kind="real", lo=0, hi=90)
    LP = sym("L_p", kind="real", lo=90, hi=140)
    hfe = sym("hfe", kind="bool")
    for t in ("tabled_f", "tabled_alpha_f", "tabled_L_U", "tabled_T_f"):
        for lab, a, kw in (("()", [], {}), ("(hfe)", [hfe], {}), ("(hfe=)", [], {"hfe": hfe})):
            S.same("table", t + lab, M + t, t, a, kw)
    for f, x in (("tabled_L_p", LN), ("tabled_L_N", LP), ("iso226_spl_contour", LN), ("iso226_spl_itpl", LN)):
        for lab, a, kw in (("(L)", [x], {}), ("(L, hfe)", [x, hfe], {}), ("(L, hfe=)", [x], {"hfe": hfe})):
            S.same("formula", f + lab, M + f, f, a, kw, n=n, rtol=1e-9)
    for lab, a, kw in (("()", [], {}), ("(hfe=)", [], {"hfe": hfe})):
        for f in ("iso226_spl_contour", "iso226_spl_itpl"):
            S.same("formula", f + lab, M + f, f, a, kw, n=n, rtol=1e-9)
    k = sym("k", kind="int", lo=1, hi=5)
    S.same("formula", "iso226_spl_itpl(L, hfe, k)", M + "iso226_spl_itpl", "iso226_spl_itpl", [LN, hfe, k], n=n)
    for i in range(29):
        S.same("inverse", "frequency %d" % i, it.glob("specs.c14.roundtrip"), "identity", [const(i), LN], n=n, rtol=0, atol=0.1)
