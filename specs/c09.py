"""Documented domains: rows (group, label, function, args, keywords, refusal or None if inside the domain, exceptions of the checks)."""
from sa.ctx import *
from sa.terms import mk, add, mul, neg, sub
from sa.scen import real, integer, cb, zpk, opendict, MODELERS

VE, TE, RE = "ValueError", "TypeError", "RuntimeError"


def rows():
    out = []

    def R(group, func, args, kw=None, bad=None, checks=(VE,), label="", pc=()):
        """bad: documented exception of a refused request; None: accepted, and none of `checks` may be raised by a raise statement."""
        out.append((group, "%s(%s)" % (func, label), "pydsm." + func, list(args), dict(kw or {}), bad, checks, tuple(pc)))
    N, K = integer("N", lo=1), integer("K", lo=1)
    osr, H = real("osr", lo=1), real("H_inf", lo=1)
    w1 = cb("w1")
    u = arr("u", N)
    # loudness levels
    for f in ("iso226.iso226_spl_contour", "iso226.iso226_spl_itpl"):
        for hfe in (False, True):
            h = const(hfe)
            t = ",hfe=%s" % hfe
            R("loudness", f, [real("Lhi", lo=90, lo_open=True), h], bad=VE, label=">90" + t)
            R("loudness", f, [real("Llo", hi=0, hi_open=True), h], bad=VE, label="<0" + t)
            R("loudness", f, [real("Lin", lo=0, hi=90), h], label="0..90" + t)
            for b in (0, 90, 0.0, 90.0, 45):
                R("loudness", f, [const(b), h], label="%r%s" % (b, t))
            for b in (-1e-9, 90.000001, 91, -1):
                R("loudness", f, [const(b), h], bad=VE, label="%r%s" % (b, t))
    # centre frequency, order, zeros
    for m in ("delsig.", "NTFdesign.delsig."):
        for fn in ("synthesizeNTF", "ntf_schreier"):
            if fn == "ntf_schreier" and m == "delsig.":
                continue
            f = m + fn
            for uo in (True, False):
                kw = dict(use_optimizer=const(uo))
                t = ",%s" % uo
                for opt in (0, 1, 3):
                    R("frequency", f, [const(4), osr, const(opt), H, real("f0hi", lo=0.5, lo_open=True)], kw, bad=VE, label="opt=%d,f0>0.5%s" % (opt, t))
                    R("frequency", f, [const(4), const(32), const(opt), const(1.5), const(0.5)], kw, label="opt=%d,f0=0.5%s" % (opt, t))
                    R("frequency", f, [const(4), const(32), const(opt), const(1.5), real("f0in", lo=0.05, hi=0.5)], kw, label="opt=%d,f0 in band%s" % (opt, t))
                    R("frequency", f, [const(4), const(32), const(opt), const(1.5), const(0.500001)], kw, bad=VE, label="opt=%d,f0=0.500001%s" % (opt, t))
                    R("order", f, [const(5), const(32), const(opt), H, real("f0in", lo=0.05, hi=0.5)], kw, bad=VE, label="opt=%d,odd bandpass%s" % (opt, t))
                    R("order", f, [const(5), const(32), const(opt), H, const(0)], kw, label="opt=%d,odd lowpass%s" % (opt, t))
                    R("order", f, [const(5), const(32), const(opt), H, const(0.001)], kw, label="opt=%d,odd, f0 within the band%s" % (opt, t))
                    R("order", f, [const(6), const(32), const(opt), H, const(0.25)], kw, label="opt=%d,even bandpass%s" % (opt, t))
                    for o in (1, 3, 7):
                        R("order", f, [const(o), const(32), const(opt), H, const(0.25)], kw, bad=VE, label="opt=%d,%d bandpass%s" % (opt, o, t))
                for o, n in ((4, 3), (4, 5), (4, 2), (3, 4), (2, 1)):
                    R("zeros", f, [const(o), osr, arr("z%d" % n, n, complex=True), H, const(0)], kw, bad=VE, label="%d zeros, order %d%s" % (n, o, t))
                for o in (1, 2, 3, 4):
                    R("zeros", f, [const(o), osr, arr("z%d" % o, o, complex=True), H, const(0)], kw, label="%d zeros, order %d%s" % (o, o, t))
                    R("zeros", f, [const(o), osr, plist("zl%d" % o, *[sym("zz%d" % i, kind="complex", scalar=True) for i in range(o)]), H, const(0)], kw, label="list of %d zeros, order %d%s" % (o, o, t))
                R("zeros", f, [const(4), osr, arr("zm", 2, 2, complex=True), H, const(0)], kw, bad=VE, label="matrix of zeros%s" % t)
                R("zeros", f, [const(4), osr, arr("zm4", 1, 4, complex=True), H, const(0)], kw, bad=VE, label="row matrix of zeros%s" % t)
        for fn in ("synthesizeChebyshevNTF", "ntf_chebyshev"):
            if fn == "ntf_chebyshev" and m == "delsig.":
                continue
            f = m + fn
            for o in (1, 3, 5):
                R("order", f, [const(o), osr, const(0), H, real("f0p", lo=0, lo_open=True, hi=0.5)], bad=VE, label="order %d bandpass" % o)
                R("order", f, [const(o), osr, const(0), H, const(0)], label="order %d lowpass" % o)
            for o in (2, 4):
                R("order", f, [const(o), osr, const(0), H, const(0.25)], label="order %d bandpass" % o)
                R("order", f, [const(o), osr, const(0), H, const(0)], label="order %d lowpass" % o)
    # tables of optimised zeros
    for o in (1, 2, 3):
        for n in range(1, 15):
            R("tables", "delsig.ds_optzeros", [const(n), const(o)], label="%d,%d" % (n, o))
        for n in (15, 16, 40):
            R("tables", "delsig.ds_optzeros", [const(n), const(o)], bad=VE, label="%d,%d" % (n, o))
    for n in (15, 16, 40):
        R("tables", "delsig.ds_optzeros", [const(n)], bad=VE, label="%d" % n)
    for n in (1, 15, 30):
        R("tables", "delsig.ds_optzeros", [const(n), const(0)], label="%d,0" % n)
    for f, more in (("NTFdesign.psychoacoustic.dunn_optzeros", []), ("NTFdesign.psychoacoustic.dunn_optzeros_cplx", [osr]), ("NTFdesign.psychoacoustic.ntf_dunn", [osr, H]),
                    ("NTFdesign.psychoacoustic.synthesize_ntf_dunn", [osr, H])):
        for n in range(1, 9):
            R("tables", f, [const(n)] + more, label="%d" % n)
        for n in (-2, -1, 0, 9, 10, 100):
            R("tables", f, [const(n)] + more, bad=VE, label="%d" % n)
    # selectors
    P2 = const(2)
    q0 = arr("q0", 4)
    for f, a in (("NTFdesign.weighting.ntf_fir_from_q0", (q0, H)), ("NTFdesign.weighting.synthesize_ntf_from_q0", (q0, H)), ("NTFdesign.weighting.ntf_fir_weighting", (P2, w1, H)),
                 ("NTFdesign.weighting.synthesize_ntf_from_noise_weighting", (P2, w1, H)), ("NTFdesign.weighting.ntf_hybrid_weighting", (P2, w1, H)),
                 ("NTFdesign.minmax.ntf_fir_minmax", (P2, const(32), H)), ("NTFdesign.minmax.synthesize_ntf_minmax", (P2, const(32), H)),
                 ("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", (P2, const(32), const("a"))), ("NTFdesign.psychoacoustic.synthesize_ntf_from_audio_weighting", (P2, const(32), const("a"))),
                 ("NTFdesign.filter_based.synthesize_ntf_from_filter", (P2, w1, const("mag"), H))):
        for bad in ("none", "", "CVXPY", "cvxpy_tdr", "cvxopt"):
            R("modeler", f, a, dict(modeler=const(bad)), bad=VE, label="modeler=%r" % bad)
        for n, mo, so in MODELERS:
            kw = dict(modeler=const(mo))
            if mo == "cvxpy":
                kw["cvxpy_opts"] = opendict("cvxpy_opts", solver=const(so))
            R("modeler", f, a, kw, label="modeler=%s" % n)
        R("modeler", f, a, label="default modeler")
    H3 = zpk("", N, K)
    for f, args in (("NTFdesign.filter_based.quantization_noise_gain", lambda h, t: [H3, h, t]), ("NTFdesign.filter_based.quantization_noise_gain_by_conv", lambda h, t: [H3, h, t]),
                    ("NTFdesign.legacy.quantization_noise_gain_by_conv", lambda h, t: [H3, h, t]), ("NTFdesign.filter_based.q0_from_filter", lambda h, t: [integer("P0", lo=0), h, t]),
                    ("NTFdesign.filter_based.synthesize_ntf_from_filter", lambda h, t: [P2, h, t, H])):
        for bad in ("none", "", "ZPK", "tf", "ir"):
            R("filter type", f, args(arr("h", N), const(bad)), bad=VE, label="type=%r" % bad)
        for t, h in (("zpk", H3), ("ba", tup(arr("num", N), arr("den", K))), ("imp", arr("h", N)), ("mag", w1)):
            if t == "mag" and f.endswith("by_conv"):
                R("filter type", f, args(h, const(t)), bad=VE, label="type=%r" % t)
            else:
                R("filter type", f, args(h, const(t)), label="type=%r" % t)
    for f in ("ntf_fir_audio_weighting", "synthesize_ntf_from_audio_weighting"):
        for bad in ("z", "", "A", "e", "ab"):
            R("audio weighting", "NTFdesign.psychoacoustic." + f, [P2, osr, const(bad)], bad=VE, label=repr(bad))
        for ok in "abcdf":
            R("audio weighting", "NTFdesign.psychoacoustic." + f, [P2, osr, const(ok)], label=repr(ok))
        R("audio weighting", "NTFdesign.psychoacoustic." + f, [P2, osr, w1], label="callable")
    # multiband
    def lst_(n, p, **k):
        return plist(p + str(n), *[real("%s%d_%d" % (p, n, i), **k) for i in range(n)])
    f = "NTFdesign.minmax.ntf_fir_minmax"
    for f in ("NTFdesign.minmax.ntf_fir_minmax", "NTFdesign.minmax.synthesize_ntf_minmax"):
        for mo, kw in (("old", {}), ("picos", dict(modeler=const("picos"))), ("cvxpy", dict(modeler=const("cvxpy")))):
            for a, b in ((2, 1), (1, 2), (3, 2), (2, 3), (1, 3), (3, 1)):
                R("multiband", f, [const(4), lst_(a, "osr", lo=1), H, lst_(b, "f0", lo=0, hi=.5)], kw, bad=VE, label="%d osr, %d f0,%s" % (a, b, mo))
            for a in (1, 2, 3):
                R("multiband", f, [const(4), lst_(a, "osr", lo=1), H, lst_(a, "f0", lo=0, hi=.5)], kw, label="%d bands,%s" % (a, mo))
                R("multiband", f, [const(4), osr, H, lst_(a, "f0", lo=0, hi=.5)], kw, label="common osr, %d f0,%s" % (a, mo))
            R("multiband", f, [const(4), lst_(2, "osr", lo=1), H, real("f0s", lo=0, hi=.5)], kw, bad=VE, label="2 osr, scalar f0,%s" % mo)
    # poles
    f = "NTFdesign.weighting.ntf_hybrid_weighting"
    for mo, kw in (("old", {}), ("picos", dict(modeler=const("picos"))), ("cvxpy", dict(modeler=const("cvxpy")))):
        for o, n in ((2, 3), (3, 4), (2, 5), (1, 2)):
            R("poles", f, [const(o), w1, H, arr("pl%d" % n, n, complex=True)], kw, bad=VE, label="%d poles, order %d,%s" % (n, o, mo))
        for o, n in ((2, 2), (3, 2), (4, 4), (3, 0), (2, 1), (1, 1)):
            R("poles", f, [const(o), w1, H, arr("pl%d" % n, n, complex=True) if n else plist("nopoles")], kw, label="%d poles, order %d,%s" % (n, o, mo))
    # complex pairing: elements are confined to regions, so that one row stands for every input of that layout
    IM = mk("I")
    cx = lambda a, b: add(a, mul(IM, b))
    re1, re2, re3 = real("pr1", lo=-1, hi=1), real("pr2", lo=2, hi=3), real("pr3", lo=5, hi=9)
    im1, im2 = real("pi1", lo=1, hi=2), real("pi2", lo=3, hi=4)
    x1, x2 = real("px1", lo=-9, hi=-8), real("px2", lo=4, hi=5)
    dl = real("pdl", lo=-1e-12, hi=1e-12)
    dp = real("pdp", lo=1e-14, hi=1e-12)
    im3 = real("pi3", lo=5, hi=6)
    tiny = real("pti", lo=-1e-17, hi=1e-17)
    pair = lambda a, b: [cx(a, b), cx(a, neg(b))]
    good = {"one pair": pair(re1, im1), "one pair, reversed": pair(re1, im1)[::-1], "a real": [x1], "two reals": [x2, x1], "pair and real": [x1] + pair(re1, im1), "two pairs": pair(re2, im1) + pair(re1, im2),
            "interleaved pairs": [cx(re2, im1), cx(re1, im2), cx(re1, neg(im2)), cx(re2, neg(im1))], "two pairs on one vertical": pair(re1, im1) + pair(re1, im2),
            "three pairs and two reals": pair(re3, im1) + [x2] + pair(re1, im1) + [x1] + pair(re2, im2), "a double pair": pair(re1, im1) * 2,
            "a real with a rounding error": [cx(x2, tiny)] + pair(re1, im1), "two pairs on one vertical, mixed": [cx(re1, im1), cx(re1, im2), cx(re1, neg(im1)), cx(re1, neg(im2))]}
    good_tol = {"conjugates within the tolerance": [cx(re2, im1), cx(re2, sub(neg(im1), dl))], "real parts within the tolerance": [cx(re2, im1), cx(add(re2, dp), neg(im1))],
                "real parts within the tolerance, other side": [cx(re2, im1), cx(sub(re2, dp), neg(im1))]}
    badp = {"one complex": [cx(re1, im1)], "a complex and a real": [cx(re1, im1), x1], "pair and a complex": pair(re1, im1) + [cx(re2, im1)], "different real parts": [cx(re1, im1), cx(re2, neg(im1))],
            "different imaginary parts": [cx(re1, im1), cx(re1, neg(im2))], "the same number twice": [cx(re1, im1)] * 2, "same sign": [cx(re1, im1), cx(re1, im2)],
            "four, one not paired": pair(re1, im1) + [cx(re2, im1), cx(re2, neg(im2))], "four of different real parts": [cx(re1, im1), cx(re2, neg(im1)), cx(re3, im2), cx(x1, neg(im2))], "one pair of two on a vertical": pair(re1, im1) + [cx(re1, im2), cx(re1, neg(im3))],
            "five": pair(re1, im1) + pair(re2, im2) + [cx(re3, im1)], "two pairs short of one": pair(re1, im1) + [cx(re1, im2), cx(re1, im2)]}
    for tl, kw in (("", {}), (",tol", dict(tol=const(1e-9))), (",dim", dict(dim=const(0)))):
        for d, bad in ((good, None), (badp, VE)) + (((good_tol, None),) if tl == ",tol" else ((good_tol, VE),) if not tl and False else ()):
            for n, e in d.items():
                R("pairing", "relab.cplxpair", [plist("cp_" + n, *e)], kw, bad=bad, label=n + tl)
    R("pairing", "relab.cplxpair", [plist("cpe")], label="empty")
    # labels
    pts = arr("pts", N)
    for l, v in (("1.5", const(1.5)), ("real", real("ri", lo=0)), ("None", const(None)), ("'2'", const("2")), ("(1, 2, 3)", tup(const(1), const(2), const(3))), ("(1,)", tup(const(1))), ("(1.5, 2)", tup(const(1.5), const(2))),
                 ("(1, 2.)", tup(const(1), const(2.0))), ("[1]", plist("li1", const(1))), ("()", tup())):
        R("labels", "delsig.axisLabels", [pts, v], bad=TE, checks=(TE,), label=l)
    for l, v in (("1", const(1)), ("int", integer("incr", lo=1)), ("(0, 2)", tup(const(0), const(2))), ("(3, 1)", tup(const(3), const(1))), ("[0, 2]", plist("li2", const(0), const(2)))):
        R("labels", "delsig.axisLabels", [pts, v], checks=(TE,), label=l)
    # transfer functions
    z = arr("zz", K, complex=True)
    R("transfer function", "delsig.evalTF", [tup(arr("num", N)), z], bad=VE, label="1 element")
    R("transfer function", "delsig.evalTF", [tup(), z], bad=VE, label="empty")
    R("transfer function", "delsig.evalTF", [tup(arr("num", N), arr("den", K), real("k"), real("k2")), z], bad=VE, label="4 elements")
    R("transfer function", "delsig.evalTF", [H3, z], label="zpk")
    R("transfer function", "delsig.evalTF", [tup(arr("num", N), arr("den", K)), z], label="ba")
    # modulators
    zp = lambda n, m=None: tup(arr("sz%d" % n, n, complex=True), arr("sp%d" % (m if m is not None else n), m if m is not None else n, complex=True), real("sk"))
    for be in ("scipy", "scipy_blas", "cblas"):
        kw = dict(backend=const(be))

        def B(lab, u, a2, *more, **k):
            R("modulator", "delsig.simulateDSM", [u, a2] + list(more), dict(kw, **k), bad=VE, label=lab + "," + be)

        def G(lab, u, a2, *more, **k):
            R("modulator", "delsig.simulateDSM", [u, a2] + list(more), dict(kw, **k), label=lab + "," + be)
        u2 = lambda n: arr("u%d" % n, n, N)
        B("ABCD with 1 axis", u, arr("ab1", 12))
        B("ABCD with 3 axes", u, arr("ab3", 3, 4, 1))
        for q, o, i in ((1, 2, 1), (2, 2, 1), (1, 3, 2), (2, 1, 2)):
            nl = arr("nl%d" % q, q)
            G("ABCD %dx%d, %d inputs, %d quantizers" % (o + q, o + q + i, i, q), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl)
            B("ABCD with a column too many, %d,%d,%d" % (q, o, i), u2(i), arr("ABx%d%d%d" % (q, o, i), o + q, o + q + i + 1), nl)
            B("ABCD with a column missing, %d,%d,%d" % (q, o, i), u2(i), arr("ABy%d%d%d" % (q, o, i), o + q, o + q + i - 1), nl)
            G("x0 vector %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x0v%d" % o, o))
            G("x0 column %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x0c%d" % o, o, 1))
            B("x0 too long %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x0l%d" % o, o + 1))
            B("x0 too long column %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x0lc%d" % o, o + 1, 1))
            if o > 1:
                B("x0 too short %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x0s%d" % o, o - 1))
            B("x0 with 3 axes %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, arr("x03%d" % o, o, 1, 1))
            if o > 1:
                B("x0 a scalar other than 0, %d,%d,%d" % (q, o, i), u2(i), arr("AB%d%d%d" % (q, o, i), o + q, o + q + i), nl, const(0.5))
            B("no quantizers, %d,%d,%d" % (q, o, i), u2(i), arr("ABn%d%d" % (o, i), o, o + i), plist("nlnone"))
            B("order 0, %d quantizers, %d inputs" % (q, i), u2(i), arr("ABo%d%d" % (q, i), q, q + i), nl)
        for n in (1, 2, 3):
            G("zpk %d" % n, u, zp(n))
            G("zpk %d, row input" % n, arr("u1", 1, N), zp(n))
            G("zpk %d, one level" % n, u, zp(n), plist("nl1l", integer("nl_", lo=2)))
            B("zpk %d with 2 inputs" % n, u2(2), zp(n))
            B("zpk %d with 2 quantizers" % n, u, zp(n), arr("nl2", 2))
        B("zpk with a matrix of zeros", u, tup(arr("zm", 2, 2, complex=True), arr("pm", 2, complex=True), real("sk")))
        B("zpk with a matrix of poles", u, tup(arr("sz2", 2, complex=True), arr("pm2", 2, 2, complex=True), real("sk")))
        B("zpk without zeros", u, tup(plist("nz"), plist("np_"), real("sk")))
        B("u with 3 axes", arr("u3", 1, 1, N), zp(2))
        B("scalar u", real("us"), zp(2))
        B("nlev with 2 axes", u, zp(2), arr("nlm", 1, 1))
    for bad in ("none", "", "SciPy", "blas"):
        R("back end", "delsig.simulateDSM", [u, zp(2)], dict(backend=const(bad)), bad=RE, checks=(RE,), label="%r" % bad)
    for ok in ("scipy", "scipy_blas", "cblas"):
        R("back end", "delsig.simulateDSM", [u, zp(2)], dict(backend=const(ok)), checks=(RE,), label="%r" % ok)
    R("back end", "delsig.simulateDSM", [u, zp(2)], checks=(RE,), label="default")
    return out
