"""Superseded functions, their replacements and the call forms compared."""
from sa.ctx import *
from sa.scen import real, integer, cb, zpk, opendict, user_opts, MODELERS


def pairs():
    out = []
    N, M, K = integer("N", lo=1), integer("M", lo=1), integer("K", lo=1)
    f0, osr = real("f0", lo=0, hi=0.5), real("osr", lo=1)
    order, Hinf = integer("order", lo=1), real("H_inf", lo=1)
    nz, npo = integer("nz", lo=1), integer("npl", lo=1)
    H3 = zpk("", nz, npo)
    H2 = tup(arr("num", nz), arr("den", npo))
    w1 = cb("w1")
    P = integer("P", lo=2)
    qo = opendict("quad_opts", epsabs=real("u_epsabs", lo=0), limit=integer("u_limit", lo=1))

    def add(old, new, label, args, kw=None, nargs=None, nkw=None):
        kw = dict(kw or {})
        out.append((old, new, label, list(args), kw, list(args if nargs is None else nargs), dict(kw if nkw is None else nkw)))

    def forms(old, new, names, values, req, kw=None, label=""):
        """required only; all positional; all by keyword."""
        add(old, new, label + "required", values[:req], kw)
        add(old, new, label + "all positional", values, kw)
        add(old, new, label + "keywords", [], dict(kw or {}, **dict(zip(names, values))))
        for i in range(req, len(names)):
            add(old, new, label + names[i] + "=", values[:req], dict(kw or {}, **{names[i]: values[i]}))
    # utilities
    for nm, a in (("array", arr("x", N)), ("scalar", real("xs"))):
        forms("utilities.db", "relab.db", ["x", "signal_type", "R"], [a, const("power"), real("R", lo=0, lo_open=True)], 1, label=nm + ",")
        forms("utilities.db", "relab.db", ["x", "signal_type", "R"], [a, const("voltage"), real("R", lo=0, lo_open=True)], 1, label=nm + ",voltage,")
    for nm, a in (("array", arr("xx", N, complex=True)), ("matrix", arr("X2", N, M, complex=True))):
        forms("utilities.cplxpair", "relab.cplxpair", ["x", "tol", "dim"], [a, real("tol", lo=0), integer("dim", lo=0)], 1, label=nm + ",")
    # delsig
    for o in (0, 1, 2, 3, 4):
        for uo in (None, True, False):
            kw = {} if uo is None else {"use_optimizer": const(uo)}
            forms("NTFdesign.delsig.synthesizeNTF", "delsig.synthesizeNTF", ["order", "osr", "opt", "H_inf", "f0"], [order, osr, const(o), Hinf, f0], 0, kw, label="opt=%d,%s," % (o, uo))
    add("NTFdesign.delsig.synthesizeNTF", "delsig.synthesizeNTF", "zeros", [const(4), osr, arr("zopt", 4, complex=True), Hinf, f0])
    add("NTFdesign.delsig.synthesizeNTF", "delsig.synthesizeNTF", "unknown option", [], {"bogus": real("b")})
    for o in (0, 1):
        forms("NTFdesign.delsig.synthesizeChebyshevNTF", "delsig.synthesizeChebyshevNTF", ["order", "osr", "opt", "H_inf", "f0"], [order, osr, const(o), Hinf, f0], 0, label="opt=%d," % o)
        forms("NTFdesign.delsig.clans", "delsig.clans", ["order", "osr", "nq", "rmax", "opt"], [const(5), osr, real("nq", lo=1), real("rmax", lo=0, hi=1), const(o)], 0,
              {"slsqp_opts": opendict("slsqp_opts", eps=real("u_eps"), maxiter=integer("u_maxiter", lo=1))}, label="opt=%d," % o)
    # weighting
    for nm, w in (("callable", w1), ("zpk", H3), ("ba", H2)):
        W = "NTFdesign.weighting."
        add(W + "q0_from_noise_weighting", W + "q0_weighting", nm, [P, w])
        add(W + "q0_from_noise_weighting", W + "q0_weighting", nm + ",options", [P, w], {"quad_opts": qo})
        add(W + "q0_from_noise_weighting", W + "q0_weighting", nm + ",keywords", [], {"P": P, "w": w})
        b = tup(real("b0", lo=0, hi=0.5), real("b1", lo=0, hi=0.5))
        g, h = W + "quantization_weighted_noise_gain", "NTFdesign.merit_factors.quantization_noise_gain"
        forms(g, h, ["NTF", "w", "bounds"], [H3, w, b], 1, label=nm + ",")
        forms(g, h, ["NTF", "w", "bounds"], [H2, w, b], 1, {"quad_opts": qo}, label=nm + ",ba,options,")
    q0 = arr("q0", integer("Q", lo=3))
    for nm, mo, so in MODELERS:
        W = "NTFdesign.weighting."
        kq, kf, km = user_opts(mo, so, quad=False), user_opts(mo, so), user_opts(mo, so, quad=False, fix=False)
        plain = {"modeler": const(mo)}
        for lab, kw in (("options", kq), ("plain", plain)):
            forms(W + "synthesize_ntf_from_q0", W + "ntf_fir_from_q0", ["q0", "H_inf", "normalize"], [q0, Hinf, real("nrm")], 1, kw, label="%s,%s," % (nm, lab))
        for lab, kw in (("options", kf), ("plain", plain)):
            add(W + "synthesize_ntf_from_noise_weighting", W + "ntf_fir_weighting", "%s,%s,required" % (nm, lab), [P, w1], kw)
            add(W + "synthesize_ntf_from_noise_weighting", W + "ntf_fir_weighting", "%s,%s,positional" % (nm, lab), [P, H3, Hinf, real("nrm")], kw)
            add(W + "synthesize_ntf_from_noise_weighting", W + "ntf_fir_weighting", "%s,%s,keywords" % (nm, lab), [], dict(kw, order=P, noise_weighting=w1, H_inf=Hinf, normalize=const(None)),
                [P, w1, Hinf, const(None)], kw)
            A = "NTFdesign.psychoacoustic."
            names = ["order", "osr", "audio_weighting", "audio_band", "max_attn", "H_inf", "normalize"]
            forms(A + "synthesize_ntf_from_audio_weighting", A + "ntf_fir_audio_weighting", names,
                  [P, osr, w1, real("band", lo=0, lo_open=True), real("attn", lo=0), Hinf, real("nrm")], 2, kw, label="%s,%s," % (nm, lab))
            F = "NTFdesign.filter_based."
            for ht, h in (("zpk", H3), ("ba", H2), ("imp", arr("h", N)), ("mag", w1)):
                if lab == "options" and ht == "imp":
                    continue    # a quadrature option is accepted but has nothing to configure
                add(F + "synthesize_ntf_from_filter", "specs.c05f.synthesize", "%s,%s,%s" % (nm, lab, ht), [P, h, const(ht), Hinf, real("nrm")], kw)
                add(F + "synthesize_ntf_from_filter", "specs.c05f.synthesize", "%s,%s,%s,required" % (nm, lab, ht), [P, h, const(ht)], kw)
        forms("NTFdesign.minmax.synthesize_ntf_minmax", "NTFdesign.minmax.ntf_fir_minmax", ["order", "osr", "H_inf", "f0", "zf"], [P, osr, Hinf, f0, const(False)], 0, km, label=nm + ",")
    forms("NTFdesign.psychoacoustic.synthesize_ntf_dunn", "NTFdesign.psychoacoustic.ntf_dunn", ["order", "osr", "H_inf"], [const(4), osr, Hinf], 0)
    F = "NTFdesign.filter_based."
    for ht, h in (("zpk", H3), ("ba", H2), ("imp", arr("h", N)), ("mag", w1)):
        for lab, kw in (("", {}), (",options", {"quad_opts": qo})):
            add(F + "quantization_noise_gain", "specs.c05f.noise_gain", ht + lab, [H3, h, const(ht)], kw)
            add(F + "q0_from_filter", "specs.c05f.q0", ht + lab, [P, h, const(ht)], {} if ht == "imp" else kw)
        if ht != "mag":
            forms(F + "quantization_noise_gain_by_conv", "NTFdesign.legacy.quantization_noise_gain_by_conv", ["NTF", "H", "H_type", "db"], [H3, h, const(ht), real("db", lo=0)], 3, label=ht + ",")
    add(F + "quantization_noise_gain", "specs.c05f.noise_gain", "default type", [H3, H3])
    add(F + "q0_from_filter", "specs.c05f.q0", "default type", [P, H3])
    add(F + "synthesize_ntf_from_filter", "specs.c05f.synthesize", "default type", [P, H3])
    add(F + "quantization_noise_gain_by_conv", "NTFdesign.legacy.quantization_noise_gain_by_conv", "default type", [H3, H3])
    return out
