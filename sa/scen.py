"""Catalogue of the public functions with abstract arguments (one entry per selectable branch).

Each scenario: label, dotted function, positional argument builders, keyword argument builders, tags.
Argument builders are terms, values or callables taking the interpreter."""
from .ctx import *


class Scen(object):
    def __init__(self, label, func, args=(), kw=None, **tags):
        self.label, self.func, self.args, self.kw, self.tags = label, func, list(args), dict(kw or {}), tags

    def run(self, it, pc=()):
        f = it.glob(self.func)
        if f is None:
            raise AnalysisError("anchor %s vanished" % self.func)
        return it.run(f, self.args, self.kw, pc=pc)


def opendict(name, **kw):
    """Caller-owned dictionary with the given items."""
    def f(it):
        r = it.newdict((), ("param", name))
        for k, v in kw.items():
            it.dict_set(r, const(k), v(it) if callable(v) else v, None, quiet=True)
        return r
    return f


def real(name, **k):
    return sym(name, kind="real", **k)


def integer(name, **k):
    return sym(name, kind="int", **k)


def cb(name, nonneg=False, cplx=False):
    return sym(name, kind="callable", **({"complex": True} if cplx else {}))


def zpk(tag, nz, np_):
    return tup(arr("z" + tag, nz, complex=True), arr("p" + tag, np_, complex=True), real("k" + tag))


MODELERS = [("old/cvxopt", "cvxpy_old", None), ("cvxpy/cvxopt", "cvxpy", "cvxopt"), ("cvxpy/scs", "cvxpy", "scs"), ("picos", "picos", None)]
QUAD = ("epsabs", "epsrel", "limit", "points")
CVXOPT = ("maxiters", "abstol", "reltol", "feastol")
SCS = ("max_iters", "eps", "alpha", "normalize", "use_indirect", "acceleration_lookback")


def user_opts(modeler, solver, quad=True, fix=True):
    """Options as a user gives them, nested dictionaries caller owned."""
    kw = {"modeler": const(modeler), "show_progress": sym("show_progress", kind="bool")}
    if fix:
        kw["fix_pos"] = sym("fix_pos", kind="bool")
    if quad:
        kw["quad_opts"] = opendict("quad_opts", epsabs=real("u_epsabs", lo=0))
    if modeler == "cvxpy":
        kw["cvxpy_opts"] = opendict("cvxpy_opts", solver=const(solver))
        if solver == "scs":
            kw["scs_opts"] = opendict("scs_opts", alpha=real("u_alpha"))
        else:
            kw["cvxopt_opts"] = opendict("cvxopt_opts", abstol=real("u_abstol"))
    else:
        kw["cvxopt_opts"] = opendict("cvxopt_opts", abstol=real("u_abstol"))
    return kw


def catalogue():
    T.STRICT = {}
    try:
        return _catalogue()
    finally:
        T.STRICT = None


def _catalogue():
    N, M, K = integer("N", lo=1), integer("M", lo=1), integer("K", lo=1)
    f0, osr = real("f0", lo=0, hi=0.5), real("osr", lo=1)
    x, y, xc = arr("x", N), arr("y", M), arr("xc", N, complex=True)
    fv = arr("f", K, lo=0)
    nz, npo = integer("nz", lo=1), integer("npl", lo=1)
    H3 = zpk("", nz, npo)
    H2 = tup(arr("num", nz), arr("den", npo))
    HL = tup(plist("zl", sym("z0", kind="complex"), sym("z1", kind="complex")), plist("pl", sym("p0", kind="complex")), real("kl"))
    out = []

    def S(func, *args, **o):
        kw = o.pop("kw", None)
        lab = o.pop("label", "")
        out.append(Scen(func.replace("pydsm.", "") + ("[%s]" % lab if lab else ""), func if func.startswith("pydsm") else "pydsm." + func, args, kw, **o))
    # audio weightings
    for w in "abcdf":
        for nm, a in (("array", fv), ("scalar", real("fs_", lo=0))):
            S("audio_weightings.%s_weighting" % w, a, sym("normal", kind="bool"), sym("power", kind="bool"), label=nm)
    # correlations, ft, ir, iso226
    S("correlations.raw_acorr", x, integer("lags", lo=0))
    S("correlations.raw_xcorr", x, y, integer("lags", lo=0))
    for nm, a in (("array", x), ("complex", xc), ("list", plist("xl", real("x0_"), real("x1_")))):
        S("ft.dtft", a, real("fs", lo=0, lo_open=True), real("t0"), label=nm)
        S("ft.dtft_hermitian", a, real("fs", lo=0, lo_open=True), label=nm)
        S("ft.fft_centered", a, real("fs", lo=0, lo_open=True), label=nm)
    qo = opendict("quad_opts", epsabs=real("u_epsabs", lo=0))
    for h in ("idtft", "idtft_hermitian"):
        S("ft." + h, cb("F"), arr("tt", K), real("fs", lo=0, lo_open=True), kw=dict(quad_opts=qo), label="array")
        S("ft." + h, cb("F"), real("t_"), label="scalar")
        S("ft." + h, cb("F"), plist("tl", real("t0_"), real("t1_")), label="list")
    db = real("dB", lo=0)
    for nm, h in (("zpk", H3), ("ba", H2), ("lists", HL), ("array", tup(arr("num", nz), arr("den", npo)))):
        S("ir.guess_ir_length", h, db, label=nm)
        S("ir.impulse_response", h, const(None), db, label=nm + ",auto")
        S("ir.impulse_response", h, integer("m", lo=1), label=nm)
    LN = real("L_N", lo=0, hi=90)
    hfe = sym("hfe", kind="bool")
    S("iso226.iso226_spl_contour", LN, hfe)
    S("iso226.iso226_spl_itpl", LN, hfe)
    S("iso226.tabled_L_p", LN, hfe)
    S("iso226.tabled_L_N", arr("L_p", 29), const(False), label="array")
    S("iso226.tabled_L_N", real("L_ps"), hfe, label="scalar")
    S("iso226.tabled_A_f", LN, hfe)
    S("iso226.tabled_B_f", real("L_ps"), hfe)
    for t in ("tabled_L_U", "tabled_T_f", "tabled_alpha_f", "tabled_f"):
        S("iso226." + t, hfe)
    # relab / utilities
    for nm, a in (("array", arr("xx", N, complex=True)), ("list", plist("xl", sym("c0", kind="complex"), sym("c1", kind="complex"))), ("matrix", arr("X2", N, M, complex=True))):
        S("relab.cplxpair", a, label=nm, summarised=True)
        S("utilities.cplxpair", a, label=nm, deprecated="relab.cplxpair", summarised=True)
        S("relab.cplxpair", a, real("tol", lo=0), integer("dim", lo=0), label=nm + ",tol,dim", summarised=True)
    for nm, a in (("array", x), ("scalar", real("xs")), ("list", plist("xl", real("x0_"), real("x1_")))):
        S("relab.db", a, label=nm)
        S("relab.db", a, const("power"), real("R", lo=0, lo_open=True), label=nm + ",power")
        S("utilities.db", a, label=nm, deprecated="relab.db")
        S("utilities.db", a, const("power"), real("R", lo=0, lo_open=True), label=nm + ",power", deprecated="relab.db")
        S("relab.eps", a, label=nm)
        S("utilities.chop", a, label=nm)
        S("utilities.is_negligible", a, label=nm)
        for f in ("dbv", "dbp", "dbm", "undbv", "undbp", "undbm"):
            if nm != "list" or f.startswith("un"):
                S("delsig." + f, a, label=nm)
        S("delsig.rms", a, sym("no_dc", kind="bool"), label=nm)
    S("relab.shiftdim", arr("X2r", N, M), label="auto")
    S("relab.shiftdim", arr("X2r", N, M), const(1), const(1), label="1")
    S("relab.shiftdim", arr("X2r", N, M), const(-1), const(2), label="-1")
    S("utilities.mdot", arr("A2", N, M), arr("B2", M, K))
    S("utilities.digested_options", opendict("opts", a=real("oa"), d=opendict("optd", e=real("oe"))),
      opendict("defaults", a=real("da"), b=real("db_"), d=opendict("defd", e=real("de"), g=real("dg"))),
      plist("keys", const("a"), const("b")), plist("mk", const("d")), const(False))
    # delsig basics
    S("delsig.axisLabels", plist("pts", real("a0"), real("a1"), real("a2")), const(2), label="list")
    S("delsig.axisLabels", arr("pts", N), integer("incr", lo=1), label="array")
    S("delsig.axisLabels", arr("pts", N), tup(const(1), const(2)), label="start,step")
    S("delsig.axisLabels", arr("pts", N), const(1.5), label="refused", refused=True)
    S("delsig.ds_f1f2", osr, f0, sym("cflag", kind="bool"))
    for n in range(1, 15):
        for o in (0, 1, 2):
            S("delsig.ds_optzeros", const(n), const(o), label="%d,%d" % (n, o))
    S("delsig.ds_optzeros", integer("nsym", lo=1), integer("optsym", lo=0, hi=2), label="sym")
    S("delsig.ds_synNTFobj1", arr("xo", N), arr("po", M, complex=True), osr, f0)
    S("delsig.dsclansNTF", arr("xo2", K), integer("order", lo=1), real("rmx"), tup(arr("Hz", N, complex=True), const(1)), label="x")
    for p in ("padl", "padr", "padt", "padb"):
        S("delsig." + p, arr("xv", N), integer("n", lo=0), real("val"), label="vector")
        if p in ("padt", "padb"):
            S("delsig." + p, arr("xm", N, M), integer("n", lo=0), real("val"), label="matrix")
        else:
            S("delsig." + p, arr("xm", N, M), integer("n", lo=0), real("val"), label="matrix")
        S("delsig." + p, plist("xl", real("x0_"), real("x1_")), integer("n", lo=0), label="list")
    S("delsig.partitionABCD", arr("ABCD", integer("r", lo=2), integer("c", lo=3)), label="auto")
    S("delsig.partitionABCD", arr("ABCD", integer("r", lo=2), integer("c", lo=3)), integer("m_", lo=1), label="m")
    for nm, h in (("zpk", H3), ("ba", H2)):
        S("delsig.plotPZ", h, const("b"), const(5), sym("showlist", kind="bool"), label=nm)
        S("delsig.plotPZ", h, plist("colors", const("b"), const("r")), label=nm + ",colors")
        S("delsig.rmsGain", h, f0, real("f2_", lo=0, hi=0.5), label=nm)
        for nx, xa in (("array", arr("zz", K, complex=True)), ("scalar", sym("zs", kind="complex")), ("list", plist("zl_", sym("z0_", kind="complex")))):
            S("delsig.evalTF", h, xa, label=nm + "," + nx)
    S("delsig.evalTF", HL, arr("zz", K, complex=True), label="lists")
    S("delsig.evalRPoly", arr("rt", N, complex=True), arr("zz", K, complex=True), real("k_"))
    S("delsig.evalRPoly", plist("rl", sym("z0_", kind="complex")), sym("zs", kind="complex"))
    # simulation
    for be in ("scipy", "scipy_blas", "cblas"):
        for nm, a2 in (("zpk", H3), ("ABCD", tup(arr("A", 2, 2), arr("B", 2, 2), arr("C", 1, 2), arr("D", 1, 2)))):
            pass
    # designers
    order = integer("order", lo=1)
    Hinf = real("H_inf", lo=1)
    for m in ("delsig.", "NTFdesign.delsig."):
        dep = {}
        for uo in (True, False):
            for o in (0, 1, 2, 3, 4):
                S(m + "synthesizeNTF", order, osr, const(o), Hinf, f0, kw=dict(use_optimizer=const(uo)), label="opt=%d,%s" % (o, uo), dep=m != "delsig.")
            S(m + "synthesizeNTF", const(4), osr, arr("zopt", 4, complex=True), Hinf, f0, kw=dict(use_optimizer=const(uo)), label="opt=z,%s" % uo, dep=m != "delsig.")
        S(m + "synthesizeNTF", order, osr, label="defaults", dep=m != "delsig.")
        S(m + "synthesizeChebyshevNTF", order, osr, const(0), Hinf, f0, dep=m != "delsig.")
        S(m + "clans", const(4), osr, real("nq", lo=1), real("rmax", lo=0, hi=1), const(0),
          kw=dict(slsqp_opts=opendict("slsqp_opts", eps=real("u_eps"))), label="4", dep=m != "delsig.")
        S(m + "clans", const(5), osr, real("nq", lo=1), real("rmax", lo=0, hi=1), const(1), label="5", dep=m != "delsig.")
    w1, w2 = cb("w1"), cb("w2")
    wf = (("callable", w1), ("zpk", H3), ("ba", H2))
    for n, w in wf:
        S("NTFdesign.mult_weightings", w, w2, label=n)
        S("NTFdesign.weighting.q0_weighting", integer("P0", lo=0), w, kw=dict(quad_opts=qo), label=n)
        S("NTFdesign.weighting.q0_from_noise_weighting", integer("P0", lo=0), w, kw=dict(quad_opts=qo), label=n, dep=True)
        S("NTFdesign.merit_factors.quantization_noise_gain", H3, w, tup(real("b0", lo=0, hi=0.5), real("b1", lo=0, hi=0.5)), sym("avg", kind="bool"),
          kw=dict(quad_opts=qo), label=n)
        S("NTFdesign.weighting.quantization_weighted_noise_gain", H3, w, kw=dict(quad_opts=qo), label=n, dep=True)
    S("NTFdesign.merit_factors.quantization_noise_gain", H2, label="noweight")
    S("NTFdesign.weighting.quantization_weighted_noise_gain", H2, label="noweight", dep=True)
    q0 = arr("q0", integer("Q", lo=3))
    for nm, mo, so in MODELERS:
        kw = user_opts(mo, so, quad=False)
        S("NTFdesign.weighting.ntf_fir_from_q0", q0, Hinf, kw=kw, label=nm, engine=True)
        S("NTFdesign.weighting.ntf_fir_from_q0", q0, Hinf, const(None), kw=dict(modeler=const(mo)), label=nm + ",plain", engine=True)
        S("NTFdesign.weighting.synthesize_ntf_from_q0", q0, Hinf, kw=kw, label=nm, dep=True, engine=True)
        kw = user_opts(mo, so)
        S("NTFdesign.weighting.ntf_fir_weighting", integer("P", lo=2), w1, Hinf, kw=kw, label=nm, engine=True)
        S("NTFdesign.weighting.ntf_hybrid_weighting", integer("P", lo=2), w1, Hinf, arr("poles", 2, complex=True), kw=kw, label=nm + ",poles", engine=True)
        S("NTFdesign.weighting.ntf_hybrid_weighting", integer("P", lo=2), H3, Hinf, plist("polesl", real("pl0")), kw=kw, label=nm + ",zpk", engine=True)
        S("NTFdesign.weighting.synthesize_ntf_from_noise_weighting", integer("P", lo=2), w1, Hinf, kw=kw, label=nm, dep=True, engine=True)
        S("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", integer("P", lo=2), osr, const("a"), kw=kw, label=nm, engine=True)
        S("NTFdesign.psychoacoustic.synthesize_ntf_from_audio_weighting", integer("P", lo=2), osr, const("a"), kw=kw, label=nm, dep=True, engine=True)
        for ht in ("zpk", "imp", "mag"):
            h = {"zpk": H3, "imp": arr("h", N), "mag": w1}[ht]
            S("NTFdesign.filter_based.synthesize_ntf_from_filter", integer("P", lo=2), h, const(ht), Hinf, kw=kw, label=nm + "," + ht, dep=True, engine=True)
        for zf in (False, True):
            kw = user_opts(mo, so, quad=False, fix=False)
            S("NTFdesign.minmax.ntf_fir_minmax", integer("P", lo=2), osr, Hinf, f0, const(zf), kw=kw, label=nm + (",zf" if zf else ""), engine=True)
        S("NTFdesign.minmax.ntf_fir_minmax", integer("P", lo=2), plist("osrl", real("os0"), real("os1")), Hinf, plist("f0l", real("f00", lo=0, hi=.5), real("f01", lo=0, hi=.5)), const(False), kw=kw, label=nm + ",bands", engine=True)
        S("NTFdesign.minmax.synthesize_ntf_minmax", integer("P", lo=2), osr, Hinf, f0, const(False), kw=kw, label=nm, dep=True, engine=True)
        if mo == "cvxpy":
            for ov in (False, True):
                kw = dict(modeler=const(mo), cvxpy_opts=opendict("cvxpy_opts", solver=const(so), override_kktsolver=const(ov)))
                S("NTFdesign.minmax.ntf_fir_minmax", integer("P", lo=2), osr, Hinf, f0, const(False), kw=kw, label=nm + ",kkt=%s" % ov, engine=True)
                S("NTFdesign.weighting.ntf_fir_from_q0", q0, Hinf, kw=kw, label=nm + ",kkt=%s" % ov, engine=True)
                S("NTFdesign.weighting.ntf_hybrid_weighting", integer("P", lo=2), w1, Hinf, kw=kw, label=nm + ",kkt=%s" % ov, engine=True)
    norm = real("normalize")
    P2 = integer("P", lo=2)
    for nv, v in (("normalize", norm), ("normalize=None", const(None))):
        S("NTFdesign.weighting.ntf_fir_from_q0", q0, Hinf, v, label=nv, engine=True)
        S("NTFdesign.weighting.ntf_fir_from_q0", plist("q0l", real("q0_0"), real("q0_1"), real("q0_2")), Hinf, v, label="list," + nv, engine=True)
        S("NTFdesign.weighting.synthesize_ntf_from_q0", q0, Hinf, v, label=nv, dep=True, engine=True)
        S("NTFdesign.weighting.ntf_fir_weighting", P2, w1, Hinf, v, label=nv, engine=True)
        S("NTFdesign.weighting.synthesize_ntf_from_noise_weighting", P2, w1, Hinf, v, label=nv, dep=True, engine=True)
        S("NTFdesign.weighting.ntf_hybrid_weighting", P2, w1, Hinf, arr("poles", 2, complex=True), v, label="poles," + nv, engine=True)
        S("NTFdesign.weighting.ntf_hybrid_weighting", P2, w1, Hinf, plist("polesl"), v, label="nopoles," + nv, engine=True)
        S("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", P2, osr, w1, real("band", lo=1), real("attn", lo=0), Hinf, v, label=nv, engine=True)
        S("NTFdesign.psychoacoustic.synthesize_ntf_from_audio_weighting", P2, osr, w1, real("band", lo=1), real("attn", lo=0), Hinf, v, label=nv, dep=True, engine=True)
        S("NTFdesign.filter_based.synthesize_ntf_from_filter", P2, w1, const("mag"), Hinf, v, label=nv, dep=True, engine=True)
    # requests that are refused
    bad = dict(refused=True)
    for f, a in (("NTFdesign.weighting.ntf_fir_from_q0", (q0,)), ("NTFdesign.weighting.ntf_fir_weighting", (P2, w1)), ("NTFdesign.weighting.ntf_hybrid_weighting", (P2, w1)),
                 ("NTFdesign.minmax.ntf_fir_minmax", (P2,)), ("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", (P2, osr))):
        S(f, *a, kw=dict(modeler=const("no such modeler")), label="unknown modeler", **bad)
        S(f, *a, kw=dict(bogus=real("bogus")), label="unknown option", **bad)
    S("NTFdesign.minmax.ntf_fir_minmax", P2, plist("osrl", real("os0"), real("os1")), Hinf, plist("f0l", real("f00_")), label="bands", **bad)
    S("NTFdesign.weighting.ntf_hybrid_weighting", const(2), w1, Hinf, arr("poles3", 3, complex=True), label="too many poles", **bad)
    S("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", P2, osr, const("z"), label="unknown weighting", **bad)
    S("NTFdesign.psychoacoustic.dunn_optzeros", const(9), label="9", **bad)
    for f in ("quantization_noise_gain", "quantization_noise_gain_by_conv"):
        S("NTFdesign.filter_based." + f, H3, arr("h", N), const("none"), label="unknown type", dep=True, **bad)
    S("NTFdesign.filter_based.q0_from_filter", integer("P0", lo=0), arr("h", N), const("none"), label="unknown type", dep=True, **bad)
    S("NTFdesign.legacy.quantization_noise_gain_by_conv", H3, arr("h", N), const("none"), label="unknown type", **bad)
    S("delsig.synthesizeNTF", order, osr, const(0), Hinf, real("f0bad", lo=0.6), label="f0", **bad)
    S("delsig.synthesizeNTF", const(4), osr, arr("zopt3", 3, complex=True), label="opt length", **bad)
    S("delsig.evalTF", tup(arr("num", nz)), arr("zz", K, complex=True), label="form", **bad)
    S("iso226.iso226_spl_contour", real("L_Nbad", lo=91), label="range", **bad)
    S("delsig.simulateDSM", arr("u", N), tup(arr("zs2", 2, complex=True), arr("ps2", 2, complex=True), real("ks2")), kw=dict(backend=const("none")), label="unknown backend", **bad)
    for aw in "abcdf":
        S("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", integer("P", lo=2), osr, const(aw), label="aw=" + aw, engine=True)
    S("NTFdesign.psychoacoustic.ntf_fir_audio_weighting", integer("P", lo=2), osr, w1, label="aw=callable", engine=True)
    for n in range(1, 9):
        S("NTFdesign.psychoacoustic.dunn_optzeros", const(n), label=str(n))
        S("NTFdesign.psychoacoustic.ntf_dunn", const(n), osr, Hinf, label=str(n))
    S("NTFdesign.psychoacoustic.dunn_optzeros_cplx", const(3), osr)
    S("NTFdesign.psychoacoustic.synthesize_ntf_dunn", const(3), osr, Hinf, dep=True)
    for ht, h in (("zpk", H3), ("ba", H2), ("imp", arr("h", N)), ("mag", w1)):
        S("NTFdesign.filter_based.quantization_noise_gain", H3, h, const(ht), kw=dict(quad_opts=qo), label=ht, dep=True)
        S("NTFdesign.filter_based.q0_from_filter", integer("P0", lo=0), h, const(ht), kw=dict(quad_opts=qo), label=ht, dep=True)
        if ht != "mag":
            S("NTFdesign.filter_based.quantization_noise_gain_by_conv", H3, h, const(ht), db, label=ht, dep=True)
            S("NTFdesign.legacy.quantization_noise_gain_by_conv", H3, h, const(ht), db, label=ht)
    S("NTFdesign.legacy.q0_from_filter_ir", integer("P0", lo=0), arr("h", N))
    S("NTFdesign.helpers.maxflat_fir_zeros", order, real("alpha", lo=0, lo_open=True))
    S("NTFdesign.helpers.spread_fir_uc_zeros", order, osr, cb("cf"), plist("cf_args", real("ca0")), opendict("cf_kwargs", q=real("cq")),
      kw=dict(L_BFGS_B_opts=opendict("L_BFGS_B_opts", ftol=real("u_ftol"))))
    # simulators
    for be in (None, "scipy", "scipy_blas", "cblas"):
        kw = {} if be is None else {"backend": const(be)}
        for nm, a2 in (("zpk", tup(arr("zs2", 2, complex=True), arr("ps2", 2, complex=True), real("ks2"))),
                       ("ABCD", tup(arr("A", 2, 2), arr("B", 2, 2), arr("C", 1, 2), arr("D", 1, 2))),
                       ("ABCDarr", arr("ABCD34", 3, 4))):
            S("delsig.simulateDSM", arr("u", N), a2, arr("nlev", 1), arr("x0", 2, 1),
              kw=dict(kw, store_xn=sym("sxn", kind="bool"), store_xmax=sym("sxm", kind="bool"), store_y=sym("sy", kind="bool")), label="%s,%s" % (be, nm), sim=True)
            S("delsig.simulateDSM", arr("u2", 1, N), a2, kw=kw, label="%s,%s,2d" % (be, nm), sim=True)
    S("simulation.ds_quantize", arr("yq", N, 1), arr("nq_", N))
    return out
