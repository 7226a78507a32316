"""C15: transforms, transfer functions, correlations, padding, partitioning, band edges."""
from sa.ctx import *


def run(rep, tier):
    rep.explanation = ("Value graph of each function on symbolic arguments (symbolic lengths, orders, frequencies, real and complex "
                       "data) compared with the graph of the documented closed form.")
    rep.rule("closed-form", "value graph of the function == value graph of the documented formula")
    rep.rule("variants-agree", "general/Hermitian and coefficient/zero-pole variants have equal graphs where both apply")
    it = new_interp(specs=("c15",))
    S = Spec(rep, it, "c15")
    G = lambda n: it.glob("specs.c15." + n)
    n = 12 if tier == "quick" else 60
    N = sym("N", kind="int", lo=1)
    f = sym("f", kind="real")
    fs = sym("fs", kind="real", lo=0, lo_open=True)
    t0 = sym("t0", kind="real")
    xr, xc = arr("x", N), arr("xc", N, complex=True)
    herm = arr("xh", N, complex=True)
    xl = plist("xl", sym("l0", kind="real"), sym("l1", kind="real"), sym("l2", kind="real"))

    def cf(construct, impl, spec, args, kw=None, rule="closed-form", **k):
        k.setdefault("n", n)
        S.same(rule, construct, impl, spec, args, kw, **k)
    for lab, x in (("real", xr), ("complex", xc), ("list", xl)):
        cf("dtft(%s)" % lab, G("i_dtft"), "dtft", [x, f])
        cf("dtft(%s, fs, t0)" % lab, G("i_dtft_fs"), "dtft_fs", [x, f, fs, t0])
        cf("dtft(%s, fs=, t0=)" % lab, G("i_dtft_kw"), "dtft_fs", [x, f, fs, t0])
        cf("dtft_hermitian(%s)" % lab, G("i_dtfth"), "dtfth", [x, f])
        cf("dtft_hermitian(%s, fs)" % lab, G("i_dtfth_fs"), "dtfth_fs", [x, f, fs])
    F = sym("F", kind="callable")
    t = sym("t", kind="real")
    tt = arr("tt", N)
    for nm, s in (("idtft", "idtft"), ("idtft_hermitian", "idtfth")):
        q = "pydsm.ft." + nm
        cf(nm + "(F, scalar)", q, s + "1", [F, t])
        cf(nm + "(F, scalar, fs)", q, s + "1", [F, t, fs])
        cf(nm + "(F, vector)", q, s + "_vec", [F, tt], n=6)
        cf(nm + "(F, vector, fs)", q, s + "_vec", [F, tt, fs], n=6)
        cf(nm + "(F, list)", q, s + "_vec", [F, xl], n=6)
    for lab, x in (("real", xr), ("complex", xc), ("list", xl)):
        cf("fft_centered(%s) axis" % lab, G("fft_axis_i"), "fft_axis", [x, fs])
        cf("fft_centered(%s) default axis" % lab, G("fft_axis_1"), "fft_axis", [x])
        cf("fft_centered(%s) values" % lab, G("fft_val_i"), "fft_val", [x, fs])
    K = sym("K", kind="int", lo=0)
    L = sym("L", kind="int", lo=1)

    def lag(E):
        return int(E.rng.integers(0, int(E.ev(N)) + 1))
    for lab, x in (("real", xr), ("complex", xc), ("list", xl)):
        d = {"K": lag} if lab != "list" else {"K": lambda E: int(E.rng.integers(0, 4))}
        cf("raw_acorr(%s)" % lab, "pydsm.correlations.raw_acorr", "acorr", [x, K], domain=d)
        for lab2, y in (("real", arr("y", L)), ("complex", arr("yc", L, complex=True))):
            if lab != "list":
                d2 = {"K": lambda E: int(E.rng.integers(0, min(int(E.ev(N)), int(E.ev(L))) + 1))}
                cf("raw_xcorr(%s, %s)" % (lab, lab2), "pydsm.correlations.raw_xcorr", "xcorr", [x, y, K], domain=d2)
    # transfer functions
    nz, np_ = sym("nz", kind="int", lo=0), sym("np", kind="int", lo=0)
    zz = sym("zz", kind="complex", complex=True)
    za = arr("za", N, complex=True)
    k = sym("k", kind="real")
    z, p = arr("z", nz, complex=True), arr("p", np_, complex=True)
    b, a = arr("b", N), arr("a", L)
    for lab, x in (("scalar", zz), ("array", za)):
        cf("evalTF(zpk, %s)" % lab, "pydsm.delsig.evalTF", "evalTF3", [tup(z, p, k), x])
        cf("evalTF(zpk lists, %s)" % lab, "pydsm.delsig.evalTF", "evalTF3", [tup(xl, plist("pl", sym("p0", kind="real"), sym("p1", kind="real")), k), x])
        cf("evalTF(ba, %s)" % lab, "pydsm.delsig.evalTF", "evalTF2", [tup(b, a), x])
        cf("evalRPoly(%s)" % lab, "pydsm.delsig.evalRPoly", "rpoly", [z, x])
        cf("evalRPoly(%s, k)" % lab, "pydsm.delsig.evalRPoly", "rpoly", [z, x, k])
        cf("evalRPoly with a root at infinity(%s, k)" % lab, G("with_inf"), "rpoly", [z, x, k])
        S.same("variants-agree", "evalTF ba/zpk (%s)" % lab, G("zpk_vs_ba_i"), "zpk_vs_ba", [arr("z1", N, complex=True), arr("p1", L, complex=True), k, x], n=n, rtol=1e-6)
    # padding
    R, C = sym("R", kind="int", lo=1), sym("C", kind="int", lo=1)
    M = sym("M", kind="int", lo=1)
    v = sym("v", kind="real")
    mat = arr("mat", R, C)

    def ge(s):
        return {"M": lambda E: int(E.ev(s)) + int(E.rng.integers(0, 4))}
    for fn, s1, s2, dim in (("padl", "padl1", "padl2", C), ("padr", "padr1", "padr2", C), ("padt", "padl1", "padt2", R), ("padb", "padr1", "padb2", R)):
        q = "pydsm.delsig." + fn
        for lab, args, kw in (("", [M], {}), (", val", [M, v], {}), (", val=", [M], {"val": v})):
            cf("%s(vector, n%s)" % (fn, lab), q, s1, [xr] + args, kw, domain=ge(N))
            cf("%s(matrix, n%s)" % (fn, lab), q, s2, [mat] + args, kw, domain=ge(dim))
    # partition
    m = sym("m", kind="int", lo=1)
    dm = {"m": lambda E: int(E.rng.integers(1, 4)), "C": lambda E: int(E.ev(m)) + int(E.rng.integers(1, 4)),
          "R": lambda E: int(E.ev(C)) - int(E.ev(m)) + 1 + int(E.rng.integers(0, 3))}
    dm2 = {"m": lambda E: int(E.rng.integers(1, 3)), "R": lambda E: int(E.rng.integers(2, 6)), "C": lambda E: int(E.rng.integers(2, 6))}
    cf("partitionABCD(M, m)", "pydsm.delsig.partitionABCD", "part_m", [mat, m], domain=dm)
    cf("partitionABCD(M, m=)", "pydsm.delsig.partitionABCD", "part_m", [mat], {"m": m}, domain=dm)
    cf("partitionABCD(M)", "pydsm.delsig.partitionABCD", "part_g", [mat], domain=dm2)
    # band edges
    osr = sym("osr", kind="real", lo=1)
    f0 = sym("f0", kind="real", lo=0, hi=0.5)
    cflag = sym("cflag", kind="bool")
    df = {"f0": lambda E: E.rng.choice([0., E.rng.uniform(0, 0.5), 0.3 / E.ev(osr), 0.2 / E.ev(osr), 0.25 / E.ev(osr)])}
    q = "pydsm.delsig.ds_f1f2"
    q = q if it.glob(q) is not None else "pydsm.delsig._ds.ds_f1f2"
    for lab, args, kw in (("()", [], {}), ("(osr)", [osr], {}), ("(osr, f0)", [osr, f0], {}), ("(osr, f0, c)", [osr, f0, cflag], {}),
                          ("(f0=, complex_flag=)", [], {"f0": f0, "complex_flag": cflag})):
        cf("ds_f1f2" + lab, q, "f1f2", args, kw, domain=df if osr in args else {"f0": lambda E: E.rng.choice([0., 0.3, 0.003, 0.0045])}, n=3 * n)
    # products of weightings
    w1, w2 = sym("w1", kind="callable", realvalued=True), sym("w2", kind="callable", realvalued=True)
    zpk, ba = tup(z, p, k), tup(b, a)
    for lab, ws in (("w", [w1]), ("w, w", [w1, w2]), ("zpk", [zpk]), ("ba", [ba]), ("w, zpk", [w1, zpk]), ("zpk, ba, w", [zpk, ba, w1]),
                    ("zpk, zpk", [zpk, tup(arr("z2", nz, complex=True), arr("p2", np_, complex=True), sym("k2", kind="real"))])):
        cf("mult_weightings(%s)" % lab, G("mult_i"), "mult", [f] + ws)
