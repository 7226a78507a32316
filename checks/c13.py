"""C13: decibel and level conversions (term equality with the definitions)."""
import numpy as np
from sa.ctx import *


def withzeros(cplx=False):
    def mk1(E, t=None):
        return None
    return mk1


def zarr(shape_sym, cplx=False, neg=True):
    """Sampler: array with about a third of zero entries."""
    def f(E):
        n = 1 if shape_sym is None else int(E.ev(shape_sym))
        v = E.rng.normal(size=n) * 3
        if not neg:
            v = np.abs(v)
        if cplx:
            v = v + 1j * E.rng.normal(size=n)
        v[E.rng.random(n) < 0.3] = 0
        return v if shape_sym is not None else v[0]
    return f


def run(rep, tier):
    rep.explanation = ("Each conversion is interpreted abstractly into a value graph for a scalar, real and complex arrays of "
                       "symbolic length (zeros included); the graph must equal the graph of its definition, and direct/inverse "
                       "compositions must equal the identity.")
    rep.rule("definition", "value graph of the function == value graph of its definition, every path joined")
    rep.rule("inverse", "value graph of inverse(direct(x)) == |x|")
    rep.rule("agreement", "generic db() == the delsig conversion it generalises")
    it = new_interp(specs=("c13",))
    S = Spec(rep, it, "c13")
    N = sym("N", kind="int", lo=1)
    R = sym("R", kind="real", lo=0, lo_open=True)
    pts = 14 if tier == "quick" else 80
    shapes = [("array", arr("x", N), zarr(N)), ("complex array", arr("xc", N, complex=True), zarr(N, True)),
              ("scalar", sym("xs", kind="real"), zarr(None)), ("0-d array", arr("x0"), zarr(None))]
    pos = [("array", arr("xp", N), zarr(N, neg=False)), ("scalar", sym("xps", kind="real", lo=0), zarr(None, neg=False))]
    D = "pydsm.delsig."

    def nm(a):
        return a.args[0] if isinstance(a, Term) else a.term.args[0]
    for label, a, dom in shapes:
        d = {nm(a): dom}
        S.same("definition", "dbv(%s)" % label, D + "dbv", "dbv", [a], domain=d, n=pts)
        S.same("definition", "dbp(%s)" % label, D + "dbp", "dbp", [a], domain=d, n=pts)
        S.same("definition", "dbm(%s)" % label, D + "dbm", "dbm", [a], domain=d, n=pts)
        S.same("definition", "dbm(%s, R)" % label, D + "dbm", "dbm", [a, R], domain=d, n=pts)
        S.same("definition", "db(%s)" % label, "pydsm.relab.db", "db_voltage", [a], domain=d, n=pts)
        S.same("definition", "db(%s, R)" % label, "pydsm.relab.db", "db_voltage", [a, const("voltage"), R], sargs=[a, R], domain=d, n=pts)
        S.same("definition", "db(%s, R=)" % label, "pydsm.relab.db", "db_voltage", [a], dict(R=R), domain=d, n=pts)
        S.same("inverse", "undbv(dbv(%s))" % label, it.glob("specs.c13.v_roundtrip"), "id_", [a], domain=d, n=pts)
        S.same("inverse", "undbp(dbp(%s))" % label, it.glob("specs.c13.p_roundtrip"), "id_", [a], domain=d, n=pts)
        S.same("inverse", "undbm(dbm(%s, R), R)" % label, it.glob("specs.c13.m_roundtrip"), "id_", [a, R], domain=d, n=pts)
        S.same("inverse", "undbm(dbm(%s))" % label, it.glob("specs.c13.m_roundtrip"), "id_", [a], domain=d, n=pts)
        S.same("agreement", "db(%s) is dbv" % label, it.glob("specs.c13.db_v_is_dbv"), "dbv", [a], domain=d, n=pts)
        S.same("agreement", "db(%s, R)+30 is dbm" % label, it.glob("specs.c13.db_m_is_dbm"), "dbm", [a, R], domain=d, n=pts)
    for label, a, dom in pos:
        d = {nm(a): dom}
        S.same("definition", "db(%s, power)" % label, "pydsm.relab.db", "db_power", [a, const("power")], sargs=[a], domain=d, n=pts)
        S.same("definition", "db(%s, power, R)" % label, "pydsm.relab.db", "db_power", [a, const("power"), R], sargs=[a, R], domain=d, n=pts)
        S.same("agreement", "db(%s, power) is dbp" % label, it.glob("specs.c13.db_p_is_dbp"), "dbp", [a], domain=d, n=pts)
    for label, a in [("array", arr("y", N)), ("scalar", sym("ys", kind="real")), ("0-d array", arr("y0")),
                     ("list", plist("yl", sym("yl0", kind="real"), sym("yl1", kind="real")))]:
        for f in ("undbv", "undbp", "undbm"):
            S.same("definition", "%s(%s)" % (f, label), D + f, f, [a], n=pts)
        S.same("definition", "undbm(%s, R)" % label, D + "undbm", "undbm", [a, R], n=pts)
    for label, a in [("array", arr("x", N)), ("complex array", arr("xc", N, complex=True)),
                     ("list", plist("yl", sym("yl0", kind="real"), sym("yl1", kind="real")))]:
        for nd in (None, TRUE, FALSE):
            kw = {} if nd is None else {"no_dc": nd}
            if label == "list" and nd is TRUE:
                pass
            S.same("definition", "rms(%s, %s)" % (label, kw and "no_dc=%s" % (nd is TRUE) or ""), D + "rms", "rms", [a], kw, n=pts)
    f1 = sym("f1", kind="real", lo=0, hi=0.5)
    f2 = sym("f2", kind="real", lo=0, hi=0.5)
    M = sym("M", kind="int", lo=2)
    Z, P = sym("nz", kind="int", lo=1), sym("np_", kind="int", lo=1)
    H3 = tup(arr("z", Z, complex=True), arr("p", P, complex=True), sym("k", kind="real"))
    H2 = tup(arr("num", Z), arr("den", P))
    for label, h in [("zpk", H3), ("nd", H2)]:
        S.same("definition", "rmsGain(%s, f1, f2)" % label, D + "rmsGain", "rmsGain", [h, f1, f2], n=6)
        S.same("definition", "rmsGain(%s, f1, f2, N)" % label, D + "rmsGain", "rmsGain", [h, f1, f2, M], n=6)
