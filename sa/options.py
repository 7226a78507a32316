"""Option-taking functions: base calls, selections of modeler/solver/back end, published tables."""
import ast
import os

from .ctx import *
from .scen import MODELERS, opendict, real, integer, cb, zpk

W, P, F, D = "NTFdesign.weighting.", "NTFdesign.psychoacoustic.", "NTFdesign.filter_based.", "NTFdesign.delsig."

# option -> selections for which it configures something (None: always)
RELEVANT = {"cvxpy_opts": lambda m, s: m == "cvxpy", "scs_opts": lambda m, s: m == "cvxpy" and s == "scs",
            "cvxopt_opts": lambda m, s: m in ("cvxpy_old", "picos") or (m == "cvxpy" and s == "cvxopt")}
# functions whose published table is that of the function they forward to
TABLE_OF = {D + "clans": "delsig.clans", D + "synthesizeNTF": "delsig.synthesizeNTF", D + "ntf_clans": "delsig.clans", D + "ntf_schreier": "delsig.synthesizeNTF",
            "NTFdesign.minmax.synthesize_ntf_minmax": "NTFdesign.minmax.ntf_fir_minmax", P + "synthesize_ntf_from_audio_weighting": P + "ntf_fir_audio_weighting",
            W + "q0_from_noise_weighting": W + "q0_weighting", W + "synthesize_ntf_from_noise_weighting": W + "ntf_fir_weighting",
            W + "synthesize_ntf_from_q0": W + "ntf_fir_from_q0", W + "quantization_weighted_noise_gain": "NTFdesign.merit_factors.quantization_noise_gain"}


class Fn(object):
    def __init__(self, name, args, sel=None, tag=""):
        self.name, self.args, self.sel, self.tag = name, list(args), sel or [("", {}, None, None)], tag

    @property
    def table_name(self):
        return TABLE_OF.get(self.name, self.name)

    @property
    def label(self):
        return self.name + ("[%s]" % self.tag if self.tag else "")


def functions():
    T.STRICT = {}
    try:
        return _functions()
    finally:
        T.STRICT = None


def _functions():
    N = integer("N", lo=1)
    order, Hinf = integer("order", lo=2), real("H_inf", lo=1)
    osr, f0 = real("osr", lo=1), real("f0", lo=0, hi=0.25)
    w1 = cb("w1")
    H3 = zpk("h", integer("nz", lo=1), integer("np", lo=1))
    q0 = arr("q0", integer("Q", lo=3))
    models = [("default", {}, "cvxpy_old", None)]
    for nm, mo, so in MODELERS:
        kw = {"modeler": const(mo)}
        if so:
            kw["cvxpy_opts"] = opendict("cvxpy_opts", solver=const(so))
        models.append((nm, kw, mo, so))
    models.append(("cvxpy", {"modeler": const("cvxpy")}, "cvxpy", "cvxopt"))
    backs = [("default", {}, None, None)] + [(b, {"backend": const(b)}, None, None) for b in ("auto", "scipy", "scipy_blas", "cblas")]
    out = []

    def A(name, *args, **k):
        out.append(Fn(name, args, **k))
    A("ft.idtft", cb("Fc"), real("t"))
    A("ft.idtft", cb("Fc"), arr("tt", N), real("fs", lo=0, lo_open=True), tag="array")
    A("ft.idtft_hermitian", cb("Fc"), real("t"))
    A("ft.idtft_hermitian", cb("Fc"), arr("tt", N), real("fs", lo=0, lo_open=True), tag="array")
    for nm, w in (("callable", w1), ("zpk", H3)):
        A(W + "q0_weighting", integer("P0", lo=0), w, tag=nm)
        A(W + "q0_from_noise_weighting", integer("P0", lo=0), w, tag=nm)
        A("NTFdesign.merit_factors.quantization_noise_gain", H3, w, tag=nm)
        A(W + "quantization_weighted_noise_gain", H3, w, tag=nm)
    for ht, h in (("zpk", H3), ("imp", arr("h", N)), ("mag", w1)):
        A(F + "quantization_noise_gain", H3, h, const(ht), tag=ht)
        A(F + "q0_from_filter", integer("P0", lo=0), h, const(ht), tag=ht)
        A(F + "synthesize_ntf_from_filter", order, h, const(ht), Hinf, sel=models, tag=ht)
    for n in ("ntf_fir_from_q0", "synthesize_ntf_from_q0"):
        A(W + n, q0, Hinf, sel=models)
    for n in ("ntf_fir_weighting", "synthesize_ntf_from_noise_weighting"):
        A(W + n, order, w1, Hinf, sel=models)
    A(W + "ntf_hybrid_weighting", const(3), w1, Hinf, arr("poles", 2, complex=True), sel=models, tag="poles")
    A(W + "ntf_hybrid_weighting", order, w1, Hinf, sel=models)
    for n in ("ntf_fir_audio_weighting", "synthesize_ntf_from_audio_weighting"):
        A(P + n, order, osr, w1, sel=models)
    for n in ("ntf_fir_minmax", "synthesize_ntf_minmax"):
        A("NTFdesign.minmax." + n, order, osr, Hinf, f0, sel=models)
    for n in (D + "clans", D + "ntf_clans", "delsig.clans"):
        A(n, const(4), osr, real("nq", lo=1))
        A(n, const(5), osr, real("nq", lo=1), tag="odd")
    for n in (D + "synthesizeNTF", D + "ntf_schreier", "delsig.synthesizeNTF"):
        A(n, const(4), osr, const(0), Hinf, sel=[("default", {}, None, None), ("optimizer", {"use_optimizer": const(True)}, None, None), ("approximation", {"use_optimizer": const(False)}, None, None)])
    A("NTFdesign.helpers.spread_fir_uc_zeros", const(4), osr, cb("cf"))
    for nm, a2 in (("zpk", tup(arr("z", 2, complex=True), arr("p", 2, complex=True), real("k"))), ("ABCD", arr("ABCD", 3, 4))):
        A("delsig.simulateDSM", arr("u", N), a2, sel=backs, tag=nm)
    return out


def table(it, fn):
    """Ref of the published table of a function (a Fn or dotted name), None if it has none."""
    f = it.glob("pydsm." + (fn.table_name if isinstance(fn, Fn) else fn))
    if f is None:
        return None
    return it.get(f).data[1].get("default_options")


def keys(it, ref):
    return [k for k in it.get(ref).data[0]]


def nested(it, ref):
    """{option: [entries]} of a table."""
    out = {}
    for k, (c, v) in it.get(ref).data[0].items():
        out[k] = keys(it, v) if isinstance(v, Ref) and it.get(v).kind == "dict" else None
    return out


def takes_options(it):
    """Exported functions with a keyword catch-all: {qual: dotted name}."""
    from . import cat
    out = {}
    for q, n in cat.public_functions(it).items():
        if it.get(it.glob(n)).data[0].node.args.kwarg:
            out[q] = n
    return out


def words(src):
    """String constants of the source that could be option names."""
    out = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("tests", "benchmarks", "__pycache__", "cvxpy_tdr")]
        for f in fs:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) > 1:
                        out.add(n.value)
                    if isinstance(n, ast.keyword) and n.arg:
                        out.add(n.arg)
                    if isinstance(n, ast.arg):
                        out.add(n.arg)
    return out
