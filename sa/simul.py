"""Arguments, admissible values and parallel comparison shared by the checks of the simulators (C07, C08, N06)."""
import numpy as np
from . import par, terms as T
from .ctx import *
from .report import Report

BACKENDS = ("scipy", "cblas", "scipy_blas")
order, nu, nq = [sym(n, kind="int", lo=1, hi=3) for n in ("order", "nu", "nq")]
N = sym("N", kind="int", lo=0, hi=5)


def dyadic(*dims):
    """Half of the points made of multiples of 1/2 (exact arithmetic, ties at the quantizer thresholds), half generic."""
    def f(E):
        d = tuple(int(E.ev(x)) if isinstance(x, Term) else x for x in dims)
        w = E.ev(sym("exact", kind="bool"))
        v = E.rng.integers(-4, 5, d) / 2 if w else E.rng.normal(0, 1.6, d)
        return v if dims else float(v)
    return f


def levels(*dims):
    def f(E):
        d = tuple(int(E.ev(x)) if isinstance(x, Term) else x for x in dims)
        return E.rng.integers(2, 7, d) if dims else int(E.rng.integers(2, 7))
    return f


def roots(n):
    """Real numbers and conjugate pairs."""
    def f(E):
        k, r = int(E.ev(n)), []
        while len(r) < k:
            if k - len(r) >= 2 and E.rng.random() < 0.6:
                w = (0.3 + 0.6 * E.rng.random()) * np.exp(1j * (0.2 + 2.6 * E.rng.random()))
                r += [w, np.conj(w)]
            else:
                r.append(complex(E.rng.uniform(-0.9, 0.9)))
        return np.array(r, dtype=complex)
    return f


S1, SQ = T.add(order, const(1)), T.add(order, nq)
U = arr("u", nu, N)
U1 = arr("u1", N)
H = arr("h", SQ, T.add(SQ, nu))
H1 = arr("h1", S1, T.add(S1, const(1)))
HQ = arr("hq", SQ, T.add(SQ, const(1)))
H2 = arr("h2", T.add(order, const(2)), T.add(T.add(order, const(2)), nu))
NL = arr("nlev", nq, dtype="int")
NL1 = sym("n1", kind="int", lo=2, hi=6)
NLA = sym("na", kind="int", lo=2, hi=6)
NLB = sym("nb", kind="int", lo=2, hi=6)
X0 = arr("x0", order)
X0C = arr("x0c", order, const(1))
Z, P = arr("z", order, complex=True), arr("p", order, complex=True)
NTF = tup(Z, P, const(1))
DOM = {"u": dyadic(nu, N), "u1": dyadic(N), "h": dyadic(SQ, T.add(SQ, nu)), "h1": dyadic(S1, T.add(S1, const(1))),
       "hq": dyadic(SQ, T.add(SQ, const(1))), "h2": dyadic(T.add(order, const(2)), T.add(T.add(order, const(2)), nu)), "nlev": levels(nq),
       "x0": dyadic(order), "x0c": dyadic(order, 1), "z": roots(order), "p": roots(order)}


def compare_all(rep, module, jobs, n, **kw):
    """jobs: (rule, construct, impl, spec, args); compared in worker processes."""
    def one(j):
        rule, construct, impl, spec, args = j
        r = Report(rep.prop)
        it = new_interp(specs=(module,))
        f = impl if impl.startswith("pydsm.") else it.glob("specs.%s.%s" % (module, impl))
        Spec(r, it, module).same(rule, construct, f, spec, args, domain=DOM, n=n, **kw)
        return [(k, v) for k, v in r.items.items()], r.counts
    for j, res in zip(jobs, par.pmap(one, jobs)):
        if isinstance(res, par.Failed):
            rep.unk(j[0], j[1], res.why[-300:])
            continue
        for (rule, construct), (kind, msg, where, _) in res[0]:
            rep._put(kind, rule, construct, msg, where)
        for k, v in res[1].items():
            rep.add(k, v)
