"""Symbolic differentiation of value graphs."""
from . import terms as T
from .terms import const, mk, num, Term, add, sub, mul, div, neg, power, ite, ZERO, ONE

CDF, PDF = "scipy.stats.norm.cdf", "scipy.stats.norm.pdf"


class NoDerivative(Exception):
    pass


def pdf(x):
    return mk("app", PDF, x)


APP = {
    "scipy.stats.norm.cdf": pdf,
    "scipy.special.ndtr": pdf,
    "scipy.stats.norm.pdf": lambda x: neg(mul(x, pdf(x))),
    "scipy.stats.norm.logcdf": lambda x: div(pdf(x), mk("app", CDF, x)),
    "scipy.special.log_ndtr": lambda x: div(pdf(x), mk("app", CDF, x)),
    "scipy.stats.norm.logpdf": neg,
    "scipy.stats.norm.sf": lambda x: neg(pdf(x)),
    "numpy.expm1": lambda x: T.fexp(x), "math.expm1": lambda x: T.fexp(x),
    "numpy.log1p": lambda x: div(ONE, add(ONE, x)), "math.log1p": lambda x: div(ONE, add(ONE, x)),
    "scipy.special.entr": lambda x: neg(add(ONE, T.flog("log", x))),
}
APP2 = {
    # d/dx, d/dy
    "scipy.special.xlogy": (lambda x, y: T.flog("log", y), lambda x, y: div(x, y)),
    "scipy.special.rel_entr": (lambda x, y: add(ONE, T.flog("log", div(x, y))), lambda x, y: neg(div(x, y))),
    "scipy.special.kl_div": (lambda x, y: T.flog("log", div(x, y)), lambda x, y: sub(ONE, div(x, y))),
}


def diff(t, x, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = _diff(t, x, memo)
    return r


def _diff(t, x, memo):
    if t is x:
        return ONE
    if x not in T.free(t):
        return ZERO
    d = lambda u: diff(u, x, memo)
    if t.op == "poly":
        out = ZERO
        for m, c in t.args:
            for i, (a, e) in enumerate(m):
                da = d(a)
                if num(da) == 0:
                    continue
                r = mul(const(c * e), da)
                r = mul(r, power(a, const(e - 1)))
                for j, (b, f) in enumerate(m):
                    if j != i:
                        r = mul(r, power(b, const(f)))
                out = add(out, r)
        return out
    if t.op == "exp":
        return mul(t, d(t.args[0]))
    if t.op in ("log", "log2", "log10"):
        r = div(d(t.args[0]), t.args[0])
        return r if t.op == "log" else div(r, T.flog("log", const(2 if t.op == "log2" else 10)))
    if t.op == "pow":
        a, e = t.args
        r = mul(mul(e, power(a, sub(e, ONE))), d(a))
        if x in T.free(e):
            r = add(r, mul(mul(t, T.flog("log", a)), d(e)))
        return r
    if t.op == "ite":
        return ite(t.args[0], d(t.args[1]), d(t.args[2]))
    if t.op == "sin":
        return mul(T.fcos(t.args[0]), d(t.args[0]))
    if t.op == "cos":
        return neg(mul(T.fsin(t.args[0]), d(t.args[0])))
    if t.op == "sqrt":
        return div(d(t.args[0]), mul(const(2), t))
    if t.op == "abs":
        return ite(T.lt0(t.args[0]), neg(d(t.args[0])), d(t.args[0]))
    if t.op == "app":
        f = t.args[0]
        f = f.args[1] if isinstance(f, Term) else f
        if len(t.args) == 2 and f in APP:
            return mul(APP[f](t.args[1]), d(t.args[1]))
        if len(t.args) == 3 and f in APP2:
            a, b = APP2[f]
            return add(mul(a(*t.args[1:]), d(t.args[1])), mul(b(*t.args[1:]), d(t.args[2])))
        raise NoDerivative(str(f))
    raise NoDerivative(t.op)
