"""Convex programs as terms: the expressions, constraints and objectives that the modelling packages are asked to build.

Every operation of the three packages on the matrices of a program becomes an operator term whose meaning (documented
semantics of the package: what ``*``, ``&``, ``//``, ``<<``, ``abs`` ... stand for) is given below as an equal.py evaluator.
A solved problem is recorded as a term ("program", sense, objective, constraints)."""
import itertools
import numpy as np
from . import terms as T
from . import equal as Q
from .terms import sym, const, mk, Term, TRUE, FALSE, land, ite
from .interp import VObj, VMeth, VExt, Maybe, VTuple, Ref, HObj, VChoice

NONE = const(None)


class Bound(VObj):
    __slots__ = ("f", "name")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def term(self, it):
        return mk("engine", self.name)

    def call(self, it, args, kw, node):
        return self.f(it, list(args), dict(kw), node)


def tm(it, v):
    return v.t if isinstance(v, (Expr, Con, Obj)) else it.argterm(v)


class Expr(VObj):
    """An expression (or, with const, a matrix of numbers) of one of the packages."""
    __slots__ = ("k", "t", "var", "num", "two")

    def __init__(self, k, t, var=None, num=False):
        self.k, self.t, self.var, self.num = k, t, var, num

    def term(self, it):
        return self.t

    def new(self, t, other=None):
        return Expr(self.k, t, None, self.num and not (isinstance(other, Expr) and not other.num))

    def binop(self, it, op, other, swapped, node):
        if isinstance(other, VChoice):
            return NotImplemented
        a, b = self.t, tm(it, other)
        if swapped:
            a, b = b, a
        k = self.k
        if op in ("+", "-"):
            return self.new(mk("mxadd" if op == "+" else "mxsub", k, a, b), other)
        if op == "*" or (op == "@" and k != "tdr"):
            return self.new(mk("mxmul", k, a, b), other)
        if op == "/":
            return self.new(mk("mxdiv", k, a, b), other)
        if k == "picos" and op == "&":
            return self.new(mk("mxh", k, a, b), other)
        if k == "picos" and op == "//":
            return self.new(mk("mxv", k, a, b), other)
        if k == "picos" and op == "|":
            return self.new(mk("mxdot", k, a, b), other)
        if k == "picos" and op == "^":
            return self.new(mk("mxhad", k, a, b), other)
        if k != "tdr" and op in ("<<", ">>"):
            d = mk("mxsub", k, b, a) if op == "<<" else mk("mxsub", k, a, b)
            return Con(mk("con", "psd", d))
        if op == "**":
            return self.new(mk("mxpow", k, a, b), other)
        return self.new(it.newsym("unmodelled"))

    def unop(self, it, op, node):
        if op in ("-", "u-", "neg"):
            return self.new(mk("mxneg", self.k, self.t))
        if op in ("+", "u+", "pos"):
            return self
        return NotImplemented

    def compare(self, it, op, other, swapped, node):
        a, b = self.t, tm(it, other)
        if self.k == "tdr":
            return NotImplemented
        if op == "==":
            return Con(mk("con", "eq", a, b, self.k))
        if op in ("<=", "<"):
            return Con(mk("con", "le", a, b, self.k))
        if op in (">=", ">"):
            return Con(mk("con", "le", b, a, self.k))
        return NotImplemented

    def getattr(self, it, name, node):
        k, t = self.k, self.t
        if name == "T":
            return self.new(mk("mxT", k, t))
        if name == "value" and not self.num:
            if self.var is not None:
                return Val(t) if k == "picos" else t
            return Val(mk("mxval", k, t))
        if name in ("shape", "size"):
            sh = it.lib.shape(t)
            if sh is None:
                return NotImplemented
            if name == "shape" or k == "picos":
                return VTuple([x for x in sh])
            out = const(1)
            for x in sh:
                out = T.mul(out, x)
            return out
        if name == "tr":
            return self.new(mk("mxtr", k, t))
        if name in ("is_square", "name"):
            return it.newsym("unmodelled")
        return Bound(name, lambda it, a, kw, n: self.new(it.newsym("unmodelled")))

    def getitem(self, it, idx, node):
        return self.new(mk("mxidx", self.k, self.t, it.argterm(idx)))

    def length(self, it):
        sh = it.lib.shape(self.t)
        return sh[0] if sh else it.newsym("len", kind="int", lo=0)


class Val(VObj):
    """The value of a picos variable or of a compound expression: a matrix (cvxopt), column-major when indexed once."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def term(self, it):
        return self.t

    def getattr(self, it, name, node):
        if name == "T":
            return Val(it.lib.transpose(self.t) if hasattr(it.lib, "transpose") else mk("T", self.t))
        return NotImplemented

    def getitem(self, it, idx, node):
        return Val(mk("mxidx", "picos", self.t, it.argterm(idx)))

    def binop(self, it, op, other, swapped, node):
        return NotImplemented


class Con(VObj):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def term(self, it):
        return self.t


class Obj(VObj):
    __slots__ = ("t", "sense")

    def __init__(self, sense, t):
        self.sense, self.t = sense, t

    def term(self, it):
        return mk("objective", self.sense, self.t)


class Prob(VObj):
    """A problem being assembled; constraints are kept with the condition under which they were added."""
    __slots__ = ("k", "rec", "obj", "cons", "ref")

    def __init__(self, it, k, rec, obj=None, cons=()):
        self.k, self.rec, self.obj, self.cons = k, rec, obj, list(cons)
        self.ref = it.alloc(HObj("dict", ({}, it.newsym("options", kind="dict"))))

    def term(self, it):
        return mk("obj", "problem")

    def add(self, it, c, node):
        t = it.argterm(c)
        e = (land(*it.st.pc), t)
        if e not in self.cons:
            self.cons.append(e)
        return NONE

    def setobj(self, it, args):
        e = (land(*it.st.pc), tuple(it.term(a) if isinstance(a, Term) else it.argterm(a) for a in args))
        self.obj = e if self.obj is None else (self.obj if self.obj == e else ("many",))

    def getattr(self, it, name, node):
        if name == "add_constraint":
            return Bound(name, lambda it, a, k, n: self.add(it, a[0], n))
        if name in ("add_list_of_constraints", "require"):
            return Bound(name, lambda it, a, k, n: [self.add(it, x, n) for x in a] and NONE or NONE)
        if name == "set_objective":
            return Bound(name, lambda it, a, k, n: self.setobj(it, a) or NONE)
        if name in ("minimize", "maximize"):
            return Bound(name, lambda it, a, k, n: self.solve(it, a, k, n))
        if name in ("solve", "__call__"):
            return Bound("solve", self.solve)
        if name == "options":
            return self.ref if self.k == "tdr" else Opts()
        return it.newsym("problem." + name)

    def setattr(self, it, name, v, node):
        if name in ("minimize", "maximize") or name == "objective":
            self.obj = (land(*it.st.pc), (const("min" if name == "minimize" else "max"), it.argterm(v)) if name != "objective" else tuple(it.argterm(x) for x in v.items) if isinstance(v, VTuple) else (mk('unmodelled', 'objective'),))

    def call(self, it, args, kw, node):
        return self.solve(it, args, kw, node) if self.k == "tdr" else NotImplemented

    def binop(self, it, op, other, swapped, node):
        if op == "+=" or (op == "+" and self.k == "picos"):
            self.add(it, other, node)
            return self
        return NotImplemented

    def solve(self, it, args, kw, node):
        cons = []
        for pc, t in self.cons:
            cons.append(t if pc is TRUE else mk("given", pc, t))
        if self.obj is None or self.obj == ("many",):
            o = mk("unmodelled", "objective")
        else:
            o = self.obj[1]
            o = mk("objective", *o)
        self.rec.append((land(*it.st.pc), mk("program", o, mk("vec", *cons)), it.event("engine", self.k, (), {}, node).where()))
        it.may_raise(node, "call")
        return it.newsym("solution")


class Opts(VObj):
    __slots__ = ()

    def term(self, it):
        return mk("engine", "options")

    def getattr(self, it, name, node):
        if name == "update":
            return Bound("update", lambda it, a, k, n: NONE)
        return NotImplemented

    def setattr(self, it, name, v, node):
        pass

    def setitem(self, it, k, v, node):
        pass


SQUARE = {}           # names of variable symbols declared symmetric / positive semidefinite / negative / nonneg: {symbol name: flags}


def install(it):
    """Hooks the packages; returns the list of solved programs (condition, program term, place)."""
    rec = []
    H = it.lib.ext_hooks

    def kwd(it, args, kw, names):
        out = dict(zip(names, args))
        for k, v in kw.items():
            out[k] = v[1] if isinstance(v, Maybe) else v
        return out

    def newvar(it, k, shape, flags=(), name=""):
        s = sym(it.newsym("%s:var" % k).args[0] + ("_s" if "sym" in flags else ""), kind="arr", shape=tuple(shape))
        SQUARE[s.args[0]] = frozenset(flags)
        return Expr(k, s, var=s)

    def truthy(it, v):
        c = it.truth(it.term(v)) if v is not None else FALSE
        return c is TRUE

    def dims(it, v):
        """shape argument -> tuple of dimension terms, or None"""
        if isinstance(v, VTuple):
            return tuple(it.term(x) for x in v.items)
        t = it.term(v)
        if t.op in ("vec", "tuple"):
            return tuple(t.args)
        return (t,)

    # ---- cvxpy
    def cvar(it, p, args, kw, node):
        a = kwd(it, args, kw, ("shape", "name"))
        sh = dims(it, a["shape"]) if "shape" in a else ()
        fl = [f for f, k in (("sym", "symmetric"), ("psd", "PSD"), ("nsd", "NSD"), ("nonneg", "nonneg"), ("nonpos", "nonpos")) if k in a and truthy(it, a[k])]
        if any(k not in ("shape", "name", "symmetric", "PSD", "NSD", "nonneg", "nonpos") for k in a):
            return Expr("cvxpy", it.newsym("unmodelled"))
        if {"psd", "nsd"} & set(fl):
            fl.append("sym")
        return newvar(it, "cvxpy", sh, fl)
    H["cvxpy.Variable"] = cvar
    E1 = lambda k, op: (lambda it, p, a, kw, n: Expr(k, mk(op, k, *[tm(it, x) for x in a])) if not kw else Expr(k, it.newsym("unmodelled")))
    for nm, op in (("cvxpy.sum", "mxsum"), ("cvxpy.max", "mxmax"), ("cvxpy.min", "mxmin"), ("cvxpy.norm2", "mxnorm2"), ("cvxpy.bmat", "mxblock"),
                   ("cvxpy.transpose", "mxT"), ("cvxpy.trace", "mxtr"), ("cvxpy.matmul", "mxmul"), ("cvxpy.multiply", "mxhad"), ("cvxpy.Constant", "mxcst"),
                   ("cvxpy.sum_squares", "mxsumsq"), ("cvxpy.diag", "mxdiag"), ("cvxpy.neg", "mxneg"), ("cvxpy.abs", "mxabs"), ("cvxpy.maximum", "mxmaximum")):
        H[nm] = E1("cvxpy", op)
    for nm, ax in (("cvxpy.vstack", "mxv"), ("cvxpy.hstack", "mxh")):
        H[nm] = (lambda ax: lambda it, p, a, kw, n: Expr("cvxpy", mk(ax + "l", "cvxpy", it.argterm(a[0]))))(ax)

    def cnorm(it, p, a, kw, n):
        a = kwd(it, a, kw, ("x", "p"))
        q = it.term(a["p"]) if "p" in a else const(2)
        if q in (const(2), const(2.0)) and set(a) <= {"x", "p"}:
            return Expr("cvxpy", mk("mxnorm2", "cvxpy", tm(it, a["x"])))
        return Expr("cvxpy", it.newsym("unmodelled"))
    H["cvxpy.norm"] = cnorm
    H["cvxpy.pnorm"] = cnorm
    H["cvxpy.Minimize"] = lambda it, p, a, kw, n: Obj("min", tm(it, a[0]))
    H["cvxpy.Maximize"] = lambda it, p, a, kw, n: Obj("max", tm(it, a[0]))
    H["cvxpy.PSD"] = H["cvxpy.constraints.PSD"] = lambda it, p, a, kw, n: Con(mk("con", "psd", tm(it, a[0])))
    H["cvxpy.Zero"] = H["cvxpy.constraints.Zero"] = lambda it, p, a, kw, n: Con(mk("con", "eq", tm(it, a[0]), const(0), "cvxpy"))

    def cprob(it, p, args, kw, node):
        a = kwd(it, args, kw, ("objective", "constraints"))
        pr = Prob(it, "cvxpy", rec)
        o = a["objective"]
        pr.obj = (TRUE, (const(o.sense), o.t)) if isinstance(o, Obj) else (TRUE, tuple(it.argterm(o).args))
        if "constraints" in a:
            pr.cons = [(TRUE, it.argterm(a["constraints"]))]
        return pr
    H["cvxpy.Problem"] = cprob

    # ---- the bundled modeller
    P = "pydsm.cvxpy_tdr."

    def tvar(scal):
        def f(it, p, args, kw, node):
            a = kwd(it, args, kw, ("m", "n", "structure", "name"))
            m, n = [it.term(a[k]) if k in a else const(1) for k in ("m", "n")]
            st = it.term(a["structure"]) if "structure" in a else NONE
            fl = ["sym"] if st == const("symmetric") else [] if st is NONE or st == NONE else ["other"]
            if scal and m == const(1) and n == const(1):
                return newvar(it, "tdr", (), fl)
            return newvar(it, "tdr", (m, n), fl)
        return f
    for q in ("variable", "interface.variable"):
        H[P + q] = tvar(True)
    H[P + "arrays.cvxpy_var"] = tvar(False)
    H[P + "scalars.cvxpy_scalar_var"] = lambda it, p, a, k, n: newvar(it, "tdr", ())

    def tmat(it, p, args, kw, node):
        v = args[0] if args else kw.get("data", kw.get("arg"))
        return Expr("tdr", mk("mxcst", "tdr", tm(it, v)), num=True)
    for q in ("matrix", "arrays.cvxpy_matrix", "spmatrix", "arrays.cvxpy_spmatrix", "interface.matrix"):
        H[P + q] = tmat

    def tcon(op):
        def f(it, p, args, kw, node):
            ds = [it.argterm(a) for a in args]
            return Expr("tdr", mk("mxcst", "tdr", mk(op, *ds)), num=True)
        return f
    for q in ("zeros", "ones", "eye"):
        H[P + q] = H[P + "utils." + q] = tcon(q if q == "eye" else q)
    for q, op in (("sum", "mxsum"), ("max", "mxmax"), ("min", "mxmin"), ("norm2", "mxnorm2"), ("trace", "mxtr"), ("transpose", "mxT"), ("diag", "mxdiag")):
        H[P + q] = E1("tdr", op)
        H[P + "utils." + q] = H[P + "functions." + q] = H[P + q]
    for q, op in (("vstack", "mxvl"), ("hstack", "mxhl")):
        H[P + q] = H[P + "utils." + q] = (lambda op: lambda it, p, a, kw, n: Expr("tdr", mk(op, "tdr", it.argterm(a[0]))))(op)

    def cmp_(kind, flip):
        def f(it, p, a, kw, n):
            x, y = [tm(it, v) for v in a[:2]]
            if flip:
                x, y = y, x
            return Con(mk("con", kind, x, y, "tdr"))
        return f
    for pre in (P, P + "interface.", P + "constraints."):
        H[pre + "equals"] = cmp_("eq", False)
        H[pre + "less_equals"] = H[pre + "less"] = H[pre + "leq"] = cmp_("le", False)
        H[pre + "greater_equals"] = H[pre + "greater"] = H[pre + "geq"] = cmp_("le", True)

        def belongs(it, p, a, kw, n):
            s = a[1]
            if isinstance(s, VExt) and s.path.split(".")[-1] == "semidefinite_cone":
                return Con(mk("con", "psd", tm(it, a[0])))
            return Con(mk("con", "other", tm(it, a[0]), it.argterm(s)))
        H[pre + "belongs"] = belongs
        H[pre + "minimize"] = lambda it, p, a, kw, n: Obj("min", tm(it, a[0]))
        H[pre + "maximize"] = lambda it, p, a, kw, n: Obj("max", tm(it, a[0]))

    def tprog(it, p, args, kw, node):
        a = kwd(it, args, kw, ("action", "constraints", "params", "options"))
        pr = Prob(it, "tdr", rec)
        o = a["action"]
        pr.obj = (TRUE, (const(o.sense), o.t)) if isinstance(o, Obj) else (TRUE, tuple(it.argterm(o).args))
        if "constraints" in a:
            pr.cons = [(TRUE, it.argterm(a["constraints"]))]
        return pr
    H[P + "program"] = H[P + "programs.program"] = H[P + "programs.cvxpy_program"] = tprog

    # ---- picos and cvxopt
    def pvar(*flags):
        def f(it, p, args, kw, node):
            a = kwd(it, args, kw, ("name", "shape", "lower", "upper"))
            if not set(a) <= {"name", "shape"}:
                return Expr("picos", it.newsym("unmodelled"))
            sh = dims(it, a["shape"]) if "shape" in a else (const(1), const(1))
            if len(sh) == 1:
                sh = (sh[0], sh[0] if "sym" in flags else const(1))
            return newvar(it, "picos", sh, flags)
        return f
    H["picos.RealVariable"] = pvar()
    H["picos.SymmetricVariable"] = pvar("sym")
    H["picos.Problem"] = lambda it, p, a, kw, n: Prob(it, "picos", rec)
    for q, op in (("sum", "mxsum"), ("trace", "mxtr"), ("max", "mxmax"), ("norm", "mxnorm2")):
        H["picos." + q] = E1("picos", op)

    def skl(it, p, a, kw, n):
        if len(a) == 2 and it.term(a[1]) == const(1):
            return Expr("picos", mk("mxmax", "picos", tm(it, a[0])))
        if len(a) == 2:
            return Expr("picos", mk("mxskl", "picos", tm(it, a[0]), it.argterm(a[1])))
        return Expr("picos", it.newsym("unmodelled"))
    H["picos.sum_k_largest"] = skl
    H["picos.block"] = E1("picos", "mxblock")
    H["picos.Constant"] = lambda it, p, a, kw, n: Expr("picos", mk("mxcst", "picos", tm(it, a[-1] if a else kw["value"])), num=True)

    def cmat(it, p, args, kw, node):
        a = kwd(it, args, kw, ("x", "size", "tc"))
        x = a["x"]
        ts = [tm(it, x)]
        lists = mk("py", it.term(x).op == "vec") if not isinstance(x, (Expr, Val)) else mk("py", False)
        if "size" in a:
            return Expr("picos", mk("mxreshapeF", ts[0], it.argterm(a["size"])), num=True)
        if isinstance(x, Ref) and it.get(x).kind == "list" and any(isinstance(y, Ref) and it.get(y).kind == "list" for y in it.get(x).data):
            cols = [mk("mxvl", "picos", it.argterm(y)) for y in it.get(x).data]
            return Expr("picos", mk("mxhl", "picos", mk("vec", *cols)), num=True)
        if isinstance(x, Ref) and it.get(x).kind == "list":
            return Expr("picos", mk("mxvl", "picos", ts[0]), num=True)
        return Expr("picos", mk("mxcst", "picos", ts[0]), num=True)
    H["cvxopt.matrix"] = H["cvxopt.base.matrix"] = H["cvxopt.sparse"] = cmat

    def pabs(it, p, a, kw, n):
        if isinstance(a[0], Expr) and a[0].k == "picos":
            return Expr("picos", mk("mxnorm2", "picos", a[0].t))
        return NotImplemented
    H["builtins.abs"] = pabs

    def asarr(it, p, a, kw, n):
        if isinstance(a[0], Val):
            a = [a[0].t] + list(a[1:])
            h, H[p] = H[p], None
            del H[p]
            try:
                return it.call(VExt(p), a, kw, n)
            finally:
                H[p] = h
        return NotImplemented
    for q in ("numpy.asarray", "numpy.array", "numpy.ravel", "numpy.squeeze", "numpy.reshape"):
        H[q] = asarr
    return rec


# ---------------------------------------------------------------- meaning of the operators
class ConV(object):
    def __init__(self, kind, a, b=None, src=None):
        self.kind, self.a, self.b, self.src = kind, a, b, src


def num(v):
    if isinstance(v, ConV):
        raise Q.Unsupported("constraint used as number")
    return Q._num(v)


def two(k, v):
    v = np.asarray(num(v))
    if v.ndim >= 2:
        return v
    if v.ndim == 0:
        return v.reshape(1, 1)
    if k == "tdr":
        return v.reshape(1, -1)
    if k == "picos":
        return v.reshape(-1, 1)
    return v


def fits(a, b):
    if a.size == 1 or b.size == 1 or a.shape == b.shape:
        return
    raise Q.EvalError("operands of shapes %s and %s" % (a.shape, b.shape))


def bop(f):
    def g(E, t):
        k = t.args[0]
        a, b = two(k, E.ev(t.args[1])), two(k, E.ev(t.args[2]))
        if k != "cvxpy":
            fits(a, b)
        try:
            return f(a, b)
        except ValueError as e:
            raise Q.EvalError(str(e))
    return g


Q.OPS["mxadd"] = bop(lambda a, b: a + b)
Q.OPS["mxsub"] = bop(lambda a, b: a - b)
Q.OPS["mxhad"] = bop(lambda a, b: a * b)
Q.OPS["mxdiv"] = bop(lambda a, b: a / b)
Q.OPS["mxpow"] = bop(lambda a, b: a ** b)
Q.OPS["mxmaximum"] = bop(np.maximum)


@Q.op("mxmul")
def _(E, t):
    k = t.args[0]
    a, b = two(k, E.ev(t.args[1])), two(k, E.ev(t.args[2]))
    if a.ndim == 2 and a.shape == (1, 1) and not (b.ndim == 2 and b.shape[0] == 1) or b.ndim == 2 and b.shape == (1, 1) and not (a.ndim == 2 and a.shape[1] == 1):
        return a * b
    try:
        return a @ b
    except ValueError as e:
        raise Q.EvalError(str(e))


@Q.op("mxneg")
def _(E, t):
    return -two(t.args[0], E.ev(t.args[1]))


@Q.op("mxcst", "mxval")
def _(E, t):
    return two(t.args[0], E.ev(t.args[1]))


@Q.op("mxT")
def _(E, t):
    return two(t.args[0], E.ev(t.args[1])).T


@Q.op("mxabs")
def _(E, t):
    return np.abs(two(t.args[0], E.ev(t.args[1])))


@Q.op("mxtr")
def _(E, t):
    return np.trace(two(t.args[0], E.ev(t.args[1]))).reshape(1, 1)


@Q.op("mxdiag")
def _(E, t):
    v = two(t.args[0], E.ev(t.args[1]))
    return np.diag(v.ravel()) if 1 in v.shape or v.ndim == 1 else np.diag(v).reshape(-1, 1)


@Q.op("mxdot")
def _(E, t):
    a, b = [two(t.args[0], E.ev(x)) for x in t.args[1:]]
    return np.sum(a * b).reshape(1, 1)


def items(E, t):
    v = E.ev(t)
    if isinstance(v, tuple):
        return list(v)
    return [v[i] for i in range(len(v))] if isinstance(v, np.ndarray) and v.ndim else [v]


def one(f):
    def g(E, t):
        v = E.ev(t.args[1])
        if isinstance(v, tuple):
            return f(np.array([two(t.args[0], x) for x in v]), 0)
        return np.asarray(f(two(t.args[0], v), None)).reshape(1, 1)
    return g


def _sum(a, ax):
    return np.sum(a, axis=ax)


Q.OPS["mxsum"] = one(_sum)
Q.OPS["mxmax"] = one(lambda a, ax: np.max(a, axis=ax))
Q.OPS["mxmin"] = one(lambda a, ax: np.min(a, axis=ax))


@Q.op("mxskl")
def _(E, t):
    v = np.sort(two(t.args[0], E.ev(t.args[1])).ravel())[::-1]
    return np.sum(v[:Q.toint(num(E.ev(t.args[2])))]).reshape(1, 1)


@Q.op("mxnorm2")
def _(E, t):
    v = two(t.args[0], E.ev(t.args[1]))
    if v.ndim == 2 and 1 not in v.shape:
        raise Q.Unsupported("norm of a matrix")
    return np.sqrt(np.sum(v * v)).reshape(1, 1)


@Q.op("mxsumsq")
def _(E, t):
    v = two(t.args[0], E.ev(t.args[1]))
    return np.sum(v * v).reshape(1, 1)


def stack(k, vs, ax):
    vs = [two(k, v) for v in vs]
    if k == "cvxpy" and ax == 0:
        vs = [v.reshape(1, -1) if v.ndim == 1 else v for v in vs]
    try:
        return np.concatenate(vs, axis=ax if all(v.ndim == 2 for v in vs) else 0)
    except ValueError as e:
        raise Q.EvalError(str(e))


Q.OPS["mxv"] = lambda E, t: stack(t.args[0], [E.ev(x) for x in t.args[1:]], 0)
Q.OPS["mxh"] = lambda E, t: stack(t.args[0], [E.ev(x) for x in t.args[1:]], 1)
Q.OPS["mxvl"] = lambda E, t: stack(t.args[0], sub(E, t.args[1]), 0)
Q.OPS["mxhl"] = lambda E, t: stack(t.args[0], sub(E, t.args[1]), 1)


def sub(E, t):
    """The elements of a sequence term, each evaluated on its own (blocks have different shapes)."""
    if t.op in ("vec", "tuple", "list"):
        return [E.ev(x) for x in t.args]
    if t.op == "ite":
        return sub(E, t.args[1] if Q._truth(E.ev(t.args[0])) else t.args[2])
    if t.op in ("concat", "cat"):
        return [y for x in t.args for y in sub(E, x)]
    return items(E, t)


@Q.op("mxblock")
def _(E, t):
    k, m = t.args[0], t.args[1]
    rows = m.args if m.op == "vec" else None
    if rows is None:
        raise Q.Unsupported("block matrix")
    return stack(k, [stack(k, sub(E, r), 1) for r in rows], 0)


@Q.op("mxreshapeF")
def _(E, t):
    v = np.asarray(num(E.ev(t.args[0])))
    try:
        return v.reshape(Q._dims(E, t.args[1]), order="F")
    except ValueError as e:
        raise Q.EvalError(str(e))


@Q.op("mxidx")
def _(E, t):
    k = t.args[0]
    v = np.asarray(num(E.ev(t.args[1])))
    if k != "cvxpy":
        v = two(k, v)
    i = Q._index(E, t.args[2])
    try:
        if k == "cvxpy":
            return v[i]
        if isinstance(i, tuple):
            r = v[tuple(slice(x, x + 1 if x != -1 else None) if isinstance(x, (int, np.integer)) and -v.shape[d] <= x < v.shape[d] else x for d, x in enumerate(i))]
            if r.size == 0:
                raise Q.EvalError("index out of range")
            return r
        w = v.reshape(-1, order="F")
        if isinstance(i, slice):
            return w[i].reshape(-1, 1)
        return np.asarray(w[i]).reshape(1, 1)
    except IndexError as e:
        raise Q.EvalError(str(e))


@Q.op("con")
def _(E, t):
    kind = t.args[0]
    if kind == "psd":
        return ConV("psd", two("cvxpy", E.ev(t.args[1])))
    if kind == "other":
        raise Q.Unsupported("constraint kind")
    k = t.args[3]
    a, b = two(k, E.ev(t.args[1])), two(k, E.ev(t.args[2]))
    if k != "cvxpy":
        fits(a, b)
    try:
        return ConV(kind, a - b, None, t)
    except ValueError as e:
        raise Q.EvalError(str(e))


def cons_of(E, t):
    """Evaluated constraints of a constraint sequence term."""
    if t.op == "con":
        return [E.ev(t)]
    if t.op == "given":
        return cons_of(E, t.args[1]) if Q._truth(E.ev(t.args[0])) else []
    if t.op == "ite":
        return cons_of(E, t.args[1] if Q._truth(E.ev(t.args[0])) else t.args[2])
    if t.op in ("vec", "tuple", "concat", "cat", "list", "append"):
        return [c for x in t.args if isinstance(x, Term) for c in cons_of(E, x)]
    v = E.ev(t)
    if isinstance(v, ConV):
        return [v]
    if isinstance(v, tuple) and all(isinstance(x, ConV) for x in v):
        return list(v)
    raise Q.Unsupported("constraints " + t.op)


def key(v, i):
    v = np.asarray(v, dtype=float)
    r = np.random.default_rng(17 + i).normal(size=v.shape)
    return float(np.sum(r * v))


def uniq(vs):
    """Sorted list without repetitions (value wise)."""
    vs = sorted(vs, key=lambda v: (np.shape(v), key(v, 0)))
    out = []
    for v in vs:
        if not any(np.shape(v) == np.shape(w) and np.allclose(v, w, rtol=1e-9, atol=1e-11) for w in out):
            out.append(v)
    return out


@Q.op("program")
def _(E, t):
    obj, cons = t.args[0], t.args[1]
    if obj.op != "objective":
        raise Q.Unsupported("objective")
    sense, o = obj.args
    sense = sense if isinstance(sense, str) else str(E.ev(sense))
    sg = 1. if sense == "min" else -1. if sense == "max" else None
    if sg is None:
        raise Q.Unsupported("objective sense")
    cs = cons_of(E, cons)
    # implied by the declarations of the variables that take part
    for v in T.free(t):
        fl = SQUARE.get(v.args[0]) if v.op == "sym" else None
        if fl:
            if "psd" in fl:
                cs.append(ConV("psd", E.ev(v)))
            if "nsd" in fl:
                cs.append(ConV("psd", -E.ev(v)))
            if "nonneg" in fl:
                cs.append(ConV("le", -E.ev(v)))
            if "nonpos" in fl:
                cs.append(ConV("le", E.ev(v)))
    epi = None
    if o.op == "sym" and sg == 1.:
        hit = [c for c in cs if c.kind == "le" and c.src is not None and c.src.args[2] is o and o not in T.free(c.src.args[1])]
        rest = [c for c in cs if c not in hit]
        if hit and not any(c.src is not None and o in T.free(c.src) for c in rest):
            cs = rest
            epi = max(float(np.max(np.real(c.a))) for c in hit) + float(np.real(np.asarray(E.ev(o)).reshape(-1)[0]))
    ov = epi if epi is not None else sg * float(np.real(np.asarray(num(E.ev(o))).reshape(-1)[0]))
    psd = uniq([np.real_if_close(c.a) for c in cs if c.kind == "psd"])
    eqs = uniq([np.abs(x) for c in cs if c.kind == "eq" for x in np.ravel(c.a) if abs(x) > 1e-12])
    les = uniq([np.asarray(x) for c in cs if c.kind == "le" for x in np.ravel(c.a)])
    return Q.Tup([np.float64(ov), Q.Tup(psd), Q.Tup(eqs), Q.Tup(les)])


def epigraph(prog):
    """The variable standing for the objective alone, or None."""
    o = prog.args[0].args[1] if prog.args[0].op == "objective" else None
    return o if isinstance(o, Term) and o.op == "sym" and o.args[0] in SQUARE else None


def variables(t, skip=None):
    return sorted((v for v in T.free(t) if v.op == "sym" and v.args[0] in SQUARE and v is not skip), key=lambda v: v.args[0])


def sampler(v):
    """Random value of a variable: symmetric if declared so."""
    def f(E):
        sh = tuple(Q.toint(E.ev(x)) for x in T.INFO[v.args[0]]["shape"])
        a = E.rng.normal(0, 1.3, sh)
        return a + a.T if "sym" in SQUARE[v.args[0]] else a
    return f


def match(A, B, seed=0, domain=None, env=None, limit=6000):
    """A bijection {variable of B: variable of A} under which both whole terms evaluate alike at a random point, or None.
    Also says how many bijections there were."""
    ea, eb = epigraph(A.args[0]), epigraph(B.args[0])
    va, vb = variables(A, ea), variables(B, eb)
    if len(va) != len(vb):
        return None, "%d unknowns against %d" % (len(va), len(vb))

    def groups(vs, t):
        g = {}
        psd = {c.args[1] for c in T.walk(t) if c.op == "con" and c.args[0] == "psd"} | {v for v in vs if "psd" in SQUARE[v.args[0]]}
        psd |= {p.args[1] for p in psd if p.op == "mxsub" and p.args[2] == const(0)}
        psd = {p.args[1] if p.op in ("mxsub",) else p for p in psd}
        for v in vs:
            g.setdefault(("sym" in SQUARE[v.args[0]], v in psd if "sym" in SQUARE[v.args[0]] else False), []).append(v)
        return g
    ga, gb = groups(va, A), groups(vb, B)
    if {k: len(x) for k, x in ga.items()} != {k: len(x) for k, x in gb.items()}:
        ga, gb = ({}, {})
        for v in va:
            ga.setdefault("sym" in SQUARE[v.args[0]], []).append(v)
        for v in vb:
            gb.setdefault("sym" in SQUARE[v.args[0]], []).append(v)
        if {k: len(x) for k, x in ga.items()} != {k: len(x) for k, x in gb.items()}:
            return None, "unknowns of other kinds"
    dom = dict(domain or {})
    for v in va + [x for x in (ea,) if x is not None]:
        dom[v] = sampler(v)
    for tr in range(60):
        E = Q.Ev(np.random.default_rng(seed * 991 + tr + 5), dict(env or {}), dom)
        try:
            with np.errstate(all="ignore"):
                a = E.ev(A)
            if isinstance(a, tuple) and len(a) and isinstance(a[0], Q.Str):
                continue
            break
        except Q.EvalError:
            continue
    else:
        raise Q.Unsupported("no admissible point")
    base = dict(E.env)
    n = 0
    keys = sorted(ga, key=str)
    for ps in itertools.product(*[itertools.permutations(ga[k]) for k in keys]):
        n += 1
        if n > limit:
            raise Q.Unsupported("too many correspondences of unknowns")
        m = {}
        for k, p in zip(keys, ps):
            m.update(zip(gb[k], p))
        env = dict(base)
        bad = False
        for v, w in m.items():
            env[v] = base[w] if w in base else E.ev(w)
            sh = tuple(Q.toint(E.ev(x)) for x in T.INFO[v.args[0]]["shape"])
            if np.size(env[v]) == 1 and np.prod(sh, dtype=int) == 1:
                env[v] = np.asarray(env[v]).reshape(sh) if sh else float(np.asarray(env[v]).reshape(-1)[0])
            elif tuple(sh) != np.shape(env[v]):
                bad = True
        if bad:
            continue
        if eb is not None and eb not in env:
            env[eb] = 0.37
        F = Q.Ev(np.random.default_rng(1), env, dict(domain or {}))
        try:
            with np.errstate(all="ignore"):
                b = F.ev(B)
        except Q.EvalError:
            continue
        if Q.close(a, b, 1e-7, 1e-9):
            return m, n
    return None, n
