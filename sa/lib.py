"""Meaning of builtins, numpy/scipy functions and array methods for the abstract interpreter."""
from . import terms as T
from .terms import (mk, const, sym, add, sub, mul, div, power, neg, ite, land, lor, lnot, lt0, eq0, mod, floordiv,
                    fexp, fcos, fsin, fabs, fconj, freal, fimag, flog,
                    NONE, TRUE, FALSE, ZERO, ONE, INF, NAN, PI, EPS, IMAG, Term, is_num, num, is_str, pyval)
from . import interp as I
from .facts import nonneg

BT = "builtins."
ALIASES = {
    "numpy.abs": "numpy.absolute", "numpy.fabs": "numpy.absolute", "numpy.conj": "numpy.conjugate",
    "numpy.max": "numpy.amax", "numpy.min": "numpy.amin", "numpy.remainder": "numpy.mod", "numpy.row_stack": "numpy.vstack",
    "math.pi": "numpy.pi", "cmath.pi": "numpy.pi", "math.sqrt": "numpy.sqrt", "math.cos": "numpy.cos", "math.sin": "numpy.sin",
    "math.exp": "numpy.exp", "cmath.exp": "numpy.exp", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil", "math.log10": "numpy.log10",
    "math.log": "numpy.log", "math.fabs": "numpy.absolute", "math.inf": "numpy.inf", "math.nan": "numpy.nan", "math.isinf": "numpy.isinf",
    "numpy.Inf": "numpy.inf", "numpy.NaN": "numpy.nan", "math.prod": "numpy.prod", "numpy.product": "numpy.prod",
    "numpy.true_divide": "numpy.divide", "numpy.pow": "numpy.power", "numpy.asanyarray": "numpy.asarray",
    "scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.inv": "numpy.linalg.inv",
    "scipy.linalg.eigh": "numpy.linalg.eigh", "numpy.linalg.multi_dot": "numpy.linalg.multi_dot",
    "libc.math.floor": "numpy.floor", "libc.math.fabs": "numpy.absolute", "libc.math.sqrt": "numpy.sqrt", "libc.math.ceil": "numpy.ceil",
    "functools.reduce": "builtins.reduce", "builtins.xrange": "builtins.range",
    "scipy.fft.fft": "numpy.fft.fft", "scipy.fftpack.fft": "numpy.fft.fft",
    "scipy.fft.fftshift": "numpy.fft.fftshift", "scipy.fftpack.fftshift": "numpy.fft.fftshift",
    "operator.mul": "numpy.multiply", "operator.add": "numpy.add", "operator.sub": "numpy.subtract",
    "operator.truediv": "numpy.divide", "operator.matmul": "numpy.dot", "operator.neg": "numpy.negative", "operator.pow": "numpy.power",
    "numpy.math.sqrt": "numpy.sqrt",
}
ARRAY_METHODS = {
    "conj": "numpy.conjugate", "conjugate": "numpy.conjugate", "dot": "numpy.dot", "sum": "numpy.sum", "prod": "numpy.prod",
    "max": "numpy.amax", "min": "numpy.amin", "mean": "numpy.mean", "any": "numpy.any", "all": "numpy.all",
    "reshape": "numpy.reshape", "transpose": "numpy.transpose", "squeeze": "numpy.squeeze", "ravel": "numpy.ravel",
    "nonzero": "numpy.nonzero", "argsort": "numpy.argsort", "cumsum": "numpy.cumsum", "round": "numpy.round",
    "swapaxes": "numpy.swapaxes", "diagonal": "numpy.diagonal", "clip": "numpy.clip", "repeat": "numpy.repeat", "std": "numpy.std",
    "argmax": "numpy.argmax", "argmin": "numpy.argmin", "cumprod": "numpy.cumprod", "trace": "numpy.trace", "var": "numpy.var",
    "searchsorted": "numpy.searchsorted", "take": "numpy.take",
}
INPLACE_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "setflags", "setfield", "byteswap_inplace"}
LIST_METHODS = {"append", "extend", "insert", "remove", "reverse", "sort", "clear", "pop"}
def isnan_t(t):
    return TRUE if t is T.NAN else FALSE if num(t) is not None else mk("isnan", t)


EW1 = {"exp", "cos", "sin", "abs", "real", "conj", "log10", "log", "floor", "ceil", "sign", "not", "isinf", "isnan", "lt0", "eq0", "angle",
       "item", "isneg"}
# functions whose value depends on more than their arguments
IMPURE_PREFIX = ("numpy.random.", "random.", "time.", "datetime.", "os.environ", "os.getenv", "os.urandom", "secrets.", "uuid.",
                 "scipy.stats.", "os.listdir", "os.getcwd", "glob.", "tempfile.", "os.path.exists", "socket.", "platform.", "os.getpid")
IMPURE = {"builtins.open", "builtins.input", "builtins.id", "builtins.hash", "numpy.load", "numpy.loadtxt", "numpy.fromfile", "numpy.save",
          "numpy.savetxt", "numpy.genfromtxt", "builtins.globals", "builtins.locals", "builtins.vars"}
INPLACE_FUNCS = {"numpy.put": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.random.shuffle": 0,
                 "random.shuffle": 0, "numpy.put_along_axis": 0, "heapq.heapify": 0, "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapreplace": 0, "heapq.heappushpop": 0, "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0,
                 "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0, "numpy.divide.at": 0, "numpy.maximum.at": 0}
UFUNC_NIN = {"numpy." + n: 2 for n in ("add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "mod", "fmod",
                                       "remainder", "arctan2", "hypot", "floor_divide", "logical_and", "logical_or", "dot", "matmul", "outer")}
UFUNC_NIN.update({"numpy." + n: 1 for n in ("exp", "cos", "sin", "abs", "absolute", "log", "log10", "sqrt", "conj", "conjugate", "negative", "floor",
                                           "ceil", "sign", "square", "logical_not", "tan", "arctan", "exp2", "expm1", "log1p", "log2", "rint")})
# numpy.nan_to_num(copy=False) handled below
VIEW_FUNCS = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze",
              "numpy.real", "numpy.imag", "numpy.swapaxes", "numpy.expand_dims", "numpy.diagonal", "numpy.broadcast_to", "numpy.flip",
              "numpy.fliplr", "numpy.flipud", "numpy.require", "numpy.atleast_3d", "numpy.moveaxis", "numpy.rollaxis", "numpy.asfarray",
              "numpy.nan_to_num_inplace", "numpy.split", "numpy.hsplit", "numpy.vsplit", "numpy.asmatrix", "numpy.mat", "numpy.rot90",
              "numpy.dsplit", "numpy.array_split", "numpy.broadcast_arrays", "numpy.real_if_close", "numpy.nditer", "numpy.lib.stride_tricks.as_strided",
              "numpy.lib.stride_tricks.sliding_window_view", "numpy.array2", "numpy.ndenumerate", "numpy.asanyarray", "numpy.ascontiguousarray",
              "numpy.asfortranarray", "numpy.matrix_transpose", "numpy.unstack", "builtins.memoryview", "builtins.iter", "builtins.reversed"}
DUNDER_METHODS = {"__setitem__", "__getitem__"} | {"__i%s__" % x for x in ("add", "sub", "mul", "truediv", "pow", "matmul", "floordiv", "mod", "and", "or", "xor")}
OPERATOR_INPLACE = {"iadd": "+", "isub": "-", "imul": "*", "itruediv": "/", "ipow": "**", "imatmul": "@", "ifloordiv": "//", "imod": "%",
                    "iand": "&", "ior": "|", "ixor": "^", "iconcat": "+"}


class VPartial(I.VObj):
    """functools.partial(f, *args, **kw)"""
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), dict(kw)

    def call(self, it, args, kw, node):
        return it.call(self.f, list(self.args) + list(args), dict(self.kw, **kw), node)

    def term(self, it):
        return mk("partial", it.term(self.f), *([it.argterm(a) for a in self.args] + [mk("kw", k, it.kwterm(self.kw[k])) for k in sorted(self.kw)]))

    def getattr(self, it, name, node):
        if name == "func":
            return self.f
        if name == "args":
            return I.VTuple(list(self.args))
        return NotImplemented


def H(*paths):
    def deco(f):
        for p in paths:
            TABLE[p] = f
        return f
    return deco


TABLE = {}


def boolvec(t):
    return t.op == "vec" and bool(t.args) and all(T.isboolt(x) for x in t.args)


def lnotv(t):
    """Elementwise negation of a mask."""
    return mk("vec", *[lnot(x) for x in t.args]) if boolvec(t) else lnot(t)


from numpy import ndarray as _ndarray


class Lib(object):
    SHAPES = {}
    ALTS = {}

    def __init__(self, it):
        self.it = it
        self.repo_hooks = {}
        self.regions = None
        self.class_hooks = {}
        self.ext_hooks = {}
        self.real_float = False    # real-valued expressions have type float
        self.table = dict(TABLE)
        self.known = set()

    # ============================================================ shapes
    def shape(self, t):
        """Tuple of terms, or None when unknown."""
        memo = self.__dict__.setdefault("_shmemo", {})
        if t in self.SHAPES:
            return self.SHAPES[t]
        if t.op == "sym":
            return self._shape(t)
        r = memo.get(t, 0)
        if r == 0:
            r = self._shape(t)
            if not any(x.op == "sym" and x.args[0].startswith("mu#") for x in T.free(t)):
                memo[t] = r
        return r

    def alternatives(self, t):
        """Every shape the value can have over the paths joined in it (None among them: not known)."""
        if t in self.ALTS:
            return self.ALTS[t]
        s = self.shape(t)
        if s is not None:
            return [s]
        if t.op == "ite":
            out = []
            for a in t.args[1:]:
                out += [x for x in self.alternatives(a) if x not in out]
            return out
        if t.op in EW1 or t.op in ("sort", "store", "cplxpair", "storemask", "copy", "flip", "roll"):
            return self.alternatives(t.args[0])
        if t.op == "concat":
            parts = [self.alternatives(a) for a in t.args]
            n = 1
            for x in parts:
                n *= len(x)
            if n <= 32 and all(s is not None and len(s) == 1 for x in parts for s in x):
                tot = [ZERO]
                for x in parts:
                    tot = [add(a, s[0]) for a in tot for s in x]
                out = []
                for a in tot:
                    if (a,) not in out:
                        out.append((a,))
                return out
        return [None]

    def _shape(self, t):
        op = t.op
        if op in ("c", "pi", "eps", "I", "inf", "nan", "len", "size", "ndim", "bv", "mod", "clip0", "rangelen", "isnone", "istype", "callable",
                  "isscalar", "hasattr", "iscomplexobj", "sumall", "truth", "amax", "amin", "item", "norm", "int", "haskey", "in",
                  "eqs", "exc", "any", "all", "polydeg", "strfmt", "str"):
            if op in ("mod", "int"):
                return self.bshape([self.shape(a) for a in t.args])
            return ()
        if op in ("sum", "prod"):
            return self.shape(t.args[2])
        if op == "sym":
            i = T.INFO.get(t.args[0], {})
            if i.get("shape") is not None:
                return tuple(i["shape"])
            if i.get("kind") in ("int", "real", "float", "bool") or i.get("scalar"):
                return ()
            return None
        if op == "poly":
            sh = []
            for m, c in t.args:
                for a, e in m:
                    sh.append(self.shape(a))
            return self.bshape(sh)
        if op in ("pow", "max", "min", "arctan2", "and"):
            return self.bshape([self.shape(a) for a in t.args])
        if op in EW1 or op in ("sort", "store", "argsort", "cplxpair", "fftshift", "fft", "roll", "copy", "invert", "cumsum", "storemask", "flip", "fillflat", "pstore", "storevia"):
            return self.shape(t.args[0])
        if op in ("vcopy", "gemv", "gemvN"):
            return self.shape(t.args[4 if op == "vcopy" else 10])
        if op == "ite":
            a, b = self.shape(t.args[1]), self.shape(t.args[2])
            if a == b:
                return a
            c = self.shape(t.args[0])
            return self.bshape([c, a, b]) if c else None
        if op == "vec":
            if not t.args:
                return (ZERO,)
            s = [self.shape(a) for a in t.args]
            if all(x is not None and x == s[0] for x in s):
                return (const(len(t.args)),) + s[0]
            return None
        if op in ("map", "concatmap"):
            if op == "concatmap":
                return None
            s = self.shape(t.args[2])
            return None if s is None else (t.args[0],) + s
        if op in ("zeros", "ones", "empty"):
            return self.dims(t.args[0])
        if op == "eye":
            return (t.args[0], t.args[1])
        if op == "arange":
            lo, hi, st = t.args
            if num(st) is not None and num(st) == 1 and T.isint(lo) and T.isint(hi):
                return (self.clip0(sub(hi, lo)),)
            if num(st) is not None and num(st) == 1:
                d = sub(hi, lo)
                if T.isint(d):
                    return (self.clip0(d),)
            return (mk("rangelen", lo, hi, st),)
        if op == "linspace":
            return (t.args[2],)
        if op == "concat":
            s = [self.shape(a) for a in t.args]
            if any(x is None or len(x) < 1 for x in s):
                return None
            if any(x[1:] != s[0][1:] for x in s):
                return None
            n = ZERO
            for x in s:
                n = add(n, x[0])
            return (n,) + s[0][1:]
        if op in ("hstack", "vstack"):
            s = [self.shape(a) for a in t.args]
            if any(x is None for x in s):
                return None
            if op == "vstack":
                s = [x if len(x) == 2 else ((ONE,) + x if len(x) == 1 else (ONE, ONE)) for x in s]
                n = ZERO
                for x in s:
                    n = add(n, x[0])
                return (n, s[0][1])
            if all(len(x) == 2 for x in s):
                n = ZERO
                for x in s:
                    n = add(n, x[1])
                return (s[0][0], n)
            return None
        if op == "T":
            s = self.shape(t.args[0])
            return None if s is None else tuple(reversed(s))
        if op == "dot":
            s = [self.shape(a) for a in t.args]
            if any(x is None for x in s):
                return None
            r = s[0]
            for x in s[1:]:
                if len(r) == 0 or len(x) == 0:
                    r = r or x
                elif len(x) == 1:
                    r = r[:-1]
                else:
                    r = r[:-1] + (x[1],)
            return r
        if op == "reshape":
            d = list(self.dims(t.args[1]) or ())
            neg1 = [i for i, x in enumerate(d) if num(x) == -1]
            if neg1:
                s = self.shape(t.args[0])
                if s is None:
                    tot = self.size(t.args[0])
                else:
                    tot = ONE
                    for x in s:
                        tot = mul(tot, x)
                other = ONE
                for i, x in enumerate(d):
                    if i != neg1[0]:
                        other = mul(other, x)
                d[neg1[0]] = div(tot, other) if num(other) != 1 else tot
            return tuple(d)
        if op == "squeeze":
            s = self.shape(t.args[0])
            if s is None:
                return None
            return None if any(num(x) is None for x in s) else tuple(x for x in s if num(x) != 1)
        if op in ("ravel", "flatten"):
            s = self.shape(t.args[0])
            if s is None:
                return (mk("size", t.args[0]),)
            n = ONE
            for x in s:
                n = mul(n, x)
            return (n,)
        if op == "poly_coef":
            s = self.shape(t.args[0])
            return None if s is None or len(s) != 1 else (add(s[0], ONE),)
        if op == "roots":
            s = self.shape(t.args[0])
            return None if s is None or len(s) != 1 else (sub(s[0], ONE),)
        if op == "diag":
            s = self.shape(t.args[0])
            if s is None:
                return None
            return (s[0], s[0]) if len(s) == 1 else (s[0],)
        if op == "getitem":
            x = t.args[0]
            if x.op == "app" and x.args[0] in ("numpy.linalg.eigh", "numpy.linalg.eig") and num(t.args[1]) in (0, 1):
                s = self.shape(x.args[1])
                return None if not s else (s[0],) if num(t.args[1]) == 0 else s
            if x.op == "app" and x.args[0] == "scipy.integrate.quad" and num(t.args[1]) in (0, 1):
                return ()
            if x.op == "app" and x.args[0] == "scipy.signal.zpk2ss" and num(t.args[1]) in (0, 1, 2, 3) and len(x.args) == 4:
                # controller form of one input and one output, one state per pole
                s = self.shape(x.args[2])
                k = int(num(t.args[1]))
                return None if s is None or len(s) != 1 else (s[0] if k in (0, 1) else ONE, s[0] if k in (0, 2) else ONE)
            return self.getitem_shape(x, t.args[1])
        if op == "repeat":
            s = self.shape(t.args[0])
            return None if s is None else (mul(s[0], t.args[1]),) + s[1:]
        if op == "polyval":
            return self.shape(t.args[1])
        if op == "toeplitz":
            s = self.shape(t.args[0])
            return None if s is None or not s else (s[0], s[0])
        if op == "inv":
            return self.shape(t.args[0])
        if op == "app" and t.args[0] == "scipy.linalg.orth" and len(t.args) == 2:
            # an orthonormal basis of the range: the whole space when the identity is among the columns
            x = t.args[1]
            s = self.shape(x)
            if s is not None and len(s) == 2 and x.op == "hstack" and any(y.op == "eye" and y.args[0] is s[0] and y.args[1] is s[0] and (len(y.args) < 3 or num(y.args[2]) == 0) for y in x.args):
                return (s[0], s[0])
            return None
        return None

    def dims(self, d):
        if d.op == "vec":
            return tuple(d.args)
        s = self.shape(d)
        if s == ():
            return (d,)
        if s is None and d.op not in ("shape", "call", "app", "sym", "getitem"):
            return (d,)
        if s is None and (T.isint(d)):
            return (d,)
        if d.op == "shape":
            return self.shape(d.args[0])
        return None

    def bshape(self, shs):
        out = ()
        for s in shs:
            if s is None:
                return None
            if len(s) > len(out):
                s, out = out, s
            if not s:
                continue
            r = list(out)
            for k in range(1, len(s) + 1):
                a, b = out[-k], s[-k]
                if a is b:
                    continue
                if num(a) == 1:
                    r[-k] = b
                elif num(b) == 1:
                    r[-k] = a
                else:
                    return None
            out = tuple(r)
        return out

    MINIMISERS = {"scipy.optimize.minimize": const("x"), "scipy.optimize.fmin_l_bfgs_b": ZERO}

    def getitem_shape(self, x, idx):
        if x.op == "conj" and x.args[0].op == "app":
            x = x.args[0]
        if x.op == "app" and len(x.args) >= 3 and x.args[0] in self.MINIMISERS:
            # the minimiser found has as many entries as the starting point
            part = self.MINIMISERS[x.args[0]]
            if idx is part:
                s = self.shape(x.args[2])
                return None if s is None or len(s) > 1 else s or (ONE,)
            if idx.op == "vec" and idx.args and idx.args[0] is part:
                return self.getitem_shape(mk("getitem", x, part), idx.args[1] if len(idx.args) == 2 else mk("vec", *idx.args[1:]))
        s = self.shape(x)
        if s is None:
            return None
        ix = idx.args if idx.op == "vec" else (idx,)
        if T.isboolt(idx) or self.is_mask(idx):
            return None
        out = []
        k = 0
        for i in ix:
            if i.op == "slice":
                if k >= len(s):
                    return None
                out.append(self.slice_len(s[k], i))
                k += 1
            elif i is NONE:
                out.append(ONE)
            elif self.shape(i) == ():
                if k >= len(s):
                    return None
                k += 1
            else:
                si = self.shape(i)
                if si is None or len(ix) > 1 or k >= len(s):
                    return None
                out += list(si)
                k += 1
        return tuple(out) + tuple(s[k:])

    def slice_len(self, n, sl):
        lo, hi, st = sl.args
        if st is not NONE and num(st) != 1:
            if num(st) == -1 and lo is NONE and hi is NONE:
                return n
            if None not in [num(z) if z is not NONE else 0 for z in (lo, hi, st)] and num(n) is not None:
                f = lambda z: None if z is NONE else int(num(z))
                return const(len(range(*slice(f(lo), f(hi), f(st)).indices(int(num(n))))))
            return mk("slicelen", n, sl)

        def norm(z, d):
            if z is NONE:
                return d
            zn = num(z)
            if zn is not None and zn < 0:
                return self.clip0(add(n, z))
            if z.op == "poly" and zn is None:
                # -k with k >= 0 : counts from the end
                if nonneg(neg(z)) and not nonneg(z):
                    return self.clip0(add(n, z))
            return self.minlen(z, n)
        a, b = norm(lo, ZERO), norm(hi, n)
        return self.clip0(sub(b, a))

    def minlen(self, a, b):
        if a is b:
            return a
        pc = self.it.st.pc if self.it.st else ()
        if nonneg(sub(b, a), pc):
            return a
        if nonneg(sub(a, b), pc):
            return b
        return self.fmin(a, b)

    def clip0(self, t):
        n = num(t)
        if n is not None:
            return t if n >= 0 else ZERO
        if nonneg(t, self.it.st.pc if self.it.st else ()):
            return t
        return mk("clip0", t)

    def length(self, t):
        s = self.shape(t)
        if s is not None and len(s) >= 1:
            return s[0]
        if t.op == "vec":
            return const(len(t.args))
        if t.op == "c" and t.args[0] == "s":
            return const(len(t.args[1]))
        if t.op == "ite":
            return ite(t.args[0], self.length(t.args[1]), self.length(t.args[2]))
        if t.op in ("real", "conj", "abs", "copy", "exp", "store", "sort"):
            return self.length(t.args[0])
        if t.op == "concat":
            n = ZERO
            for a in t.args:
                n = add(n, self.length(a))
            return n
        if t.op == "map":
            return t.args[0]
        if t.op == "dict":
            n = ZERO
            for x in t.args:
                if x.op != "kv":
                    return mk("len", t)
            return const(len(t.args))
        return mk("len", t)

    def size(self, t):
        s = self.shape(t)
        if s is not None:
            n = ONE
            for x in s:
                n = mul(n, x)
            return n
        if t.op in ("real", "conj", "abs"):
            return self.size(t.args[0])
        return mk("size", t)

    def ndim(self, t):
        s = self.shape(t)
        if s is not None:
            return const(len(s))
        if t.op in ("real", "conj", "abs"):
            return self.ndim(t.args[0])
        i = T.info(t)
        if "ndim" in i:
            return const(i["ndim"])
        return mk("ndim", t)

    def is_mask(self, t):
        return T.isboolt(t) and self.shape(t) != ()

    # ============================================================ element view
    def elem(self, t, i):
        """Element i of the 1-D array term t (scalars are broadcast)."""
        s = self.shape(t)
        if s == ():
            return t
        op = t.op
        if op == "poly":
            r = ZERO
            for m, c in t.args:
                x = const(c)
                for a, e in m:
                    x = mul(x, power(self.elem(a, i), const(e)))
                r = add(r, x)
            return r
        if op in EW1 and op != "item":
            return T.rebuild(op, [self.elem(t.args[0], i)])
        if op in ("pow", "max", "min", "and", "ite", "arctan2"):
            return T.rebuild(op, [self.elem(a, i) for a in t.args])
        if op == "arange":
            return add(t.args[0], mul(i, t.args[2]))
        if op == "linspace":
            return add(t.args[0], div(mul(sub(t.args[1], t.args[0]), i), sub(t.args[2], ONE)))
        if op == "ones":
            return ONE
        if op == "zeros":
            return ZERO
        if op == "map":
            return T.subst(t.args[2], {t.args[1]: i})
        return self.getitem_term(t, i)

    def is1d(self, t):
        s = self.shape(t)
        return s is not None and len(s) == 1

    def reduce_sum(self, t):
        s = self.shape(t)
        if t.op == "vec" and s is not None and len(s) <= 1:
            r = ZERO
            for a in t.args:
                r = add(r, a)
            return r
        if s == ():
            return t
        if s is not None and len(s) == 1:
            i = self.it.newsym("i", kind="int", lo=0)
            return I.bind("sum", s[0], i, self.elem(t, i))
        if t.op == "map":
            return I.bind("sum", t.args[0], t.args[1], t.args[2]) if False else self._summap("sum", t)
        return mk("sumall", t)

    def _summap(self, op, t):
        i = self.it.newsym("i", kind="int", lo=0)
        return I.bind(op, t.args[0], i, T.subst(t.args[2], {t.args[1]: i}))

    def reduce_prod(self, t):
        s = self.shape(t)
        if t.op == "vec":
            r = ONE
            for a in t.args:
                r = mul(r, a)
            return r
        if s is not None and len(s) == 1:
            i = self.it.newsym("i", kind="int", lo=0)
            return I.bind("prod", s[0], i, self.elem(t, i))
        if t.op == "map":
            return self._summap("prod", t)
        return mk("prodall", t)

    def loop_pattern(self, mu, init, body, count, iv):
        """Closed form of a one-variable loop: mu' = body(mu, i)."""
        d = sub(body, mu)
        if mu not in T.free(d):
            return add(init, I.bind("sum", count, iv, d))
        # multiplicative
        q = None
        if body.op == "poly":
            ok = True
            r = ZERO
            for m, c in body.args:
                e = dict(m).get(mu)
                if e != 1:
                    ok = False
                    break
                x = const(c)
                for a, k in m:
                    if a is not mu:
                        if mu in T.free(a):
                            ok = False
                        x = mul(x, power(a, const(k)))
                r = add(r, x)
            if ok:
                q = r
        if q is not None:
            return mul(init, I.bind("prod", count, iv, q))
        # appending
        if body.op == "concat" and body.args[0] is mu:
            rest = body.args[1:]
            if all(mu not in T.free(x) for x in rest):
                if len(rest) == 1 and rest[0].op == "vec" and len(rest[0].args) == 1:
                    m = I.bind("map", count, iv, rest[0].args[0])
                    return self.concat([init, m])
                return self.concat([init, I.bind("concatmap", count, iv, self.concat(list(rest)))])
        # element i written at position i
        if body.op == "store" and body.args[0] is mu and mu not in T.free(body.args[2]) and mu not in T.free(body.args[1]):
            idx, v = body.args[1], body.args[2]
            L = self.length(init)
            if idx is iv and L is count and self.is1d(init):
                return I.bind("map", count, iv, v)
            if idx is iv and init.op == "vec" and num(count) is not None and len(init.args) == num(count):
                return I.bind("map", count, iv, v)
            if idx is iv and init.op == "repeat" and self.length(init) is count:
                return I.bind("map", count, iv, v)
        return None

    # ============================================================ arithmetic
    def arith(self, op, a, b):
        if op in ("+", "-", "*", "/", "**", "//", "%"):
            if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
                return mk("vec", *[self.arith(op, x, y) for x, y in zip(a.args, b.args)])
            if a.op == "vec" and b.op != "vec" and self.shape(b) == () and (op != "*" or not (T.isint(b) and False)):
                return mk("vec", *[self.arith(op, x, b) for x in a.args])
            if b.op == "vec" and a.op != "vec" and self.shape(a) == ():
                return mk("vec", *[self.arith(op, a, x) for x in b.args])
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            r = mul(a, b)
            if r.op == "c" and num(r) == 0:
                for x in (a, b):
                    s = self.shape(x)
                    if s:
                        return mk("zeros", mk("vec", *s) if len(s) != 1 else s[0])
        elif op == "/":
            r = div(a, b)
        elif op == "**":
            r = power(a, b)
            if r.op == "pow" and num(r.args[0]) is not None:
                r = self.expbase(r)
        elif op == "//":
            r = floordiv(a, b)
        elif op == "%":
            r = mod(a, b)
        elif op == "@":
            r = self.dot(a, b)
        else:
            ta, tb = T.isboolt(a), T.isboolt(b)
            va, vb = boolvec(a), boolvec(b)
            if op in "&|" and (va or vb) and (va or ta) and (vb or tb) and not (va and vb and len(a.args) != len(b.args)):
                n = len(a.args) if va else len(b.args)
                if (va or self.shape(a) == ()) and (vb or self.shape(b) == ()):
                    f = land if op == "&" else lor
                    return mk("vec", *[f(a.args[i] if va else a, b.args[i] if vb else b) for i in range(n)])
            nb = num(b)
            if nb is not None and nb.denominator == 1 and nb >= 0 and T.isint(a) and not ta:
                if op == "&" and (int(nb) & (int(nb) + 1)) == 0:
                    return mod(a, const(int(nb) + 1)) if nb else ZERO
                if op == ">>" and nb < 64:
                    return floordiv(a, const(2 ** int(nb)))
                if op == "<<" and nb < 64:
                    return mul(a, const(2 ** int(nb)))
            if op == "&" and (ta or tb):
                return land(a, b)
            if op == "|" and (ta or tb):
                return lor(a, b)
            r = mk("bin" + op, a, b)
        return r

    def expbase(self, r):
        """c ** p for constant c: scale of the exponent stays inside."""
        return r

    def dot(self, a, b):
        sa, sb = self.shape(a), self.shape(b)
        if sa == () or sb == ():
            return mul(a, b)
        if sa is not None and sb is not None and len(sa) == 1 and len(sb) == 1:
            i = self.it.newsym("i", kind="int", lo=0)
            return I.bind("sum", sa[0], i, mul(self.elem(a, i), self.elem(b, i)))
        ka, a = self._scal(a)
        kb, b = self._scal(b)
        la = list(a.args) if a.op == "dot" else [a]
        lb = list(b.args) if b.op == "dot" else [b]
        r = mk("dot", *(la + lb))
        k = ka * kb
        return r if k == 1 else mul(const(k), r)

    def _scal(self, t):
        if t.op == "poly" and len(t.args) == 1:
            m, c = t.args[0]
            if c != 1:
                return c, T._fromdict({m: T.Fr(1)})
        return T.Fr(1), t

    def tr(self, t):
        s = self.shape(t)
        if s is not None and len(s) < 2:
            return t
        if t.op == "T":
            return t.args[0]
        if t.op == "dot":
            r = self.tr(t.args[-1])
            for x in reversed(t.args[:-1]):
                r = self.dot(r, self.tr(x))
            return r
        if t.op == "diag":
            s0 = self.shape(t.args[0])
            if s0 is not None and len(s0) == 1:
                return t
        if t.op == "poly":
            r = ZERO
            for m, c in t.args:
                x = const(c)
                for a, e in m:
                    x = mul(x, power(self.tr(a), const(e)))
                r = add(r, x)
            return r
        if t.op in EW1:
            return T.rebuild(t.op, [self.tr(t.args[0])])
        return mk("T", t)

    def concat(self, parts):
        out = []
        for p in parts:
            if p.op == "concat":
                out += list(p.args)
            else:
                out.append(p)
        r = []
        for p in out:
            if p.op == "vec" and not p.args:
                continue
            s = self.shape(p)
            if s is not None and len(s) == 1 and num(s[0]) == 0:
                continue
            if r and r[-1].op == "vec" and p.op == "vec":
                r[-1] = mk("vec", *(r[-1].args + p.args))
            else:
                r.append(p)
        if not r:
            return mk("vec")
        if len(r) == 1:
            return r[0]
        return mk("concat", *r)

    def repeat(self, t, n):
        return mk("repeat", t, n)

    def fmax(self, *a):
        return self._mm("max", a)

    def fmin(self, *a):
        return self._mm("min", a)

    def _mm(self, op, a):
        l = []
        for x in a:
            if x.op == op:
                l += list(x.args)
            else:
                l.append(x)
        cs = [x for x in l if num(x) is not None]
        l = [x for x in l if num(x) is None]
        infs = [x for x in l if x is INF]
        if infs and op == "max":
            return INF
        l = [x for x in l if x is not INF]
        if cs:
            f = max if op == "max" else min
            l.append(f(cs, key=lambda x: num(x)))
        if all(x.op == "vec" and len(x.args) == len(l[0].args) for x in l):
            return mk("vec", *[self._mm(op, y) for y in zip(*[x.args for x in l])])
        l = sorted(set(l))
        if len(l) == 1:
            return l[0]
        if len(l) == 2:
            pc = self.it.st.pc if self.it.st else ()
            if nonneg(sub(l[0], l[1]), pc):
                return l[0] if op == "max" else l[1]
            if nonneg(sub(l[1], l[0]), pc):
                return l[1] if op == "max" else l[0]
        return mk(op, *l)

    # ============================================================ comparisons
    def cmp(self, op, va, vb):
        it = self.it
        a, b = it.term(va), it.term(vb)
        if (a is T.NAN or b is T.NAN) and all(t.op in ("nan", "inf") or num(t) is not None for t in (a, b)):
            return TRUE if op == "!=" else FALSE
        if op in ("==", "!="):
            r = self.eq(a, b, va, vb)
            return r if op == "==" else self.notv(r)
        if a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args) and not isinstance(va, I.VTuple):
            return mk("vec", *[self.cmp(op, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "vec" and self.shape(b) == ():
            if isinstance(va, I.VTuple):
                # tuple comparison (versions)
                return mk("tuplecmp", const(op), a, b)
            return mk("vec", *[self.cmp(op, x, b) for x in a.args])
        if b.op == "vec" and self.shape(a) == () and not isinstance(vb, I.VTuple):
            return mk("vec", *[self.cmp(op, a, x) for x in b.args])
        if isinstance(va, I.VTuple) and isinstance(vb, I.VTuple):
            xa = [num(x) for x in a.args]
            xb = [num(x) for x in b.args]
            if None not in xa and None not in xb:
                r = {"<": xa < xb, "<=": xa <= xb, ">": xa > xb, ">=": xa >= xb}[op]
                return const(r)
        if op == "<":
            return lt0(sub(a, b))
        if op == ">":
            return lt0(sub(b, a))
        if op == "<=":
            return lnot(lt0(sub(b, a)))
        return lnot(lt0(sub(a, b)))

    def notv(self, r):
        if r.op == "vec":
            return mk("vec", *[lnot(x) for x in r.args])
        return lnot(r)

    def eq(self, a, b, va=None, vb=None):
        if a is b:
            if a.op != "nan":
                return TRUE
        if is_str(b) and not is_str(a):
            a, b = b, a
            va, vb = vb, va
        if is_str(a):
            if is_str(b):
                return FALSE
            if num(b) is not None or b in (NONE, TRUE, FALSE) or T.isboolt(b):
                return FALSE
            if b.op == "ite":
                return ite(b.args[0], self.eq(a, b.args[1]), self.eq(a, b.args[2]))
            if b.op in ("lam", "fn", "poly", "vec", "len", "concat", "map", "zeros", "ones"):
                return FALSE
            if T.info(b).get("kind") in ("int", "real", "arr", "float", "bool", "callable"):
                return FALSE
            return mk("eqs", b, a)
        if a is NONE or b is NONE:
            return self.isnone(b if a is NONE else a)
        if a.op == "vec" and b.op == "vec":
            if len(a.args) != len(b.args):
                return FALSE
            if isinstance(va, I.Ref) and self.it.get(va).kind == "arr" or isinstance(vb, I.Ref) and self.it.get(vb).kind == "arr":
                return mk("vec", *[self.eq(x, y) for x, y in zip(a.args, b.args)])
            return land(*[self.eq(x, y) for x, y in zip(a.args, b.args)])
        if a.op == "vec" and self.shape(b) == ():
            return mk("vec", *[self.eq(x, b) for x in a.args])
        if b.op == "vec" and self.shape(a) == ():
            return mk("vec", *[self.eq(a, x) for x in b.args])
        if T.isboolt(a) and T.isboolt(b):
            return lor(land(a, b), land(lnot(a), lnot(b)))
        if T.isboolt(a) and num(b) is not None:
            return a if num(b) == 1 else lnot(a) if num(b) == 0 else FALSE
        if T.isboolt(b) and num(a) is not None:
            return self.eq(b, a)
        for x, y in ((a, b), (b, a)):
            if x.op == "ext" and y.op == "ext":
                return TRUE if x is y else FALSE
        if a.op == "ite" and num(b) is not None:
            return ite(a.args[0], self.eq(a.args[1], b), self.eq(a.args[2], b))
        return eq0(sub(a, b))

    def isnone(self, t):
        if t is NONE:
            return TRUE
        if t.op in ("c", "poly", "vec", "lam", "fn", "map", "concat", "exp", "abs", "zeros", "ones", "arange", "dict", "ext", "len", "pi") or T.isboolt(t):
            return FALSE
        if t.op == "ite":
            return ite(t.args[0], self.isnone(t.args[1]), self.isnone(t.args[2]))
        i = T.info(t)
        if i.get("kind") in ("int", "real", "float", "arr", "callable", "bool", "str") or i.get("notnone"):
            return FALSE
        return mk("isnone", t)

    def is_same(self, a, b):
        it = self.it
        if isinstance(a, I.Ref) and isinstance(b, I.Ref):
            return TRUE if a == b else FALSE
        if isinstance(a, (I.VExt, I.VMod)) and isinstance(b, (I.VExt, I.VMod)):
            return TRUE if a == b else FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, I.VExt) and isinstance(y, I.Ref) and it.get(y).kind in ("class", "inst", "list", "dict", "func"):
                return FALSE
            if isinstance(x, Term) and x.op == "typeof" and isinstance(y, I.VExt):
                return self.typetest(x.args[0], y.path)
            if isinstance(x, I.VExt) and x.path.startswith("type:"):
                if isinstance(y, I.VExt):
                    return TRUE if x.path[5:] == y.path else FALSE
                if isinstance(y, I.Ref):
                    return FALSE
        ta, tb = it.term(a), it.term(b)
        if ta is NONE or tb is NONE:
            o, ov = (tb, b) if ta is NONE else (ta, a)
            if isinstance(ov, (I.VTuple, I.VExt, I.VMod, I.VBound, I.VRange)):
                return FALSE
            if isinstance(ov, I.Ref):
                k = it.get(ov).kind
                if k != "arr":
                    return FALSE
                if o.op != "sym" and o.op not in ("ite", "getitem", "call", "attr"):
                    return FALSE
            return self.isnone(o)
        if ta is tb:
            return TRUE
        if isinstance(a, Term) and isinstance(b, Term):
            return self.eq(ta, tb)
        if ta.op in ("lam", "fn") or tb.op in ("lam", "fn"):
            return FALSE
        return mk("is", ta, tb)

    # types ---------------------------------------------------------------
    def type_of(self, v):
        it = self.it
        if isinstance(v, I.VTuple):
            return I.VExt("builtins.tuple")
        if isinstance(v, I.VSlice):
            return I.VExt("builtins.slice")
        if isinstance(v, I.VRange):
            return I.VExt("builtins.range")
        if isinstance(v, I.Ref):
            o = it.get(v)
            k = o.kind
            if k in ("list", "slist"):
                return I.VExt("builtins.list")
            if k == "dict":
                return I.VExt("builtins.dict")
            if k == "func":
                return I.VExt("types.FunctionType")
            if k == "inst":
                return o.data["__class__"]
            if k == "class":
                return I.VExt("builtins.type")
            if k == "arr":
                t = it.term(v)
                p = T.info(t).get("pytype")
                if p:
                    return I.VExt(p)
                if T.info(t).get("kind") == "any":
                    return mk("typeof", t)
                return I.VExt("numpy.ndarray")
        if isinstance(v, I.VExt):
            return I.VExt("builtins.type") if v.path in ("builtins.int", "builtins.float", "builtins.str", "builtins.complex") else I.VExt("builtins.builtin_function")
        if isinstance(v, Term):
            if is_str(v) or v.op == "str":
                return I.VExt("builtins.str")
            if v is NONE:
                return I.VExt("builtins.NoneType")
            if v is TRUE or v is FALSE or T.isboolt(v):
                return I.VExt("builtins.bool")
            if v.op == "c":
                return I.VExt("builtins.int" if v.args[0] == "i" else "builtins.float")
            i = T.info(v)
            if i.get("pytype"):
                return I.VExt(i["pytype"])
            if i.get("kind") == "int":
                return I.VExt("builtins.int")
            if i.get("kind") in ("real", "float"):
                return I.VExt("builtins.float")
            if v.op == "lam" or i.get("kind") == "callable":
                return I.VExt("types.FunctionType")
            if self.real_float and T.is_real(v):
                return I.VExt("builtins.float")
            return mk("typeof", v)
        if isinstance(v, I.VObj):
            r = v.pytype(it)
            if r is not None:
                return r
        return mk("typeof", it.term(v))

    def typetest(self, t, path):
        p = T.info(t).get("pytype")
        if p:
            return TRUE if p == path else FALSE
        k = T.info(t).get("kind")
        if k == "callable":
            return FALSE
        if k in ("int", "real", "float", "bool", "arr", "str"):
            m = {"int": "builtins.int", "real": "builtins.float", "float": "builtins.float", "arr": "numpy.ndarray", "bool": "builtins.bool", "str": "builtins.str"}[k]
            return TRUE if m == path else FALSE
        if t.op == "ite":
            return ite(t.args[0], self.typetest(t.args[1], path), self.typetest(t.args[2], path))
        return mk("istype", t, path)

    def isinstance_(self, v, cls):
        it = self.it
        if isinstance(cls, I.VTuple):
            return lor(*[self.isinstance_(v, c) for c in cls.items])
        if isinstance(v, I.VChoice):
            return ite(v.cond, self.isinstance_(v.a, cls), self.isinstance_(v.b, cls))
        ty = self.type_of(v)
        if isinstance(cls, I.Ref):
            if isinstance(ty, I.Ref):
                return TRUE if cls in it.mro(ty) else FALSE
            if isinstance(ty, Term):
                return mk("isinst", ty.args[0], it.get(cls).data.name)
            return FALSE
        if not isinstance(cls, I.VExt):
            return mk("isinst", it.term(v), it.term(cls))
        p = cls.path
        if isinstance(ty, I.Ref):
            return TRUE if p in ("builtins.object",) or any(isinstance(b, I.VExt) and b.path == p for b in it.mro(ty)) else FALSE
        if isinstance(ty, Term):
            return self.typetest(ty.args[0], p)
        q = ty.path
        if p == q:
            return TRUE
        SUP = {"builtins.bool": {"builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"},
               "builtins.int": {"numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Complex"},
               "builtins.float": {"numbers.Number", "numbers.Real", "numbers.Complex"},
               "builtins.complex": {"numbers.Number", "numbers.Complex"},
               "builtins.list": {"collections.abc.Sequence", "collections.abc.Iterable", "collections.abc.MutableSequence"},
               "builtins.tuple": {"collections.abc.Sequence", "collections.abc.Iterable"},
               "builtins.dict": {"collections.abc.Mapping", "collections.abc.Iterable"},
               "builtins.str": {"collections.abc.Sequence", "collections.abc.Iterable"}}
        if p == "builtins.object" or p in SUP.get(q, ()):
            return TRUE
        return FALSE

    # ============================================================ indexing
    def norm_index(self, t, idx):
        if idx.op == "slice":
            lo, hi, st = idx.args
            if st is NONE:
                st = ONE
            if num(st) is not None and num(st) > 0:
                if lo is NONE:
                    lo = ZERO
                if hi is not NONE:
                    s = self.shape(t)
                    if s and s[0] is hi:
                        hi = NONE
            return mk("slice", lo, hi, st)
        return idx

    def getitem_term(self, t, idx):
        idx = self.norm_index(t, idx)
        if idx.op == "vec":
            if not idx.args:
                return t
            ix = list(idx.args)
            sh = self.shape(t)
            out = []
            for k, x in enumerate(ix):
                if x.op == "slice":
                    lo, hi, st = x.args
                    if st is NONE:
                        st = ONE
                    if num(st) is not None and num(st) > 0:
                        if lo is NONE:
                            lo = ZERO
                        if hi is not NONE and sh is not None and k < len(sh) and sh[k] is hi:
                            hi = NONE
                    x = mk("slice", lo, hi, st)
                out.append(x)
            while len(out) > 1 and self.fullslice(out[-1]):
                out.pop()
            if len(out) == 1 and not T.isboolt(out[0]):
                return self.getitem_term(t, out[0])
            idx = mk("vec", *out)
        if idx.op == "c" and idx.args[0] == "e":
            return t
        if self.fullslice(idx):
            return t
        op = t.op
        if op == "ite" and not T.isboolt(idx):
            if self.shape(t.args[0]) == ():
                return ite(t.args[0], self.getitem_term(t.args[1], idx), self.getitem_term(t.args[2], idx))
            return T.rebuild("ite", [self.getitem_term(x, idx) for x in t.args])
        if idx.op == "ite" and self.shape(idx) == () :
            return ite(idx.args[0], self.getitem_term(t, idx.args[1]), self.getitem_term(t, idx.args[2]))
        n = num(idx)
        if self.regions and (T.isboolt(idx) or idx.op == "vec" and idx.args and all(T.isboolt(x) for x in idx.args)):
            r = self.regions(t, idx)
            if r is not None:
                return r
        if op == "vec":
            if idx is TRUE or idx is FALSE:
                pass
            elif n is not None:
                k = int(n)
                if -len(t.args) <= k < len(t.args):
                    return t.args[k]
                return mk("indexerror", t, idx)
            elif idx.op == "slice":
                c = [None if x is NONE else num(x) for x in idx.args]
                if all(x is NONE or num(x) is not None for x in idx.args):
                    return mk("vec", *t.args[slice(*[None if x is None else int(x) for x in c])])
            elif idx.op == "vec" and idx.args and all(num(x) is not None for x in idx.args) and self.shape(t) is not None and len(self.shape(t)) >= 2:
                r = t
                for x in idx.args:
                    r = self.getitem_term(r, x)
                return r
            elif self.regions and idx.op == "vec" and all(num(x) is not None for x in idx.args) and self.shape(t) is not None and len(self.shape(t)) == 1:
                if all(-len(t.args) <= num(x) < len(t.args) for x in idx.args):
                    return mk("vec", *[t.args[int(num(x))] for x in idx.args])
        if op == "map" and self.shape(idx) == () and not T.isboolt(idx):
            i = idx
            if n is not None and n < 0:
                i = add(t.args[0], idx)
            return T.subst(t.args[2], {t.args[1]: i})
        if op == "dict" and idx.op == "c":
            for kv in t.args:
                if kv.op == "kv" and kv.args[0] is idx:
                    return kv.args[1]
        if op in EW1 and op != "item" and not (op in ("not", "lt0", "eq0") and T.isboolt(idx)):
            return T.rebuild(op, [self.getitem_term(t.args[0], idx)])
        if op in ("zeros", "ones"):
            s = self.getitem_shape(t, idx)
            if s == ():
                return ZERO if op == "zeros" else ONE
            if s is not None and len(s) == 1:
                return mk(op, s[0])
            if s is not None:
                return mk(op, mk("vec", *s))
        if op == "arange" and self.shape(idx) == () and (n is None or n >= 0):
            return add(t.args[0], mul(idx, t.args[2]))
        if op == "poly" and not T.isboolt(idx):
            sh = [self.shape(a) for m, c in t.args for a, e in m]
            nd = max([len(s) for s in sh if s is not None], default=0)
            if all(s is not None and (s == () or (len(s) == nd and nd == 1) or (len(s) == nd and all(num(x) != 1 for x in s))) for s in sh) and nd:
                r = ZERO
                for m, c in t.args:
                    x = const(c)
                    for a, e in m:
                        x = mul(x, power(a if self.shape(a) == () else self.getitem_term(a, idx), const(e)))
                    r = add(r, x)
                return r
        if op == "store":
            y, j, v = t.args
            if j is idx:
                return v if self.getitem_shape(y, idx) in ((), None) else t if False else mk("getitem", t, idx) if self.shape(v) == () and self.getitem_shape(y, idx) != () else v
            nj = num(j)
            if n is not None and nj is not None and (n >= 0) == (nj >= 0):
                return self.getitem_term(y, idx)
        if op == "concat" and idx.op != "vec" and not T.isboolt(idx):
            if n is not None and n >= 0:
                L = self.length(t.args[0])
                nl = num(L)
                if nl is not None:
                    if n < nl:
                        return self.getitem_term(t.args[0], idx)
                    rest = self.concat(list(t.args[1:]))
                    return self.getitem_term(rest, const(n - nl) if (n - nl).denominator != 1 else const(int(n - nl)))
            if idx.op == "slice" and num(idx.args[2]) == 1 and idx.args[1] is NONE:
                L = self.length(t.args[0])
                if idx.args[0] is L:
                    return self.concat(list(t.args[1:]))
        if op == "getitem":
            x, j = t.args
            if j.op == "slice" and num(j.args[2]) == 1 and self.shape(idx) == () and not T.isboolt(idx):
                if j.args[0] is not NONE and nonneg(idx) and nonneg(j.args[0]):
                    return self.getitem_term(x, add(j.args[0], idx))
            if self.shape(j) == () and j.op != "vec" and not T.isboolt(j) and not T.isboolt(idx) and num(j) is None or (num(j) is not None and T.info(x).get("matrix")):
                return self.getitem_term(x, mk("vec", j, *(idx.args if idx.op == "vec" else (idx,))))
        if op == "T" and idx.op == "vec" and len(idx.args) == 2:
            return self.getitem_term(t.args[0], mk("vec", idx.args[1], idx.args[0]))
        if op == "shape" and n is not None:
            s = self.shape(t.args[0])
            if s is not None and -len(s) <= n < len(s):
                return s[int(n)]
        if op == "T" and n is not None and t.args[0].op == "vec" and n >= 0:
            rows = t.args[0].args
            s = self.shape(t.args[0])
            if s is not None and len(s) == 2 and num(s[1]) is not None and n < num(s[1]):
                return mk("vec", *[self.getitem_term(x, idx) for x in rows])
        if op == "ravel" and n is not None and n >= 0:
            s = self.shape(t.args[0])
            if s is not None and len(s) == 2 and num(s[1]) is not None and num(s[1]) > 0 and num(s[0]) is not None and n < num(s[0]) * num(s[1]):
                return self.getitem_term(self.getitem_term(t.args[0], const(int(n) // int(num(s[1])))), const(int(n) % int(num(s[1]))))
        return mk("getitem", t, idx)

    def fullslice(self, x):
        return x.op == "slice" and (x.args[0] is NONE or num(x.args[0]) == 0) and x.args[1] is NONE and (x.args[2] is NONE or num(x.args[2]) == 1)

    def store(self, t, idx, v):
        idx = self.norm_index(t, idx)
        if idx.op == "vec" and not idx.args or (idx.op == "c" and idx.args[0] == "e") or self.fullslice(idx):
            s = self.shape(t)
            sv = self.shape(v)
            if sv == () and s:
                if num(v) is not None and num(v) == 0:
                    return mk("zeros", mk("vec", *s) if len(s) != 1 else s[0])
                return mul(v, mk("ones", mk("vec", *s) if len(s) != 1 else s[0]))
            if sv is not None and sv == s:
                return v
            return mk("store", t, mk("slice", ZERO, NONE, ONE), v)
        if idx.op == "vec" and idx.args:
            sh = self.shape(t)
            out = []
            for k, x in enumerate(idx.args):
                if x.op == "slice":
                    lo, hi, st = x.args
                    if st is NONE:
                        st = ONE
                    if num(st) is not None and num(st) > 0:
                        if lo is NONE:
                            lo = ZERO
                        if hi is not NONE and sh is not None and k < len(sh) and sh[k] is hi:
                            hi = NONE
                    x = mk("slice", lo, hi, st)
                out.append(x)
            if all(T.isboolt(x) for x in out) and out:
                return mk("vec", *[ite(m, v if self.shape(v) == () else self.getitem_term(v, const(k)), self.getitem_term(t, const(k))) for k, m in enumerate(out)]) if self.shape(v) == () or v.op == "vec" else self.maskstore(t, mk("vec", *out), v)
            while len(out) > 1 and self.fullslice(out[-1]):
                out.pop()
            idx = out[0] if len(out) == 1 else mk("vec", *out)
        if T.isboolt(idx) and self.shape(idx) != ():
            return self.maskstore(t, idx, v)
        if T.isboolt(idx):
            return self.maskstore(t, idx, v)
        n = num(idx)
        if t.op == "vec" and n is not None and -len(t.args) <= n < len(t.args):
            l = list(t.args)
            l[int(n)] = v
            return mk("vec", *l)
        if t.op == "vec" and idx.op == "slice" and all(x is NONE or num(x) is not None for x in idx.args):
            f = lambda z: None if z is NONE else int(num(z))
            rg = range(*slice(*[f(z) for z in idx.args]).indices(len(t.args)))
            l = list(t.args)
            if v.op == "vec" and len(v.args) == len(rg):
                for k, x in zip(rg, v.args):
                    l[k] = x
                return mk("vec", *l)
            if self.shape(v) == ():
                for k in rg:
                    l[k] = v
                return mk("vec", *l)
        if t.op in ("zeros", "ones", "empty") and n is not None:
            s = self.shape(t)
            if s is not None and len(s) == 1 and num(s[0]) is not None and num(s[0]) <= 64:
                z = ZERO if t.op == "zeros" else ONE if t.op == "ones" else mk("uninit")
                return self.store(mk("vec", *[z] * int(num(s[0]))), idx, v)
        if t.op == "store" and t.args[1] is idx:
            t = t.args[0]
        return mk("store", t, idx, v)

    def maskstore(self, t, m, v):
        # v built from elements selected by the same mask
        if m.op == "not" and False:
            pass
        mp = {}
        bad = False
        for x in T.walk(v):
            if x.op == "getitem" and x.args[1] is m:
                mp[x] = x.args[0]
        v2 = T.subst(v, mp) if mp else v
        return T.rebuild("ite", [m, v2, t])

    # views -----------------------------------------------------------------
    def view_term(self, vk, bt, idx):
        if vk == "getitem":
            return self.getitem_term(bt, idx)
        if vk == "id":
            return bt
        if vk == "T":
            return self.tr(bt)
        if vk == "real":
            return freal(bt)
        if vk == "imag":
            return fimag(bt)
        if vk == "reshape":
            return self.reshape(bt, idx)
        if vk == "ravel":
            return self.ravel(bt)
        if vk == "squeeze":
            return self.squeeze(bt)
        return mk("view_" + vk, bt, idx)

    def view_store(self, vk, bt, idx, nt):
        if vk == "getitem":
            return self.store(bt, idx, nt)
        if vk == "id":
            return nt
        if vk == "T":
            return self.tr(nt)
        return mk("storevia", bt, const(vk), idx, nt)

    def reshape(self, t, dims):
        s = self.shape(t)
        d = self.dims(dims)
        if s is not None and d is not None and len(s) == len(d) and all(x is y for x, y in zip(s, d)):
            return t
        if d is not None and len(d) == 1 and num(d[0]) == -1:
            return self.ravel(t)
        if s is not None and d is not None and len(s) == 1 and len(d) == 1:
            return t
        return mk("reshape", t, dims)

    def ravel(self, t):
        s = self.shape(t)
        if s is not None and len(s) == 1:
            return t
        if s == ():
            return mk("vec", t)
        if t.op in ("reshape", "ravel", "squeeze"):
            return self.ravel(t.args[0])
        return mk("ravel", t)

    def squeeze(self, t):
        if t.op == "squeeze":
            return t
        if t.op == "reshape" and False:
            pass
        return mk("squeeze", t)

    def mkview(self, base, vk, idx=NONE):
        it = self.it
        if isinstance(base, I.VChoice):
            return it.on_choice(base, lambda x: self.mkview(x, vk, idx))
        if not isinstance(base, I.Ref) or it.get(base).kind not in ("arr", "slist"):
            return it.arr(self.view_term(vk, it.term(base), idx))
        o = it.get(base)
        meta = dict(o.meta)
        if vk == "getitem" and self.leading(base, idx):
            pass
        elif vk not in ("id", "squeeze"):
            # strides change (a reshaped contiguous array: see numpy.reshape)
            meta.pop("contig", None)
            if vk not in ("T", "reshape", "ravel"):
                meta.pop("dense", None)
        if vk in ("real", "imag"):
            meta.pop("dtype", None)
        return it.alloc(I.HObj("arr", None, None, (base, vk, idx), meta))

    def full_slice(self, t):
        return (t.args[0] is NONE or num(t.args[0]) == 0) and t.args[1] is NONE and (t.args[2] is NONE or num(t.args[2]) == 1)

    def leading(self, base, idx):
        """The index selects consecutive rows (leading slice of step one, or one row)."""
        if idx.op == "vec":
            parts = [x for x in idx.args if x is not NONE]
            while parts and parts[-1].op == "slice" and self.full_slice(parts[-1]):
                parts.pop()
            if len(parts) > 1:
                return False
            if not parts:
                return True
            t = parts[0]
        else:
            t = idx
        if t is NONE:
            return True
        if t.op == "slice":
            return num(t.args[2]) == 1 if t.args[2] is not NONE else True
        return T.isint(t) and self.shape(t) == ()

    def arr_getitem(self, ref, k, node):
        it = self.it
        kt = it.term(k)
        t = it.term(ref)
        fancy = self.has_array_index(k)
        if fancy:
            return it.arr(self.getitem_term(t, kt))
        if self.has_slice(k):
            return self.mkview(ref, "getitem", kt)
        r = self.getitem_term(t, kt)
        sh = self.shape(r)
        if sh == () or (sh is None and T.info(t).get("elems") == "scalar"):
            return r
        if isinstance(r, Term) and (is_str(r) or r is NONE or num(r) is not None):
            return r
        # sub-array: alias of the container
        return it.alloc(I.HObj("arr", None, None, (ref, "getitem", kt), {}))

    def has_slice(self, k):
        if isinstance(k, I.VSlice):
            return True
        if isinstance(k, I.VTuple):
            return any(self.has_slice(x) for x in k.items) or not k.items
        return isinstance(k, Term) and (k is NONE or k.op == "c" and k.args[0] == "e")

    def has_array_index(self, k):
        it = self.it
        if isinstance(k, I.VTuple):
            return any(self.has_array_index(x) for x in k.items)
        if isinstance(k, I.Ref):
            return True
        if isinstance(k, Term):
            return T.isboolt(k) and k not in (TRUE, FALSE) or k.op == "vec"
        return False

    def arr_setitem(self, ref, k, v, node):
        it = self.it
        o = it.get(ref)
        kt, vt = it.term(k), it.term(v)
        t = it.obj_term(o)
        it.write_term(ref, self.store(t, kt, vt))

    # ============================================================ attributes
    def ext_attr(self, path, name, node):
        p = path + "." + name
        p = ALIASES.get(p, p)
        if p in self.ext_hooks and callable(getattr(self.ext_hooks[p], "value", None)):
            return self.ext_hooks[p].value(self.it)
        if name == "__name__":
            return const(path.rpartition(".")[2])
        c = {"numpy.pi": PI, "numpy.inf": INF, "numpy.nan": NAN, "numpy.newaxis": NONE, "math.e": mk("exp", ONE)}.get(p)
        if c is not None:
            return c
        if p == "sys.version_info":
            return I.VTuple([const(3), const(12), const(0)])
        if p.startswith("os.environ") or p == "sys.argv":
            self.it.event("impure", p, node=node)
        return I.VExt(p)

    def ext_getitem(self, path, k, node):
        if path == "numpy.r_" or path == "numpy.c_":
            ks = k.items if isinstance(k, I.VTuple) else (k,)
            parts = []
            for x in ks:
                if isinstance(x, I.VSlice):
                    t = self.it.term(x)
                    parts.append(self.arange_term(ZERO if x.lo is NONE else self.it.term(x.lo), self.it.term(x.hi), ONE))
                else:
                    t = self.it.term(x)
                    parts.append(mk("vec", t) if self.shape(t) == () else t)
            if path == "numpy.c_":
                return self.it.arr(mk("c_", *parts))
            return self.it.arr(self.concat(parts))
        if path.startswith("os.environ"):
            self.it.event("impure", path, node=node)
        return mk("getitem", mk("ext", path), self.it.term(k))

    def getattr(self, o, name, node):
        it = self.it
        if isinstance(o, I.Ref):
            k = it.get(o).kind
            if k == "dict" or k == "list" or k == "slist":
                if not any(hasattr(c, name) for c in (list, dict, set, _ndarray)):
                    it.raise_(I.VExt("builtins.AttributeError"), node, (const(name),))
                return I.VMeth(o, name)
        if isinstance(o, I.VTuple):
            return I.VMeth(o, name)
        if isinstance(o, I.VObj):
            raise I.AnalysisError("attribute %s of %r" % (name, o))
        t = it.term(o)
        if is_str(t) or t.op == "str":
            return I.VMeth(o, name)
        if name == "real":
            return self.mkview(o, "real") if isinstance(o, I.Ref) else freal(t)
        if name == "imag":
            return self.mkview(o, "imag") if isinstance(o, I.Ref) else fimag(t)
        if name == "T":
            return self.mkview(o, "T")
        if name == "size":
            return self.size(t)
        if name == "ndim":
            return self.ndim(t)
        if name == "shape":
            s = self.shape(t)
            if s is not None:
                return I.VTuple(s)
            if t.op in ("real", "conj", "abs"):
                t = t.args[0]
            i = T.info(t)
            if "ndim" in i:
                return I.VTuple([mk("getitem", mk("shape", t), const(k)) for k in range(i["ndim"])])
            return mk("shape", t)
        if name == "dtype":
            return mk("dtype", t)
        if name == "flat":
            return self.mkview(o, "ravel") if isinstance(o, I.Ref) else it.arr(self.ravel(t))
        if name == "eps" and t.op == "finfo":
            return mul(EPS, ONE)
        if name in ARRAY_METHODS or name in INPLACE_METHODS or name in ("copy", "astype", "item", "tolist", "flatten", "view"):
            return I.VMeth(o, name)
        return I.VMeth(o, name) if self._called(node) else mk("attr", t, name)

    def _called(self, node):
        return getattr(node, "_is_callee", False)

    # ============================================================ calls
    def canon(self, path):
        return ALIASES.get(path, path)

    def call(self, path, args, kw, node):
        path = self.canon(path)
        it = self.it
        h = self.ext_hooks.get(path)
        if h is not None:
            r = h(it, path, args, kw, node)
            if r is not NotImplemented:
                return r
        for pre in self.ext_prefix_hooks:
            if path.startswith(pre):
                r = self.ext_prefix_hooks[pre](it, path, args, kw, node)
                if r is not NotImplemented:
                    return r
        if path in INPLACE_FUNCS:
            x = args[INPLACE_FUNCS[path]]
            it.write_event(x, node, path)
            if isinstance(x, I.Ref) and it.get(x).kind in ("arr", "slist"):
                it.write_term(x, mk("app", path, *[it.argterm(a) for a in args]))
            return NONE
        if any(path.startswith(p) for p in IMPURE_PREFIX) or path in IMPURE:
            it.event("impure", path, tuple(args), kw, node)
        if "out" in kw and kw["out"] is not NONE and path.startswith(("numpy.", "scipy.")):
            o = kw["out"]
            kw2 = {k: v for k, v in kw.items() if k != "out"}
            r = self.call(path, args, kw2, node)
            for x in (o.items if isinstance(o, I.VTuple) else (o,)):
                it.write_event(x, node, path + "(out=)")
                if isinstance(x, I.Ref):
                    it.write_term(x, it.term(r))
            return o if not isinstance(o, I.VTuple) else o.items[0]
        nin = UFUNC_NIN.get(path)
        if nin is not None and len(args) == nin + 1 and args[nin] is not NONE:
            return self.call(path, args[:nin], dict(kw, out=args[nin]), node)
        for ov, pos in (("overwrite_a", 0), ("overwrite_b", 1), ("overwrite_x", 0), ("overwrite_input", 0), ("overwrite_ab", 0), ("overwrite_y", 1), ("overwrite_data", 0)):
            if ov in kw and kw[ov] is not FALSE and len(args) > pos and not isinstance(kw[ov], I.Maybe):
                it.write_event(args[pos], node, "%s(%s)" % (path, ov))
        if path == "numpy.nan_to_num" and ("copy" in kw and kw["copy"] is FALSE or len(args) > 1 and args[1] is FALSE):
            it.write_event(args[0], node, path + "(copy=False)")
            return args[0]
        if path == "numpy.nditer" and args and "write" in T.show(it.term(kw.get("op_flags", NONE))):
            it.write_event(args[0], node, "nditer(op_flags)")
        if path.startswith("operator."):
            n = path[9:].strip("_")
            if n in OPERATOR_INPLACE and len(args) == 2:
                return it.aug(args[0], OPERATOR_INPLACE[n], args[1], node)
            if n == "setitem" and len(args) == 3:
                it.setitem(args[0], args[1], args[2], node)
                return NONE
            if n == "getitem" and len(args) == 2:
                return it.getitem(args[0], args[1], node)
            if n == "delitem" and len(args) == 2:
                it.write_event(args[0], node, "del")
                return NONE
        if args and path.startswith(("builtins.list.", "builtins.dict.", "numpy.ndarray.", "builtins.str.", "builtins.set.")):
            return it.call(it.getattr(args[0], path.rpartition(".")[2], node), list(args[1:]), kw, node)
        f = self.table.get(path)
        if f is not None:
            r = f(self, args, kw, node)
            if r is not NotImplemented:
                return self.aliased(path, r, args)
        if path in VIEW_FUNCS:
            return self.aliased(path, self.generic(path, args, kw, node), args)
        if path.startswith("builtins."):
            n = path[9:]
            if n in I.EXC_BASES:
                return mk("excinst", path, *[it.argterm(a) for a in args])
        return self.generic(path, args, kw, node)

    ext_prefix_hooks = {}

    def aliased(self, path, r, args):
        """The result of a function that may return a view shares memory with its argument."""
        it = self.it
        if path not in VIEW_FUNCS or not isinstance(r, I.Ref):
            return r
        o = it.get(r)
        if o.kind not in ("arr", "slist") or o.base is not None:
            return r
        for a in args:
            for x in (a.items if isinstance(a, I.VTuple) else (a,)):
                if isinstance(x, I.Ref) and x.id != r.id and it.get(x).kind in ("arr", "slist") and it.origins(x):
                    it.put(r, I.HObj(o.kind, it.obj_term(o), o.origin, (x, "alias", NONE), o.meta))
                    return r
        return r

    def generic(self, path, args, kw, node, fresh=True):
        it = self.it
        it.event("extcall", path, tuple(args), dict(kw), node)
        it.may_raise(node, path)
        return it.arr(self.appterm(path, args, kw))

    def appterm(self, path, args, kw):
        """Call of a function without a model: arguments by parameter name, defaults dropped."""
        args, kw = list(args), dict(kw)
        dflt = {}
        if not any(isinstance(a, tuple) and not isinstance(a, I.Maybe) for a in args):
            from . import introspect
            names = introspect.bind(path, len(args), list(kw))
            s = introspect.query(path).get("sig") or ()
            if names is not None:
                for i in range(len(names) - 1, -1, -1):
                    if [x for x in s if x[0] == names[i]][0][2] is None:
                        break
                    kw[names[i]] = args.pop()
                dflt = {x[0]: x[2][1] for x in s if x[2] is not None}
        ts = [self.argt(a) for a in args]
        for k in sorted(kw):
            v = kw[k]
            if isinstance(v, I.Maybe):
                ts.append(mk("kw", k, ite(v[0], self.argt(v[1]), mk("absent"))))
            else:
                x = self.argt(v)
                if k in dflt and T.is_const(x):
                    try:
                        if repr(T.pyval(x)) == dflt[k]:
                            continue
                    except Exception:
                        pass
                ts.append(mk("kw", k, x))
        return mk("app", path, *ts)

    def argt(self, a):
        """Term of an argument handed to external code; closures are inlined once and their effects kept."""
        it = self.it
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "*" and not isinstance(a, I.Maybe):
            return mk("star", it.term(a[1]))
        if isinstance(a, I.Ref) and it.get(a).kind == "func":
            return self.closure_effects(a)
        if isinstance(a, I.Ref) and it.get(a).kind == "dict":
            d, rest = it.get(a).data
            for n, (c, v) in d.items():
                if isinstance(v, I.Ref) and it.get(v) is not None and it.get(v).kind == "func":
                    self.closure_effects(v)
        if isinstance(a, I.VTuple):
            for v in a.items:
                if isinstance(v, I.Ref) and it.get(v) is not None and it.get(v).kind == "func":
                    self.closure_effects(v)
        if isinstance(a, I.VChoice):
            for x in (a.a, a.b):
                if isinstance(x, (I.Ref, I.VChoice, I.VTuple)):
                    self.argt(x)
        return it.term(a)

    def closure_effects(self, ref):
        it = self.it
        fi = it.get(ref).data[0]
        a = fi.node.args
        npos = len(a.posonlyargs) + len(a.args) - len(fi.defaults)
        if it.active.get(fi.qual, 0) >= 2:
            return mk("fn", fi.qual)
        st0 = it.st
        it.st = st0.fork()
        it.sinks.append([])
        pars = []
        syms = []
        for k in range(npos):
            s = it.newsym("a", kind="any")
            syms.append(s)
            pars.append(it.arr(s))
        t = None
        try:
            v = it.call_func(ref, pars, {}, fi.node)
            t = it.term(v)
        except I.Dead:
            it.st = None
            t = mk("raises")
        rs = it.sinks.pop()
        end = it.merge([x for x in [it.st] + [r.st for r in rs] if x is not None])
        it.st = st0
        if end is not None:
            for loc in it._changed(st0, end):
                o = st0.heap.get(loc[0]) or it.base.get(loc[0])
                if loc[1] is None and o.kind in ("arr", "slist", "list"):
                    tt = it.obj_term(o)
                    m = it.newsym("havoc", kind="arr", shape=self.shape(tt))
                    it.put(loc[0], I.HObj("arr" if o.kind == "arr" else "slist", m, o.origin, None, o.meta))
                elif loc[1] is not None:
                    old = o.data.get(loc[1], I.UNBOUND)
                    d = dict(o.data)
                    d[loc[1]] = it.newsym("havoc")
                    it.put(loc[0], o.with_data(d))
                elif o.kind == "dict":
                    d, rest = o.data
                    it.put(loc[0], o.with_data((d, it.newsym("havoc"))))
        for s in reversed(syms):
            t = I.bind("lam", mk("u"), s, t)
        return t

    # methods -----------------------------------------------------------------
    def method(self, recv, name, args, kw, node):
        it = self.it
        if isinstance(recv, I.VChoice):
            return it.on_choice(recv, lambda x: it.call(it.getattr(x, name, node), args, kw, node))
        if name in DUNDER_METHODS and len(args) == (2 if name == "__setitem__" else 1):
            if name == "__setitem__":
                it.setitem(recv, args[0], args[1], node)
                return NONE
            if name == "__getitem__":
                return it.getitem(recv, args[0], node)
            n = name.strip("_")
            if n in OPERATOR_INPLACE:
                return it.aug(recv, OPERATOR_INPLACE[n], args[0], node)
        if isinstance(recv, I.Ref):
            o = it.get(recv)
            if o.kind == "dict":
                return self.dict_method(recv, name, args, kw, node)
            if o.kind in ("list", "slist"):
                r = self.list_method(recv, name, args, kw, node)
                if r is not NotImplemented:
                    return r
        if isinstance(recv, I.VTuple):
            if name == "index":
                items = [it.term(x) for x in recv.items]
                t = it.term(args[0])
                for i, x in enumerate(items):
                    if x is t:
                        return const(i)
                return mk("index", it.term(recv), t)
            if name == "count":
                return mk("count", it.term(recv), it.term(args[0]))
        t = it.term(recv)
        if is_str(t) or t.op == "str":
            return self.str_method(t, name, args, kw, node)
        if name in ARRAY_METHODS:
            return self.call(ARRAY_METHODS[name], [recv] + list(args), kw, node)
        if name in ("copy", "astype", "flatten", "__copy__"):
            if name == "astype" and kw.get("copy") is FALSE:
                return self.mkview(recv, "id")
            if name == "flatten":
                return it.arr(self.ravel(t), **dict(self.meta(recv), contig=True))
            m = self.meta(recv)
            if name == "astype":
                m = dict(m)
                m["dtype"] = self.dtype(args[0] if args else kw.get("dtype"))
                m.pop("contig", None)
                m["dense"] = True
                return it.arr(self.astype(t, args[0] if args else kw.get("dtype")), **m)
            if name == "copy" and not args and not kw:
                m = dict(m, contig=True)
            return it.arr(t, **m)
        if name == "item":
            if args:
                return self.getitem_term(t, it.term(args[0]))
            if t.op == "vec" and len(t.args) == 1:
                return t.args[0]
            return t
        if name == "tolist":
            return it.alloc(I.HObj("slist", t))
        if name == "view":
            return self.mkview(recv, "id")
        if name in INPLACE_METHODS:
            it.write_event(recv, node, "method " + name)
            if isinstance(recv, I.Ref) and it.get(recv).kind in ("arr", "slist"):
                if name == "fill":
                    it.write_term(recv, self.store(t, mk("slice", ZERO, NONE, ONE), it.term(args[0])))
                else:
                    it.write_term(recv, mk(name, t, *[it.term(a) for a in args]))
            return NONE
        it.event("method", name, (recv,) + tuple(args), dict(kw), node)
        it.may_raise(node, name)
        ts = [self.argt(a) for a in args]
        for k in sorted(kw):
            ts.append(mk("kw", k, it.kwterm(kw[k])))
        return it.arr(mk("mcall", t, name, *ts))

    def meta(self, v):
        if isinstance(v, I.Ref):
            return dict(self.it.get(v).meta)
        return {}

    def dtype(self, v):
        if v is None:
            return None
        p = None
        if isinstance(v, I.VExt):
            p = v.path.split(".")[-1]
        elif isinstance(v, Term) and is_str(v):
            p = v.args[1]
        return {"float": "float64", "double": "float64", "float_": "float64", "float64": "float64", "complex": "complex128", "complex128": "complex128",
                "int32": "int32", "intc": "int32", "int": "int64", "int64": "int64", "d": "float64", "float32": "float32", "i": "int32", "f8": "float64",
                "f": "float32", "i4": "int32", "int_": "int64", "int8": "int8", "int16": "int16", "single": "float32", "longdouble": "longdouble"}.get(p, p)

    def astype(self, t, dt):
        d = self.dtype(dt)
        if d in ("int32", "int64", "int8", "int16") and not T.isint(t):
            return mk("int", t)
        if d is not None and d.startswith("float") and not T.is_real(t):
            return t
        return t

    def str_method(self, t, name, args, kw, node):
        it = self.it
        if is_str(t):
            s = t.args[1]
            if name == "join":
                return self.strfmt("join", [t, it.term(args[0])])
            try:
                a = [pyval(it.term(x)) for x in args]
                if name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "rstrip", "lstrip", "find", "index", "count", "isdigit"):
                    r = getattr(s, name)(*a)
                    if isinstance(r, list):
                        return it.newlist([const(x) for x in r])
                    return const(r)
                if name == "format" and not kw:
                    return const(s.format(*a))
            except (KeyError, ValueError, IndexError):
                pass
            if name == "format":
                return self.strfmt("format", [t] + [it.argterm(x) for x in args] + [it.kwterm(kw[k]) for k in sorted(kw)])
        return mk("str", name, t, *[it.argterm(a) for a in args])

    def strfmt(self, op, ts):
        if op == "f":
            if all(x.op == "c" for x in ts):
                return const("".join(str(pyval(x)) for x in ts))
            return mk("str", "f", *ts)
        if op == "+" and all(is_str(x) for x in ts):
            return const(ts[0].args[1] + ts[1].args[1])
        if op == "%":
            try:
                a = ts[1]
                v = tuple(pyval(x) for x in a.args) if a.op == "vec" else pyval(a)
                if isinstance(v, tuple):
                    v = tuple(float(x) if isinstance(x, T.Fr) else x for x in v)
                return const(pyval(ts[0]) % v)
            except (KeyError, TypeError, ValueError):
                pass
        return mk("str", op, *ts)

    def dict_method(self, ref, name, args, kw, node):
        it = self.it
        o = it.get(ref)
        if name == "copy":
            return it.alloc(I.HObj("dict", o.data))
        if name == "get":
            return it.dict_get(ref, args[0], args[1] if len(args) > 1 else kw.get("default", NONE), node)
        if name == "pop":
            d = args[1] if len(args) > 1 else None
            return it.dict_pop(ref, args[0], d, node)
        if name == "setdefault":
            has = it.decide(it.dict_has(ref, args[0]))
            d = args[1] if len(args) > 1 else NONE
            if has is TRUE:
                return it.dict_get(ref, args[0], None, node)
            v = it.dict_get(ref, args[0], d, node)
            it.dict_set(ref, args[0], v, node)
            return v
        if name == "update":
            it.write_event(ref, node, "update")
            for a in args:
                it.dict_update(ref, a, node, quiet=True)
            if kw:
                d = {k: ((v[0], v[1]) if isinstance(v, I.Maybe) else (TRUE, v)) for k, v in kw.items() if k != "**"}
                it.dict_update(ref, it.alloc(I.HObj("dict", (d, kw.get("**")))), node, quiet=True)
            return NONE
        if name in ("keys", "items", "values"):
            d, rest = o.data
            if rest is None and all(it.decide(c) is TRUE for c, _ in d.values()) and not any(isinstance(k, Term) for k in d):
                key = lambda k: k if isinstance(k, I.Ref) else const(k)
                if name == "keys":
                    return it.newlist([key(k) for k in d])
                if name == "values":
                    return it.newlist([v for c, v in d.values()])
                return it.newlist([I.VTuple([key(k), v]) for k, (c, v) in d.items()])
            t = mk("d" + name, it.obj_term(o))
            return it.arr(t)
        if name == "clear":
            it.write_event(ref, node, "clear")
            it.put(ref, o.with_data(({}, None)))
            return NONE
        if name == "popitem":
            it.write_event(ref, node, "popitem")
            it.put(ref, o.with_data((o.data[0], it.newsym("popped"))))
            return it.newsym("item")
        if name == "__contains__":
            return it.dict_has(ref, args[0])
        if name == "__getitem__":
            return it.dict_get(ref, args[0], None, node)
        if name == "__setitem__":
            return it.dict_set(ref, args[0], args[1], node) or NONE
        if name == "fromkeys":
            return it.newsym("d")
        return mk("mcall", it.obj_term(o), name, *[it.argterm(a) for a in args])

    def list_method(self, ref, name, args, kw, node):
        it = self.it
        o = it.get(ref)
        if name in LIST_METHODS:
            it.write_event(ref, node, name)
        t = it.obj_term(o)
        if name == "append":
            if o.kind == "list":
                it.put(ref, o.with_data(o.data + (args[0],)))
            else:
                it.put(ref, I.HObj("slist", self.concat([t, mk("vec", it.term(args[0]))]), o.origin))
            return NONE
        if name == "extend":
            items = it.items_of(args[0], node, soft=True)
            if o.kind == "list" and items is not None:
                it.put(ref, o.with_data(o.data + tuple(items)))
            else:
                it.put(ref, I.HObj("slist", self.concat([t, it.term(args[0])]), o.origin))
            return NONE
        if name == "insert" and o.kind == "list":
            n = num(it.term(args[0]))
            if n is not None:
                l = list(o.data)
                l.insert(int(n), args[1])
                it.put(ref, o.with_data(tuple(l)))
                return NONE
        if name == "pop" and o.kind == "list":
            n = num(it.term(args[0])) if args else -1
            if n is not None:
                l = list(o.data)
                if not l:
                    it.raise_(I.VExt("builtins.IndexError"), node)
                v = l.pop(int(n))
                it.put(ref, o.with_data(tuple(l)))
                return v
        if name == "sort" and o.kind == "list":
            r = self.sorted_items(list(o.data), kw.get("key"), kw.get("reverse"), node)
            if r is not None:
                it.put(ref, it.get(ref).with_data(tuple(r)))
                return NONE
        if name == "reverse" and o.kind == "list":
            it.put(ref, o.with_data(tuple(reversed(o.data))))
            return NONE
        if name == "clear":
            it.put(ref, I.HObj("list", (), o.origin))
            return NONE
        if name in LIST_METHODS:
            it.put(ref, I.HObj("slist", mk(name, t, *[it.term(a) for a in args]), o.origin))
            return NONE if name != "pop" else mk("popped", t)
        if name == "copy":
            return it.alloc(I.HObj(o.kind, o.data))
        if name == "index":
            a = it.term(args[0])
            if o.kind == "list":
                for i, x in enumerate(o.data):
                    if it.term(x) is a:
                        return const(i)
            return mk("index", t, a)
        if name == "count":
            return mk("count", t, it.term(args[0]))
        return NotImplemented

    def sorted_items(self, items, key, reverse, node):
        """Stable sort when every comparison is decided, else None."""
        it = self.it
        if not items:
            return []
        if not (key is not None and key is not NONE or all(isinstance(x, I.Ref) and it.get(x).kind == "inst" or isinstance(x, Term) and num(x) is not None for x in items)):
            return None
        if reverse is not None and reverse not in (TRUE, FALSE):
            return None
        ks = [x if key is None or key is NONE else it.call(key, [x], {}, node) for x in items]
        ks = [it.decide(k) if isinstance(k, Term) and T.isboolt(k) else k for k in ks]
        rev = reverse is TRUE
        out = []
        for x, k in zip(items, ks):
            i = len(out)
            while i > 0:
                a, b = (out[i - 1][1], k) if rev else (k, out[i - 1][1])
                c = it.decide(it.truth(it.compare("<", a, b, node)))
                if c not in (TRUE, FALSE):
                    return None
                if c is FALSE:
                    break
                i -= 1
            out.insert(i, (x, k))
        return [x for x, _ in out]

    # ============================================================ ranges etc.
    def arange_term(self, lo, hi, step):
        a, b, c = num(lo), num(hi), num(step)
        if None not in (a, b, c) and c and all(x.denominator == 1 for x in (a, b, c)) and abs((b - a) / c) <= 64:
            fl = any(x.args[0] == "f" for x in (lo, hi, step))
            return mk("vec", *[mk("c", "f" if fl else "i", T.Fr(k)) for k in range(int(a), int(b), int(c))])
        return mk("arange", lo, hi, step)

    # C typing -----------------------------------------------------------------
    def ccoerce(self, v, ct, node, arg=False):
        ct = ct.strip()
        if ct in ("int", "long", "size_t", "Py_ssize_t"):
            t = self.it.term(v)
            if T.isint(t) or T.isboolt(t):
                return t
            if t.op == "sym" or t.op in ("getitem", "call"):
                return t
            return mk("int", t)
        return v

    def ptr_read(self, p, k, node):
        self.it.event("raw", "read", (p, add(p.off, k), ONE, ONE), dict(write=False), node)
        return mk("load", self.it.term(p.arr), add(p.off, k))

    def ptr_write(self, p, k, v, node):
        self.it.event("raw", "write", (p, add(p.off, k), ONE, ONE), dict(write=True), node)
        self.it.write_event(p.arr, node, "pointer")
        t = self.it.term(p.arr)
        self.it.write_term(p.arr, mk("pstore", t, add(p.off, k), self.it.term(v)))


# ================================================================ builtin/numpy table
def A(lib, args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def ew(f):
    def h(lib, args, kw, node):
        x = args[0]
        t = lib.it.term(x)
        if t.op == "ite" and False:
            pass
        return lib.it.wrap(_vecmap(f, t), x)
    return h


def _vecmap(f, t):
    if t.op == "vec":
        return mk("vec", *[_vecmap(f, a) for a in t.args])
    return f(t)


def fsqrt(t):
    return power(t, const(T.Fr(1, 2)))


def _floor(t):
    n = num(t)
    if n is not None:
        import math
        return mk("c", t.args[0], T.Fr(math.floor(n)))
    return t if T.isint(t) else mk("floor", t)


def _ceil(t):
    n = num(t)
    if n is not None:
        import math
        return mk("c", "i", T.Fr(math.ceil(n)))
    return t if T.isint(t) else neg(_floor(neg(t)))


for _p, _f in {"numpy.absolute": fabs, "builtins.abs": fabs, "numpy.exp": fexp, "numpy.cos": fcos, "numpy.sin": fsin,
               "numpy.log10": lambda t: flog("log10", t), "numpy.log": lambda t: flog("log", t), "numpy.sqrt": fsqrt,
               "numpy.conjugate": fconj, "numpy.floor": _floor, "numpy.ceil": _ceil,
               "numpy.sign": lambda t: mk("sign", t), "numpy.angle": lambda t: mk("angle", t), "numpy.square": lambda t: power(t, const(2)),
               "numpy.negative": neg, "numpy.isinf": lambda t: mk("isinf", t), "numpy.isnan": isnan_t,
               "numpy.logical_not": lambda t: lnotv(t), "numpy.reciprocal": lambda t: div(ONE, t), "numpy.invert": lambda t: lnotv(t) if T.isboolt(t) or boolvec(t) else mk("invert", t),
               "numpy.isfinite": lambda t: lnot(lor(mk("isinf", t), isnan_t(t)))}.items():
    TABLE[_p] = ew(_f)


@H("numpy.real")
def _np_real(lib, args, kw, node):
    return lib.mkview(args[0], "real") if lib.it.is_arrayish(args[0]) else freal(lib.it.term(args[0]))


@H("numpy.imag")
def _np_imag(lib, args, kw, node):
    return lib.mkview(args[0], "imag") if lib.it.is_arrayish(args[0]) else fimag(lib.it.term(args[0]))


def bin2(op):
    def h(lib, args, kw, node):
        return lib.it.binop(op, args[0], args[1], node)
    return h


for _p, _o in {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.power": "**", "numpy.mod": "%",
               "numpy.floor_divide": "//", "numpy.logical_and": "&", "numpy.logical_or": "|", "numpy.bitwise_and": "&", "numpy.bitwise_or": "|",
               "builtins.pow": "**", "math.pow": "**", "numpy.float_power": "**"}.items():
    TABLE[_p] = bin2(_o)


def cmp2(op):
    def h(lib, args, kw, node):
        return lib.it.compare(op, args[0], args[1], node)
    return h


for _p, _o in {"numpy.equal": "==", "numpy.not_equal": "!=", "numpy.less": "<", "numpy.less_equal": "<=", "numpy.greater": ">", "numpy.greater_equal": ">="}.items():
    TABLE[_p] = cmp2(_o)


@H("numpy.fmod")
def _fmod(lib, args, kw, node):
    it = lib.it
    a, b = it.term(args[0]), it.term(args[1])
    if nonneg(a, it.st.pc):
        return it.wrap(mod(a, b), args[0], args[1])
    na, nb = num(a), num(b)
    if na is not None and nb:
        import math
        return const(T.Fr(math.fmod(na, nb)))
    return it.wrap(mk("fmod", a, b), args[0], args[1])


@H("numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.require")
def _asarray(lib, args, kw, node, path=None):
    it = lib.it
    x = args[0]
    dt = A(lib, args, kw, 1, "dtype")
    d = lib.dtype(dt) if dt is not None and dt is not NONE else None
    if isinstance(x, I.VChoice):
        return it.on_choice(x, lambda y: _asarray(lib, [y] + list(args[1:]), kw, node))
    t = it.term(x)
    order = A(lib, args, kw, 2, "order")
    it.may_raise(node, "numpy.asarray")
    if isinstance(x, I.Ref) and it.get(x).kind == "arr":
        v = lib.mkview(x, "id")
        o = it.get(v)
        meta = dict(o.meta)
        if d is not None:
            meta["dtype"] = d
        if order is not None and is_str(it.term(order)) and it.term(order).args[1] == "C":
            meta["contig"] = True
        elif order is not None and order is not NONE and order is not const("K"):
            meta.pop("contig", None)
        t2 = lib.astype(t, dt) if d else t
        if t2 is not t:
            return it.arr(t2, **meta)
        it.put(v, I.HObj("arr", None, None, o.base, meta))
        return v
    meta = {"contig": True}
    if order is not None and order is not NONE and order is not const("C"):
        meta = {}
    if d is not None:
        meta["dtype"] = d
    return it.arr(lib.astype(t, dt) if d else t, **meta)


@H("numpy.ascontiguousarray")
def _ascontiguous(lib, args, kw, node):
    kw = dict(kw, order=const("C"))
    if len(args) > 1:
        kw["dtype"] = args[1]
    if lib.shape(lib.it.term(args[0])) == ():
        return _at1d(lib, [_asarray(lib, args[:1], kw, node)], {}, node)
    return _asarray(lib, args[:1], kw, node)


def _at1d(lib, args, kw, node):
    it = lib.it
    x = args[0]
    t = it.term(x)
    s = lib.shape(t)
    if s == ():
        return it.arr(mk("vec", t), **dict(lib.meta(x), contig=True))
    if isinstance(x, I.Ref) and it.get(x).kind == "arr":
        if s is None and "ndim" not in T.info(t):
            return lib.mkview(x, "id")
        return lib.mkview(x, "id")
    return it.arr(t)


TABLE["numpy.atleast_1d"] = _at1d


@H("numpy.atleast_2d")
def _at2d(lib, args, kw, node):
    it = lib.it
    t = it.term(args[0])
    s = lib.shape(t)
    if s is not None and len(s) == 2:
        return lib.mkview(args[0], "id")
    if s is not None and len(s) == 1:
        return lib.mkview(args[0], "reshape", mk("vec", ONE, const(-1)))
    if s == ():
        return it.arr(mk("vec", mk("vec", t)))
    return lib.mkview(args[0], "atleast_2d")


@H("numpy.array", "numpy.copy", "copy.copy", "numpy.asfortranarray")
def _array(lib, args, kw, node):
    it = lib.it
    x = args[0]
    cp = kw.get("copy")
    if cp is FALSE or cp is NONE:
        return _asarray(lib, args[:1], {k: v for k, v in kw.items() if k != "copy"}, node)
    if isinstance(x, I.Ref) and it.get(x).kind == "dict":
        return it.alloc(I.HObj("dict", it.get(x).data))
    if isinstance(x, I.Ref) and it.get(x).kind in ("inst", "func"):
        return lib.generic("numpy.array", args, kw, node)
    t = it.term(x)
    it.may_raise(node, "numpy.array")
    dt = A(lib, args, kw, 1, "dtype")
    meta = {}
    d = lib.dtype(dt) if dt is not None and dt is not NONE else lib.meta(x).get("dtype")
    if d:
        meta["dtype"] = d
    order = kw.get("order")
    if order is None or order is const("K"):
        c = isinstance(x, I.VTuple) or isinstance(x, I.Ref) and (it.get(x).kind == "list" or it.get(x).meta.get("contig"))
    else:
        c = order is const("C")
    if c:
        meta["contig"] = True
    meta["dense"] = True
    if (not c or not d) and isinstance(x, I.Ref) and (it.get(x).origin is not None or it.get(x).base is not None or it.get(x).meta.get("loose")):
        meta["loose"] = True
    return it.arr(lib.astype(t, dt) if dt is not None else t, **meta)


@H("copy.deepcopy")
def _deepcopy(lib, args, kw, node):
    it = lib.it

    def dc(v):
        if isinstance(v, I.Ref):
            o = it.get(v)
            if o.kind == "dict":
                return it.alloc(I.HObj("dict", ({k: (c, dc(x)) for k, (c, x) in o.data[0].items()}, o.data[1])))
            if o.kind == "list":
                return it.alloc(I.HObj("list", tuple(dc(x) for x in o.data)))
            if o.kind in ("arr", "slist"):
                return it.alloc(I.HObj(o.kind, it.obj_term(o), meta=o.meta))
            return v
        if isinstance(v, I.VTuple):
            return I.VTuple([dc(x) for x in v.items])
        if isinstance(v, I.VChoice):
            return I.VChoice(v.cond, dc(v.a), dc(v.b))
        return v
    return dc(args[0])


def _filler(name):
    def h(lib, args, kw, node):
        it = lib.it
        sh = A(lib, args, kw, 0, "shape")
        d = it.term(sh)
        if d.op == "vec" and len(d.args) == 1:
            d = d.args[0]
        dt = A(lib, args, kw, 1, "dtype")
        meta = {"contig": True, "dtype": lib.dtype(dt) if dt is not None else "float64"}
        if kw.get("order") is not None and it.term(kw["order"]) is not const("C"):
            meta.pop("contig")
        r = mk(name, d)
        n = num(d)
        if n is not None and 0 <= n <= 16 and name != "empty":
            r = mk("vec", *[ZERO if name == "zeros" else ONE] * int(n))
        return it.arr(r, **meta)
    return h


for _n in ("zeros", "ones", "empty"):
    TABLE["numpy." + _n] = _filler(_n)


def _like(name):
    def h(lib, args, kw, node):
        it = lib.it
        t = it.term(args[0])
        s = lib.shape(t)
        m = lib.meta(args[0])
        meta = {"contig": True}
        dt = A(lib, args, kw, 1, "dtype")
        if dt is not None and dt is not NONE:
            meta["dtype"] = lib.dtype(dt)
        elif "dtype" in m:
            meta["dtype"] = m["dtype"]
        if s == ():
            return it.arr(ZERO if name == "zeros" else ONE if name == "ones" else mk("uninit"), **meta)
        if s is not None:
            d = s[0] if len(s) == 1 else mk("vec", *s)
            if name != "empty" and len(s) == 1 and num(d) is not None and num(d) <= 64:
                return it.arr(mk("vec", *[ZERO if name == "zeros" else ONE] * int(num(d))), **meta)
            return it.arr(mk(name, d), **meta)
        # unknown shape: elementwise constant (broadcast by later operations)
        return it.arr({"ones": mk("ones", mk("shape", t)), "zeros": mk("zeros", mk("shape", t)), "empty": mk("empty", mk("shape", t))}[name], **meta)
    return h


for _n in ("zeros", "ones", "empty"):
    TABLE["numpy.%s_like" % _n] = _like(_n)


@H("numpy.full")
def _full(lib, args, kw, node):
    it = lib.it
    d = it.term(args[0])
    v = it.term(A(lib, args, kw, 1, "fill_value"))
    return it.arr(lib.arith("*", v, mk("ones", d)), contig=True)


@H("numpy.full_like")
def _full_like(lib, args, kw, node):
    it = lib.it
    o = _like("ones")(lib, args[:1], {}, node)
    return it.arr(lib.arith("*", it.term(A(lib, args, kw, 1, "fill_value")), it.term(o)))


@H("numpy.eye", "numpy.identity")
def _eye(lib, args, kw, node):
    it = lib.it
    n = it.term(A(lib, args, kw, 0, "N"))
    m = A(lib, args, kw, 1, "M")
    m = n if m is None or m is NONE else it.term(m)
    k = it.term(A(lib, args, kw, 2, "k", ZERO))
    return it.arr(mk("eye", n, m, k), contig=True, dtype="float64")


@H("builtins.range", "numpy.arange")
def _range(lib, args, kw, node):
    raise NotImplementedError


def _brange(lib, args, kw, node):
    it = lib.it
    ts = [it.term(a) for a in args]
    lo, hi, st = ZERO, None, ONE
    if len(ts) == 1:
        hi = ts[0]
    else:
        lo, hi = ts[0], ts[1]
        if len(ts) > 2:
            st = ts[2]
    for x in (lo, hi, st):
        if x.op == "c" and x.args[0] == "f":
            it.raise_(I.VExt("builtins.TypeError"), node, (const("float range"),))
    return I.VRange(lo, hi, st)


def _arange(lib, args, kw, node):
    it = lib.it
    r = _brange_nocheck(lib, args, kw)
    return it.arr(lib.arange_term(*r), contig=True)


def _brange_nocheck(lib, args, kw):
    it = lib.it
    ts = [it.term(a) for a in args]
    lo, hi, st = ZERO, None, ONE
    if len(ts) == 0:
        hi = it.term(kw["stop"])
        lo = it.term(kw.get("start", ZERO))
    elif len(ts) == 1:
        hi = ts[0]
        if "stop" in kw:
            lo, hi = ts[0], it.term(kw["stop"])
    else:
        lo, hi = ts[0], ts[1]
        if len(ts) > 2:
            st = ts[2]
    if "step" in kw:
        st = it.term(kw["step"])
    return lo, hi, st


TABLE["builtins.range"] = _brange
TABLE["numpy.arange"] = _arange


@H("numpy.linspace")
def _linspace(lib, args, kw, node):
    it = lib.it
    n = it.term(A(lib, args, kw, 2, "num", const(50)))
    if set(kw) - {"num", "start", "stop"}:
        return NotImplemented
    return it.arr(mk("linspace", it.term(A(lib, args, kw, 0, "start")), it.term(A(lib, args, kw, 1, "stop")), n))


@H("builtins.len")
def _len(lib, args, kw, node):
    it = lib.it
    v = it.payload(args[0])
    if isinstance(v, I.VChoice):
        return it.on_choice(v, lambda x: _len(lib, [x], kw, node))
    if isinstance(v, I.VTuple):
        return const(len(v.items))
    if isinstance(v, I.VRange):
        return it.iter_seq(v, node)[0]
    if isinstance(v, I.Ref):
        o = it.get(v)
        if o.kind == "list":
            return const(len(o.data))
        if o.kind == "dict":
            d, rest = o.data
            if rest is None:
                n = ZERO
                for c, _ in d.values():
                    c = it.decide(c)
                    n = add(n, ONE if c is TRUE else ZERO if c is FALSE else ite(c, ONE, ZERO))
                # keep emptiness decidable
                if n.op == "poly" or n.op == "ite":
                    return mk("dictlen", lor(*[c for c, _ in d.values()]), n)
                return n
            return mk("len", it.obj_term(o))
        if o.kind == "inst":
            m = it.find_method(o, "__len__", v)
            if m is not None:
                return it.call(m, [], {}, node)
    if isinstance(v, Term) and (num(v) is not None or v is NONE):
        it.raise_(I.VExt("builtins.TypeError"), node, (const("len of number"),))
    if isinstance(v, I.VObj) and hasattr(v, "length"):
        return v.length(it)
    return lib.length(it.term(v))


@H("numpy.size")
def _size(lib, args, kw, node):
    it = lib.it
    ax = A(lib, args, kw, 1, "axis")
    t = it.term(args[0])
    if ax is not None and ax is not NONE:
        s = lib.shape(t)
        n = num(it.term(ax))
        if s is not None and n is not None and -len(s) <= n < len(s):
            return s[int(n)]
        return mk("getitem", mk("shape", t), it.term(ax))
    return lib.size(t)


@H("numpy.ndim")
def _ndim(lib, args, kw, node):
    return lib.ndim(lib.it.term(args[0]))


@H("numpy.shape")
def _shape(lib, args, kw, node):
    return lib.getattr(args[0] if isinstance(args[0], I.Ref) else lib.it.arr(lib.it.term(args[0])), "shape", node)


@H("numpy.reshape")
def _reshape(lib, args, kw, node):
    it = lib.it
    if len(args) == 2:
        d = it.term(args[1])
    else:
        d = mk("vec", *[it.term(a) for a in args[1:]]) if len(args) > 1 else it.term(kw.get("newshape", kw.get("shape")))
    it.may_raise(node, "reshape")
    v = lib.mkview(args[0], "reshape", d)
    if isinstance(args[0], I.Ref) and it.get(args[0]).meta.get("contig"):
        o = it.get(v)
        it.put(v, I.HObj(o.kind, o.data, o.origin, o.base, dict(o.meta, contig=True)))
    return v


@H("numpy.transpose")
def _transpose(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    v = lib.mkview(args[0], "T")
    return v


@H("numpy.squeeze")
def _squeeze(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    return lib.mkview(args[0], "squeeze")


@H("numpy.ravel")
def _ravel(lib, args, kw, node):
    v = lib.mkview(args[0], "ravel")
    if len(args) == 1 and not kw and isinstance(v, I.Ref):
        o = lib.it.get(v)
        lib.it.put(v, I.HObj(o.kind, o.data, o.origin, o.base, dict(o.meta, contig=True)))
    return v


@H("numpy.sum", "builtins.sum")
def _sum(lib, args, kw, node):
    it = lib.it
    ax = A(lib, args, kw, 1, "axis")
    x = args[0]
    items = it.items_of(x, node, soft=True) if not (isinstance(x, I.Ref) and it.get(x).kind == "arr") else None
    t = it.term(x)
    if ax is not None and ax is not NONE and num(it.term(ax)) is not None and "axis" in kw:
        s = lib.shape(t)
        if s is not None and len(s) == 1:
            return lib.reduce_sum(t)
        if t.op == "vec":
            r = ZERO
            for a in t.args:
                r = lib.arith("+", r, a)
            return it.arr(r)
        return it.arr(mk("sumaxis", t, it.term(ax)))
    if ax is not None and "axis" not in kw and ax is not NONE and items is not None:
        r = it.term(ax)
        for a in t.args:
            r = add(r, a)
        return r
    if T.isboolt(t):
        return mk("sumall", t)
    return it.wrap(lib.reduce_sum(t)) if not (t.op == "vec" and any(lib.shape(a) != () for a in t.args)) else it.arr(lib.reduce_sum(t))


@H("numpy.prod")
def _prod(lib, args, kw, node):
    it = lib.it
    t = it.term(args[0])
    ax = A(lib, args, kw, 1, "axis")
    if t.op == "vec" and ax is not None and num(it.term(ax)) == 0 or t.op == "vec" and ax is None:
        r = ONE
        for a in t.args:
            r = lib.arith("*", r, a)
        return it.arr(r)
    if t.op == "map" and (ax is None or num(it.term(ax)) == 0):
        return it.arr(lib._summap("prod", t))
    if ax is None:
        return lib.reduce_prod(t)
    return it.arr(mk("prodaxis", t, it.term(ax)))


@H("numpy.mean")
def _mean(lib, args, kw, node):
    it = lib.it
    if len(args) > 1 or kw:
        return NotImplemented
    t = it.term(args[0])
    return div(lib.reduce_sum(t), lib.size(t))


@H("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot")
def _dot(lib, args, kw, node):
    it = lib.it
    for k, a in enumerate(args[:2]):
        if isinstance(a, I.VChoice) and it._opaque_choice(a):
            return it.on_choice(a, lambda x: _dot(lib, [x if j == k else y for j, y in enumerate(args)], kw, node))
    if isinstance(args[0], I.VObj) or isinstance(args[1], I.VObj):
        return it.binop("@", args[0], args[1], node)
    return it.arr(lib.dot(it.term(args[0]), it.term(args[1])))


@H("numpy.linalg.multi_dot")
def _multi_dot(lib, args, kw, node):
    it = lib.it
    ts = [it.term(x) for x in it.items_of(args[0], node)]
    r = ts[0]
    for x in ts[1:]:
        r = lib.dot(r, x)
    return it.arr(r)


@H("builtins.reduce")
def _reduce(lib, args, kw, node):
    it = lib.it
    items = it.items_of(args[1], node, soft=True)
    if items is None:
        return NotImplemented
    if len(args) > 2:
        items = [args[2]] + items
    if not items:
        it.raise_(I.VExt("builtins.TypeError"), node, (const("reduce of empty"),))
    r = items[0]
    for x in items[1:]:
        r = it.call(args[0], [r, x], {}, node)
    return r


def _mm(kind):
    def h(lib, args, kw, node):
        it = lib.it
        f = lib.fmax if kind == "max" else lib.fmin
        if "key" in kw or "initial" in kw or "where" in kw:
            return NotImplemented
        ax = A(lib, args, kw, 1, "axis")
        t = it.term(args[0])
        if t.op == "vec":
            if ax is None or ax is NONE:
                sh = [lib.shape(a) for a in t.args]
                if all(s == () for s in sh) or all(s is None or s == () for s in sh):
                    return f(*t.args)
                return mk("amax" if kind == "max" else "amin", t)
            if num(it.term(ax)) == 0:
                return it.arr(f(*t.args))
        if ax is not None and ax is not NONE:
            return it.arr(mk("axis" + kind, t, it.term(ax)))
        if t.op == "map":
            return mk("amax" if kind == "max" else "amin", t)
        return mk("amax" if kind == "max" else "amin", t)
    return h


TABLE["numpy.amax"] = _mm("max")
TABLE["numpy.amin"] = _mm("min")


def _bmm(kind):
    def h(lib, args, kw, node):
        it = lib.it
        f = lib.fmax if kind == "max" else lib.fmin
        if kw:
            return NotImplemented
        if len(args) == 1:
            items = it.items_of(args[0], node, soft=True)
            if items is None:
                t = it.term(args[0])
                s = lib.shape(t)
                if t.op == "shape":
                    return mk("a" + kind, t)
                return mk("a" + kind, t)
            args = items
        return f(*[it.term(a) for a in args])
    return h


TABLE["builtins.max"] = _bmm("max")
TABLE["builtins.min"] = _bmm("min")


def _maximum(kind):
    def h(lib, args, kw, node):
        f = lib.fmax if kind == "max" else lib.fmin
        return lib.it.wrap(f(lib.it.term(args[0]), lib.it.term(args[1])), *args[:2])
    return h


TABLE["numpy.maximum"] = TABLE["numpy.fmax"] = _maximum("max")
TABLE["numpy.minimum"] = TABLE["numpy.fmin"] = _maximum("min")


@H("numpy.clip")
def _clip(lib, args, kw, node):
    it = lib.it
    lo = it.term(A(lib, args, kw, 1, "a_min", A(lib, args, kw, 1, "min", NONE)))
    hi = it.term(A(lib, args, kw, 2, "a_max", A(lib, args, kw, 2, "max", NONE)))
    t = it.term(args[0])
    if lo is not NONE:
        t = lib.fmax(t, lo)
    if hi is not NONE:
        t = lib.fmin(t, hi)
    return it.wrap(t, args[0])


@H("numpy.where")
def _where(lib, args, kw, node):
    it = lib.it
    if len(args) == 1:
        return I.VTuple([it.arr(mk("nonzero", it.term(args[0])))])
    c, a, b = [it.term(x) for x in args]
    if c.op == "vec":
        g = lambda t, k: t if lib.shape(t) == () else lib.getitem_term(t, const(k))
        return it.arr(mk("vec", *[ite(x, g(a, k), g(b, k)) for k, x in enumerate(c.args)]))
    if not T.isboolt(c):
        c = lnot(eq0(c))
    return it.arr(T.rebuild("ite", [c, a, b]))


@H("numpy.append")
def _append(lib, args, kw, node):
    it = lib.it
    if len(args) > 2 or kw:
        return NotImplemented
    a, b = it.term(args[0]), it.term(args[1])
    b = mk("vec", b) if lib.shape(b) == () else lib.ravel(b) if lib.shape(b) is not None else b
    return it.arr(lib.concat([a, b]))


def _stack(kind):
    def h(lib, args, kw, node):
        it = lib.it
        if kw.get("axis") is not None and num(it.term(kw["axis"])) != 0 or len(args) > 1 and num(it.term(args[1])) != 0:
            return NotImplemented
        for x in (it.items_of(args[0], node, soft=True) or []):
            if isinstance(x, I.VObj):
                return NotImplemented
        t = it.term(args[0])
        if t.op == "ite":
            return it.choose(t.args[0], lambda: h(lib, [it.arr(t.args[1])] + list(args[1:]), kw, node), lambda: h(lib, [it.arr(t.args[2])] + list(args[1:]), kw, node))
        if t.op != "vec":
            return it.arr(mk(kind, t))
        parts = list(t.args)
        shs = [lib.shape(p) for p in parts]
        if kind == "vstack":
            if all(s == () or (s is not None and len(s) == 2) for s in shs):
                parts = [mk("vec", mk("vec", p)) if s == () else p for p, s in zip(parts, shs)]
            if all(s is not None and len(s) == 1 for s in shs):
                return it.arr(mk("vec", *parts))
            out = []
            for p in parts:
                if p.op == "vstack":
                    out += list(p.args)
                else:
                    s = lib.shape(p)
                    if s is not None and len(s) == 2 and num(s[0]) == 0:
                        continue
                    out.append(p)
            if len(out) == 1:
                return it.arr(out[0])
            return it.arr(mk("vstack", *out))
        # hstack / concatenate
        parts = [mk("vec", p) if s == () else p for p, s in zip(parts, shs)]
        shs = [lib.shape(p) for p in parts]
        if kind == "concatenate" or any(s is not None and len(s) == 1 for s in shs):
            return it.arr(lib.concat(parts))
        out = []
        for p in parts:
            if p.op == "hstack":
                out += list(p.args)
            else:
                out.append(p)
        return it.arr(mk("hstack", *out))
    return h


TABLE["numpy.hstack"] = _stack("hstack")
TABLE["numpy.vstack"] = _stack("vstack")
TABLE["numpy.concatenate"] = _stack("concatenate")


@H("numpy.isscalar")
def _isscalar(lib, args, kw, node):
    it = lib.it
    v = args[0]
    if isinstance(v, I.VChoice):
        return it.on_choice(v, lambda x: _isscalar(lib, [x], kw, node))
    if isinstance(v, I.Ref):
        o = it.get(v)
        if o.kind == "arr":
            t = it.term(v)
            k = T.info(t).get("kind")
            if k == "any":
                return mk("isscalar", t)
        return FALSE
    if isinstance(v, Term):
        if num(v) is not None or is_str(v) or T.isboolt(v):
            return TRUE
        if v is NONE or v.op in ("vec", "lam", "fn", "concat", "map"):
            return FALSE
        k = T.info(v).get("kind")
        if k in ("int", "real", "float", "bool", "complex", "str"):
            return TRUE
        if k in ("arr", "callable"):
            return FALSE
        if lib.shape(v) == ():
            return TRUE
        return mk("isscalar", v)
    return FALSE


@H("numpy.iscomplexobj")
def _iscomplexobj(lib, args, kw, node):
    t = lib.it.term(args[0])
    if T.is_real(t):
        return FALSE
    i = T.info(t)
    if i.get("complex") is True:
        return TRUE
    if i.get("real"):
        return FALSE
    return mk("iscomplexobj", t)


@H("numpy.isrealobj")
def _isrealobj(lib, args, kw, node):
    return lnot(_iscomplexobj(lib, args, kw, node))


@H("builtins.type")
def _type(lib, args, kw, node):
    if isinstance(args[0], I.VChoice):
        return lib.it.on_choice(args[0], lambda x: lib.type_of(x))
    return lib.type_of(args[0])


@H("builtins.isinstance")
def _isinstance(lib, args, kw, node):
    return lib.isinstance_(args[0], args[1])


@H("builtins.issubclass")
def _issubclass(lib, args, kw, node):
    it = lib.it
    c, cls = args
    if isinstance(cls, I.VTuple):
        return lor(*[_issubclass(lib, [c, x], kw, node) for x in cls.items])
    if isinstance(c, I.Ref) and it.get(c).kind == "class":
        return TRUE if any(b == cls for b in it.mro(c)) else FALSE
    if isinstance(c, I.VExt) and isinstance(cls, I.Ref):
        return FALSE
    if isinstance(c, I.VExt) and isinstance(cls, I.VExt):
        if c.path == cls.path or cls.path == "builtins.object" or (c.path, cls.path) == ("builtins.bool", "builtins.int"):
            return TRUE
        if c.path.startswith("builtins."):
            return FALSE
    return mk("issubclass", it.term(c), it.term(cls))


@H("builtins.callable")
def _callable(lib, args, kw, node):
    it = lib.it
    v = args[0]
    if isinstance(v, I.VChoice):
        return it.on_choice(v, lambda x: _callable(lib, [x], kw, node))
    if isinstance(v, I.Ref):
        k = it.get(v).kind
        if k in ("func", "class"):
            return TRUE
        if k == "inst":
            return TRUE if it.find_method(it.get(v), "__call__") is not None else FALSE
        if k == "arr":
            t = it.term(v)
            kd = T.info(t).get("kind")
            if kd == "callable":
                return TRUE
            if kd == "any":
                return mk("callable", t)
        return FALSE
    if isinstance(v, (I.VBound, I.VMeth)):
        return TRUE
    if isinstance(v, I.VExt):
        return TRUE
    if isinstance(v, I.VTuple):
        return FALSE
    if isinstance(v, Term):
        if v.op == "lam" or v.op == "fn" or T.info(v).get("kind") == "callable":
            return TRUE
        if v.op in ("c", "poly", "vec") or T.info(v).get("kind") in ("int", "real", "float", "str", "arr", "bool"):
            return FALSE
        return mk("callable", v)
    return FALSE


@H("builtins.hasattr")
def _hasattr(lib, args, kw, node):
    it = lib.it
    n = it.term(args[1]).args[1]
    v = args[0]
    if isinstance(v, I.VChoice):
        return it.on_choice(v, lambda x: _hasattr(lib, [x] + list(args[1:]), kw, node))
    if isinstance(v, I.VTuple) or isinstance(v, I.Ref) and it.get(v).kind in ("list", "slist"):
        return TRUE if n in ("__len__", "__iter__", "__getitem__") else FALSE
    if isinstance(v, I.Ref) and it.get(v).kind == "inst":
        h = it.get(v)
        return TRUE if n in h.data or it.class_attr(h.data["__class__"], n) is not None else FALSE
    if isinstance(v, I.Ref) and it.get(v).kind == "func":
        return TRUE if n in it.get(v).data[1] else FALSE
    t = it.term(v)
    if isinstance(v, Term) and (T.info(v).get("kind") in ("int", "real", "float") or num(v) is not None):
        if n in ("__len__", "__iter__", "__getitem__"):
            return FALSE
    if isinstance(v, I.Ref) and it.get(v).kind == "arr" and T.info(t).get("kind") == "arr" and n in ("__len__", "__iter__"):
        return TRUE
    return mk("hasattr", t, const(n))


@H("builtins.getattr")
def _getattr(lib, args, kw, node):
    it = lib.it
    n = it.term(args[1])
    if not is_str(n):
        return mk("attr", it.term(args[0]), n)
    if len(args) > 2:
        c = it.decide(_hasattr(lib, args[:2], {}, node))
        if c is FALSE:
            return args[2]
        if c is TRUE:
            return it.getattr(args[0], n.args[1], node)
        return it.choose(c, lambda: it.getattr(args[0], n.args[1], node), lambda: args[2])
    return it.getattr(args[0], n.args[1], node)


@H("builtins.setattr")
def _setattr(lib, args, kw, node):
    n = lib.it.term(args[1])
    lib.it.setattr(args[0], n.args[1] if is_str(n) else "?", args[2], node)
    return NONE


@H("builtins.list")
def _list(lib, args, kw, node):
    it = lib.it
    if not args:
        return it.newlist([])
    if isinstance(args[0], I.VChoice):
        return it.on_choice(args[0], lambda x: _list(lib, [x], kw, node))
    items = it.items_of(args[0], node, soft=True)
    if items is not None:
        return it.newlist(items)
    return it.alloc(I.HObj("slist", it.term(args[0])))


@H("builtins.tuple")
def _tuple(lib, args, kw, node):
    it = lib.it
    if not args:
        return I.VTuple([])
    items = it.items_of(args[0], node, soft=True)
    if items is not None:
        return I.VTuple(items)
    return it.arr(it.term(args[0]))


@H("builtins.dict")
def _dict(lib, args, kw, node):
    it = lib.it
    r = it.alloc(I.HObj("dict", ({}, None)))
    for a in args:
        it.dict_update(r, a, node, quiet=True)
    if kw:
        d = {k: ((v[0], v[1]) if isinstance(v, I.Maybe) else (TRUE, v)) for k, v in kw.items() if k != "**"}
        it.dict_update(r, it.alloc(I.HObj("dict", (d, kw.get("**")))), node, quiet=True)
    return r


@H("builtins.set", "builtins.frozenset")
def _set(lib, args, kw, node):
    it = lib.it
    if not args:
        return it.newlist([])
    items = it.items_of(args[0], node, soft=True)
    if items is not None:
        if all(isinstance(x, I.Ref) and it.get(x).kind == "inst" for x in items):
            items = list({x.id: x for x in items}.values())
        return it.newlist(items)
    return it.alloc(I.HObj("slist", mk("set", it.term(args[0]))))


@H("builtins.object.__getattribute__", "builtins.list.__getattribute__")
def _obj_getattribute(lib, args, kw, node):
    it = lib.it
    return it.getattr(args[0], it.term(args[1]).args[1], it._plain)


@H("builtins.object.__setattr__")
def _obj_setattr(lib, args, kw, node):
    it = lib.it
    it.setattr(args[0], it.term(args[1]).args[1], args[2], node, plain=True)
    return NONE


@H("builtins.str", "builtins.repr", "builtins.format")
def _str(lib, args, kw, node):
    if not args:
        return const("")
    t = lib.it.term(args[0])
    if is_str(t):
        return t
    if t.op == "c" and t.args[0] == "i":
        return const(str(int(t.args[1])))
    return mk("str", "str", t)


@H("builtins.float", "builtins.complex", "numpy.float64", "numpy.complex128", "builtins.bool", "numpy.double", "numpy.float32", "numpy.float_")
def _float(lib, args, kw, node):
    it = lib.it
    if not args:
        return ZERO
    t = it.term(args[0])
    if is_str(t) and t.args[1].lower() in ("inf", "+inf", "infinity"):
        return INF
    if is_str(t) and t.args[1].lower() == "-inf":
        return neg(INF)
    it.may_raise(node, "float")
    if len(args) == 2:
        return add(t, mul(it.term(args[1]), IMAG))
    if t.op == "c" and t.args[0] == "i":
        return mk("c", "f", t.args[1])
    if t.op == "vec" and len(t.args) == 1:
        return t.args[0]
    return t


def _bool(lib, args, kw, node):
    return lib.it.truth(args[0]) if args else FALSE


TABLE["builtins.bool"] = _bool
TABLE["numpy.bool_"] = _bool


@H("builtins.int", "numpy.int32", "numpy.int64", "numpy.intp", "operator.index")
def _int(lib, args, kw, node):
    it = lib.it
    if not args:
        return ZERO
    t = it.term(args[0])
    if T.isint(t):
        return t
    n = num(t)
    if n is not None:
        return const(int(n))
    if T.isboolt(t):
        return ite(t, ONE, ZERO)
    it.may_raise(node, "int")
    if t.op == "floor" and nonneg(t.args[0], it.st.pc):
        return t
    if nonneg(t, it.st.pc):
        return _floor(t)
    return mk("int", t)


@H("builtins.round", "numpy.round", "numpy.rint", "numpy.around")
def _round(lib, args, kw, node):
    t = lib.it.term(args[0])
    return lib.it.wrap(mk("round", t, *[lib.it.term(a) for a in args[1:]]), args[0])


@H("builtins.enumerate")
def _enumerate(lib, args, kw, node):
    it = lib.it
    start = it.term(A(lib, args, kw, 1, "start", ZERO))
    items = it.items_of(args[0], node, soft=True)
    if items is not None:
        return I.VTuple([I.VTuple([add(const(i), start), x]) for i, x in enumerate(items)])
    n, fn = it.iter_seq(args[0], node)
    return I.VSeq(n, lambda i: I.VTuple([add(i, start), fn(i)]))


@H("builtins.zip")
def _zip(lib, args, kw, node):
    it = lib.it
    ls = [it.items_of(a, node, soft=True) for a in args]
    if all(l is not None for l in ls):
        return I.VTuple([I.VTuple(x) for x in zip(*ls)])
    seqs = [it.iter_seq(a, node) if l is None else (const(len(l)), (lambda i, a=a: it.getitem(a, i, node))) for a, l in zip(args, ls)]
    n = seqs[0][0]
    for c, _ in seqs[1:]:
        n = lib.minlen(n, c)
    return I.VSeq(n, lambda i: I.VTuple([f(i) for _, f in seqs]))


@H("builtins.map")
def _map(lib, args, kw, node):
    it = lib.it
    ls = [it.items_of(a, node, soft=True) for a in args[1:]]
    if all(l is not None for l in ls):
        return it.newlist([it.call(args[0], list(x), {}, node) for x in zip(*ls)])
    seqs = [it.iter_seq(a, node) for a in args[1:]]
    n = seqs[0][0]
    for c, _ in seqs[1:]:
        n = lib.minlen(n, c)
    i = it.newsym("i", kind="int", lo=0)
    body = it.term(it.call(args[0], [f(i) for _, f in seqs], {}, node))
    return it.alloc(I.HObj("slist", I.bind("map", n, i, body)))


@H("builtins.filter")
def _filter(lib, args, kw, node):
    it = lib.it
    items = it.items_of(args[1], node, soft=True)
    if items is not None:
        out = []
        for x in items:
            c = it.decide(it.truth(it.call(args[0], [x], {}, node) if args[0] is not NONE else x))
            if c is FALSE:
                continue
            out.append((c, x))
        if all(c is TRUE for c, _ in out):
            return it.newlist([x for _, x in out])
        return it.alloc(I.HObj("slist", mk("filtered", *[mk("kv", c, it.term(x)) for c, x in out])))
    return it.alloc(I.HObj("slist", mk("filter", it.term(args[0]), it.term(args[1]))))


@H("builtins.any", "numpy.any")
def _any(lib, args, kw, node):
    it = lib.it
    if kw.get("axis") is not None or len(args) > 1:
        return NotImplemented
    t = it.term(args[0])
    if t.op == "vec":
        return lor(*[it.truth(a) for a in t.args]) if t.args else FALSE
    if T.isboolt(t) and lib.shape(t) == ():
        return t
    if t.op == "map":
        b = t.args[2]
        return mk("any", t.args[0], t.args[1], b)
    return mk("any", t)


@H("builtins.all", "numpy.all")
def _all(lib, args, kw, node):
    it = lib.it
    if kw.get("axis") is not None or len(args) > 1:
        return NotImplemented
    t = it.term(args[0])
    if t.op == "vec":
        return land(*[it.truth(a) for a in t.args]) if t.args else TRUE
    if T.isboolt(t) and lib.shape(t) == ():
        return t
    if t.op == "map":
        return lnot(mk("any", t.args[0], t.args[1], lnot(t.args[2]) if T.isboolt(t.args[2]) else lnot(it.truth(t.args[2]))))
    return lnot(mk("any", lnot(t))) if T.isboolt(t) else mk("all", t)


@H("builtins.sorted")
def _sorted(lib, args, kw, node):
    items = lib.it.items_of(args[0], node, soft=True)
    if items is not None:
        r = lib.sorted_items(items, kw.get("key"), kw.get("reverse"), node)
        if r is not None:
            return lib.it.newlist(r)
    return lib.it.alloc(I.HObj("slist", mk("sort", lib.it.term(args[0]), *[lib.argt(kw[k]) for k in sorted(kw)])))


@H("builtins.reversed")
def _reversed(lib, args, kw, node):
    it = lib.it
    items = it.items_of(args[0], node, soft=True)
    if items is not None:
        return it.newlist(list(reversed(items)))
    n, fn = it.iter_seq(args[0], node)
    return I.VSeq(n, lambda i: fn(sub(sub(n, ONE), i)))


@H("builtins.iter")
def _iter(lib, args, kw, node):
    return args[0]


@H("builtins.next")
def _next(lib, args, kw, node):
    it = lib.it
    t = it.term(args[0])
    return mk("next", t, *[it.term(a) for a in args[1:]])


@H("builtins.print", "logging.debug", "logging.info")
def _print(lib, args, kw, node):
    lib.it.event("print", "print", tuple(args), kw, node)
    return NONE


@H("builtins.__import__")
def _imp(lib, args, kw, node):
    t = lib.it.term(args[0])
    return I.VExt(t.args[1].split(".")[0])


@H("importlib.import_module")
def _impm(lib, args, kw, node):
    t = lib.it.term(args[0])
    if is_str(t) and not t.args[1].startswith("."):
        return lib.it.import_module(t.args[1], node)
    return NotImplemented


@H("warnings.warn")
def _warn(lib, args, kw, node):
    it = lib.it
    c = A(lib, args, kw, 1, "category")
    if c is None:
        c = I.VExt("builtins.UserWarning")
        m = args[0]
        if isinstance(m, I.Ref) and it.get(m).kind == "inst":
            c = it.get(m).data["__class__"]
    it.event("warn", it.exc_names(c), tuple(args), kw, node)
    return NONE


@H("numpy.finfo")
def _finfo(lib, args, kw, node):
    return mk("finfo", lib.it.term(args[0]))


@H("numpy.sort")
def _sort(lib, args, kw, node):
    it = lib.it
    if len(args) > 1 or kw:
        return NotImplemented
    t = it.term(args[0])
    if t.op == "vec" and all(num(a) is not None for a in t.args):
        return it.arr(mk("vec", *sorted(t.args, key=lambda a: num(a))))
    return it.arr(mk("sort", t))


@H("numpy.argsort", "numpy.nonzero", "numpy.cumsum")
def _x(lib, args, kw, node):
    return NotImplemented


@H("numpy.linalg.norm")
def _norm(lib, args, kw, node):
    it = lib.it
    if len(args) > 1 or kw:
        return NotImplemented
    t = it.term(args[0])
    return fsqrt(lib.reduce_sum(_vecmap(lambda x: power(fabs(x), const(2)), t)))


@H("numpy.polyval")
def _polyval(lib, args, kw, node):
    it = lib.it
    p, x = it.term(args[0]), it.term(args[1])
    if p.op == "vec":
        r = ZERO
        for c in p.args:
            r = add(mul(r, x), c)
        return it.wrap(r, args[1])
    s = lib.shape(p)
    if s is not None and len(s) == 1:
        i = it.newsym("i", kind="int", lo=0)
        r = I.bind("sum", s[0], i, mul(lib.getitem_term(p, i), mk("pow", x, sub(sub(s[0], ONE), i))))
        lib.SHAPES[r] = lib.shape(x)
        return it.arr(r)
    return it.arr(mk("polyval", p, x))


@H("numpy.roots")
def _roots(lib, args, kw, node):
    return lib.it.arr(mk("roots", lib.it.term(args[0])))


@H("numpy.poly")
def _poly(lib, args, kw, node):
    return lib.it.arr(mk("poly_coef", lib.it.term(args[0])))


@H("numpy.diag", "numpy.diagflat")
def _diag(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    return lib.it.arr(mk("diag", lib.it.term(args[0])))


@H("scipy.linalg.toeplitz")
def _toeplitz(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    return lib.it.arr(mk("toeplitz", lib.it.term(args[0])))


@H("numpy.linalg.inv")
def _inv(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    t = lib.it.term(args[0])
    k, t = lib._scal(t)
    return lib.it.arr(mul(const(1 / k), t.args[0] if t.op == "inv" else mk("inv", t)))


@H("numpy.fft.fft")
def _fft(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    return lib.it.arr(mk("fft", lib.it.term(args[0])))


@H("numpy.fft.fftshift")
def _fftshift(lib, args, kw, node):
    if len(args) > 1 or kw:
        return NotImplemented
    return lib.it.arr(mk("fftshift", lib.it.term(args[0])))


@H("functools.partial")
def _partial(lib, args, kw, node):
    if not args or any(isinstance(a, tuple) and not isinstance(a, I.Maybe) for a in args):
        return NotImplemented
    return VPartial(args[0], args[1:], kw)


class VDeco(I.VObj):
    """Decorator that returns the decorated function (wraps, cache)."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def call(self, it, args, kw, node):
        return self.f(args[0])

    def term(self, it):
        return mk("decorator")


@H("functools.wraps", "contextlib.wraps")
def _wraps(lib, args, kw, node):
    return VDeco(lambda g: g)


@H("functools.update_wrapper")
def _update_wrapper(lib, args, kw, node):
    return args[0]


@H("functools.lru_cache", "functools.cache")
def _lru(lib, args, kw, node):
    it = lib.it

    def mark(g):
        if isinstance(g, I.Ref) and it.get(g).kind == "func":
            it.put(g, it.get(g).with_meta(cached=True))
        return g
    if args and isinstance(args[0], I.Ref) and it.get(args[0]).kind == "func":
        return mark(args[0])
    return VDeco(mark)


@H("numpy.vectorize")
def _vectorize(lib, args, kw, node):
    return NotImplemented


@H("builtins.slice")
def _slice(lib, args, kw, node):
    a = list(args)
    if len(a) == 1:
        return I.VSlice(NONE, a[0], NONE)
    return I.VSlice(a[0], a[1], a[2] if len(a) > 2 else NONE)


@H("builtins.super")
def _super(lib, args, kw, node):
    return I.VObjSuper(args[0], args[1])


@H("builtins.__cast__")
def _cast(lib, args, kw, node):
    it = lib.it
    ct = it.term(args[0]).args[1]
    v = args[1]
    if isinstance(v, I.VPtr):
        return I.VPtr(v.arr, v.off, ct)
    if ct.endswith("_ptr") or "*" in ct:
        t = it.term(v)
        for x in T.walk(t):
            if x.op == "ext" and ".blas." in x.args[0]:
                return I.VExt("blas." + x.args[0].split(".blas.")[1].split(".")[0])
            if x.op == "attr" and x.args[0].op == "ext" and ".blas." in x.args[0].args[0]:
                return I.VExt("blas." + x.args[0].args[0].split(".blas.")[1])
        return v
    return lib.ccoerce(v, ct, node)


@H("builtins.__addr__")
def _addr(lib, args, kw, node):
    return I.VAddr(args[0])


@H("numpy.PyArray_DATA")
def _pydata(lib, args, kw, node):
    return I.VPtr(args[0], ZERO, "void *")


@H("numpy.import_array")
def _import_array(lib, args, kw, node):
    return NONE


# ---------------------------------------------------------------- BLAS kernels called from the compiled simulators
def _deref(lib, v):
    return lib.it.term(v.val) if isinstance(v, I.VAddr) else lib.it.term(v)


def blas_access(lib, node, what, p, off, n, inc, write):
    """Raw access of n elements from pointer p with the given increment (obligation of C08)."""
    lib.it.event("raw", what, (p, off, n, inc), dict(write=write), node)


def _blas_write(lib, node, what, y, t):
    it = lib.it
    it.write_event(y.arr, node, what)
    it.write_term(y.arr, t)


def ptr_parts(lib, p):
    """(array value, array term, offset) of a pointer value."""
    if isinstance(p, I.VPtr):
        return p.arr, lib.it.term(p.arr), p.off
    return None, lib.it.term(p), ZERO


def _gemv(lib, node, what, m, n, alpha, a, lda, x, incx, beta, y, incy):
    """y <- alpha*A x + beta*y with A m-by-n stored by rows, row stride lda (row-major view)."""
    it = lib.it
    lib.it.event("gemv", what, (m, n, alpha, a, lda, x, incx, beta, y, incy), {}, node)
    _, at, ao = ptr_parts(lib, a)
    _, xt, xo = ptr_parts(lib, x)
    _, yt, yo = ptr_parts(lib, y)
    t = mk("gemv", m, n, alpha, at, ao, lda, xt, xo, incx, beta, yt, yo, incy)
    if isinstance(y, I.VPtr):
        _blas_write(lib, node, what, y, t)
    return NONE


@H("blas.dgemv")
def _dgemv(lib, args, kw, node):
    if len(args) != 11:
        return NotImplemented
    tr, m, n, alpha, a, lda, x, incx, beta, y, incy = args
    d = lambda v: _deref(lib, v)
    tt = d(tr)
    m, n, lda = d(m), d(n), d(lda)
    if tt.op in ("s", "c") and str(T.pyval(tt)).strip("b'\"")[:1].upper() in ("T", "C"):
        # column-major m-by-n matrix, transposed: n rows of m entries, row stride lda
        return _gemv(lib, node, "dgemv", n, m, d(alpha), a, lda, x, d(incx), d(beta), y, d(incy))
    if tt.op in ("s", "c"):
        lib.it.event("gemv", "dgemvN", (m, n, d(alpha), a, lda, x, d(incx), d(beta), y, d(incy)), {}, node)
        _, at, ao = ptr_parts(lib, a)
        _, xt, xo = ptr_parts(lib, x)
        _, yt, yo = ptr_parts(lib, y)
        t = mk("gemvN", m, n, d(alpha), at, ao, lda, xt, xo, d(incx), d(beta), yt, yo, d(incy))
        if isinstance(y, I.VPtr):
            _blas_write(lib, node, "dgemv", y, t)
        return NONE
    return NotImplemented


@H("c.cblas_dgemv")
def _cblas_dgemv(lib, args, kw, node):
    if len(args) != 12:
        return NotImplemented
    order, trans, m, n, alpha, a, lda, x, incx, beta, y, incy = args
    o = getattr(order, "path", "").rpartition(".")[2]
    tr = getattr(trans, "path", "").rpartition(".")[2]
    t = lambda v: lib.it.term(v)
    m, n = t(m), t(n)
    row = (o == "CblasRowMajor") == (tr == "CblasNoTrans")
    if o not in ("CblasRowMajor", "CblasColMajor") or tr not in ("CblasNoTrans", "CblasTrans", "CblasConjTrans"):
        return NotImplemented
    mm, nn = (m, n) if tr == "CblasNoTrans" else (n, m)     # y has mm entries, x nn
    if row:
        return _gemv(lib, node, "cblas_dgemv", mm, nn, t(alpha), a, t(lda), x, t(incx), t(beta), y, t(incy))
    lib.it.event("gemv", "dgemvN", (mm, nn, t(alpha), a, t(lda), x, t(incx), t(beta), y, t(incy)), {}, node)
    _, at, ao = ptr_parts(lib, a)
    _, xt, xo = ptr_parts(lib, x)
    _, yt, yo = ptr_parts(lib, y)
    if isinstance(y, I.VPtr):
        _blas_write(lib, node, "cblas_dgemv", y, mk("gemvN", mm, nn, t(alpha), at, ao, t(lda), xt, xo, t(incx), t(beta), yt, yo, t(incy)))
    return NONE


@H("blas.dcopy", "c.cblas_dcopy")
def _dcopy(lib, args, kw, node):
    if len(args) != 5:
        return NotImplemented
    d = lambda v: _deref(lib, v)
    n, x, incx, y, incy = d(args[0]), args[1], d(args[2]), args[3], d(args[4])
    lib.it.event("copy", "dcopy", (n, x, incx, y, incy), {}, node)
    _, xt, xo = ptr_parts(lib, x)
    _, yt, yo = ptr_parts(lib, y)
    if isinstance(y, I.VPtr):
        _blas_write(lib, node, "dcopy", y, mk("vcopy", n, xt, xo, incx, yt, yo, incy))
    return NONE
