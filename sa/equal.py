"""Equality of value-graph terms.

Identical normal forms are equal.  Otherwise both graphs are given random interpretations
(Gulwani & Necula, "Global value numbering using random interpretation"): symbols get random
values, uninterpreted operators get random smooth functions determined by their name, and the
two graphs must agree at every point.  No repository code is involved: only terms are evaluated.
"""
import cmath
import hashlib
import math

import numpy as np

from . import terms as T
from .terms import Term, num, is_num

EQUAL, DIFFERENT, UNKNOWN = "equal", "different", "unknown"


class Unsupported(Exception):
    pass


class EvalError(Exception):
    pass


class Str(str):
    pass


class Nothing(object):
    def __repr__(self):
        return "None"


NOTHING = Nothing()


class Tup(tuple):
    """Tuple of heterogeneous values."""


def h01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:6], "big") / float(1 << 48)


def flat(v, out):
    if isinstance(v, (tuple, list)):
        for x in v:
            flat(x, out)
        return
    if isinstance(v, Fn):
        for p in (0.137, 0.291, 0.418):
            flat(v(p), out)
        return
    if isinstance(v, str) or v is NOTHING:
        out.append(h01("s", str(v)))
        return
    a = np.ravel(np.asarray(v))
    if a.dtype == object:
        for x in a:
            flat(x, out)
        return
    for x in a:
        if np.iscomplexobj(a):
            out.append(float(x.real))
            out.append(float(x.imag))
        else:
            out.append(float(x))


class Fn(object):
    def __init__(self, f, name="fn"):
        self.f = f
        self.name = name

    def __call__(self, *a):
        return self.f(*a)


def smooth(name, xs, k=0, real=False):
    """Random smooth function of the numbers xs determined by name."""
    s = 0.7 + h01(name, k, "off", len(xs))
    t = 0.9 * h01(name, k, "offi", len(xs)) - 0.45
    for j, x in enumerate(xs):
        if math.isinf(x) or math.isnan(x):
            x = 3.3 if x > 0 else -2.2
        w = 0.3 + h01(name, k, j, "w")
        y = math.atan(0.3 * x)
        s += (0.2 + h01(name, k, j, "a")) * math.sin(w * y + 6 * h01(name, k, j, "p"))
        t += (0.2 + h01(name, k, j, "b")) * math.cos(w * y + 6 * h01(name, k, j, "q"))
    return s if real else complex(s, t)


MAXLOOP = 400


class Ev(object):
    def __init__(self, rng, env=None, domain=None, shapes=None, realops=()):
        self.rng = rng
        self.env = env if env is not None else {}
        self.domain = domain or {}
        self.memo = {}
        self.bmemo = {}     # values of terms with bound variables, for the bindings in force
        self.shapes = shapes
        self.heads = set()
        self.realops = set(realops)
        self.cov = None

    def seen(self, t, v):
        """Record which truth values a comparison has taken (coverage of the branches)."""
        if self.cov is not None:
            s = self.cov.setdefault(t, set())
            if isinstance(v, np.ndarray):
                if v.size:
                    s.add(bool(v.all()))
                    s.add(bool(v.any()))
            else:
                s.add(bool(v))
        return v

    # ------------------------------------------------ symbols
    def symval(self, t):
        v = self.env.get(t)
        if v is not None:
            return v
        name = t.args[0]
        d = self.domain.get(t, self.domain.get(name))
        if d is not None:
            v = d(self) if callable(d) else d
        else:
            v = self.sample(t)
        self.env[t] = v
        return v

    def sample(self, t):
        i = T.INFO.get(t.args[0], {})
        rng = self.rng
        k = i.get("kind")
        if k == "callable":
            nm = t.args[0]
            real = bool(i.get("realvalued"))
            return Fn(lambda *a: smooth(nm, [float(x) for x in _flat(a)], real=real), nm)
        if k == "bool":
            return bool(rng.integers(0, 2))
        if k == "str":
            return Str(t.args[0])
        if k == "int":
            lo = i.get("lo")
            hi = i.get("hi")
            lo = -3 if lo is None else int(lo)
            if i.get("lo_open"):
                lo += 1
            hi = lo + 6 if hi is None else int(hi)
            return int(rng.integers(lo, hi + 1))
        shape = i.get("shape")
        lo, hi = i.get("lo"), i.get("hi")
        if shape is None and k == "arr":
            shape = (T.const(int(rng.integers(2, 6))),)
        dims = ()
        if shape:
            dims = tuple(int(round(float(np.real(self.ev(x))))) for x in shape)
            if any(x < 0 for x in dims):
                raise EvalError("negative dimension")

        def draw():
            if lo is not None and hi is not None:
                return float(lo) + (float(hi) - float(lo)) * rng.random(dims)
            if lo is not None:
                return float(lo) + rng.exponential(1.5, dims) + 1e-3
            if hi is not None:
                return float(hi) - rng.exponential(1.5, dims) - 1e-3
            return rng.normal(0, 1.5, dims)
        v = draw()
        if i.get("complex"):
            v = v + 1j * draw()
        return v if dims or shape == () and isinstance(v, np.ndarray) and v.ndim else v if dims else (complex(v) if np.iscomplexobj(v) else float(v))

    # ------------------------------------------------ evaluation
    def ev(self, t):
        m = self.memo
        if t in m:
            return m[t]
        if t.op == "sym":
            return self.symval(t)
        if t.op == "bv":
            return self._ev(t)
        if any(x.op == "bv" for x in T.free(t)):
            m = self.bmemo
            if t in m:
                return m[t]
        v = self._ev(t)
        m[t] = v
        return v

    def bound(self, b, v):
        return _Bind(self, b, v)

    def _ev(self, t):
        op = t.op
        f = OPS.get(op)
        if f is not None:
            return f(self, t)
        if op == "bv":
            if t in self.env:
                return self.env[t]
            raise Unsupported("unbound bv")
        return self.opaque(t)

    def opaque(self, t):
        head = [t.op]
        xs = []
        if t.op in ("loopexit", "exc", "dictrest", "kv", "star", "obj", "filtered", "filter", "closed", "st", "dead", "none", "loopbody", "kw"):
            raise Unsupported(t.op)
        for a in t.args:
            if isinstance(a, Term):
                if a.op == "kw":
                    head.append("kw:" + str(a.args[0]))
                    flat(self.ev(a.args[1]), xs)
                elif a.op == "ext":
                    head.append(a.args[0])
                else:
                    n0 = len(xs)
                    flat(self.ev(a), xs)
                    head.append("#%d" % (len(xs) - n0))
            else:
                head.append(repr(a))
        head = "|".join(head)
        self.heads.add(head.split("|#")[0])
        dims = None
        if t.op == "app" and t.args[0] in SHAPES:
            pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
            vs = [_num(self.ev(a)) for a in pos]
            try:
                dims = SHAPES[t.args[0]](*[np.shape(v) for v in vs])
            except (TypeError, IndexError):
                dims = None
        elif self.shapes is not None:
            sh = self.shapes(t)
            if sh is not None:
                try:
                    dims = tuple(int(round(float(np.real(self.ev(x))))) for x in sh)
                except (Unsupported, EvalError):
                    dims = None
        real = t.op in self.realops or (t.op == "app" and t.args[0] in self.realops) or T.is_real(t)
        if T.isboolt(t):
            return bool(smooth(head, xs, real=True) > 0.9)
        if dims:
            n = 1
            for d in dims:
                n *= d
            return np.array([smooth(head, xs, k, real) for k in range(n)]).reshape(dims)
        return smooth(head, xs, 0, real)


# result shapes of uninterpreted external functions, from their documentation
SHAPES = {"scipy.signal.lfilter": lambda b, a, x, *r: x,
          "scipy.signal.convolve": lambda a, b, *r: (a[0] + b[0] - 1,)}


def _flat(a):
    out = []
    flat(a, out)
    return out


class _Bind(object):
    def __init__(self, E, b, v):
        self.E, self.b, self.v = E, b, v

    def __enter__(self):
        self.old = self.E.env.get(self.b)
        self.E.env[self.b] = self.v
        self.memo, self.E.bmemo = self.E.bmemo, {}

    def __exit__(self, *a):
        self.E.bmemo = self.memo
        if self.old is None:
            self.E.env.pop(self.b, None)
        else:
            self.E.env[self.b] = self.old


OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def toint(v):
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    v = complex(v)
    if abs(v.imag) > 1e-9 or math.isnan(v.real) or math.isinf(v.real):
        raise EvalError("not an integer")
    r = round(v.real)
    if abs(r - v.real) > 1e-6:
        raise EvalError("not an integer")
    return int(r)


@op("c")
def _(E, t):
    tag, v = t.args
    if tag == "i":
        return int(v)
    if tag == "f":
        return _real(v)
    if tag == "b":
        return v == "True"
    if tag in "sy":
        return Str(v)
    if tag == "N":
        return NOTHING
    return NOTHING


OPS["pi"] = lambda E, t: math.pi
OPS["I"] = lambda E, t: 1j
OPS["inf"] = lambda E, t: math.inf
OPS["nan"] = lambda E, t: math.nan
OPS["eps"] = lambda E, t: float(np.finfo(float).eps)


def _real(v):
    try:
        return float(v)
    except OverflowError:
        return np.longdouble(str(v.numerator)) / np.longdouble(str(v.denominator))


def _num(v):
    if v is NOTHING or isinstance(v, (str, Fn)):
        raise EvalError("not a number")
    if isinstance(v, (tuple, list)):
        return _stack(v)
    if isinstance(v, bool):
        return int(v)
    return v


def _stack(v):
    try:
        r = np.array([np.asarray(_num(x)) for x in v])
    except ValueError:
        raise EvalError("ragged")
    return r


def _pow(a, e):
    if isinstance(a, np.ndarray):
        if np.isrealobj(a) and not float(np.real(e) if np.ndim(e) == 0 else 0.5).is_integer() and (a < 0).any():
            a = a.astype(complex)
        if a.dtype.kind in "iub":
            a = a.astype(float)
        return a ** e
    if isinstance(e, np.ndarray):
        return np.asarray(a, dtype=complex if isinstance(a, complex) or np.real(a) < 0 else float) ** e
    if isinstance(a, int) and abs(a) > 1 << 200:
        a = np.longdouble(str(a))
    if isinstance(a, np.longdouble):
        if a < 0 and not float(np.real(e)).is_integer():
            return complex(a) ** complex(e)
        return a ** np.longdouble(e) if np.isrealobj(e) else complex(a) ** e
    if isinstance(a, (int, float, np.number)) and not isinstance(a, complex):
        a = float(a) if not np.iscomplexobj(a) else complex(a)
    try:
        if a == 0 and np.real(e) < 0:
            return math.inf
        if isinstance(a, float) and a < 0 and not float(np.real(e)).is_integer():
            a = complex(a)
        return a ** (e if isinstance(e, complex) else float(e) if not float(e).is_integer() or abs(e) > 1e6 else int(e))
    except (OverflowError, ZeroDivisionError):
        return math.inf


@op("poly")
def _(E, t):
    r = 0
    for m, c in t.args:
        x = _real(c) if c.denominator != 1 else int(c)
        if abs(x) > 1e100:
            x = np.longdouble(str(c.numerator)) / np.longdouble(str(c.denominator))
        for a, e in m:
            v = _num(E.ev(a))
            if e != 1:
                e = float(e) if e.denominator != 1 else int(e)
                if abs(e) >= 4:
                    v = _wide(v, e)
                v = _pow(v, e)
            x = _bin(lambda p, q: p * q, x, v)
        r = _bin(lambda p, q: p + q, r, x)
    return _narrow(r)


def _wide(v, e):
    """Extended-range operand when v**e may leave the double range on the way to a moderate result."""
    if isinstance(v, (bool, str)) or np.iscomplexobj(v):
        return v
    if isinstance(v, int) and abs(v) > 1 << 60:
        v = np.longdouble(str(v))
    a = np.abs(np.asarray(v, dtype=np.longdouble))
    if a.size and np.all(np.isfinite(a)) and np.all(a > 0) and float(np.max(np.abs(np.log10(a))) * abs(e)) > 100:
        w = np.asarray(v, dtype=np.longdouble)
        return w if isinstance(v, np.ndarray) else w[()]
    return v


def _narrow(r):
    if isinstance(r, np.longdouble):
        return float(r)if 1e-290 < abs(r) < 1e290 or r == 0 or not np.isfinite(r) else r
    return r


def _bin(f, a, b):
    try:
        return f(a, b)
    except ValueError:
        raise EvalError("shape mismatch")
    except OverflowError:
        return math.inf


@op("pow")
def _(E, t):
    return _pow(_num(E.ev(t.args[0])), _num(E.ev(t.args[1])))


def cl(f):
    def g(E, t):
        v = _num(E.ev(t.args[0]))
        with np.errstate(all="ignore"):
            return f(np.asarray(v) if isinstance(v, np.ndarray) else v)
    return g


def _py(v):
    v = np.asarray(v)
    return v if v.ndim else v.item()


def _clog(v):
    v = np.asarray(v)
    if np.isrealobj(v) and (v < 0).any():
        v = v.astype(complex)
    return np.log(v)


OPS["exp"] = cl(lambda v: _py(np.exp(v)))
OPS["cos"] = cl(lambda v: _py(np.cos(v)))
OPS["sin"] = cl(lambda v: _py(np.sin(v)))
OPS["log"] = cl(lambda v: _py(_clog(v)))
OPS["log10"] = cl(lambda v: _py(_clog(v) / math.log(10)))
OPS["abs"] = cl(lambda v: _py(np.abs(v)))
OPS["real"] = cl(lambda v: _py(np.real(v)))
OPS["imag"] = cl(lambda v: _py(np.imag(v)))
OPS["conj"] = cl(lambda v: _py(np.conj(v)))
OPS["angle"] = cl(lambda v: _py(np.angle(v)))
OPS["sign"] = cl(lambda v: _py(np.sign(np.real(v))))
OPS["isinf"] = cl(lambda v: _py(np.isinf(v)))
OPS["isnan"] = cl(lambda v: _py(np.isnan(v)))
OPS["isneg"] = cl(lambda v: _py(np.real(v) < 0))
OPS["round"] = cl(lambda v: _py(np.round(v)))


def _floor(v):
    v = np.real(np.asarray(v))
    r = np.round(v)
    return _py(np.where(np.abs(v - r) < 1e-9 * (1 + np.abs(v)), r, np.floor(v)))


OPS["floor"] = cl(_floor)
OPS["ceil"] = cl(lambda v: _py(-np.asarray(_floor(-np.asarray(v)))))
OPS["int"] = cl(lambda v: _py(np.where(np.real(v) >= 0, _floor(v), -np.asarray(_floor(-np.asarray(v))))))
OPS["item"] = lambda E, t: _item(E.ev(t.args[0]))
OPS["clip0"] = lambda E, t: max(0, toint(E.ev(t.args[0])))


def _item(v):
    v = np.asarray(v)
    if v.size != 1:
        raise EvalError("item")
    return v.reshape(-1)[0]


@op("mod")
def _(E, t):
    a, b = _num(E.ev(t.args[0])), _num(E.ev(t.args[1]))
    with np.errstate(all="ignore"):
        return _py(np.mod(np.real(a), np.real(b)))


@op("fmod")
def _(E, t):
    a, b = _num(E.ev(t.args[0])), _num(E.ev(t.args[1]))
    with np.errstate(all="ignore"):
        return _py(np.fmod(np.real(a), np.real(b)))


@op("max")
def _(E, t):
    return _red(np.maximum, [_num(E.ev(a)) for a in t.args])


@op("min")
def _(E, t):
    return _red(np.minimum, [_num(E.ev(a)) for a in t.args])


@op("arctan2")
def _(E, t):
    return _py(np.arctan2(np.real(_num(E.ev(t.args[0]))), np.real(_num(E.ev(t.args[1])))))


def _red(f, vs):
    r = vs[0]
    for v in vs[1:]:
        r = _bin(lambda a, b: f(np.real(a), np.real(b)), r, v)
    return _py(r)


def _rng(E, t):
    n = toint(E.ev(t.args[0]))
    if n > MAXLOOP:
        raise Unsupported("long range")
    return max(0, n)


@op("sum", "prod")
def _(E, t):
    r = 0 if t.op == "sum" else 1
    for i in range(_rng(E, t)):
        with E.bound(t.args[1], i):
            v = _num(E.ev(t.args[2]))
        r = _bin((lambda a, b: a + b) if t.op == "sum" else (lambda a, b: a * b), r, v)
    return r


@op("map")
def _(E, t):
    out = []
    for i in range(_rng(E, t)):
        with E.bound(t.args[1], i):
            out.append(E.ev(t.args[2]))
    return mkvec(out)


@op("concatmap")
def _(E, t):
    out = []
    for i in range(_rng(E, t)):
        with E.bound(t.args[1], i):
            out += list(np.atleast_1d(_num(E.ev(t.args[2]))))
    return mkvec(out)


@op("filtermap")
def _(E, t):
    out = []
    for i in range(_rng(E, t)):
        with E.bound(t.args[1], i):
            kv = t.args[2]
            if _bool(E.ev(kv.args[0])):
                out.append(E.ev(kv.args[1]))
    return mkvec(out)


@op("any")
def _(E, t):
    if len(t.args) == 3:
        for i in range(_rng(E, t)):
            with E.bound(t.args[1], i):
                if _bool(E.ev(t.args[2])):
                    return True
        return False
    return bool(np.any(_num(E.ev(t.args[0]))))


@op("all")
def _(E, t):
    return bool(np.all(_num(E.ev(t.args[0]))))


def mkvec(out):
    if not out:
        return np.zeros(0)
    if any(isinstance(x, (Tup, Fn, str)) or x is NOTHING for x in out):
        return Tup(out)
    sh = [np.shape(x) for x in out]
    if any(s != sh[0] for s in sh):
        return Tup(out)
    return np.array(out)


@op("vec")
def _(E, t):
    return mkvec([E.ev(a) for a in t.args])


@op("sumall", "prodall")
def _(E, t):
    v = np.asarray(_num(E.ev(t.args[0])))
    return _py(np.sum(v) if t.op == "sumall" else np.prod(v))


@op("sumaxis", "prodaxis")
def _(E, t):
    v = np.asarray(_num(E.ev(t.args[0])))
    ax = toint(E.ev(t.args[1]))
    try:
        return _py(np.sum(v, ax) if t.op == "sumaxis" else np.prod(v, ax))
    except Exception:
        raise EvalError("axis")


@op("amax", "amin")
def _(E, t):
    v = np.real(np.asarray(_num(E.ev(t.args[0]))))
    if v.size == 0:
        raise EvalError("empty reduction")
    if len(t.args) > 1:
        a = t.args[1]
        ax = toint(E.ev(a.args[0] if a.op == "axis" else a))
        return _py(v.max(ax) if t.op == "amax" else v.min(ax))
    return _py(v.max() if t.op == "amax" else v.min())


@op("lt0")
def _(E, t):
    v = np.real(_num(E.ev(t.args[0])))
    return E.seen(t, _py(v < 0))


@op("eq0")
def _(E, t):
    v = _num(E.ev(t.args[0]))
    x = t.args[0]
    while x.op in ("abs", "getitem", "real", "imag", "conj") or (x.op == "poly" and len(x.args) == 1 and len(x.args[0][0]) == 1):
        x = x.args[0] if x.op != "poly" else x.args[0][0][0][0]
    if x.op in ("sym", "bv"):
        return E.seen(t, _py(v == 0))
    return E.seen(t, _py(np.abs(v) < 1e-12))


@op("not")
def _(E, t):
    return _py(np.logical_not(_truth(E.ev(t.args[0]))))


def _truth(v):
    if v is NOTHING:
        return False
    if isinstance(v, Fn):
        return True
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    return v


def _bool(v):
    v = _truth(v)
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise EvalError("truth of array")
        v = v.reshape(-1)[0]
    return bool(v)


@op("and")
def _(E, t):
    r = None
    for a in t.args:
        v = _truth(E.ev(a))
        if isinstance(v, (bool, np.bool_)) and not v:
            return False
        r = v if r is None else _bin(np.logical_and, r, v)
    return r


@op("truth")
def _(E, t):
    v = _truth(E.ev(t.args[0]))
    if isinstance(v, np.ndarray) and v.size != 1:
        raise EvalError("truth of array")
    return bool(v)


@op("ite")
def _(E, t):
    c = E.ev(t.args[0])
    if isinstance(c, np.ndarray) and c.ndim:
        a, b = _num(E.ev(t.args[1])), _num(E.ev(t.args[2]))
        try:
            return np.where(c, a, b)
        except ValueError:
            raise EvalError("where")
    return E.ev(t.args[1]) if _bool(c) else E.ev(t.args[2])


@op("isnone")
def _(E, t):
    return E.ev(t.args[0]) is NOTHING


@op("eqs")
def _(E, t):
    a, b = E.ev(t.args[0]), E.ev(t.args[1])
    return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)


@op("slice")
def _(E, t):
    f = lambda x: None if x is T.NONE else toint(E.ev(x))
    return slice(*[f(x) for x in t.args])


def _index(E, i):
    if i.op == "vec":
        if i.args and all(T.isboolt(x) for x in i.args):
            return np.array([bool(E.ev(x)) for x in i.args])
        return tuple(_index(E, x) for x in i.args)
    v = E.ev(i)
    if isinstance(v, slice):
        return v
    if v is NOTHING:
        return None if i is T.NONE else Ellipsis
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            return v
        return np.array([toint(x) for x in v.ravel()]).reshape(v.shape)
    return toint(v)


@op("getitem")
def _(E, t):
    a = E.ev(t.args[0])
    if isinstance(a, Fn):
        return E.opaque(t)
    if t.args[0].op in ("app", "call", "sym", "mcall") and not isinstance(a, (np.ndarray, tuple)):
        return E.opaque(t)
    i = _index(E, t.args[1])
    if isinstance(a, tuple):
        if isinstance(i, (int, slice)):
            try:
                r = a[i]
                return Tup(r) if isinstance(i, slice) else r
            except IndexError:
                raise EvalError("index")
        if isinstance(i, tuple) and i and isinstance(i[0], int):
            try:
                return np.asarray(_num(a[i[0]]))[tuple(i[1:])] if len(i) > 1 else a[i[0]]
            except (IndexError, ValueError):
                raise EvalError("index")
        a = _num(a)
    try:
        a = np.asarray(_num(a))
        if isinstance(i, tuple) and len(i) > a.ndim == 1 and all(isinstance(x, int) for x in i):
            i = list(i)
        return _py(a[i]) if not isinstance(a[i], np.ndarray) or np.ndim(a[i]) == 0 else a[i]
    except (IndexError, TypeError, ValueError):
        raise EvalError("index")


@op("store")
def _(E, t):
    a = np.array(np.asarray(_num(E.ev(t.args[0]))))
    i = _index(E, t.args[1])
    v = _num(E.ev(t.args[2]))
    if a.dtype != object:
        a = a.astype(np.result_type(a.dtype, np.asarray(v).dtype))
    try:
        a[i] = v
    except (IndexError, ValueError, TypeError):
        raise EvalError("store")
    return a


def _dims(E, d):
    v = E.ev(d)
    if isinstance(v, (np.ndarray, tuple)):
        return tuple(toint(x) for x in v)
    return (toint(v),)


@op("zeros", "ones", "empty")
def _(E, t):
    d = _dims(E, t.args[0])
    if any(x < 0 for x in d):
        raise EvalError("negative dimension")
    return np.full(d, 0.0 if t.op == "zeros" else 1.0 if t.op == "ones" else math.nan)


@op("eye")
def _(E, t):
    return np.eye(toint(E.ev(t.args[0])), toint(E.ev(t.args[1])))


OPS["uninit"] = lambda E, t: math.nan


@op("arange")
def _(E, t):
    v = [np.real(_num(E.ev(a))) for a in t.args]
    n = int(math.ceil((v[1] - v[0]) / v[2] - 1e-9))
    return v[0] + v[2] * np.arange(max(0, n))


@op("rangelen")
def _(E, t):
    v = [np.real(_num(E.ev(a))) for a in t.args]
    return max(0, int(math.ceil((v[1] - v[0]) / v[2] - 1e-9)))


@op("slicelen")
def _(E, t):
    return len(range(*E.ev(t.args[1]).indices(toint(E.ev(t.args[0])))))


@op("linspace")
def _(E, t):
    v = [_num(E.ev(a)) for a in t.args]
    return np.linspace(v[0], v[1], toint(v[2]))


@op("len")
def _(E, t):
    v = E.ev(t.args[0])
    if isinstance(v, (np.ndarray, tuple)) and np.ndim(v) if isinstance(v, np.ndarray) else isinstance(v, tuple):
        return len(v)
    if isinstance(v, str):
        return len(v)
    if _oplen(t.args[0]):
        return int(abs(E.opaque(t)) * 997) % 5 + 1
    return _raise("len")


def _oplen(t):
    return t.op in ("app", "call", "sym", "mcall") or (t.op == "getitem" and _oplen(t.args[0]))


def _raise(m):
    raise EvalError(m)


OPS["size"] = lambda E, t: int(np.size(_num(E.ev(t.args[0]))))
OPS["ndim"] = lambda E, t: int(np.ndim(_num(E.ev(t.args[0]))))


@op("shape")
def _(E, t):
    return np.array(np.shape(_num(E.ev(t.args[0]))), dtype=int)


@op("dot")
def _(E, t):
    vs = [np.asarray(_num(E.ev(a))) for a in t.args]
    r = vs[0]
    for v in vs[1:]:
        try:
            r = np.dot(r, v)
        except ValueError:
            raise EvalError("dot")
    return _py(r)


@op("T")
def _(E, t):
    return np.transpose(np.asarray(_num(E.ev(t.args[0]))))


OPS["diag"] = lambda E, t: np.diag(np.asarray(_num(E.ev(t.args[0]))))
OPS["roots"] = lambda E, t: np.roots(np.asarray(_num(E.ev(t.args[0]))))
OPS["poly_coef"] = lambda E, t: np.poly(np.asarray(_num(E.ev(t.args[0]))))
OPS["polyval"] = lambda E, t: np.polyval(np.asarray(_num(E.ev(t.args[0]))), _num(E.ev(t.args[1])))
OPS["fft"] = lambda E, t: np.fft.fft(np.asarray(_num(E.ev(t.args[0]))))
OPS["fftshift"] = lambda E, t: np.fft.fftshift(np.asarray(_num(E.ev(t.args[0]))))
OPS["ravel"] = lambda E, t: np.ravel(np.asarray(_num(E.ev(t.args[0]))))
OPS["squeeze"] = lambda E, t: _py(np.squeeze(np.asarray(_num(E.ev(t.args[0])))))


@op("inv")
def _(E, t):
    try:
        return np.linalg.inv(np.asarray(_num(E.ev(t.args[0]))))
    except np.linalg.LinAlgError:
        raise EvalError("singular")


@op("toeplitz")
def _(E, t):
    v = np.asarray(_num(E.ev(t.args[0]))).ravel()
    n = len(v)
    return np.array([[v[i - j] if i >= j else np.conj(v[j - i]) for j in range(n)] for i in range(n)])


@op("sort")
def _(E, t):
    if len(t.args) > 1:
        raise Unsupported("sort")
    return np.sort(np.asarray(_num(E.ev(t.args[0]))))


@op("reshape")
def _(E, t):
    try:
        return np.reshape(np.asarray(_num(E.ev(t.args[0]))), _dims(E, t.args[1]))
    except ValueError:
        raise EvalError("reshape")


@op("concat", "hstack", "vstack")
def _(E, t):
    vs = []
    for a in t.args:
        v = E.ev(a)
        if isinstance(v, Tup):
            if t.op == "concat":
                vs = None
                break
        vs.append(np.asarray(_num(v)))
    if vs is None:
        out = []
        for a in t.args:
            out += list(E.ev(a))
        return mkvec(out)
    try:
        if t.op == "concat":
            return np.concatenate([np.atleast_1d(v) for v in vs])
        return np.hstack(vs) if t.op == "hstack" else np.vstack(vs)
    except ValueError:
        raise EvalError("concat")


@op("repeat")
def _(E, t):
    v = E.ev(t.args[0])
    n = toint(E.ev(t.args[1]))
    return mkvec(list(v) * max(0, n))


@op("lam")
def _(E, t):
    saved = {x: E.env[x] for x in T.free(t) if x.op == "bv" and x in E.env}

    def f(x):
        bs = [_Bind(E, k, v) for k, v in saved.items()]
        for b in bs:
            b.__enter__()
        try:
            with E.bound(t.args[1], x):
                return E.ev(t.args[2])
        finally:
            for b in reversed(bs):
                b.__exit__()
    return Fn(f)


@op("call")
def _(E, t):
    f = t.args[0]
    if f.op in ("sym", "lam", "ite", "bv"):
        v = E.ev(f)
        if isinstance(v, Fn) and not any(a.op in ("kw", "star") for a in t.args[1:]):
            r = v
            args = [E.ev(a) for a in t.args[1:]]
            if f.op == "lam":
                for a in args:
                    r = r(a)
                return r
            return r(*args)
    return E.opaque(t)


@op("kw")
def _(E, t):
    return E.ev(t.args[1])


@op("dict")
def _(E, t):
    return Tup([Tup([Str(repr(kv.args[0])), E.ev(kv.args[1])]) for kv in t.args if kv.op == "kv"])


OPS["absent"] = lambda E, t: Str("<absent>")
OPS["ext"] = lambda E, t: Str("<%s>" % t.args[0])
OPS["fn"] = lambda E, t: Str("<fn %s>" % t.args[0])
OPS["cls"] = lambda E, t: Str("<cls %s>" % t.args[0])
OPS["unbound"] = lambda E, t: NOTHING
OPS["u"] = lambda E, t: NOTHING

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


@op("app")
def _(E, t):
    path = t.args[0]
    a = t.args[1:]
    if path in ("scipy.integrate.quad", "scipy.integrate.quadrature", "scipy.integrate.fixed_quad", "scipy.integrate.romberg"):
        pos = [x for x in a if x.op != "kw"]
        extra = [x.args[0] for x in a if x.op == "kw"]
        if len(pos) != 3 or any(k in ("args", "weight", "wvar") for k in extra):
            return E.opaque(t)
        f = E.ev(pos[0])
        if not isinstance(f, Fn):
            raise Unsupported("quad")
        lo, hi = float(np.real(E.ev(pos[1]))), float(np.real(E.ev(pos[2])))
        if math.isinf(lo) or math.isinf(hi):
            return E.opaque(t)
        x, w = gl(24)
        s = 0
        for xi, wi in zip(x, w):
            v = _num(f(0.5 * (hi - lo) * xi + 0.5 * (hi + lo)))
            if np.ndim(v):
                v = np.ravel(v)[0] if np.size(v) == 1 else _raise("integrand")
            s += wi * v
        return Tup([s * 0.5 * (hi - lo), Str("quaderr")])
    if path in SIGNAL and not any(x.op == "kw" for x in a):
        # operators of scipy.signal / scipy.linalg with their standard meaning
        try:
            r = SIGNAL[path](*[_num(E.ev(x)) for x in a])
        except (ValueError, TypeError, np.linalg.LinAlgError):
            raise EvalError(path)
        return Tup(list(r)) if isinstance(r, tuple) else r
    if path in LINALG and len(a) == 1 and a[0].op != "kw":
        try:
            x = np.asarray(_num(E.ev(a[0])))
            if x.ndim == 2 and x.shape[0] == x.shape[1] and x.size and np.all(np.isfinite(x)):
                r = LINALG[path](x)
                return Tup(list(r)) if isinstance(r, tuple) else r
        except (np.linalg.LinAlgError, TypeError, ValueError):
            pass
    return E.opaque(t)


def _zpk2ss(z, p, k):
    import scipy.signal
    r = scipy.signal.zpk2ss(np.atleast_1d(z), np.atleast_1d(p), k)
    if not all(np.all(np.isfinite(x)) for x in r):
        raise ValueError
    return tuple(r)


def _orth(x):
    import scipy.linalg
    return scipy.linalg.orth(np.asarray(x))


SIGNAL = {"scipy.signal.zpk2ss": _zpk2ss, "scipy.linalg.orth": _orth}
# linear algebra evaluated by its definition (the decompositions are deterministic functions of their argument)

def _special(mod, name):
    def f(*a):
        import importlib
        m = importlib.import_module(mod)
        for n in name.split("."):
            m = getattr(m, n)
        return m(*a)
    return f


for _p in ("scipy.stats|norm.cdf", "scipy.stats|norm.pdf", "scipy.stats|norm.logcdf", "scipy.stats|norm.logpdf", "scipy.stats|norm.sf", "scipy.special|ndtr", "scipy.special|log_ndtr",
           "scipy.special|xlogy", "scipy.special|rel_entr", "scipy.special|kl_div", "scipy.special|entr", "scipy.special|erf", "scipy.special|erfc", "numpy|expm1", "numpy|log1p"):
    SIGNAL[_p.replace("|", ".")] = _special(*_p.split("|"))
LINALG = {"numpy.linalg.eigh": lambda x: tuple(np.linalg.eigh(x)), "numpy.linalg.inv": np.linalg.inv, "numpy.linalg.det": np.linalg.det,
          "numpy.linalg.eigvalsh": np.linalg.eigvalsh}


@op("loop")
def _(E, t):
    count, closed = t.args
    n, h, body = closed.args
    cond, stop, comps = body.args[0], body.args[1], body.args[2:]
    bvs = [T.mk("bv", h + 1 + i) for i in range(n)]
    k = len(comps)
    if n != k + 1:
        raise Unsupported("loop")
    if stop.op != "none":
        raise Unsupported("loop with break")
    saved = [_Bind(E, b, None) for b in ()]
    vals = [E.ev(c.args[0]) for c in comps]
    lim = MAXLOOP if count.op == "while" else toint(E.ev(count))
    old = {b: E.env.get(b) for b in bvs}
    memo = E.bmemo
    try:
        i = 0
        while True:
            if count.op != "while" and i >= lim:
                break
            if i >= MAXLOOP:
                raise Unsupported("loop too long")
            for b, v in zip(bvs, vals + [i]):
                E.env[b] = v
            E.bmemo = {}
            if cond.op != "none" and not _bool(E.ev(cond)):
                break
            vals = [E.ev(c.args[1]) for c in comps]
            i += 1
    finally:
        E.bmemo = memo
        for b, v in old.items():
            if v is None:
                E.env.pop(b, None)
            else:
                E.env[b] = v
    return vals[0]


OPS["inloop"] = lambda E, t: True


# ------------------------------------------------ raw memory of the compiled simulators (views of arrays as flat vectors)
def _flatarr(E, t):
    return np.array(np.asarray(_num(E.ev(t)), dtype=float))


def _vecat(a, off, n, inc):
    k = [off + inc * j for j in range(n)]
    if any(x < 0 or x >= a.size for x in k):
        raise EvalError("outside the array")
    return a.reshape(-1)[k]


@op("load")
def _(E, t):
    a = np.asarray(_num(E.ev(t.args[0])))
    k = toint(E.ev(t.args[1]))
    if not 0 <= k < a.size:
        raise EvalError("outside the array")
    return _py(a.reshape(-1)[k])


@op("pstore")
def _(E, t):
    a = _flatarr(E, t.args[0])
    k = toint(E.ev(t.args[1]))
    if not 0 <= k < a.size:
        raise EvalError("outside the array")
    a.reshape(-1)[k] = float(np.real(E.ev(t.args[2])))
    return a


def _bits(f):
    def g(E, t):
        a, b = [np.asarray(_num(E.ev(x))) for x in t.args]
        if any(np.any(np.real(x) != np.round(np.real(x))) for x in (a, b)):
            raise Unsupported(t.op)
        return _py(f(np.real(a).astype(np.int64), np.real(b).astype(np.int64)))
    return g


for _o, _f in (("&", np.bitwise_and), ("|", np.bitwise_or), ("^", np.bitwise_xor), ("<<", np.left_shift), (">>", np.right_shift)):
    OPS["bin" + _o] = _bits(_f)


@op("vcopy")
def _(E, t):
    n, x, xo, ix, y, yo, iy = t.args
    n, xo, ix, yo, iy = [toint(E.ev(v)) for v in (n, xo, ix, yo, iy)]
    v = _vecat(_flatarr(E, x), xo, n, ix)
    a = _flatarr(E, y)
    _vecat(a, yo, n, iy)
    a.reshape(-1)[[yo + iy * j for j in range(n)]] = v
    return a


@op("gemv", "gemvN")
def _(E, t):
    m, n, alpha, A, ao, lda, x, xo, ix, beta, y, yo, iy = t.args
    m, n, ao, lda, xo, ix, yo, iy = [toint(E.ev(v)) for v in (m, n, ao, lda, xo, ix, yo, iy)]
    alpha, beta = float(E.ev(alpha)), float(E.ev(beta))
    fa = _flatarr(E, A)
    xs = _vecat(_flatarr(E, x), xo, n, ix)
    out = _flatarr(E, y)
    ys = _vecat(out, yo, m, iy)
    if t.op == "gemv":
        M = np.array([[_vecat(fa, ao + lda * i + j, 1, 1)[0] for j in range(n)] for i in range(m)]).reshape(m, n)
    else:
        M = np.array([[_vecat(fa, ao + lda * j + i, 1, 1)[0] for j in range(n)] for i in range(m)]).reshape(m, n)
    r = alpha * M.dot(xs)
    if beta != 0:
        r = r + beta * ys
    out.reshape(-1)[[yo + iy * i for i in range(m)]] = r
    return out


@op("storevia")
def _(E, t):
    # the array t.args[0], a view of which now holds the last argument
    if T.pyval(t.args[1]) not in ("reshape", "ravel"):
        raise Unsupported("storevia " + str(t.args[1]))
    a = np.asarray(_num(E.ev(t.args[0])))
    try:
        return np.reshape(np.asarray(_num(E.ev(t.args[-1]))), a.shape)
    except ValueError:
        raise EvalError("view")


@op("inst")
def _(E, t):
    return Tup([E.ev(a.args[1]) for a in t.args if isinstance(a, Term) and a.op == "kv"])


# ---------------------------------------------------------------- comparison
def close(a, b, rtol, atol, floor=1e-300):
    if isinstance(a, Fn) and isinstance(b, Fn):
        return all(close(a(x), b(x), rtol, atol, floor) for x in (0.05, 0.137, 0.291, 0.418))
    if a is NOTHING or b is NOTHING:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if isinstance(a, Fn) or isinstance(b, Fn):
        return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        try:
            if len(a) != len(b):
                return False
        except TypeError:
            return False
        return all(close(x, y, rtol, atol, floor) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(close(x, y, rtol, atol, floor) for x, y in zip(a.ravel(), b.ravel()))
    if a.size == 0:
        return True
    fa, fb = a.astype(complex), b.astype(complex)
    ia, ib = ~np.isfinite(fa), ~np.isfinite(fb)
    if (ia != ib).any():
        return False
    if any(x != y and x == x or (x != x) != (y != y) for x, y in zip(fa[ia].ravel().tolist(), fb[ib].ravel().tolist())):
        return False
    if ia.all():
        return True
    scale = max(float(np.max(np.abs(fa[~ia]))), floor)
    return bool(np.all(np.abs(fa[~ia] - fb[~ib]) <= rtol * np.abs(fa[~ia]) + (atol + rtol * 1e-3) * scale))


class Verdict(object):
    def __init__(self, kind, how, points=0, witness=None):
        self.kind, self.how, self.points, self.witness = kind, how, points, witness

    def __bool__(self):
        return self.kind == EQUAL

    def __repr__(self):
        return "%s (%s%s)" % (self.kind, self.how, "; " + str(self.witness) if self.witness else "")


def heads_of(t):
    """Names of the uninterpreted operators of t."""
    out = set()
    for x in T.walk(t):
        if x.op in OPS and x.op not in ("app", "call"):
            continue
        if x.op == "app":
            if not x.args[0].startswith("scipy.integrate.quad"):
                out.add("app:" + x.args[0])
        elif x.op == "call":
            if x.args[0].op == "fn":
                out.add("call:" + x.args[0].args[0])
        elif x.op in ("mcall",):
            out.add("mcall:" + str(x.args[1]))
        elif x.op == "attr":
            out.add("attr:" + str(x.args[1]))
        elif x.op not in ("sym", "bv", "closed", "st", "loopbody", "none", "while", "kv", "kw", "axis", "rest"):
            out.add("op:" + x.op)
    return out


def compare(spec, impl, pc=(), domain=None, n=14, seed=1, rtol=1e-7, atol=1e-10, shapes=None, realops=(), ignore_heads=(), env=None, floor=1e-300):
    """Verdict on impl == spec for every value of their symbols satisfying pc."""
    if spec is impl:
        return Verdict(EQUAL, "identical normal forms")
    hs, hi = heads_of(spec), heads_of(impl)
    extra = hi - hs - set(ignore_heads)
    if extra:
        return Verdict(UNKNOWN, "operators outside the model: " + ", ".join(sorted(extra)))
    cov = {}
    st = {"pts": 0, "errs": 0}

    def point(E, rt=0):
        """None: not admissible; True: agree; Verdict otherwise."""
        E.cov = cov
        try:
            with np.errstate(all="ignore"):
                ok = all(_bool(E.ev(c)) for c in pc)
        except EvalError:
            return None
        except Unsupported:
            ok = True
        if not ok:
            return None
        a = b = None
        ea = eb = None
        try:
            with np.errstate(all="ignore"):
                a = E.ev(spec)
        except EvalError as e:
            ea = e
        except Unsupported as e:
            return Verdict(UNKNOWN, "spec: " + str(e))
        try:
            with np.errstate(all="ignore"):
                b = E.ev(impl)
        except EvalError as e:
            eb = e
        except Unsupported as e:
            return Verdict(UNKNOWN, "impl: " + str(e))
        if ea is not None:
            st["errs"] += 1
            return None
        st["pts"] += 1
        if eb is not None:
            return Verdict(DIFFERENT, "random interpretation", st["pts"], "code fails (%s) at %s" % (eb, _envs(E)))
        if not close(a, b, max(rtol, rt), atol, floor):
            return Verdict(DIFFERENT, "random interpretation", st["pts"], "expected %s, code gives %s at %s" % (_s(a), _s(b), _envs(E)))
        return True

    tries = 0
    while st["pts"] < n and tries < 60 * n and st["errs"] <= 20 * n:
        tries += 1
        v = point(Ev(np.random.default_rng(seed * 1000003 + tries), dict(env) if env else {}, domain, shapes, realops))
        if isinstance(v, Verdict):
            return v
    if st["pts"] == 0:
        return Verdict(UNKNOWN, "no admissible point found")
    # directed points: every comparison that always came out the same way is steered to its other outcome
    one = [c for c in cov if len(cov[c]) == 1]
    # and comparisons that only one of the two graphs makes are visited on both sides of their threshold
    ca, cb = ({x for x in T.walk(t) if x.op in ("lt0", "eq0")} for t in (spec, impl))
    forced = ca ^ cb
    one = [c for c in cov if c in forced] + [c for c in one if c not in forced]
    one.sort(key=lambda c: (c not in forced, T.show(c)[:200]))
    left = 0
    for c in one[:24]:
        if len(cov[c]) > 1 and c not in forced:
            continue
        v = _steer(c, {} if c in forced else cov, point, lambda k: Ev(np.random.default_rng(seed * 7000003 + k), dict(env) if env else {}, domain, shapes, realops), pc)
        if isinstance(v, Verdict):
            return v
        left += len(cov[c]) == 1
    return Verdict(EQUAL, "random interpretation" + ("; %d comparisons seen one way only" % left if left else ""), st["pts"])


def _admissible(E, s, v):
    i = T.INFO.get(s.args[0], {})
    x = np.asarray(v)
    if not np.all(np.isfinite(x.astype(complex))):
        return False
    d = E.domain.get(s, E.domain.get(s.args[0]))
    if d is not None:
        if not callable(d):
            return False
        try:
            r = []
            for k in range(48):
                F = Ev(np.random.default_rng(k), {q: w for q, w in E.env.items() if q is not s and np.isscalar(w)}, E.domain)
                r.append(np.real(np.asarray(d(F), dtype=complex)).ravel())
            r = np.concatenate(r)
        except Exception:
            return False
        if not r.size or np.min(np.real(x)) < r.min() or np.max(np.real(x)) > r.max():
            return False
    for key, f in (("lo", lambda b: np.real(x) >= b), ("hi", lambda b: np.real(x) <= b)):
        b = i.get(key)
        if b is not None and not np.all(f(float(b))):
            return False
        if b is not None and i.get(key + "_open") and np.any(np.real(x) == float(b)):
            return False
    return True


def _steer(c, cov, point, mkE, pc):
    """Points at which comparison c takes its other truth value (secant on the scale of one symbol)."""
    inner = c.args[0]
    syms = [s for s in T.walk(inner) if s.op == "sym"]
    closed = not any(x.op == "bv" for x in T.free(inner))
    tried = 0
    for k in range(6):
        E0 = mkE(k)
        base = {}
        try:
            with np.errstate(all="ignore"):
                for s in syms:
                    base[s] = E0.ev(s)
                if closed:
                    E0.ev(inner)
        except (Unsupported, EvalError, ValueError, TypeError, KeyError, IndexError):
            pass
        for s in syms:
            v0 = base.get(s)
            i = T.INFO.get(s.args[0], {})
            if v0 is None or isinstance(v0, (bool, str, Fn, tuple, Nothing)) or i.get("kind") in ("bool", "str", "callable") or (i.get("dtype") == "int" and np.ndim(v0)):
                continue
            isint = i.get("kind") == "int"
            add = np.ndim(v0) == 0 and (isint or v0 == 0)

            def val(q):
                v = v0 + q if add else v0 * q
                if isint:
                    v = int(round(float(np.real(v))))
                return v

            def g(q):
                F = mkE(k)
                F.env.update({a: b for a, b in E0.env.items() if a.op == "sym"})
                F.env[s] = val(q)
                with np.errstate(all="ignore"):
                    r = np.real(np.asarray(F.ev(inner), dtype=complex)).ravel()
                return float(r[0])
            qs = []
            if closed:
                try:
                    q0, q1 = (0., 1.) if add else (1., 1.25)
                    g0, g1 = g(q0), g(q1)
                    for _ in range(8):
                        if g1 == g0:
                            break
                        q2 = q1 - g1 * (q1 - q0) / (g1 - g0)
                        if not np.isfinite(q2) or abs(q2) > 1e15:
                            break
                        q0, g0, q1 = q1, g1, q2
                        g1 = g(q1)
                        if abs(g1) < 1e-13:
                            break
                    e = 1. if isint else 1e-7 * max(abs(q1), 1e-3)
                    qs = [q1, q1 - e, q1 + e, q1 - 1e3 * e, q1 + 1e3 * e] if np.isfinite(q1) else []
                except (Unsupported, EvalError, ValueError, TypeError, KeyError, IndexError, OverflowError, ZeroDivisionError):
                    qs = []
            if not add:
                qs += [10. ** -3, 10. ** -6, 10. ** -10, 10. ** -14, 1e4, 1e8] + ([-1.] if i.get("lo") is None else [])
            for q in qs:
                try:
                    v = val(q)
                    if not _admissible(E0, s, v):
                        continue
                except (ValueError, OverflowError, TypeError):
                    continue
                F = mkE(k)
                # symbols that size other symbols keep their values; the rest is drawn afresh
                F.env.update({a: b for a, b in E0.env.items() if a.op == "sym" and a is not s and s not in _deps(a)})
                F.env[s] = v
                tried += 1
                try:
                    r = point(F, 1e-4)
                except (ValueError, OverflowError):
                    continue
                if isinstance(r, Verdict) and r.kind == DIFFERENT:
                    return r
                if len(cov.get(c, ())) > 1:
                    return None
            if tried > 40:
                return None
    return None


def _deps(a):
    sh = T.INFO.get(a.args[0], {}).get("shape")
    out = set()
    for x in sh or ():
        out |= {y for y in T.walk(x) if y.op == "sym"}
    return out


def _s(v):
    s = repr(v).replace("\n", " ")
    return s if len(s) < 160 else s[:157] + "..."


def _envs(E):
    return "{" + ", ".join("%s=%s" % (k.args[0], _s(v)) for k, v in sorted(E.env.items(), key=lambda kv: str(kv[0])) if k.op == "sym") + "}"
