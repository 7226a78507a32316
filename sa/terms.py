"""Hash-consed term graph with an eager algebraic normal form.

Scalars and array contents are both represented by terms; arithmetic on arrays is
elementwise, so the commutative normal form is valid for both.  Nothing here runs any
repository code: terms are built by the abstract interpreter (interp.py).
"""
from fractions import Fraction as Fr
import math


class Term:
    __slots__ = ("op", "args", "uid", "_free")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


_TAB = {}


def mk(op, *args):
    k = (op, args)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = len(_TAB)
        t._free = None
        _TAB[k] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is Ellipsis:
        return mk("c", "e", "...")
    if isinstance(v, int):
        return mk("c", "i", Fr(v))
    if isinstance(v, Fr):
        return mk("c", "f" if v.denominator != 1 else "i", v)
    if isinstance(v, float):
        if math.isinf(v):
            return INF if v > 0 else neg(INF)
        if math.isnan(v):
            return NAN
        return mk("c", "f", Fr(repr(v)))
    if isinstance(v, complex):
        return add(const(v.real), mul(const(v.imag), IMAG))
    if isinstance(v, str):
        return mk("c", "s", v)
    if isinstance(v, bytes):
        return mk("c", "y", v)
    raise TypeError(v)


NONE = mk("c", "N", None)
TRUE = mk("c", "b", "True")
FALSE = mk("c", "b", "False")
INF = mk("inf")
NAN = mk("nan")
IMAG = mk("I")
PI = mk("pi")
EPS = mk("eps")


def is_const(t):
    return t.op == "c"


def pyval(t):
    """Python value of a constant term, or raises KeyError."""
    if t.op == "c":
        tag, v = t.args
        if tag == "i":
            return int(v)
        if tag == "f":
            return v
        if tag == "s" or tag == "y":
            return v
        if tag == "N":
            return None
        if tag == "b":
            return v == "True"
        if tag == "e":
            return Ellipsis
    raise KeyError(t)


def is_num(t):
    return t.op == "c" and t.args[0] in "if"


def num(t):
    if is_num(t):
        return t.args[1]
    if t is TRUE:
        return Fr(1)
    if t is FALSE:
        return Fr(0)
    return None


def is_str(t):
    return t.op == "c" and t.args[0] == "s"


ZERO = const(0)
ONE = const(1)

# ---------------------------------------------------------------- symbols
INFO = {}


def sym(name, **info):
    t = mk("sym", name)
    if info or name not in INFO:
        d = dict(kind="any")
        d.update(info)
        if STRICT is not None and name in STRICT and STRICT[name] != d:
            raise ValueError("symbol %s is used with different attributes: %s %s" % (name, STRICT[name], d))
        if STRICT is not None:
            STRICT[name] = d
        INFO[name] = d
    return t


STRICT = None


def info(t):
    if t.op == "sym":
        return INFO.get(t.args[0], {})
    return {}


REALF = {"cos", "sin", "abs", "real", "imag", "floor", "mod", "len", "size", "ndim", "shape", "log10", "log",
         "sqrt", "angle", "sum_real", "pi", "eps", "max", "min", "norm", "ceil", "arange", "arctan2", "int",
         "hasconst"}


def is_real(t):
    """Known to be real-valued (used by conj/real/imag/abs)."""
    if t.op == "c":
        return t.args[0] in "ifb"
    if t.op == "poly":
        return all(is_real(a) for m, c in t.args for a, e in m)
    if t.op == "sym":
        return INFO.get(t.args[0], {}).get("kind") in ("int", "float", "real", "realarray", "bool")
    if t.op in ("inf", "pi", "eps", "lt0", "eq0", "not", "and", "eq"):
        return True
    if t.op == "I":
        return False
    if t.op in ("exp", "log", "log10"):
        return is_real(t.args[0])
    if t.op in ("floor", "ceil", "mod", "len", "size", "ndim", "shape", "abs", "real", "imag", "angle", "bv", "arange", "norm"):
        return True
    if t.op in ("cos", "sin", "ite", "getitem", "sum", "mean", "vec", "map", "prod"):
        return all(is_real(a) for a in t.args if isinstance(a, Term) and a.op not in ("lt0", "eq0", "slice", "c", "range"))
    return False


# ---------------------------------------------------------------- polynomials
# poly term: args = tuple of (monomial, coeff) ; monomial = tuple of (atom, exponent) sorted by uid
MAXTERMS = 400


def _todict(t):
    if t.op == "poly":
        return {m: c for m, c in t.args}
    n = num(t)
    if n is not None:
        return {(): n} if n != 0 else {}
    return {((t, Fr(1)),): Fr(1)}


def _isfloat(t):
    return t.op == "c" and t.args[0] == "f"


def _fromdict(d, fl=False):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return mk("c", "f", Fr(0)) if fl else ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("c", "f" if (fl or c.denominator != 1) else "i", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", *sorted(d.items(), key=lambda mc: (len(mc[0]), tuple((a.uid, e) for a, e in mc[0]))))


def _special(t):
    return t.op in ("inf", "nan")


def add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if _special(a):
        return a
    if _special(b):
        return b
    da = _todict(a)
    db = _todict(b)
    if len(da) < len(db):
        da, db = db, da
    d = dict(da)
    for m, c in db.items():
        d[m] = d.get(m, 0) + c
    return _fromdict(d, _isfloat(a) or _isfloat(b))


def neg(a):
    if a is NAN:
        return a
    return _fromdict({m: -c for m, c in _todict(a).items()}, _isfloat(a))


def sub(a, b):
    if b is INF and a is not INF:
        return neg(INF)
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """Returns (coeff, monomial, extra-exp-term or None)."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    c = Fr(1)
    ex = None
    nexp = sum(1 for a in d if a.op == "exp")
    if nexp:
        for a in [a for a in d if a.op == "exp"]:
            e = d[a]
            if nexp > 1 or e != 1:
                del d[a]
                x = mul(const(e), a.args[0])
                ex = x if ex is None else add(ex, x)
    if IMAG in d:
        e = d.pop(IMAG)
        if e.denominator == 1:
            k = int(e) % 4
            if k >= 2:
                c = -c
            if k % 2:
                d[IMAG] = Fr(1)
        else:
            d[IMAG] = e
    m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].uid))
    return c, m, ex


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == "c" and num(a) is not None and num(a) == 1:
        return b
    if b.op == "c" and num(b) is not None and num(b) == 1:
        return a
    da = _todict(a)
    db = _todict(b)
    if len(da) * len(db) > MAXTERMS:
        return mk("poly", ((tuple(sorted([(_atomize(a), Fr(1)), (_atomize(b), Fr(1))], key=lambda x: x[0].uid))), Fr(1)))
    # a*(1/a) cancellation when one factor is an inverse polynomial atom
    d = {}
    rest = None
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            c, m, ex = _mono_mul(m1, m2)
            c = c * c1 * c2
            if ex is not None:
                x = _mulatom(_fromdict({m: c}), fexp(ex))
                rest = x if rest is None else add(rest, x)
                continue
            red = _reduce_mono(m)
            if red is not None:
                x = mul(const(c), red)
                rest = x if rest is None else add(rest, x)
                continue
            d[m] = d.get(m, 0) + c
    r = _fromdict(d, _isfloat(a) or _isfloat(b))
    if rest is not None:
        r = add(r, rest)
    return r


def _reduce_mono(m):
    """A monomial may contain a polynomial atom with an exponent that became a nonnegative integer: expand."""
    for i, (a, e) in enumerate(m):
        if a.op == "poly" and e.denominator == 1 and e > 0 and e <= 8:
            rest = _fromdict({m[:i] + m[i + 1:]: Fr(1)})
            r = rest
            for _ in range(int(e)):
                r = mul(r, a)
            return r
    return None


def _mulatom(t, a):
    if a.op == "c" or a.op == "poly":
        return mul(t, a)
    d = {}
    for m, c in _todict(t).items():
        dd = dict(m)
        dd[a] = dd.get(a, 0) + 1
        d[tuple(sorted(dd.items(), key=lambda ae: ae[0].uid))] = c
    return _fromdict(d)


def _atomize(t):
    return t


def _lead(p):
    """Leading coefficient of a poly term (deterministic)."""
    return p.args[-1][1]


def power(a, e):
    """a ** e"""
    n = num(e)
    if n is None:
        na = num(a)
        if na is not None and na == 1:
            return ONE
        return mk("pow", a, e)
    if n == 0:
        return ONE
    if n == 1:
        return a
    na = num(a)
    if na is not None:
        if n.denominator == 1 and abs(n) <= 64 and not (na == 0 and n < 0):
            return mk("c", "f" if (e.args[0] == "f" or a.args[0] == "f" or n < 0) else "i", na ** int(n))
        if n == Fr(1, 2) and na >= 0:
            p, q = math.isqrt(na.numerator), math.isqrt(na.denominator)
            if p * p == na.numerator and q * q == na.denominator:
                return mk("c", "f", Fr(p, q))
        return _fromdict({((a, n),): Fr(1)})
    if a.op == "vec":
        return mk("vec", *[power(x, e) for x in a.args])
    if a.op == "poly":
        if n.denominator == 1:
            if len(a.args) == 1:
                (m, c), = a.args
                d = tuple((x, y * n) for x, y in m)
                c2, m2, ex = _mono_mul(d, ())
                r = _fromdict({m2: c2 * c ** int(n)})
                if ex is not None:
                    r = _mulatom(r, fexp(ex))
                red = _reduce_mono(m2)
                return r if red is None else mul(const(c2 * c ** int(n)), red)
            if n > 0 and n <= 8 and len(a.args) ** int(n) <= MAXTERMS * 4:
                r = a
                for _ in range(int(n) - 1):
                    r = mul(r, a)
                return r
        # normalise the scale of the base
        c = _lead(a)
        if c != 1 and (c > 0 or n.denominator == 1):
            base = _fromdict({m: k / c for m, k in a.args})
            if n.denominator == 1:
                return mul(const(c ** int(n)), power(base, e))
            return mul(power(const(c), e), power(base, e))
        return _fromdict({((a, n),): Fr(1)})
    if a.op == "exp" and n.denominator == 1:
        return fexp(mul(e, a.args[0]))
    if a is IMAG and n.denominator == 1:
        r = ONE
        k = int(n) % 4
        return [ONE, IMAG, const(-1), neg(IMAG)][k]
    if a.op == "abs" and n == 2 and is_real(a.args[0]):
        return power(a.args[0], e)
    return _fromdict({((a, n),): Fr(1)})


def div(a, b):
    nb = num(b)
    if nb is not None and nb != 0:
        na = num(a)
        if na is not None:
            return mk("c", "f", na / nb)
        return mul(a, const(Fr(1) / nb))
    if nb is not None:
        return mk("div0", a)
    if b is INF:
        return ZERO
    return mul(a, power(b, const(-1)))


def isint(t):
    if t.op == "c":
        return t.args[0] in "ib" or (t.args[0] == "f" and t.args[1].denominator == 1 and False)
    if t.op == "sym":
        return INFO.get(t.args[0], {}).get("kind") in ("int", "bool")
    if t.op in ("len", "size", "ndim", "shape", "floor", "ceil", "int", "bv"):
        return True
    if t.op == "mod":
        return isint(t.args[0]) and isint(t.args[1])
    if t.op == "poly":
        # (n - mod(n,b))/b is an integer
        if all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m) for m, c in t.args):
            return True
        return _is_floordiv(t)
    if t.op == "ite":
        return isint(t.args[1]) and isint(t.args[2])
    if t.op in ("max", "min"):
        return all(isint(x) for x in t.args)
    return False


def _is_floordiv(t):
    """t == integer combination + sum of (a - mod(a,b))/b pieces."""
    d = {m: c for m, c in t.args}
    for m, c in list(d.items()):
        if c.denominator != 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod":
            a, b = m[0][0].args
            nb = num(b)
            if nb and isint(a) and (c * nb).denominator == 1:
                k = -c * nb      # k*(a-mod)/b
                x = sub(t, mul(const(k / nb), sub(a, m[0][0])))
                return x.op != "poly" and isint(x) or (x.op == "poly" and (isint(x)))
    return False


def floordiv(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb:
        return const(int(na // nb)) if (a.args[0] == "i" and b.args[0] == "i") else const(Fr(na // nb))
    if isint(a) and isint(b) and nb is not None and nb > 0:
        return div(sub(a, mod(a, b)), b)
    return mk("floor", div(a, b))


def mod(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb:
        r = na % nb
        return mk("c", "i" if (a.args[0] != "f" and b.args[0] != "f") else "f", r)
    if nb is not None and isint(a) and a.op == "poly":
        # drop multiples of b
        d = {m: c for m, c in a.args}
        if all(c.denominator == 1 for c in d.values()):
            d2 = {m: c % nb for m, c in d.items()}
            a2 = _fromdict(d2)
            if a2 is not a:
                return mod(a2, b)
    if a.op == "mod" and a.args[1] is b:
        return a
    return mk("mod", a, b)


# ---------------------------------------------------------------- elementary functions
def fexp(t):
    n = num(t)
    if n is not None and n == 0:
        return ONE
    if t.op == "vec":
        return mk("vec", *[fexp(x) for x in t.args])
    # exp(I*pi*k/2)
    if t.op == "poly" and len(t.args) == 1:
        m, c = t.args[0]
        if dict(m) == {IMAG: 1, PI: 1}:
            k = c * 2
            if k.denominator == 1:
                return [ONE, IMAG, const(-1), neg(IMAG)][int(k) % 4]
    return mk("exp", t)


def _signnorm(t):
    """(sign, |t|) with deterministic sign choice."""
    n = num(t)
    if n is not None:
        return (-1, const(-n)) if n < 0 else (1, t)
    if t.op == "poly" and _lead(t) < 0:
        return -1, neg(t)
    return 1, t


def fcos(t):
    if t.op == "vec":
        return mk("vec", *[fcos(x) for x in t.args])
    if num(t) is not None and num(t) == 0:
        return ONE
    s, t = _signnorm(t)
    return mk("cos", t)


def fsin(t):
    if t.op == "vec":
        return mk("vec", *[fsin(x) for x in t.args])
    if num(t) is not None and num(t) == 0:
        return ZERO
    s, t = _signnorm(t)
    r = mk("sin", t)
    return neg(r) if s < 0 else r


def fabs(t):
    n = num(t)
    if n is not None:
        return mk("c", t.args[0] if t.args[0] in "if" else "i", abs(n))
    if t.op == "vec":
        return mk("vec", *[fabs(x) for x in t.args])
    if t.op == "abs":
        return t
    if t.op in ("pi", "eps", "inf", "len", "size", "shape", "ndim"):
        return t
    if t.op == "poly" and len(t.args) == 1:
        m, c = t.args[0]
        out = const(abs(c))
        rest = []
        for a, e in m:
            if a is IMAG:
                continue
            if e.denominator == 1:
                if e % 2 == 0 and is_real(a):
                    out = mul(out, power(a, const(e)))
                    continue
                x = fabs(a) if a.op != "poly" else mk("abs", a)
                out = mul(out, power(x, const(e)))
            else:
                rest.append((a, e))
        if rest:
            out = mul(out, mk("abs", _fromdict({tuple(rest): Fr(1)})))
        return out
    if t.op == "exp":
        re = freal(t.args[0])
        if is_real(re):
            return fexp(re)
    if t.op == "poly":
        s, t2 = _signnorm(t)
        return mk("abs", t2)
    return mk("abs", t)


def fconj(t):
    if is_real(t):
        return t
    if t is IMAG:
        return neg(IMAG)
    if t.op == "poly":
        r = ZERO
        for m, c in t.args:
            x = const(c)
            for a, e in m:
                x = mul(x, power(fconj(a), const(e)))
            r = add(r, x)
        return r
    if t.op in ("exp", "cos", "sin"):
        return {"exp": fexp, "cos": fcos, "sin": fsin}[t.op](fconj(t.args[0]))
    if t.op == "conj":
        return t.args[0]
    if t.op == "vec":
        return mk("vec", *[fconj(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], fconj(t.args[1]), fconj(t.args[2]))
    if t.op in ("sum", "getitem", "mean") and t.args:
        return mk(t.op, fconj(t.args[0]), *t.args[1:])
    return mk("conj", t)


def freal(t):
    if is_real(t):
        return t
    if t is IMAG:
        return ZERO
    if t.op == "poly":
        # split monomials having known real parts
        re = ZERO
        other = ZERO
        for m, c in t.args:
            mt = _fromdict({m: c})
            nonreal = [(a, e) for a, e in m if not is_real(a)]
            if not nonreal:
                re = add(re, mt)
            elif len(nonreal) == 1 and nonreal[0][0] is IMAG:
                pass
            else:
                rl = [(a, e) for a, e in m if is_real(a)]
                z = _fromdict({tuple(nonreal): Fr(1)})
                if len(nonreal) == 1 and nonreal[0][1] == 1 and nonreal[0][0].op == "exp" and is_imag(nonreal[0][0].args[0]):
                    z = fcos(mul(nonreal[0][0].args[0], neg(IMAG)))
                else:
                    z = mk("real", z)
                re = add(re, mul(_fromdict({tuple(rl): c}), z))
        return re
    if t.op == "exp" and is_imag(t.args[0]):
        return fcos(mul(t.args[0], neg(IMAG)))
    if t.op == "vec":
        return mk("vec", *[freal(x) for x in t.args])
    if t.op == "ite":
        return ite(t.args[0], freal(t.args[1]), freal(t.args[2]))
    return mk("real", t)


def is_imag(t):
    return is_real(mul(t, IMAG))


def fimag(t):
    if t.op == "vec" and not t.args:
        return t
    if is_real(t):
        return ZERO
    return freal(mul(t, neg(IMAG)))


def flog(op, t):
    n = num(t)
    if n is not None and n == 1:
        return ZERO
    if n is not None and op == "log10" and n > 0:
        k = 0
        x = n
        while x > 1 and x % 10 == 0:
            x /= 10
            k += 1
        while x < 1 and k > -400:
            x *= 10
            k -= 1
        if x == 1:
            return const(k)
    if t.op == "vec":
        return mk("vec", *[flog(op, x) for x in t.args])
    return mk(op, t)


# ---------------------------------------------------------------- booleans
def lt0(p):
    """p < 0"""
    n = num(p)
    if n is not None:
        return TRUE if n < 0 else FALSE
    if p is INF:
        return FALSE
    if p.op == "poly":
        if any(a is INF for m, c in p.args for a, e in m):
            c = [c for m, c in p.args if any(a is INF for a, e in m)]
            return TRUE if c[0] < 0 else FALSE
        c = abs(_lead(p))
        if c != 1:
            p = _fromdict({m: k / c for m, k in p.args})
    if p.op == "ite":
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    return mk("lt0", p)


def eq0(p):
    n = num(p)
    if n is not None:
        return TRUE if n == 0 else FALSE
    if p is INF or p is NAN:
        return FALSE
    if p.op == "poly":
        if any(a is INF for m, c in p.args for a, e in m):
            return FALSE
        c = _lead(p)
        if c != 1:
            p = _fromdict({m: k / c for m, k in p.args})
    return mk("eq0", p)


def lnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    return mk("not", t)


def land(*ts):
    s = set()
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            s.update(t.args)
        else:
            s.add(t)
    for t in s:
        if lnot(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return mk("and", *sorted(s))


def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts]))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if isboolt(a) and isboolt(b):
        return lor(land(c, a), land(lnot(c), b))
    return mk("ite", c, a, b)


def isboolt(t):
    return t is TRUE or t is FALSE or t.op in ("lt0", "eq0", "not", "and", "eq", "isnone", "istype", "callable", "truth", "exc", "haskey", "any", "all", "isscalar", "in", "iscomplexobj", "eqs", "is", "isinst", "hasattr", "inloop", "loopexit", "maybeunbound", "brk", "isinf", "isnan", "loopran", "tuplecmp")


# ---------------------------------------------------------------- substitution / traversal
def subst(t, mp, memo=None):
    """Rebuild t replacing terms by mp, renormalising on the way."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = mp.get(t)
    if r is None:
        if t.op in ("c", "sym", "I", "pi", "eps", "inf", "nan"):
            r = t
        elif t.op == "poly":
            r = ZERO
            for m, c in t.args:
                x = const(c)
                for a, e in m:
                    x = mul(x, power(subst(a, mp, memo), const(e)))
                r = add(r, x)
        else:
            r = rebuild(t.op, [subst(a, mp, memo) if isinstance(a, Term) else a for a in t.args])
    memo[t] = r
    return r


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


REBUILD.update({
    "exp": fexp, "cos": fcos, "sin": fsin, "abs": fabs, "conj": fconj, "real": freal,
    "log10": lambda t: flog("log10", t), "log": lambda t: flog("log", t), "pow": power,
    "lt0": lt0, "eq0": eq0, "not": lnot, "and": land, "ite": ite, "mod": mod,
})


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "poly":
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    st.append(a)


def free(t):
    """Frozenset of symbol/bound-variable terms in t."""
    if t._free is None:
        if t.op in ("sym", "bv"):
            t._free = frozenset([t])
        else:
            s = set()
            if t.op == "poly":
                for m, c in t.args:
                    for a, e in m:
                        s |= free(a)
            else:
                for a in t.args:
                    if isinstance(a, Term):
                        s |= free(a)
            t._free = frozenset(s)
    return t._free


def show(t, depth=0):
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, Term) else repr(x)
    if t.op == "c":
        tag, v = t.args
        if tag == "f":
            try:
                return str(float(v))
            except OverflowError:
                return "%d/%d" % (v.numerator, v.denominator) if len(str(v.numerator)) < 40 else "%s...e%d" % (str(v.numerator)[:6], len(str(v.numerator)) - len(str(v.denominator)))
        return repr(v) if tag == "s" else str(v)
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "poly":
        out = []
        for m, c in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator == 1 else s(mk("c", "f", c)))
            for a, e in m:
                x = s(a)
                if a.op == "poly":
                    x = "(%s)" % x
                fs.append(x if e == 1 else "%s**%s" % (x, e))
            out.append("*".join(fs))
        return " + ".join(out)
    if t.op == "lt0":
        return "(%s < 0)" % s(t.args[0])
    if t.op == "eq0":
        return "(%s == 0)" % s(t.args[0])
    if not t.args:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(s(a) for a in t.args))


def symbols(t, seen=None):
    """Names of the symbols of a term, bound or free."""
    out = set()
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            out.add(x.args[0])
        elif x.op == "poly":
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        else:
            st += [a for a in x.args if isinstance(a, Term)]
    return out
