"""Abstract problems of the external modelling packages: what options a solver run receives."""
from . import terms as T
from .terms import sym, const, mk, Term, TRUE, FALSE, land, lor, lnot, ite
from .interp import HObj, Ref, VObj, VMeth, VExt, Maybe, VTuple
NONE = const(None)
TDR_DEFAULTS = ("maxiters", "abstol", "reltol", "feastol")


def items(it, kw):
    """{name: (condition, term)} of keyword arguments, an opaque ** under the key '**'."""
    out = {}
    for k, v in kw.items():
        c = TRUE
        if isinstance(v, Maybe):
            c, v = v
        out[k] = (c, it.kwterm(v))
    return out


class Bound(VObj):
    __slots__ = ("f", "name")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def term(self, it):
        return mk("engine", self.name)

    def call(self, it, args, kw, node):
        return self.f(it, args, kw, node)


class Opts(VObj):
    """picos' Options object: attributes and items are the same entries."""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def term(self, it):
        return mk("engine", "options")

    def getattr(self, it, name, node):
        if name == "update":
            return Bound("update", lambda it, a, k, n: [it.dict_set(self.ref, const(x), v[1] if isinstance(v, Maybe) else v, n, quiet=True) for x, v in k.items()] and NONE or NONE)
        return it.dict_get(self.ref, const(name), mk("default", name), node)

    def getitem(self, it, k, node):
        return it.dict_get(self.ref, k, mk("default", it.term(k)), node)

    def setattr(self, it, name, v, node):
        it.dict_set(self.ref, const(name), v, node, quiet=True)

    def setitem(self, it, k, v, node):
        it.dict_set(self.ref, k, v, node, quiet=True)


class Problem(VObj):
    __slots__ = ("kind", "args", "kw", "ref", "rec", "vid", "terms")

    def __init__(self, it, kind, args, kw, rec):
        self.kind, self.args, self.kw, self.rec = kind, args, kw, rec
        self.vid = it.newsym("problem")
        self.terms = tuple(it.argterm(a) for a in args)
        d = {}
        if kind == "tdr":
            d = {k: (TRUE, mk("default", k)) for k in TDR_DEFAULTS}
        self.ref = it.alloc(HObj("dict", (d, None)))

    def term(self, it):
        return self.vid

    def getattr(self, it, name, node):
        if name in ("solve", "__call__"):
            return Bound("solve", self.solve)
        if name == "options":
            return self.ref if self.kind == "tdr" else Opts(self.ref) if self.kind == "picos" else NotImplemented
        return Bound(name, lambda it, a, k, n: self.method(it, name, a, k, n))

    def method(self, it, name, args, kw, node):
        self.terms += tuple(it.argterm(a) for a in args)
        return it.call(VMeth(self.vid, name), args, kw, node)

    def setattr(self, it, name, v, node):
        if name == "options" and isinstance(v, Ref):
            self.ref = v

    def call(self, it, args, kw, node):
        return self.solve(it, args, kw, node) if self.kind == "tdr" else NotImplemented

    def solve(self, it, args, kw, node):
        e = {}
        if self.kind == "picos":
            e.update({k: v for k, v in items(it, self.kw).items() if k != "copyOptions"})
        d, rest = it.get(self.ref).data
        for k, (c, v) in d.items():
            e[k] = (c, it.kwterm(v))
        if rest is not None:
            e["**"] = (TRUE, rest)
        call = items(it, kw)
        if self.kind == "tdr":
            if args:
                call["quiet"] = (TRUE, it.term(args[0]))
            call.setdefault("quiet", (TRUE, FALSE_))
        elif args:
            call["args"] = (TRUE, mk("vec", *[it.argterm(a) for a in args]))
        e.update(call)
        self.rec.append((self.kind, e, self.terms, land(*it.st.pc), it.event("engine", self.kind, (), {}, node).where()))
        it.may_raise(node, "call")
        return it.newsym("solution")


FALSE_ = const(False)


def install(it):
    """Hooks the modelling packages; returns the list of solver runs (kind, options, constructor arguments, condition, place)."""
    rec = []
    for kind, path in (("tdr", "pydsm.cvxpy_tdr.program"), ("tdr", "pydsm.cvxpy_tdr.programs.program"), ("cvxpy", "cvxpy.Problem"), ("picos", "picos.Problem")):
        it.lib.ext_hooks[path] = (lambda kind: lambda it, p, a, k, n: Problem(it, kind, a, k, rec))(kind)
    return rec
