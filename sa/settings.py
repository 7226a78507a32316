"""Process-wide settings as abstract cells: every call or assignment that changes one is modelled."""
from . import terms as T
from .terms import sym, const, mk, Term, TRUE, FALSE, land, lor, lnot, ite
from .interp import HObj, Ref, VTuple, VExt, VObj, VChoice, Maybe, Dead
NONE = const(None)
FP = ("divide", "over", "under", "invalid")

# module -> cell; any call of these dirties the cell
SETTERS = {
    "numpy.random.seed": "numpy.random state", "numpy.random.set_state": "numpy.random state", "random.seed": "random state", "random.setstate": "random state",
    "os.putenv": "environment", "os.unsetenv": "environment", "os.umask": "umask", "os.nice": "nice",
    "locale.setlocale": "locale", "sys.setrecursionlimit": "recursion limit", "sys.setswitchinterval": "switch interval",
    "sys.settrace": "trace function", "sys.setprofile": "profile function", "signal.signal": "signal handlers", "gc.disable": "gc", "gc.enable": "gc",
    "gc.set_threshold": "gc thresholds", "socket.setdefaulttimeout": "socket timeout", "logging.disable": "logging", "logging.basicConfig": "logging",
    "logging.captureWarnings": "logging", "matplotlib.use": "matplotlib backend", "matplotlib.pyplot.switch_backend": "matplotlib backend",
    "matplotlib.rc": "matplotlib.rcParams", "matplotlib.pyplot.rc": "matplotlib.rcParams", "matplotlib.pyplot.ion": "matplotlib interactive",
    "matplotlib.pyplot.ioff": "matplotlib interactive", "matplotlib.style.use": "matplotlib.rcParams", "decimal.setcontext": "decimal context",
    "threading.stack_size": "thread stack size", "multiprocessing.set_start_method": "multiprocessing start method", "numpy.setbufsize": "ufunc buffer size",
    "faulthandler.enable": "faulthandler", "atexit.register": "atexit", "time.tzset": "timezone", "os.sched_setaffinity": "affinity",
    "resource.setrlimit": "resource limits", "numpy.set_string_function": "numpy string function", "numpy.setstate": "x",
    "cvxopt.setseed": "cvxopt random state", "cvxopt.base.setseed": "cvxopt random state", "picos.settings.set": "picos settings",
    "warnings.filterwarnings": "warnings.filters", "warnings.simplefilter": "warnings.filters", "warnings.resetwarnings": "warnings.filters",
    "cvxpy.settings": "cvxpy settings", "scipy.fft.set_global_backend": "scipy.fft backend", "scipy.fft.register_backend": "scipy.fft backend",
}
# get/set pairs: reading gives the cell, writing the value read restores it
GETTERS = {
    "os.getcwd": "cwd", "numpy.random.get_state": "numpy.random state", "random.getstate": "random state", "numpy.get_printoptions": "numpy print options",
    "sys.getrecursionlimit": "recursion limit", "sys.getswitchinterval": "switch interval", "numpy.geterrcall": "numpy errcall",
    "sys.gettrace": "trace function", "sys.getprofile": "profile function", "socket.getdefaulttimeout": "socket timeout", "decimal.getcontext": "decimal context",
    "gc.get_threshold": "gc thresholds", "signal.getsignal": "signal handlers", "numpy.getbufsize": "ufunc buffer size", "matplotlib.get_backend": "matplotlib backend",
    "locale.getlocale": "locale", "os.times": "x",
}
# dictionaries of other modules that hold settings
DICTS = ("cvxopt.solvers.options", "os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams")
DRAWS = ("numpy.random.", "random.")
NODRAW = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "random.Random", "numpy.random.PCG64", "random.SystemRandom")
QUIET = ("builtins.", "warnings.warn")


class VCtx(VObj):
    """Context manager that saves cells on entry and restores them on every exit."""
    __slots__ = ("S", "cells", "change", "saved")

    def __init__(self, S, cells, change):
        self.S, self.cells, self.change = S, tuple(cells), change

    def term(self, it):
        return mk("ctx", *[const(c) for c in self.cells])

    def enter(self, it, node):
        sv = {c: self.S.read(c) for c in self.cells}
        self.saved = sv
        self.change(sv, node)
        return NONE

    def leave(self, it, node):
        for c, v in self.saved.items():
            self.S.write(c, v, node)

    def call(self, it, args, kw, node):
        """Used as a decorator."""
        f = args[0]
        return VCtxFn(self, f)

    def getattr(self, it, name, node):
        if name == "__enter__":
            return VCall(lambda a, k, n: self.enter(it, n))
        if name == "__exit__":
            return VCall(lambda a, k, n: self.leave(it, n) or NONE)
        return NotImplemented


class VCall(VObj):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def call(self, it, args, kw, node):
        return self.f(args, kw, node)

    def term(self, it):
        return mk("ctxmethod")


class VCtxFn(VObj):
    __slots__ = ("ctx", "f")

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f

    def term(self, it):
        return it.term(self.f)

    def call(self, it, args, kw, node):
        out = []
        self.ctx.enter(it, node)
        it.protected(lambda: out.append(it.call(self.f, args, kw, node)), lambda: self.ctx.leave(it, node))
        if it.st is None or not out:
            raise Dead()
        return out[0]


class Settings(object):
    """Installs the hooks in an interpreter; cells live in its heap so that they follow paths and joins."""

    def __init__(self, it):
        self.it = it
        self.ref = it.alloc(HObj("dict", ({}, None)))
        self.dicts = {}
        it.implicit_exc = True
        H = it.lib.ext_hooks
        before = set(H)
        for p in list(SETTERS):
            H[p] = self.setter
        for p in GETTERS:
            H[p] = self.getter
        H["os.chdir"] = self.set_from_getter("cwd")
        H["os.fchdir"] = self.setter
        H["numpy.random.set_state"] = self.set_from_getter("numpy.random state")
        H["random.setstate"] = self.set_from_getter("random state")
        H["sys.setrecursionlimit"] = self.set_from_getter("recursion limit")
        H["sys.setswitchinterval"] = self.set_from_getter("switch interval")
        H["numpy.seterrcall"] = self.set_from_getter("numpy errcall")
        H["sys.settrace"] = self.set_from_getter("trace function")
        H["sys.setprofile"] = self.set_from_getter("profile function")
        H["socket.setdefaulttimeout"] = self.set_from_getter("socket timeout")
        H["numpy.setbufsize"] = self.set_from_getter("ufunc buffer size", old=True)
        H["locale.setlocale"] = self.set_from_getter("locale", arg=1)
        H["matplotlib.use"] = self.set_from_getter("matplotlib backend")
        H["numpy.set_printoptions"] = self.set_print
        H["numpy.printoptions"] = lambda it, p, a, k, n: VCtx(self, ["numpy print options"], lambda sv, nd: self.set_print(it, p, a, k, nd))
        for pre in ("numpy.", "scipy.special."):
            H[pre + "seterr"] = self.seterr
            H[pre + "geterr"] = self.geterr
            H[pre + "errstate"] = self.errstate
        H["warnings.catch_warnings"] = self.catch
        for p in DICTS:
            H[p] = Dict(self, p)
        it.lib.ext_prefix_hooks = dict(it.lib.ext_prefix_hooks)
        for d in DRAWS:
            it.lib.ext_prefix_hooks[d] = self.draw
        self.reached = set()
        self.hooked = set(k for k in H if k not in before)
        for k, h in list(H.items()):
            if callable(h) and getattr(h, "__self__", None) is self or getattr(h, "__module__", "") == __name__:
                H[k] = self.noted(h)
        self._event = it.event
        it.event = self.event
        self._may = it.may_raise
        it.may_raise = self.may_raise
        self._libcall = it.lib.call
        it.lib.call = self.libcall

    def noted(self, h):
        if isinstance(h, Dict):
            return h

        def f(it, path, args, kw, node):
            self.reach(node)
            return h(it, path, args, kw, node)
        return f

    def reach(self, node):
        st = self.it.stack
        if st:
            self.reached.add((st[-1][0], getattr(node, "lineno", 0)))

    # cells ---------------------------------------------------------------
    def initial(self, cell):
        return mk("setting", cell)

    def read(self, cell):
        d = self.it.get(self.ref).data[0]
        return d[cell][1] if cell in d else self.initial(cell)

    def write(self, cell, v, node):
        o = self.it.get(self.ref)
        d = dict(o.data[0])
        old = d[cell][1] if cell in d else self.initial(cell)
        if v is self.initial(cell):
            d.pop(cell, None)
        else:
            d[cell] = (TRUE, v)
        if old is not v:
            self._event("setting", cell, (v,), {}, node)
        self.it.put(self.ref, o.with_data((d, None)))

    def changed(self, st):
        """{cell: term} of the cells that may differ from their initial value in a state."""
        it = self.it
        sv = it.st
        it.st = st
        out = {}
        try:
            for c, (cond, v) in it.get(self.ref).data[0].items():
                t = v if isinstance(v, Term) else it.term(v)
                t = ite(cond, t, self.initial(c)) if cond is not TRUE else t
                if t is not self.initial(c):
                    out[c] = t
            for p, r in self.dicts.items():
                o = it.get(r)
                d, rest = o.data
                ini = self.initial(p)
                if rest is not ini and not (rest is None and False):
                    out[p + " (contents)"] = rest if rest is not None else mk("emptied")
                for k, (cond, v) in d.items():
                    has, val = self.initial_item(p, k)
                    t = v if isinstance(v, Term) else it.term(v)
                    if not (t is val and (cond is has or cond is TRUE and False)):
                        if cond is FALSE and has is FALSE:
                            continue
                        out["%s[%r]" % (p, k)] = t
        finally:
            it.st = sv
        return out

    def initial_item(self, p, k):
        """(presence, value) of an entry of an untouched settings dictionary, as the interpreter reads it."""
        it = self.it
        sv = it.st
        it.st = it.st.fork()
        it.sinks.append([])
        try:
            r = it.alloc(HObj("dict", ({}, self.initial(p))))
            kk = k if isinstance(k, Term) else const(k)
            return it.dict_has(r, kk), it.term(it.dict_get(r, kk, None, None))
        except Dead:
            return FALSE, NONE
        finally:
            it.sinks.pop()
            it.st = sv

    def dirty(self):
        return bool(self.changed(self.it.st))

    # exceptions: only where a setting is changed -----------------------------
    def may_raise(self, node, what):
        it = self.it
        if it.st is None or not self.dirty():
            return
        c = mk("exc", what if isinstance(what, str) else "call", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        from .interp import Raised
        it.sinks[-1].append(Raised(it.st.fork(c), VExt("builtins.Exception"), node, tuple(it.stack), (), True))

    def libcall(self, path, args, kw, node):
        p = self.it.lib.canon(path)
        if not p.startswith(QUIET) and p not in self.it.lib.ext_hooks:
            self.may_raise(node, p)
        return self._libcall(path, args, kw, node)

    def event(self, kind, what, args=(), kw=None, node=None, extra=None):
        e = self._event(kind, what, args, kw, node, extra)
        if kind == "extwrite" and isinstance(what, str):
            if what.endswith("[]"):
                self.write("items of " + what[:-2], mk("changed", what, getattr(node, "lineno", 0)), node)
            else:
                v = self.it.term(args[0])
                ini = mk("ext", what)
                self.write(what, self.initial(what) if v is ini or self.names(v, what) else v, node)
        return e

    def names(self, v, path):
        return v.op == "ext" and v.args and v.args[0] == path

    # hooks ------------------------------------------------------------------
    def setter(self, it, path, args, kw, node):
        c = SETTERS.get(path, path)
        self.write(c, mk("changed", path, getattr(node, "lineno", 0)), node)
        return NONE

    def getter(self, it, path, args, kw, node):
        return self.read(GETTERS[path])

    def set_from_getter(self, cell, arg=0, old=False):
        def f(it, path, args, kw, node):
            o = self.read(cell)
            v = it.term(args[arg]) if len(args) > arg else mk("changed", path)
            self.write(cell, v, node)
            return o if old else NONE
        return f

    def set_print(self, it, path, args, kw, node):
        c = "numpy print options"
        if set(kw) == {"**"} and not args:
            self.write(c, it.term(kw["**"]), node)
        else:
            self.write(c, mk("changed", path, getattr(node, "lineno", 0)), node)
        return NONE

    def fpcell(self, path, k):
        return ("numpy errstate " if path.startswith("numpy") else "scipy.special errstate ") + k

    def geterr(self, it, path, args, kw, node):
        return it.alloc(HObj("dict", ({k: (TRUE, self.read(self.fpcell(path, k))) for k in FP}, None)))

    def _apply(self, it, path, args, kw, node):
        names = ("all",) + FP
        a = dict(zip(names, args))
        a.update(kw)
        rest = a.pop("**", None)
        for k in FP:
            cell = self.fpcell(path, k)
            new = cur = self.read(cell)
            for src in ("all", k):
                if src in a:
                    v = a[src]
                    c = TRUE
                    if isinstance(v, Maybe):
                        c, v = v
                    v = it.term(v)
                    if v is NONE:
                        continue
                    if v.op == "setting" or T.is_const(v):
                        new = ite(c, v, new)
                    else:
                        new = ite(c, ite(mk("isnone", v), new, v), new)
            if rest is not None:
                new = mk("changed", path)
            if new is not cur:
                self.write(cell, new, node)

    def seterr(self, it, path, args, kw, node):
        old = self.geterr(it, path, args, kw, node)
        self._apply(it, path, args, kw, node)
        return old

    def errstate(self, it, path, args, kw, node):
        k = {x: v for x, v in kw.items() if x != "call"}
        return VCtx(self, [self.fpcell(path, x) for x in FP], lambda sv, nd: self._apply(it, path, args, k, nd))

    def catch(self, it, path, args, kw, node):
        def change(sv, nd):
            if "action" in kw and it.term(kw["action"]) is not NONE:
                self.write("warnings.filters", mk("changed", path), nd)
        return VCtx(self, ["warnings.filters", "warnings.showwarning"], change)

    def draw(self, it, path, args, kw, node):
        if path in NODRAW or path in it.lib.ext_hooks:
            return NotImplemented
        c = "numpy.random state" if path.startswith("numpy") else "random state"
        self.write(c, mk("changed", path, getattr(node, "lineno", 0)), node)
        return NotImplemented


class Dict(object):
    """Settings dictionary of another module, as an open dictionary object."""

    def __init__(self, S, path):
        self.S, self.path = S, path

    def value(self, it):
        self.S.reach(None)
        r = self.S.dicts.get(self.path)
        if r is None:
            r = Ref(it.next)
            it.next += 1
            self.S.dicts[self.path] = r
            it.base[r.id] = HObj("dict", ({}, self.S.initial(self.path)), ("global", self.path))
        return r

    def __call__(self, it, path, args, kw, node):
        return NotImplemented


def references(src, mutating):
    """[(file, line, function qualname or '<module>', dotted path)]: mentions of settings in a package's source."""
    import ast
    import os
    out = []
    for d, ds, fs in os.walk(src):
        ds[:] = sorted(x for x in ds if x not in ("tests", "benchmarks", "__pycache__"))
        for f in sorted(fs):
            if not f.endswith((".py", ".pyx")) or f in ("conftest.py", "_pytesttester.py", "setup.py"):
                continue
            p = os.path.join(d, f)
            try:
                if f.endswith(".pyx"):
                    from .cyfront import parse_cython
                    tree = parse_cython(p, os.path.relpath(p, os.path.dirname(src))[:-4].replace(os.sep, "."))
                else:
                    tree = ast.parse(open(p).read())
            except Exception:
                out.append((p, 0, "<module>", None))
                continue
            names = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            names[a.asname] = a.name
                        else:
                            names[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    for a in n.names:
                        if a.name == "*":
                            out += [(p, n.lineno, "<module>", n.module + ".*")] if n.module in mutating.stars else []
                        else:
                            names[a.asname or a.name] = n.module + "." + a.name

            def dotted(n):
                if isinstance(n, ast.Name):
                    return names.get(n.id)
                if isinstance(n, ast.Attribute):
                    b = dotted(n.value)
                    return b and b + "." + n.attr
                return None

            def walk(n, q):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        walk(c, (q + "." if q != "<module>" else "") + c.name)
                        continue
                    if isinstance(c, (ast.Attribute, ast.Name)) and isinstance(c.ctx, ast.Load):
                        x = dotted(c)
                        if x and mutating(x):
                            out.append((p, c.lineno, q, x))
                            continue
                    if isinstance(c, ast.Import) or isinstance(c, ast.ImportFrom):
                        continue
                    walk(c, q)
            walk(tree, "<module>")
    return out


class Mutating(object):
    stars = ("numpy", "random", "warnings", "os", "cvxopt.solvers")

    def __init__(self, S):
        self.paths = {p for p in S.it.lib.ext_hooks if p in S.hooked}
        self.canon = S.it.lib.canon

    def __call__(self, x):
        c = self.canon(x)
        if c in GETTERS:
            return False
        return c in self.paths or c in DICTS or (c.startswith(DRAWS) and c not in NODRAW and c != "numpy.random.")
