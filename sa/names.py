"""Name, attribute, signature and definite-assignment resolution over every module of the package.

A flow-sensitive walk of every function: the state holds, for each local, whether it is bound on all
paths, on some or on none, and what is known about its value (package module, dependency object,
package function or class, instance, literal type).
"""
import ast
import builtins
import os
import symtable

from . import introspect
from .ctx import all_modules, SRC

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__path__", "__package__", "__spec__", "__loader__"}
CYBUILTINS = {"xrange", "unicode", "long", "basestring", "NULL", "__cast__", "__addr__", "bint", "cython", "raw_input", "reduce", "unichr"}
HANDLED = {"ImportError": ("import",), "ModuleNotFoundError": ("import",), "AttributeError": ("attribute", "import"), "NameError": ("name", "unbound"), "UnboundLocalError": ("unbound",),
           "TypeError": ("signature",), "Exception": ("import", "attribute", "name", "unbound", "signature"), "BaseException": ("import", "attribute", "name", "unbound", "signature"), "": ("import", "attribute", "name", "unbound", "signature")}
VERSION = (3, 12)
YES, NO, MAY = "bound", "unbound", "maybe"
STATES = 32


class Val:
    """What is known of a value: ('mod', name) | ('ext', path) | ('func', Fn) | ('class', Cls) | ('inst', Cls) | ('type', python type) | None."""


UNKNOWN = ("?",)


class Fn:
    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.deco = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    def fits(self, nargs, kws, skip):
        """Why a call does not fit, or None."""
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else list(pos)
        kwonly = [x.arg for x in a.kwonlyargs]
        kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        n = nargs + skip
        if n > len(pos) and a.vararg is None:
            return "takes %d positional arguments, gets %d" % (len(pos) - skip, nargs)
        given = set(pos[:n])
        posonly = {x.arg for x in a.posonlyargs}
        for k in kws:
            if k in given:
                return "gets several values for %r" % k
            if (k not in pos and k not in kwonly or k in posonly) and a.kwarg is None:
                return "has no parameter %r" % k
        missing = [p for p in req if p not in given and p not in kws] + [k for k in kreq if k not in kws]
        if missing:
            return "misses %s" % missing
        return None


class Cls:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.members = {}
        self.attrs = set()
        self.bases = []
        self.open = False
        self.subs = []

    def mro(self, seen=None):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def has(self, name):
        """True / False / None."""
        for c in self.mro():
            if name in c.members or name in c.attrs:
                return True
        r = False
        for c in self.mro():
            if c.open or "__getattr__" in c.members or "__getattribute__" in c.members:
                r = None
            for b in c.bases:
                if isinstance(b, str):
                    q = introspect.query(b)
                    if q.get("attrs") is None:
                        r = None
                    elif name in q["attrs"] or name in (q.get("selfattrs") or ()):
                        return True
                    elif "__getattr__" in q["attrs"]:
                        r = None
        return True if name in dir(object) or name in ("__dict__", "__module__", "__weakref__") else r


class Module:
    def __init__(self, name, tree, path, cy):
        self.name, self.tree, self.path, self.cy = name, tree, path, cy
        self.ns = {}        # name -> list of values
        self.classes = {}
        self.fns = []


class World:
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.failed = {}
        self.obl = []       # (rule, verdict, construct, msg, where)
        self.cls_of = {}
        for m in all_modules(self.src):
            self.parse(m)
        self.pkgs = {m for m in self.mods if os.path.basename(self.mods[m].path) == "__init__.py"}
        self.allmods = set(self.mods) | self.on_disk()
        for m in self.mods.values():
            self.collect(m)
        for _ in range(4):
            for m in self.mods.values():
                self.bind_module(m)
        for m in self.mods.values():
            self.link_classes(m)

    def on_disk(self):
        out = set()
        for d, dirs, files in os.walk(os.path.join(self.src, "pydsm")):
            rel = os.path.relpath(d, self.src).replace(os.sep, ".")
            if "__init__.py" in files:
                out.add(rel)
            for f in files:
                b, e = os.path.splitext(f)
                if e in (".py", ".pyx"):
                    out.add(rel + "." + b)
        return out

    def parse(self, m):
        base = os.path.join(self.src, *m.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py"), base + ".pyx"):
            if os.path.exists(p):
                try:
                    if p.endswith(".pyx"):
                        from .cyfront import parse_cython
                        t = parse_cython(p, m)
                        if isinstance(t, tuple):
                            t = t[0]
                        cy = True
                    else:
                        t = ast.parse(open(p).read(), p)
                        cy = False
                    self.mods[m] = Module(m, t, p, cy)
                except Exception as e:
                    self.failed[m] = "%s: %s" % (p, e)
                return

    # ------------------------------------------------------------ namespaces
    def collect(self, m):
        def cls(node, qual):
            c = Cls(node, m, qual)
            for s in node.body:
                self.class_stmt(c, s, qual)
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    c.attrs.add(n.attr)
                if isinstance(n, ast.Call) and ast.unparse(n.func) in ("setattr", "object.__setattr__", "super().__setattr__"):
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        c.attrs.add(n.args[1].value)
                    else:
                        c.open = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    c.open = True
            return c

        def walk(body, prefix):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    c = cls(s, prefix + s.name)
                    m.classes[id(s)] = c
                    self.cls_of[id(s)] = c
                for b in ("body", "orelse", "finalbody"):
                    x = getattr(s, b, None)
                    if isinstance(x, list):
                        walk(x, prefix + (s.name + "." if isinstance(s, (ast.ClassDef, ast.FunctionDef)) else ""))
                for h in getattr(s, "handlers", []):
                    walk(h.body, prefix)
        walk(m.tree.body, m.name + ".")

    def class_stmt(self, c, s, qual):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            c.members[s.name] = ("func", Fn(s, c.mod, qual + "." + s.name, c))
        elif isinstance(s, ast.ClassDef):
            c.members[s.name] = UNKNOWN
        else:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.members[n.id] = UNKNOWN
                if isinstance(n, ast.FunctionDef):
                    c.members.setdefault(n.name, UNKNOWN)

    def absname(self, m, node):
        if not node.level:
            return node.module
        base = m.name.split(".")
        if m.name not in self.pkgs:
            base = base[:-1]
        if node.level > 1:
            base = base[:-(node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def exports(self, name):
        m = self.mods[name]
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    return list(ast.literal_eval(s.value))
                except ValueError:
                    break
        return [n for n in m.ns if not n.startswith("_")]

    def importfrom(self, m, node):
        """{name: value or None (does not exist)}"""
        src = self.absname(m, node)
        out = {}
        for a in node.names:
            if a.name == "*":
                if src in self.mods:
                    for n in self.exports(src):
                        out[n] = self.single(self.mods[src].ns.get(n)) or UNKNOWN
                elif src in self.failed:
                    out["*"] = UNKNOWN
                else:
                    out["*"] = UNKNOWN
                continue
            out[a.asname or a.name] = self.member(src, a.name)
        return out

    def member(self, src, name):
        if src is None:
            return UNKNOWN
        if src in self.mods:
            ns = self.mods[src].ns
            if name in ns:
                return self.single(ns[name])
            if src + "." + name in self.allmods:
                return ("mod", src + "." + name)
            if "*" in ns or "__getattr__" in ns:
                return UNKNOWN
            return None
        if src.split(".")[0] == "pydsm":
            return UNKNOWN if src in self.allmods else None
        q = introspect.query(src + "." + name)
        if q["exists"] is False:
            return None
        return ("ext", src + "." + name)

    @staticmethod
    def single(vs):
        if not vs:
            return None
        return vs[0] if all(v == vs[0] for v in vs) else UNKNOWN

    def bind_module(self, m):
        ns = {}

        def put(n, v):
            ns.setdefault(n, [])
            if v not in ns[n]:
                ns[n].append(v)

        def visit(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(s.name, ("func", self.fn_of(s, m)) if not s.decorator_list else UNKNOWN)
                elif isinstance(s, ast.ClassDef):
                    put(s.name, ("class", self.cls_of[id(s)]))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            put(a.asname, self.modval(a.name))
                        else:
                            put(a.name.split(".")[0], self.modval(a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    for n, v in self.importfrom(m, s).items():
                        put(n, v or UNKNOWN)
                    src = self.absname(m, s)
                    if m.name in self.pkgs and src and src.startswith(m.name + ".") and src in self.allmods:
                        k = src[len(m.name) + 1:].split(".")[0]
                        put(k, ("mod", m.name + "." + k))
                else:
                    for n in iter_names(s):
                        v = UNKNOWN
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                            v = self.static_value(m, s.value, ns)
                        put(n, v)
                    for b in ("body", "orelse", "finalbody"):
                        x = getattr(s, b, None)
                        if isinstance(x, list):
                            visit(x)
                    for h in getattr(s, "handlers", []):
                        visit(h.body)
        visit(m.tree.body)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for n in f.names:
                    put(n, UNKNOWN)
        for n in getattr(m.tree, "cy_extern", {}) or {}:
            put(n, UNKNOWN)
        for n in getattr(m.tree, "cy_types", {}) or {}:
            put(n, UNKNOWN)
        if m.name in self.pkgs:
            for x in self.allmods:
                if x.rpartition(".")[0] == m.name and x.rpartition(".")[2] not in ns:
                    pass
        m.ns = ns

    _fns = None

    def fn_of(self, node, m):
        if self._fns is None:
            self._fns = {}
        f = self._fns.get(id(node))
        if f is None:
            f = self._fns[id(node)] = Fn(node, m, m.name + "." + node.name)
        return f

    def modval(self, name):
        if name.split(".")[0] == "pydsm":
            return ("mod", name)
        return ("ext", name)

    def static_value(self, m, e, ns):
        if isinstance(e, ast.Name) and e.id in ns:
            return self.single(ns[e.id]) or UNKNOWN
        if isinstance(e, ast.Attribute):
            b = self.static_value(m, e.value, ns)
            if b[0] == "mod":
                return self.member(b[1], e.attr) or UNKNOWN
            if b[0] == "ext" and introspect.query(b[1] + "." + e.attr)["exists"]:
                return ("ext", b[1] + "." + e.attr)
        return UNKNOWN

    _universe = None
    PACKAGES = ("numpy", "scipy", "scipy.signal", "scipy.optimize", "scipy.integrate", "scipy.linalg", "scipy.sparse", "scipy.interpolate", "cvxopt", "cvxopt.solvers", "cvxpy", "picos",
                "matplotlib", "matplotlib.pyplot", "unittest", "pytest", "pathlib", "io", "collections", "logging", "tempfile", "subprocess", "importlib")

    def universe(self):
        """Attribute names that exist anywhere."""
        if self._universe is None:
            u = set(introspect.universe(self.PACKAGES))
            imported = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        imported.update(a.name.split(".")[0] for a in n.names) if isinstance(n, ast.Import) else imported.add((n.module or "pydsm").split(".")[0])
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        u.add(n.attr)
                    elif isinstance(n, ast.Call) and ast.unparse(n.func) == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        u.add(n.args[1].value)
                    elif isinstance(n, ast.ClassDef):
                        for s in n.body:
                            u.update(iter_names(s))
                            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                                u.add(s.name)
                    elif isinstance(n, (ast.FunctionDef,)):
                        pass
                u.update(m.ns)
                u.update(x.split(".")[-1] for x in self.allmods)
            u |= introspect.universe(sorted(imported - {"pydsm", "numpy", "scipy", "cvxopt", "cvxpy", "picos", "matplotlib", "libc", "cython"}))
            self._universe = u
        return self._universe

    def modconst(self, m, name):
        """Integer assigned once to a module-level name."""
        vs = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                vs.append(n)
        if len(vs) == 1:
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and s.targets[0] is vs[0] and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                    return s.value.value
        return None

    def link_classes(self, m):
        for c in m.classes.values():
            c.bases = []
            for b in c.node.bases:
                v = self.static_value(m, b, m.ns)
                if v[0] == "class":
                    c.bases.append(v[1])
                    if c not in v[1].subs:
                        v[1].subs.append(c)
                elif v[0] == "ext":
                    c.bases.append(v[1])
                elif isinstance(b, ast.Name) and b.id in dir(builtins) and b.id not in m.ns:
                    c.bases.append("builtins." + b.id)
                else:
                    c.open = True
            if c.node.keywords:
                c.open = True


def iter_names(s):
    """Names bound by one statement (not entering nested statements or scopes)."""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    if isinstance(s, ast.Assign):
        for t in s.targets:
            tgt(t)
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        tgt(s.target)
    elif isinstance(s, (ast.For, ast.AsyncFor)):
        tgt(s.target)
    elif isinstance(s, (ast.With, ast.AsyncWith)):
        for i in s.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars)
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
            out.append(a.asname or a.name.split(".")[0])
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        out.append(s.name)
    exprs = []
    for f, x in ast.iter_fields(s):
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, ast.expr):
                exprs.append(y)
    for e in exprs:
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                out.append(n.target.id)
    return out


# ---------------------------------------------------------------- flow-sensitive walk
class State:
    """bound: {name: YES/NO/MAY}, val: {name: value}, facts: {condition text: bool}."""
    __slots__ = ("bound", "val", "facts")

    def __init__(self, bound, val, facts):
        self.bound, self.val, self.facts = bound, val, facts

    def copy(self):
        return State(dict(self.bound), dict(self.val), dict(self.facts))

    def key(self):
        return (tuple(sorted(self.bound.items())), tuple(sorted(self.facts.items())))


def join(a, b):
    bound = {}
    for n in set(a.bound) | set(b.bound):
        x, y = a.bound.get(n, NO), b.bound.get(n, NO)
        bound[n] = x if x == y else MAY
    val = {n: v for n, v in a.val.items() if b.val.get(n) == v}
    for n in set(a.val) | set(b.val):
        x, y = a.bound.get(n, NO), b.bound.get(n, NO)
        if x == NO and n in b.val:
            val[n] = b.val[n]
        elif y == NO and n in a.val:
            val[n] = a.val[n]
    return State(bound, val, {k: v for k, v in a.facts.items() if b.facts.get(k) == v})


def limit(states):
    out = {}
    for s in states:
        k = s.key()
        out[k] = join(out[k], s) if k in out else s
    out = list(out.values())
    if len(out) > STATES:
        g = {}
        for s in out:
            k = tuple(sorted(s.bound.items()))
            g[k] = join(g[k], s) if k in g else s
        out = list(g.values())
    while len(out) > STATES:
        a, b = out.pop(), out.pop()
        out.insert(0, join(a, b))
    return out


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Load, ast.cmpop, ast.boolop, ast.unaryop, ast.Subscript, ast.Tuple, ast.List, ast.expr_context,
        ast.BinOp, ast.operator)
PURECALLS = ("len", "isinstance", "type", "callable", "hasattr", "np.isscalar", "np.iscomplexobj", "np.isfinite", "np.isinf", "np.isreal", "np.any", "np.all", "bool", "int", "float", "abs")


def version_test(e):
    """Value of a comparison of the interpreter's version with a constant, else None."""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        def val(x):
            t = ast.unparse(x)
            if t in ("sys.version_info", "version_info"):
                return VERSION
            if t in ("sys.version_info[0]", "sys.version_info.major"):
                return VERSION[0]
            try:
                return ast.literal_eval(x)
            except ValueError:
                return None
        if "version_info" not in ast.unparse(e):
            return None
        a, b = val(e.left), val(e.comparators[0])
        if a is None or b is None:
            return None
        op = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__", ast.Eq: "__eq__", ast.NotEq: "__ne__"}.get(type(e.ops[0]))
        r = getattr(a, op)(b) if op else NotImplemented
        return r if isinstance(r, bool) else None
    if ast.unparse(e) in ("six.PY2", "PY2"):
        return False
    if ast.unparse(e) in ("six.PY3", "PY3", "TYPE_CHECKING"):
        return ast.unparse(e) != "TYPE_CHECKING"
    return None


def is_pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if ast.unparse(n.func) not in PURECALLS:
                return False
        elif not isinstance(n, PURE):
            return False
    return True


class Walk:
    """One function (or module / class body)."""

    def __init__(self, W, m, qual, node, report, outer=None, cls=None):
        self.W, self.m, self.qual, self.node, self.report, self.cls = W, m, qual, node, report, cls
        self.outer = outer            # enclosing function walks (names only)
        self.locals = set()
        self.globals = set()
        self.guard = []               # kinds of failure handled by enclosing try blocks
        self.weak = 0                 # inside code reached only after a zero-trip loop
        self.module = isinstance(node, ast.Module)
        self.zero = set()
        self.loopfree = {}
        self.scan()

    def scan(self):
        n = self.node
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        else:
            self.params = []
        body = n.body if isinstance(n.body, list) else [n.body]

        def visit(b):
            for s in b:
                if isinstance(s, (ast.Global, ast.Nonlocal)):
                    self.globals |= set(s.names)
                    continue
                self.locals.update(iter_names(s) if isinstance(s, ast.stmt) else [])
                for f in ("body", "orelse", "finalbody"):
                    x = getattr(s, f, None)
                    if isinstance(x, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Lambda)):
                        visit(x)
                for h in getattr(s, "handlers", []):
                    if h.name:
                        self.locals.add(h.name)
                    visit(h.body)
        visit(body)
        self.locals |= set(self.params)
        self.locals -= self.globals
        for t in (getattr(n, "cy_types", None) or {}):
            self.locals.add(t)

    # -------------------------------------------------------- reporting
    def say(self, rule, verdict, node, what, msg=""):
        if rule in ("import", "attribute", "attribute name", "name", "unbound", "signature") and any(rule.split()[0] in g for g in self.guard):
            return
        f = getattr(node, "src_file", None) or self.m.path
        where = "%s:%d in %s" % (os.path.relpath(f, os.path.dirname(self.W.src)) if f.startswith("/") else f, getattr(node, "lineno", 0), self.qual.split(".")[-1])
        self.report(rule, verdict, "%s: %s" % (self.qual, what), msg, where, node, self)

    # -------------------------------------------------------- entry
    def run(self):
        st = State({n: NO for n in self.locals}, {}, {})
        for p in self.params:
            st.bound[p] = YES
        n = self.node
        for t in (getattr(n, "cy_types", None) or {}):
            st.bound[t] = YES
        if self.cls is not None and self.params and "staticmethod" not in self.decos():
            st.val[self.params[0]] = ("class", self.cls) if "classmethod" in self.decos() or n.name == "__new__" else ("inst", self.cls)
        if isinstance(n, ast.Lambda):
            self.expr(n.body, [st])
            return
        self.block(n.body, [st])

    def decos(self):
        return [ast.unparse(d) for d in getattr(self.node, "decorator_list", [])]

    # -------------------------------------------------------- statements; returns normal out states
    def block(self, body, sts, ctl=None):
        ctl = ctl if ctl is not None else {"brk": [], "cont": [], "exc": None}
        for s in body:
            if not sts:
                return []
            if ctl.get("exc") is not None:
                ctl["exc"] += [x.copy() for x in sts]
            sts = limit(self.stmt(s, sts, ctl))
            if ctl.get("exc") is not None:
                ctl["exc"] += [x.copy() for x in sts]
        return sts

    def assign(self, t, sts, value=UNKNOWN):
        if isinstance(t, ast.Name):
            for s in sts:
                self.set(s, t.id, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, sts)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, sts)
        else:
            if isinstance(t, ast.Attribute):
                self.expr(t.value, sts)
                r = ast.unparse(t)
                for s in sts:
                    kill(s, r)
            elif isinstance(t, ast.Subscript):
                self.expr(t.value, sts)
                self.expr(t.slice, sts)
                b = t.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    for s in sts:
                        kill(s, b.id)

    def set(self, s, name, value=UNKNOWN, how=YES, const=None):
        s.bound[name] = how
        kill(s, name)
        if const is not None and isinstance(const.value, (int, str, bool, type(None))):
            n = ast.Name(name, ast.Load())
            if isinstance(const.value, (int, str)) and not isinstance(const.value, bool):
                s.facts[canon(ast.Compare(n, [ast.Eq()], [const]))[0]] = True
            if const.value is None:
                s.facts[canon(ast.Compare(n, [ast.Is()], [const]))[0]] = True
            s.facts[name] = bool(const.value)
        if value != UNKNOWN:
            s.val[name] = value
        else:
            s.val.pop(name, None)

    def stmt(self, s, sts, ctl):
        t = type(s).__name__
        f = getattr(self, "s_" + t, None)
        if f is None:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x, sts)
            return sts
        return f(s, sts, ctl)

    def s_Expr(self, s, sts, ctl):
        self.expr(s.value, sts)
        return sts

    def s_Assign(self, s, sts, ctl):
        vs = self.expr(s.value, sts)
        for t in s.targets:
            if isinstance(t, ast.Name) and len(s.targets) >= 1:
                for st, v in zip(sts, vs):
                    self.set(st, t.id, v, const=s.value if isinstance(s.value, ast.Constant) else None)
            else:
                self.assign(t, sts)
        return sts

    def s_AnnAssign(self, s, sts, ctl):
        if s.value is not None:
            vs = self.expr(s.value, sts)
            for st, v in zip(sts, vs):
                if isinstance(s.target, ast.Name):
                    self.set(st, s.target.id, v)
                else:
                    self.assign(s.target, [st])
        elif self.m.cy:
            self.assign(s.target, sts)
        return sts

    def s_AugAssign(self, s, sts, ctl):
        self.expr(s.value, sts)
        t = s.target
        if isinstance(t, ast.Name):
            self.load(t, sts)
            for st in sts:
                v = st.val.get(t.id, UNKNOWN)
                self.set(st, t.id, v if v[0] == "type" and v[1] is list else UNKNOWN)
        else:
            if isinstance(t, ast.Attribute):
                self.attr(t, sts)
            self.assign(t, sts)
        return sts

    def s_Return(self, s, sts, ctl):
        if s.value is not None:
            self.expr(s.value, sts)
        return []

    def s_Raise(self, s, sts, ctl):
        for x in (s.exc, s.cause):
            if x is not None:
                self.expr(x, sts)
        return []

    def s_Assert(self, s, sts, ctl):
        a, b = self.cond(s.test, sts)
        if s.msg is not None and b:
            self.expr(s.msg, b)
        return a

    def s_Delete(self, s, sts, ctl):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load(t, sts)
                for st in sts:
                    self.set(st, t.id, UNKNOWN, NO)
            else:
                self.assign(t, sts)
        return sts

    def s_Pass(self, s, sts, ctl):
        return sts

    def s_Global(self, s, sts, ctl):
        return sts
    s_Nonlocal = s_Global

    def s_Break(self, s, sts, ctl):
        ctl["brk"] += sts
        return []

    def s_Continue(self, s, sts, ctl):
        ctl["cont"] += sts
        return []

    def s_Import(self, s, sts, ctl):
        for a in s.names:
            ok = self.module_exists(a.name)
            self.say("import", ok, s, "import %s" % a.name, "" if ok else "module %s does not exist" % a.name)
            for st in sts:
                if a.asname:
                    self.set(st, a.asname, self.W.modval(a.name))
                else:
                    self.set(st, a.name.split(".")[0], self.W.modval(a.name.split(".")[0]))
        return sts

    def module_exists(self, name):
        if name is None:
            return None
        if name.split(".")[0] == "pydsm":
            return name in self.W.allmods
        if self.m.cy and name.split(".")[0] in ("cython", "libc", "cpython", "libcpp"):
            return True         # resolved by the compiler
        if self.m.cy and name.split(".")[0] == "scipy":
            q = introspect.query(name)
            return True if q["exists"] else None
        q = introspect.query(name)
        return q["exists"] if q["exists"] is not None else None

    def s_ImportFrom(self, s, sts, ctl):
        if s.module == "__future__":
            return sts
        src = self.W.absname(self.m, s)
        ok = self.module_exists(src)
        self.say("import", ok, s, "from %s import" % src, "" if ok else "module %s does not exist" % src)
        vals = self.W.importfrom(self.m, s) if ok else {a.asname or a.name: UNKNOWN for a in s.names}
        if ok:
            for a in s.names:
                if a.name == "*":
                    continue
                v = vals.get(a.asname or a.name)
                if self.m.cy and v is None:
                    continue
                self.say("import", v is not None, s, "from %s import %s" % (src, a.name), "" if v is not None else "%s has no %s" % (src, a.name))
        if ok and self.module and self.m.name in self.W.pkgs and src.startswith(self.m.name + "."):
            k = src[len(self.m.name) + 1:].split(".")[0]
            for st in sts:
                if k in self.locals:
                    self.set(st, k, ("mod", self.m.name + "." + k))
        for n, v in vals.items():
            for st in sts:
                if n == "*":
                    continue
                self.set(st, n, v or UNKNOWN)
        return sts

    def s_FunctionDef(self, s, sts, ctl):
        for d in s.decorator_list:
            self.expr(d, sts)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
            self.expr(d, sts)
        v = ("func", self.W.fn_of(s, self.m)) if not s.decorator_list else UNKNOWN
        for st in sts:
            self.set(st, s.name, v)
        for a in ast.walk(s):
            if isinstance(a, ast.arg) and a.annotation is not None and not self.m.cy:
                self.expr(a.annotation, sts)
        cls = self.node_cls
        W = Walk(self.W, self.m, self.qual + "." + s.name, s, self.report, outer=None if self.module or self.is_class else self, cls=cls)
        W.base = self
        W.guard = []
        if self.is_class:
            W.outer = self.outer
        W.run()
        return sts
    s_AsyncFunctionDef = s_FunctionDef

    @property
    def is_class(self):
        return isinstance(self.node, ast.ClassDef)

    @property
    def node_cls(self):
        return self.W.cls_of.get(id(self.node)) if self.is_class else None

    def s_ClassDef(self, s, sts, ctl):
        for b in s.bases + [k.value for k in s.keywords] + s.decorator_list:
            self.expr(b, sts)
        W = Walk(self.W, self.m, self.qual + "." + s.name, s, self.report, outer=self.outer if self.is_class else None if self.module else self)
        W.run()
        for st in sts:
            self.set(st, s.name, ("class", self.W.cls_of[id(s)]) if id(s) in self.W.cls_of else UNKNOWN)
        return sts

    def s_If(self, s, sts, ctl):
        a, b = self.cond(s.test, sts)
        return self.block(s.body, a, ctl) + (self.block(s.orelse, b, ctl) if s.orelse else b)

    def loop(self, s, sts, ctl, head, body, infinite, orelse, start=None):
        """Shared by for and while: two rounds reach the fixed point of the bound/unbound lattice."""
        zero = [x.copy() for x in sts]
        out = []
        entry = sts
        brk = []
        last = []
        if start is None:
            self.loopvars = self.loopvars + [set(n for b in body for n in all_stores(b))]
        for i in range(2):
            c = {"brk": [], "cont": [], "exc": ctl.get("exc")}
            cur = head([x.copy() for x in entry])
            if start is not None:
                for x in cur:
                    x.facts[canon(ast.Compare(ast.Name(start[0], ast.Load()), [ast.Eq()], [ast.Constant(start[1])]))[0]] = i == 0
            end = self.block(body, cur, c)
            last = limit(end + c["cont"])
            brk += c["brk"]
            out += [x.copy() for x in last]
            entry = last
            self.quiet = True
        if start is None:
            self.loopvars = self.loopvars[:-1]
        return zero, limit(out), brk

    def s_For(self, s, sts, ctl):
        self.expr(s.iter, sts)
        kills = set(n for b in s.body for n in all_stores(b))

        def head(x):
            for st in x:
                for n in kills:
                    kill(st, n)
            self.assign(s.target, x)
            return x
        zero, out, brk = self.loop(s, sts, ctl, head, s.body, False, s.orelse, self.start(s, sts))
        nz = self.nonempty(s.iter, zero)
        fall = list(out)
        if not nz:
            # bound only inside the loop: zero trips are possible only for an empty iterable
            for z in zero:
                for o in out:
                    for n, b in o.bound.items():
                        if b == YES and z.bound.get(n) == NO:
                            z.bound[n] = "zero"
            fall += zero
        for x in fall:
            for n in kills:
                kill(x, n)
        fall = limit(fall)
        if s.orelse:
            fall = self.block(s.orelse, fall, ctl)
        return limit(fall + brk)
    s_AsyncFor = s_For

    def start(self, s, sts):
        """(variable, first value) of a counting loop."""
        e, t = s.iter, s.target
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "enumerate" and len(e.args) == 1 and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
            return t.elts[0].id, 0
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range", "xrange") and len(e.args) <= 2 and isinstance(t, ast.Name) and not e.keywords):
            return None
        v = 0 if len(e.args) < 2 else self.number(e.args[0], sts)
        if v is None or any(t.id in all_stores(b) for b in s.body):
            return None
        return t.id, v

    def number(self, e, sts):
        """Value of an integer expression known in every state."""
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return e.value
        if isinstance(e, ast.Name):
            vs = {s.val.get(e.id, UNKNOWN) for s in sts}
            v = vs.pop() if len(vs) == 1 else UNKNOWN
            if v[0] == "num":
                return v[1]
            if v == UNKNOWN and e.id not in self.locals:
                m = self.W.modconst(self.m, e.id)
                return m
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = self.number(e.left, sts), self.number(e.right, sts)
            if a is None or b is None:
                return None
            return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
        return None

    def nonempty(self, e, sts):
        if isinstance(e, (ast.Tuple, ast.List)) and e.elts:
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range", "xrange") and len(e.args) in (1, 2):
            b = self.number(e.args[-1], sts)
            a = 0 if len(e.args) == 1 else self.number(e.args[0], sts)
            return a is not None and b is not None and b > a
        return False

    def s_While(self, s, sts, ctl):
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        kills = set(n for b in s.body for n in all_stores(b))
        exits = []

        def head(x):
            for st in x:
                for n in kills:
                    kill(st, n)
            a, b = self.cond(s.test, x)
            if not inf:
                exits.extend(b)
            return a
        zero, out, brk = self.loop(s, sts, ctl, head, s.body, inf, s.orelse)
        fall = []
        if not inf:
            a, b = self.cond(s.test, [x.copy() for x in out])
            for z in exits:
                for o in out:
                    for n, bb in o.bound.items():
                        if bb == YES and z.bound.get(n) == NO:
                            z.bound[n] = "zero"
            fall = limit(exits + b)
            for x in fall:
                for n in kills:
                    kill(x, n)
            if s.orelse:
                fall = self.block(s.orelse, fall, ctl)
        return limit(fall + brk)

    def s_With(self, s, sts, ctl):
        sup = False
        for i in s.items:
            self.expr(i.context_expr, sts)
            if "suppress" in ast.unparse(i.context_expr):
                sup = True
            if i.optional_vars is not None:
                self.assign(i.optional_vars, sts)
        if sup:
            c = dict(ctl, exc=[])
            self.guard.append(HANDLED[""])
            out = self.block(s.body, [x.copy() for x in sts], c)
            self.guard.pop()
            return limit(out + c["exc"])
        return self.block(s.body, sts, ctl)
    s_AsyncWith = s_With

    def s_Try(self, s, sts, ctl):
        kinds = set()
        for h in s.handlers:
            names = [""] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            # a handler that turns the failure into another error is not a remedy for a package mistake,
            # except for optional imports, where refusing is the remedy
            reraises = bool(h.body) and all_paths_raise(h.body)
            for n in names:
                for k in HANDLED.get(n, ()):
                    if not reraises or k == "import" or (k == "attribute" and n == "AttributeError"):
                        kinds.add(k)
        inner = {"brk": [], "cont": [], "exc": [x.copy() for x in sts]}
        outer_exc = ctl.get("exc")
        self.guard.append(tuple(kinds))
        out = self.block(s.body, [x.copy() for x in sts], inner)
        self.guard.pop()
        exc = limit(inner["exc"])
        if s.orelse and out:
            out = self.block(s.orelse, out, inner if not s.finalbody else dict(inner, exc=inner["exc"]))
        hout = []
        hexc = []
        for h in s.handlers:
            hs = [x.copy() for x in exc]
            if h.type is not None:
                self.expr(h.type, hs)
            if h.name:
                for x in hs:
                    self.set(x, h.name, YES and UNKNOWN)
            c = {"brk": [], "cont": [], "exc": []}
            o = self.block(h.body, hs, c)
            if h.name:
                for x in o:
                    self.set(x, h.name, UNKNOWN, NO)
            inner["brk"] += c["brk"]
            inner["cont"] += c["cont"]
            hexc += c["exc"]
            hout += o
        out = limit(out + hout)
        if s.finalbody:
            # normal
            o = self.block(s.finalbody, out, ctl) if out else []
            # exceptional and jumps
            others = limit([x.copy() for x in exc + hexc])
            if others:
                self.block(s.finalbody, others, {"brk": [], "cont": [], "exc": None})
            b = self.block(s.finalbody, limit(inner["brk"]), ctl) if inner["brk"] else []
            c = self.block(s.finalbody, limit(inner["cont"]), ctl) if inner["cont"] else []
            ctl["brk"] += b
            ctl["cont"] += c
            if outer_exc is not None:
                outer_exc += others
            return o
        ctl["brk"] += inner["brk"]
        ctl["cont"] += inner["cont"]
        if outer_exc is not None:
            outer_exc += exc + hexc
        return out
    s_TryStar = s_Try

    def s_Match(self, s, sts, ctl):
        self.expr(s.subject, sts)
        out = list(x.copy() for x in sts)
        for c in s.cases:
            cur = [x.copy() for x in sts]
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None) or getattr(n, "rest", None)
                if nm:
                    for x in cur:
                        self.set(x, nm)
            out += self.block(c.body, cur, ctl)
        return limit(out)

    # -------------------------------------------------------- conditions
    def cond(self, e, sts):
        """(states where e holds, states where it does not)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, sts)
            return b, a
        if isinstance(e, ast.BoolOp):
            yes, no = [], []
            cur = sts
            for x in e.values:
                a, b = self.cond(x, cur)
                if isinstance(e.op, ast.And):
                    no += b
                    cur = a
                else:
                    yes += a
                    cur = b
            return limit(yes + (cur if isinstance(e.op, ast.And) else [])), limit(no + (cur if isinstance(e.op, ast.Or) else []))
        v = version_test(e)
        if v is not None:
            return (sts, []) if v else ([], sts)
        self.expr(e, sts)
        if isinstance(e, ast.Constant):
            return (sts, []) if e.value else ([], sts)
        if not is_pure(e):
            return [x.copy() for x in sts], [x.copy() for x in sts]
        k, pos = canon(e)
        a, b = [], []
        for s in sts:
            v = implied(s.facts, k)
            if v is not None:
                (a if v == pos else b).append(s)
                continue
            x, y = s.copy(), s
            x.facts[k] = pos
            y.facts[k] = not pos
            a.append(x)
            b.append(y)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
            for x in a:
                x.val.pop(e.args[0].id, None)
        return a, b

    # -------------------------------------------------------- expressions: values per state
    def expr(self, e, sts):
        if not sts:
            return []
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is not None:
            return f(e, sts)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, sts)
            elif isinstance(x, ast.keyword):
                self.expr(x.value, sts)
        return [UNKNOWN] * len(sts)

    def e_Constant(self, e, sts):
        t = type(e.value)
        if t is int:
            return [("num", e.value)] * len(sts)
        return [("type", t) if t in (str, int, float, bytes, complex, bool) else UNKNOWN] * len(sts)

    def lit(self, e, sts, t):
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, sts)
        return [("type", t)] * len(sts)

    def e_List(self, e, sts):
        if isinstance(e.ctx, ast.Store):
            return [UNKNOWN] * len(sts)
        return self.lit(e, sts, list)

    def e_Tuple(self, e, sts):
        return self.lit(e, sts, tuple)

    def e_Dict(self, e, sts):
        return self.lit(e, sts, dict)

    def e_Set(self, e, sts):
        return self.lit(e, sts, set)

    def e_JoinedStr(self, e, sts):
        return self.lit(e, sts, str)

    def e_BoolOp(self, e, sts):
        cur = [x.copy() for x in sts]
        for v in e.values:
            a, b = self.cond(v, cur)
            cur = a if isinstance(e.op, ast.And) else b
        return [UNKNOWN] * len(sts)

    def e_IfExp(self, e, sts):
        a, b = self.cond(e.test, [x.copy() for x in sts])
        va = self.expr(e.body, a)
        vb = self.expr(e.orelse, b)
        r = set(va + vb)
        return [r.pop() if len(r) == 1 else UNKNOWN] * len(sts)

    def e_NamedExpr(self, e, sts):
        vs = self.expr(e.value, sts)
        for s, v in zip(sts, vs):
            self.set(s, e.target.id, v)
        return vs

    def e_Lambda(self, e, sts):
        for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
            self.expr(d, sts)
        w = Walk(self.W, self.m, self.qual, e, self.report, outer=self.scope_for_inner())
        w.base = self
        w.run()
        fn = Fn(e, self.m, self.qual + ".<lambda>")
        return [("func", fn)] * len(sts)

    def scope_for_inner(self):
        return self.outer if self.is_class else None if self.module else self

    def e_comp(self, e, sts):
        cur = [x.copy() for x in sts]
        names = set()
        inner = Comp(self)
        for i, g in enumerate(e.generators):
            self.expr(g.iter, cur)
            for n in target_names(g.target):
                names.add(n)
                for s in cur:
                    s.bound[n] = YES
                    s.val.pop(n, None)
                    kill(s, n)
            self.compnames = self.compnames + [names]
            for c in g.ifs:
                cur2, _ = self.cond(c, cur)
                cur = cur2 or cur
            self.compnames = self.compnames[:-1]
        self.compnames = self.compnames + [names]
        if isinstance(e, ast.DictComp):
            self.expr(e.key, cur)
            self.expr(e.value, cur)
        else:
            self.expr(e.elt, cur)
        self.compnames = self.compnames[:-1]
        t = {ast.ListComp: list, ast.SetComp: set, ast.DictComp: dict}.get(type(e))
        return [("type", t) if t else UNKNOWN] * len(sts)
    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = e_comp
    compnames = []
    loopvars = []
    base = None
    quiet = False

    def e_Name(self, e, sts):
        return self.load(e, sts)

    def load(self, e, sts):
        n = e.id
        for names in self.compnames:
            if n in names:
                return [s.val.get(n, UNKNOWN) for s in sts]
        if n in self.locals:
            if self.module or self.is_class:
                bs = {s.bound.get(n, NO) for s in sts}
                if self.is_class and bs != {YES}:
                    return self.outside(e, n, sts)
                if self.module and bs != {YES} and n in BUILTINS:
                    return [UNKNOWN] * len(sts)
            else:
                bs = {s.bound.get(n, NO) for s in sts}
            if bs == {YES}:
                self.say("unbound", True, e, n)
            elif NO in bs or MAY in bs:
                full = bs == {NO}
                loop = any(n in x for x in self.loopvars)
                self.say("unbound", False, e, n, "%s is %s here" % (n, "never assigned" if full and not loop else "not assigned on some path" + (" of a loop" if loop else "")))
            else:
                self.say("unbound", None, e, n, "%s is not assigned when a loop runs no iteration" % n)
            for s in sts:
                if s.bound.get(n) != YES:
                    s.bound[n] = YES
            return [s.val.get(n, UNKNOWN) for s in sts]
        return self.outside(e, n, sts)

    def outside(self, e, n, sts):
        w = self.outer
        if n not in self.globals or True:
            while w is not None:
                if n in w.locals or any(n in x for x in w.compnames):
                    self.say("name", True, e, n)
                    return [UNKNOWN] * len(sts)
                w = w.outer
        if n == "__class__" or n in self.m.ns:
            self.say("name", True, e, n)
            v = self.W.single(self.m.ns.get(n)) or UNKNOWN
            return [v] * len(sts)
        if n in BUILTINS or (self.m.cy and n in CYBUILTINS):
            self.say("name", True, e, n)
            return [("builtin", n)] * len(sts)
        if self.m.cy and n in cy_names(self.m):
            return [UNKNOWN] * len(sts)
        if "*" in self.m.ns:
            self.say("name", None, e, n, "may come from a star import")
            return [UNKNOWN] * len(sts)
        self.say("name", False, e, n, "name %s is bound nowhere" % n)
        return [UNKNOWN] * len(sts)

    def e_Attribute(self, e, sts):
        return self.attr(e, sts)

    def attr(self, e, sts):
        bs = self.expr(e.value, sts)
        out = []
        memo = {}
        for st, b in zip(sts, bs):
            if implied(st.facts, "hasattr(%s, %r)" % (ast.unparse(e.value), e.attr)):
                out.append(UNKNOWN)
                continue
            k = vkey(b)
            if k not in memo:
                memo[k] = self.attr1(e, b)
            out.append(memo[k])
        return out

    def attr1(self, e, b):
        what = "%s.%s" % (ast.unparse(e.value)[:60], e.attr)
        if b[0] == "num":
            b = ("type", int)
        if b[0] == "mod":
            v = self.W.member(b[1], e.attr)
            if v is None and e.attr.startswith("__"):
                return UNKNOWN
            self.say("attribute", v is not None, e, what, "" if v else "module %s has no %s" % (b[1], e.attr))
            return v or UNKNOWN
        if b[0] == "ext":
            p = b[1] + "." + e.attr
            q = introspect.query(p)
            if self.m.cy and q["exists"] is False and b[1] == "numpy":
                return UNKNOWN if cy_numpy(e.attr) else (self.say("attribute", False, e, what, q.get("err")) or UNKNOWN)
            base = introspect.query(b[1])
            if q["exists"] is False and base.get("kind") == "class" and e.attr in (base.get("selfattrs") or ()):
                return UNKNOWN
            if q["exists"] is False and base.get("kind") not in ("module", "class"):
                return UNKNOWN
            self.say("attribute", q["exists"], e, what, "" if q["exists"] else "%s does not exist in the installed version (%s)" % (p, q.get("err")))
            return ("ext", p) if q["exists"] else UNKNOWN
        if b[0] in ("inst", "class"):
            c = b[1]
            h = c.has(e.attr)
            if b[0] == "class" and h is not True and e.attr in dir(type):
                return UNKNOWN
            if h is False and b[0] == "inst":
                # a mixin may rely on its subclasses
                if c.subs and all(s.has(e.attr) is not False for s in c.subs):
                    return UNKNOWN
                if self.W_assigned(e.attr):
                    return UNKNOWN
            if h is not None:
                self.say("attribute", h, e, what, "" if h else "%s has no attribute %s" % (c.qual, e.attr))
            m = c.find(e.attr)
            if m is not None and m[0] == "func":
                if any(e.attr in s.members for s in c.subs):
                    return UNKNOWN
                fn = m[1]
                if not fn.deco:
                    return ("method", fn, 1 if b[0] == "inst" else 0)
                if fn.deco == ["staticmethod"]:
                    return ("method", fn, 0)
                if fn.deco == ["classmethod"]:
                    return ("method", fn, 1)
            return UNKNOWN
        if b[0] == "type":
            ok = hasattr(b[1], e.attr)
            self.say("attribute", ok, e, what, "" if ok else "%s objects have no attribute %s" % (b[1].__name__, e.attr))
            return ("tmeth", b[1], e.attr) if ok else UNKNOWN
        if b[0] == "einst":
            q = introspect.query(b[1])
            at = q.get("attrs")
            if at is None or "__getattr__" in at:
                return UNKNOWN
            ok = e.attr in at or e.attr in (q.get("selfattrs") or ())
            if not ok and q.get("selfattrs") is None:
                return UNKNOWN
            self.say("attribute", ok, e, what, "" if ok else "%s objects have no attribute %s" % (b[1], e.attr))
            return ("emeth", b[1], e.attr) if ok else UNKNOWN
        if b[0] == "func":
            # attributes of functions are assigned somewhere in the package (default_options)
            ok = self.W_fattr(b[1], e.attr)
            self.say("attribute", ok, e, what, "" if ok else "function %s has no attribute %s" % (b[1].qual, e.attr))
            return UNKNOWN
        if b == UNKNOWN or b[0] in ("tmeth", "emeth"):
            ok = e.attr in self.W.universe()
            self.say("attribute name", ok, e, what, "" if ok else "no object of the package, its dependencies or the language has an attribute %s" % e.attr)
        return UNKNOWN

    def W_assigned(self, attr):
        """Some code of the package stores this attribute on some object that is not self."""
        W = self.W
        if not hasattr(W, "_stored"):
            W._stored = set()
            for m in W.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                        W._stored.add(n.attr)
        return attr in W._stored

    def W_fattr(self, fn, attr):
        if attr.startswith("__"):
            return True
        return True if self.W_assigned(attr) else False

    def e_Call(self, e, sts):
        fs = self.expr(e.func, sts)
        avs = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = True
                self.expr(a.value, sts)
            else:
                avs.append(self.expr(a, sts))
        kws = []
        for k in e.keywords:
            self.expr(k.value, sts)
            if k.arg is None:
                star = True
            else:
                kws.append(k.arg)
        name = ast.unparse(e.func)
        # method calls may change what pure conditions depend on
        if isinstance(e.func, ast.Attribute):
            r = e.func
            while isinstance(r, (ast.Attribute, ast.Subscript, ast.Call)):
                r = r.func if isinstance(r, ast.Call) else r.value
            if isinstance(r, ast.Name) and r.id in self.locals:
                for s in sts:
                    kill_deep(s, r.id)
        for a in e.args:
            if isinstance(a, ast.Name) and name.split(".")[-1] not in PURECALLS and name not in PURECALLS:
                for s in sts:
                    kill_deep(s, a.id)
        out = []
        memo = {}
        for i, f in enumerate(fs):
            k = vkey(f)
            if k not in memo:
                memo[k] = self.call1(e, name, f, len([a for a in e.args if not isinstance(a, ast.Starred)]), kws, star)
            out.append(memo[k])
        return out

    def call1(self, e, name, f, n, kws, star):
        if f[0] in ("func", "method"):
            fn = f[1]
            skip = f[2] if f[0] == "method" else 0
            why = self.fit(fn, n, kws, skip, star)
            self.say("signature", why is None, e, "%s(...)" % name[:60], "" if why is None else "%s %s" % (fn.qual, why))
            return UNKNOWN
        if f[0] == "class":
            c = f[1]
            ini = c.find("__init__") or c.find("__new__")
            if c.find("__new__") and c.find("__init__"):
                return ("inst", c)
            if ini is not None and ini[0] == "func" and not ini[1].deco:
                why = self.fit(ini[1], n, kws, 1, star)
                self.say("signature", why is None, e, "%s(...)" % name[:60], "" if why is None else "%s %s" % (ini[1].qual, why))
            elif ini is None and not any(isinstance(b, str) for k in c.mro() for b in k.bases) and not c.open:
                ok = star or (n == 0 and not kws)
                self.say("signature", ok, e, "%s(...)" % name[:60], "" if ok else "%s takes no arguments" % c.qual)
            return ("inst", c)
        if f[0] == "ext":
            q = introspect.query(f[1])
            if q.get("kind") in ("module", "value") and q["exists"]:
                if q["kind"] == "module":
                    self.say("signature", False, e, "%s(...)" % name[:60], "%s is a module" % f[1])
                return UNKNOWN
            s = q.get("sig")
            if s is not None:
                why = fits_sig(s, n, kws, star)
                self.say("signature", why is None, e, "%s(...)" % name[:60], "" if why is None else "%s %s" % (f[1], why))
            elif q.get("ufunc") and not star:
                ok = n <= (q.get("nin") or 9) + (q.get("nout") or 9)
                ok = ok and n >= (q.get("nin") or 0)
                bad = [k for k in kws if k not in ("out", "where", "axes", "axis", "keepdims", "casting", "order", "dtype", "subok", "signature", "extobj")]
                self.say("signature", ok and not bad, e, "%s(...)" % name[:60], "" if ok and not bad else "%s does not take %d arguments%s" % (f[1], n, " and %s" % bad if bad else ""))
            if q.get("kind") == "class":
                return ("einst", f[1])
            if f[1] in NDARRAY and not self.m.cy:
                return ("einst", "numpy.ndarray")
            return UNKNOWN
        if f[0] == "emeth":
            q = introspect.query(f[1] + "." + f[2])
            s = q.get("sig")
            if s is not None and s and s[0][0] == "self":
                why = fits_sig(s, n + 1, kws, star)
                self.say("signature", why is None, e, "%s(...)" % name[:60], "" if why is None else "%s.%s %s" % (f[1], f[2], why))
            return UNKNOWN
        if f[0] == "builtin" and f[1] in ("list", "dict", "set", "str", "tuple", "sorted"):
            return ("type", {"sorted": list}.get(f[1]) or getattr(builtins, f[1]))
        if f[0] == "builtin":
            q = introspect.query("builtins." + f[1])
            s = q.get("sig") if q.get("kind") == "callable" else None
            if s is not None:
                why = fits_sig(s, n, kws, star)
                self.say("signature", why is None, e, "%s(...)" % name[:60], "" if why is None else "%s %s" % (f[1], why))
            if f[1] in ("len",) and not star:
                pass
        if f[0] == "mod":
            self.say("signature", False, e, "%s(...)" % name[:60], "%s is a module" % f[1])
        if f[0] == "type":
            self.say("signature", False, e, "%s(...)" % name[:60], "%s objects are not callable" % f[1].__name__)
        return UNKNOWN

    def fit(self, fn, n, kws, skip, star):
        if not star:
            return fn.fits(n, kws, skip)
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if n + skip > len(pos) and a.vararg is None:
            return "takes %d positional arguments, gets at least %d" % (len(pos) - skip, n)
        for k in kws:
            if k in pos[:n + skip]:
                return "gets several values for %r" % k
            if k not in pos and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
                return "has no parameter %r" % k
        return None


class Comp:
    def __init__(self, w):
        self.w = w


# functions of numpy that return arrays for any argument
NDARRAY = {"numpy.array", "numpy.asarray", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.eye", "numpy.arange", "numpy.linspace", "numpy.hstack", "numpy.vstack", "numpy.concatenate",
           "numpy.diag", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.append", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.reshape", "numpy.logspace", "numpy.tile", "numpy.roots",
           "numpy.poly"}


def vkey(v):
    return tuple(id(x) if isinstance(x, (Fn, Cls)) else x for x in v)


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def all_stores(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name):
                out.append(b.id)
    return out


def all_paths_raise(body):
    s = body[-1]
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and all_paths_raise(s.body) and all_paths_raise(s.orelse)
    return False


NEG = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.GtE: ast.Lt, ast.LtE: ast.Gt}


def canon(e):
    """(text, polarity) of a pure condition."""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op = e.ops[0]
        pos = True
        if type(op) in NEG:
            op, pos = NEG[type(op)](), False
        l, r = e.left, e.comparators[0]
        if isinstance(op, ast.Gt):
            op, l, r = ast.Lt(), r, l
        if isinstance(op, (ast.Eq, ast.Is)) and ast.unparse(l) > ast.unparse(r):
            l, r = r, l
        return ast.unparse(ast.Compare(l, [op], [r])), pos
    return ast.unparse(e), True


def implied(facts, k):
    v = facts.get(k)
    if v is not None:
        return v
    # x == 'a' excludes x == 'b'
    if " == " in k and k.count(" == ") == 1:
        try:
            t = ast.parse(k, mode="eval").body
        except SyntaxError:
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
        if isinstance(r, ast.Constant):
            for f, val in facts.items():
                if val and " == " in f:
                    try:
                        u = ast.parse(f, mode="eval").body
                    except SyntaxError:
                        continue
                    if not isinstance(u, ast.Compare):
                        continue
                    a, b = u.left, u.comparators[0]
                    if isinstance(a, ast.Constant):
                        a, b = b, a
                    if isinstance(b, ast.Constant) and ast.unparse(a) == ast.unparse(l) and b.value != r.value:
                        return False
    return None


def names_in(k):
    try:
        return {n.id for n in ast.walk(ast.parse(k, mode="eval")) if isinstance(n, ast.Name)}
    except SyntaxError:
        return set()


_ni = {}


def kill(s, name):
    base = name.split(".")[0].split("[")[0]
    for k in list(s.facts):
        if k not in _ni:
            _ni[k] = names_in(k)
        if base in _ni[k]:
            del s.facts[k]


def kill_deep(s, name):
    """The object may change, the binding does not: identity and type tests survive."""
    for k in list(s.facts):
        if k not in _ni:
            _ni[k] = names_in(k)
        if name in _ni[k] and not (" is " in k or k.startswith("isinstance(") or k == name):
            del s.facts[k]


def cy_names(m):
    return set(getattr(m.tree, "cy_cimports", ()) or ())


def cy_numpy(attr):
    return attr.endswith("_t") or attr.startswith(("PyArray", "NPY_")) or attr in ("import_array", "ndarray")


def fits_sig(sig, n, kws, star):
    pos = [p for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
    var = any(p[1] == "VAR_POSITIONAL" for p in sig)
    kw = any(p[1] == "VAR_KEYWORD" for p in sig)
    if n > len(pos) and not var:
        return "takes %d positional arguments, gets %d" % (len(pos), n)
    given = {p[0] for p in pos[:n]}
    names = {p[0] for p in sig if p[1] in ("POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY")}
    for k in kws:
        if k in given and k in names:
            return "gets several values for %r" % k
        if k not in names and not kw:
            return "has no parameter %r" % k
    if not star:
        missing = [p[0] for p in sig if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY") and p[2] is None and p[0] not in given and p[0] not in kws]
        if missing:
            return "misses %s" % missing
    return None
