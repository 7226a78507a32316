"""Abstract interpreter over the syntax tree of the repository (Python and Cython sources).

A forward value-graph analysis (gated value numbering): every expression is given a term
of terms.py, control-flow joins become `ite` gates, loops become closed `loop`/`map`/`sum`
terms through one summarised body pass over bound symbols, heap objects carry origins
(parameter / global / fresh) and alias links.  Nothing of the repository is executed and no
paths are enumerated or handed to a solver.
"""
import ast
import os

from . import terms as T
from .terms import (mk, const, sym, add, sub, mul, div, power, neg, ite, land, lor, lnot, lt0, eq0,
                    NONE, TRUE, FALSE, ZERO, ONE, Term, is_num, num, is_str, pyval)

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"


class AnalysisError(Exception):
    pass


class Dead(Exception):
    """The current abstract state has no normal continuation."""


# ---------------------------------------------------------------- values
class V(object):
    __slots__ = ()


class Unbound(V):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = Unbound()


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


class VTuple(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, VTuple) and len(o.items) == len(self.items) and all(same(a, b) for a, b in zip(self.items, o.items))

    def __hash__(self):
        return hash(("t", len(self.items)))

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class VExt(V):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, VExt) and o.path == self.path

    def __hash__(self):
        return hash(("x", self.path))

    def __repr__(self):
        return "<%s>" % self.path


class VMod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, VMod) and o.name == self.name

    def __hash__(self):
        return hash(("m", self.name))

    def __repr__(self):
        return "<module %s>" % self.name


class VBound(V):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, VBound) and same(o.func, self.func) and same(o.self_, self.self_)

    def __hash__(self):
        return 7


class VMeth(V):
    """Method of a non-instance value, resolved by name."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __eq__(self, o):
        return isinstance(o, VMeth) and same(o.recv, self.recv) and o.name == self.name

    def __hash__(self):
        return 9


class VChoice(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __eq__(self, o):
        return isinstance(o, VChoice) and o.cond is self.cond and same(o.a, self.a) and same(o.b, self.b)

    def __hash__(self):
        return hash(self.cond)

    def __repr__(self):
        return "Choice(%r, %r, %r)" % (self.cond, self.a, self.b)


class VSlice(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, VSlice) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return 11


class VRange(V):
    """Symbolic range lo, lo+step, ... < hi."""
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, VRange) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return 13


class VSeq(V):
    """Lazy symbolic iterator: count term and element function(index term)->value."""
    __slots__ = ("count", "fn", "tag")

    def __init__(self, count, fn, tag=None):
        self.count = count
        self.fn = fn
        self.tag = tag


class VPtr(V):
    """Typed raw pointer into an array object."""
    __slots__ = ("arr", "off", "ctype")

    def __init__(self, arr, off, ctype):
        self.arr, self.off, self.ctype = arr, off, ctype

    def __eq__(self, o):
        return isinstance(o, VPtr) and o.arr == self.arr and o.off is self.off and o.ctype == self.ctype

    def __hash__(self):
        return 17


class VAddr(V):
    """&x of a scalar C variable."""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val


class VObj(V):
    """Base of client-defined abstract objects (checkers subclass this)."""
    __slots__ = ()

    def binop(self, it, op, other, swapped, node):
        return NotImplemented

    def unop(self, it, op, node):
        return NotImplemented

    def getattr(self, it, name, node):
        return NotImplemented

    def getitem(self, it, idx, node):
        return NotImplemented

    def call(self, it, args, kw, node):
        return NotImplemented

    def compare(self, it, op, other, swapped, node):
        return NotImplemented

    def pytype(self, it):
        return None

    def term(self, it):
        return mk("obj", id(self))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Term) or isinstance(b, Term):
        return False
    return a == b


class HObj(object):
    """Immutable heap record (replaced on write)."""
    __slots__ = ("kind", "data", "origin", "base", "meta")

    def __init__(self, kind, data, origin=None, base=None, meta=None):
        self.kind = kind
        self.data = data
        self.origin = origin
        self.base = base      # for views: (Ref, view-kind, index term)
        self.meta = meta or {}

    def with_data(self, data):
        return HObj(self.kind, data, self.origin, self.base, self.meta)

    def with_meta(self, **kw):
        m = dict(self.meta)
        m.update(kw)
        return HObj(self.kind, self.data, self.origin, self.base, m)


class FInfo(object):
    """Static part of a function object."""

    def __init__(self, node, env, name, module, defaults, kwdefaults, qual, cls=None):
        self.node, self.env, self.name, self.module = node, env, name, module
        self.defaults, self.kwdefaults, self.qual, self.cls = defaults, kwdefaults, qual, cls


class CInfo(object):
    def __init__(self, name, module, bases, env):
        self.name, self.module, self.bases, self.env = name, module, bases, env


class State(object):
    __slots__ = ("heap", "pc")

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def fork(self, lit=None):
        pc = self.pc
        if lit is not None and lit is not TRUE:
            pc = pc + (lit,)
        return State(dict(self.heap), pc)


class Event(object):
    __slots__ = ("kind", "what", "args", "kw", "pc", "node", "stack", "extra", "st", "terms", "mem")

    def __init__(self, kind, what, args, kw, pc, node, stack, extra=None, st=None):
        self.terms = None
        self.kind, self.what, self.args, self.kw, self.pc = kind, what, args, kw, pc
        self.node, self.stack, self.extra, self.st = node, stack, extra, st

    def where(self):
        f = self.stack[-1] if self.stack else ("?", "?")
        fn = getattr(self.node, "src_file", None) or f[0]
        return "%s:%s in %s" % (os.path.relpath(fn, os.path.dirname(SRC)) if fn.startswith("/") else fn,
                                getattr(self.node, "lineno", "?"), f[1])

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.what, self.where())


class Raised(object):
    __slots__ = ("st", "exc", "node", "stack", "args", "implicit")

    def __init__(self, st, exc, node, stack, args=(), implicit=False):
        self.st, self.exc, self.node, self.stack, self.args, self.implicit = st, exc, node, stack, args, implicit

    def where(self):
        return Event("raise", self.exc, (), {}, (), self.node, self.stack).where()


class Frame(object):
    __slots__ = ("env", "fi", "returns", "loops", "globals", "nonlocals", "locals")

    def __init__(self, env, fi):
        self.env, self.fi = env, fi
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.locals = None


EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "LookupError": "Exception",
    "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "AttributeError": "Exception", "NameError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception", "UnboundLocalError": "NameError",
    "AssertionError": "Exception", "OSError": "Exception", "IOError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "PendingDeprecationWarning": "Warning",
    "RuntimeWarning": "Warning", "FutureWarning": "Warning", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "MemoryError": "Exception", "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "RecursionError": "RuntimeError",
    "FloatingPointError": "ArithmeticError", "EOFError": "Exception", "GeneratorExit": "BaseException",
}

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__) | {"xrange", "unicode", "__cast__", "__addr__"}

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul",
          "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
CMPD = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
FLIP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}

UNROLL = 40
MAXDEPTH = 40
MAXREC = 4
MAXSTEPS = 400000


def _has_break(body):
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _has_break(getattr(s, f, [])):
                return True
        if isinstance(s, ast.Try) and any(_has_break(h.body) for h in s.handlers):
            return True
    return False


class Interp(object):
    def __init__(self, external=(), implicit_exc=False, lib=None, src=None):
        self.src = src or SRC
        self.base = {}
        self.next = 1
        self.st = State({}, ())
        self.sinks = []
        self.events = []
        self.frames = []
        self.stack = []
        self.trees = {}
        self.cover = set()
        self.modules = {}
        self.external = tuple(external)
        self.implicit_exc = implicit_exc
        self.active = {}
        self.steps = 0
        self.maxrec, self.maxdepth = MAXREC, MAXDEPTH
        self.fresh = 0
        self.module_files = {}
        self.try_depth = 0
        self.born = {}
        self.imprecise = []       # reasons the analysis gave up precision
        self.facts = []
        from . import lib as _lib
        self.lib = _lib.Lib(self) if lib is None else lib(self)

    # ------------------------------------------------------------ heap
    def get(self, r):
        i = r.id if isinstance(r, Ref) else r
        o = self.st.heap.get(i)
        if o is None:
            o = self.base.get(i)
            if o is None:
                o = self.born.get(i)
                if o is not None:
                    # allocated in a loop body or on a path whose heap was dropped
                    if o.kind == "arr" and not o.base:
                        # the contents are forgotten; the shape is that at birth, arrays do not change shape in place
                        sh = self.lib.shape(o.data) if isinstance(o.data, Term) else None
                        known = sh is not None and all(T.num(x) is not None for x in sh)
                        o = HObj("arr", sym("lost#%d" % i, kind="arr", **({"shape": sh} if known else {})), o.origin, None, o.meta)
                    self.note("object outlives the loop that made it")
                    if self.st is not None:
                        self.st.heap[i] = o
        return o

    def put(self, r, o):
        self.st.heap[r.id if isinstance(r, Ref) else r] = o

    def alloc(self, o):
        i = self.next
        self.next += 1
        self.st.heap[i] = o
        self.born[i] = o
        return Ref(i)

    def newsym(self, prefix, **info):
        self.fresh += 1
        return sym("%s#%d" % (prefix, self.fresh), **info)

    def arr(self, term, **meta):
        return self.alloc(HObj("arr", term, meta=meta))

    def newdict(self, items=(), origin=None):
        d = {}
        for k, v in items:
            d[k] = (TRUE, v)
        return self.alloc(HObj("dict", (d, None), origin))

    def newlist(self, items, origin=None):
        return self.alloc(HObj("list", tuple(items), origin))

    def commit_globals(self):
        """Move everything allocated so far to the base heap (module initialisation)."""
        self.base.update(self.st.heap)
        self.st = State({}, ())

    # ------------------------------------------------------------ events
    traced = False

    def event(self, kind, what, args=(), kw=None, node=None, extra=None):
        e = Event(kind, what, args, kw or {}, self.st.pc if self.st else (), node, tuple(self.stack), extra,
                  self.st)
        if self.traced and kind in ("extcall", "method", "extwrite"):
            # arguments as they are now (later writes change the objects)
            e.terms = (tuple(self.argterm(a) for a in args), tuple((k, self.kwterm(v)) for k, v in sorted(e.kw.items())))
        if kind in ("raw", "gemv", "copy"):
            e.mem = tuple(self._pointee(a) for a in args)
        self.events.append(e)
        return e

    def _pointee(self, p):
        """[(array, what is known of its storage, its shape, a live variable holds it)] of a pointer, now."""
        if not isinstance(p, VPtr):
            return None
        alts, k = [(p.arr, ())], 0
        while k < len(alts):
            a, c = alts[k]
            if isinstance(a, VChoice):
                alts[k:k + 1] = [(a.a, c + (a.cond,)), (a.b, c + (lnot(a.cond),))]
            else:
                k += 1

        def root(r):
            while isinstance(r, Ref) and self.get(r) is not None and self.get(r).base is not None:
                r = self.get(r).base[0]
            return r
        held = []
        for f in self.frames:
            env = self.get(f.env)
            for v in env.data.values() if env is not None else ():
                vs = [v]
                while vs:
                    v = vs.pop()
                    if isinstance(v, VChoice):
                        vs += [v.a, v.b]
                    elif isinstance(v, Ref):
                        held.append(root(v))

        def loose(r):
            """Storage chosen by the caller, or a view with other strides."""
            o = self.get(r) if isinstance(r, Ref) else None
            while o is not None and o.base is not None:
                if o.base[1] in ("getitem", "T", "real", "imag"):
                    return True
                r = o.base[0]
                o = self.get(r) if isinstance(r, Ref) else None
            return o is not None and (o.origin is not None or bool(o.meta.get("loose")))
        out = []
        for a, c in alts:
            if not isinstance(a, Ref) or self.get(a) is None:
                out.append((None, {}, None, False, c))
            else:
                r = root(a)
                out.append((a, dict(self.get(a).meta, loose=loose(a)), self.lib.alternatives(self.term(a)), r in held or self.get(r).origin is not None, c))
        return out

    def note(self, why, node=None):
        self.imprecise.append((why, getattr(node, "lineno", None), self.stack[-1] if self.stack else None))

    # ------------------------------------------------------------ raising
    def raise_(self, exc, node=None, args=(), implicit=False):
        """Record a definite raise in the current state and stop it."""
        self.sinks[-1].append(Raised(self.st, exc, node, tuple(self.stack), args, implicit))
        raise Dead()

    def raise_if(self, cond, exc, node=None, args=(), implicit=False):
        cond = self.decide(cond)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.raise_(exc, node, args, implicit)
        s = self.st.fork(cond)
        self.sinks[-1].append(Raised(s, exc, node, tuple(self.stack), args, implicit))
        self.st.pc = self.st.pc + (lnot(cond),)

    def may_raise(self, node, what):
        """An operation that may raise something unspecified (external code)."""
        if self.implicit_exc and self.try_depth:
            c = mk("exc", what, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
            s = self.st.fork(c)
            self.sinks[-1].append(Raised(s, VExt("builtins.Exception"), node, tuple(self.stack), (), True))

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        if c is TRUE or c is FALSE:
            return c
        from .facts import decide
        return decide(c, self.st.pc)

    # ------------------------------------------------------------ merging
    def join_val(self, c, a, b):
        if a is b or same(a, b):
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(c, a, b)
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([self.join_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VSlice) and isinstance(b, VSlice):
            return VSlice(self.join_val(c, a.lo, b.lo), self.join_val(c, a.hi, b.hi), self.join_val(c, a.step, b.step))
        if isinstance(b, VChoice) and b.cond is c:
            b = b.b
            return self.join_val(c, a, b)
        if isinstance(a, VChoice) and a.cond is c:
            return self.join_val(c, a.a, b)
        if isinstance(a, VPtr) and isinstance(b, VPtr) and a.arr == b.arr and a.ctype == b.ctype:
            return VPtr(a.arr, ite(c, a.off, b.off), a.ctype)
        return VChoice(c, a, b)

    def join_obj(self, c, oa, ob, sa, sb):
        if oa.kind != ob.kind:
            return HObj("arr", ite(c, self._oterm(oa, sa), self._oterm(ob, sb)), oa.origin or ob.origin, oa.base or ob.base)
        k = oa.kind
        meta = {x: y for x, y in oa.meta.items() if ob.meta.get(x) is y or ob.meta.get(x) == y}
        if k == "env" or k == "inst":
            d = {}
            for n in list(oa.data) + [n for n in ob.data if n not in oa.data]:
                va, vb = oa.data.get(n, UNBOUND), ob.data.get(n, UNBOUND)
                d[n] = self.join_val(c, va, vb)
            return HObj(k, d, oa.origin, None, meta)
        if k == "arr" or k == "slist":
            if oa.base is not None and ob.base is not None and oa.base == ob.base:
                return HObj(k, None, oa.origin, oa.base, meta)
            return HObj(k, ite(c, self._oterm(oa, sa), self._oterm(ob, sb)), oa.origin, oa.base or ob.base, meta)
        if k == "list":
            if len(oa.data) == len(ob.data):
                return HObj(k, tuple(self.join_val(c, x, y) for x, y in zip(oa.data, ob.data)), oa.origin, None, meta)
            return HObj("slist", ite(c, self._oterm(oa, sa), self._oterm(ob, sb)), oa.origin, None, meta)
        if k == "dict":
            da, ra = oa.data
            db, rb = ob.data
            d = {}
            for n in list(da) + [n for n in db if n not in da]:
                if n in da and n in db:
                    (ca, va), (cb, vb) = da[n], db[n]
                    d[n] = (ite(c, ca, cb), va if same(va, vb) else self.join_val(c, va, vb))
                elif n in da:
                    d[n] = (land(c, da[n][0]), da[n][1])
                else:
                    d[n] = (land(lnot(c), db[n][0]), db[n][1])
            return HObj(k, (d, ra if ra is rb else (ra or rb)), oa.origin, None, meta)
        if k == "func":
            fi, aa = oa.data
            _, ab = ob.data
            d = {}
            for n in list(aa) + [n for n in ab if n not in aa]:
                d[n] = self.join_val(c, aa.get(n, UNBOUND), ab.get(n, UNBOUND))
            return HObj(k, (fi, d), oa.origin, None, meta)
        return oa

    def _oterm(self, o, st):
        save = self.st
        self.st = st
        try:
            return self.obj_term(o)
        finally:
            self.st = save

    def merge2(self, c, sa, sb, pc):
        if sa is None:
            return sb
        if sb is None:
            return sa
        h = dict(sa.heap)
        out = State(h, pc)
        for i, ob in sb.heap.items():
            oa = h.get(i)
            if oa is ob:
                continue
            if oa is None:
                oa = self.base.get(i)
                if oa is None:
                    h[i] = ob
                    continue
                if oa is ob:
                    continue
            h[i] = self.join_obj(c, oa, ob, sa, sb)
        for i, oa in sa.heap.items():
            if i not in sb.heap:
                ob = self.base.get(i)
                if ob is not None and ob is not oa:
                    h[i] = self.join_obj(c, oa, ob, sa, sb)
        return out

    def merge(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        n = min(len(s.pc) for s in sts)
        k = 0
        while k < n and all(s.pc[k] is sts[0].pc[k] for s in sts):
            k += 1
        return self._merge(sts, k)

    def _merge(self, sts, k):
        if len(sts) == 1:
            return sts[0]
        n = min(len(s.pc) for s in sts)
        while k < n and all(s.pc[k] is sts[0].pc[k] for s in sts):
            k += 1
        prefix = sts[0].pc[:k]
        rests = [s.pc[k:] for s in sts]
        if rests[0]:
            l = rests[0][0]
            nl = lnot(l)
            A = [s for s in sts if len(s.pc) > k and s.pc[k] is l]
            B = [s for s in sts if len(s.pc) > k and s.pc[k] is nl]
            if len(A) + len(B) == len(sts) and B:
                a, b = self._merge(A, k), self._merge(B, k)
                ra, rb = a.pc[k:], b.pc[k:]
                if len(ra) == 1 and len(rb) == 1:
                    pc = prefix
                else:
                    x = lor(land(*ra), land(*rb))
                    # (l & X) | (~l & Y)
                    pc = prefix + (() if x is TRUE else (x,))
                return self.merge2(l, a, b, pc)
        # generic
        first, others = sts[0], sts[1:]
        o = self._merge(others, k)
        c = land(*first.pc[k:])
        x = lor(c, land(*o.pc[k:]))
        return self.merge2(c, first, o, prefix + (() if x is TRUE else (x,)))

    # ------------------------------------------------------------ term view of values
    def obj_term(self, o):
        k = o.kind
        if k == "arr" or k == "slist":
            if o.base is not None and o.data is None:
                b, vk, idx = o.base
                return self.lib.view_term(vk, self.term(b), idx)
            return o.data
        if k == "list":
            return mk("vec", *[self.term(v) for v in o.data])
        if k == "dict":
            d, rest = o.data
            out = []
            for n, (c, v) in sorted(d.items(), key=lambda kv: repr(kv[0])):
                out.append(mk("kv", self._keyterm(n), ite(c, self.term(v), mk("absent"))))
            if rest is not None:
                out.append(mk("rest", rest))
            return mk("dict", *out)
        if k == "inst":
            return mk("inst", o.data.get("__class__name", "?"), *[mk("kv", const(n), self.term(v)) for n, v in sorted(o.data.items()) if n != "__class__" and not n.startswith("__")])
        if k == "func":
            return mk("fn", o.data[0].qual)
        if k == "class":
            return mk("cls", o.data.name)
        return mk("obj", k)

    def _keyterm(self, n):
        return n if isinstance(n, Term) else mk("instid", n.id) if isinstance(n, Ref) else const(n)

    def term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            o = self.get(v)
            if o is None:
                return mk("dangling", v.id)
            if o.kind == "func":
                return self.lam(v)
            if v.id in self._term_active:
                return mk("cycle", len(self._term_active) - self._term_active.index(v.id))
            self._term_active.append(v.id)
            try:
                return self.obj_term(o)
            finally:
                self._term_active.pop()
        if isinstance(v, VTuple):
            return mk("vec", *[self.term(x) for x in v.items])
        if isinstance(v, VChoice):
            if v.a is UNBOUND:
                return self.term(v.b)
            if v.b is UNBOUND:
                return self.term(v.a)
            return ite(v.cond, self.term(v.a), self.term(v.b))
        if isinstance(v, VExt):
            return mk("ext", v.path)
        if isinstance(v, VMod):
            return mk("mod_", v.name)
        if isinstance(v, VSlice):
            return mk("slice", self.term(v.lo), self.term(v.hi), self.term(v.step))
        if isinstance(v, VRange):
            return self.lib.arange_term(v.lo, v.hi, v.step)
        if isinstance(v, VBound):
            return mk("bound", self.term(v.func) if not isinstance(v.func, Ref) else self.obj_term(self.get(v.func)), self.term(v.self_))
        if isinstance(v, VMeth):
            return mk("meth", self.term(v.recv), v.name)
        if isinstance(v, VSeq):
            return self.seq_term(v)
        if isinstance(v, VPtr):
            return mk("ptr", self.term(v.arr), v.off)
        if isinstance(v, VAddr):
            return mk("addr", self.term(v.val))
        if isinstance(v, VObj):
            return v.term(self)
        if v is UNBOUND:
            return mk("unbound")
        raise AnalysisError("no term for %r" % (v,))

    def seq_term(self, v):
        i = self.newsym("i", kind="int")
        e = self.term(v.fn(i))
        return bind("map", v.count, i, e)

    _lam_active = ()
    _term_active = []

    def lam(self, ref):
        """Closed lambda term of a function object (inlined body applied to bound symbols)."""
        o = self.get(ref)
        fi = o.data[0]
        a = fi.node.args
        npos = len(a.posonlyargs) + len(a.args) - len(fi.defaults)
        if fi.qual in self._lam_active or fi.node.args.vararg or len(self._lam_active) > 6:
            return mk("fn", fi.qual)
        save = self._lam_active
        self._lam_active = save + (fi.qual,)
        syms = [self.newsym("a", kind="any") for _ in range(npos)]
        st0 = self.st
        ev0 = len(self.events)
        try:
            self.st = st0.fork()
            self.sinks.append([])
            try:
                v = self.call_func(ref, list(syms), {}, fi.node)
                t = self.term(v)
            except Dead:
                t = mk("raises")
            rs = self.sinks.pop()
        finally:
            self._lam_active = save
            self.st = st0
            if not self.keep_lam_events:
                del self.events[ev0:]
        for s in reversed(syms):
            t = bind("lam", mk("u"), s, t)
        return t

    keep_lam_events = False

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Term):
            if v is NONE or v is FALSE:
                return FALSE
            if v is TRUE or T.isboolt(v):
                return v
            n = num(v)
            if n is not None:
                return TRUE if n != 0 else FALSE
            if v.op == "c":
                return TRUE if v.args[1] else FALSE
            if v.op == "ite":
                return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.op == "vec":
                return TRUE if v.args else FALSE
            if T.INFO.get(v.args[0] if v.op == "sym" else None, {}).get("kind") in ("any", "arr", "obj"):
                return mk("truth", v)
            return lnot(eq0(v))
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == "list":
                return TRUE if o.data else FALSE
            if o.kind == "dict":
                d, rest = o.data
                c = lor(*[x[0] for x in d.values()]) if d else FALSE
                if rest is not None:
                    c = lor(c, mk("truth", rest))
                return c
            if o.kind in ("arr", "slist"):
                t = self.obj_term(o)
                if o.kind == "slist":
                    return lnot(eq0(self.lib.length(t)))
                return self.truth_term(t)
            if o.kind == "inst" and "__payload__" in o.data:
                return self.truth(o.data["__payload__"])
            return TRUE
        if isinstance(v, VTuple):
            return TRUE if v.items else FALSE
        if isinstance(v, VChoice):
            return ite(v.cond, self.truth(v.a), self.truth(v.b))
        return TRUE

    def truth_term(self, t):
        if T.isboolt(t):
            return t
        n = num(t)
        if n is not None:
            return TRUE if n != 0 else FALSE
        if t.op == "ite":
            return ite(t.args[0], self.truth_term(t.args[1]), self.truth_term(t.args[2]))
        if t.op == "vec" and len(t.args) == 1:
            return self.truth_term(t.args[0])
        if t.op in ("poly", "len", "size", "mod", "ndim", "getitem"):
            return lnot(eq0(t))
        return mk("truth", t)

    # ------------------------------------------------------------ names
    def lookup(self, name, node):
        fr = self.frames[-1]
        env = fr.env
        if name in fr.globals:
            env = self.modules[fr.fi.module]
        while env is not None:
            o = self.get(env)
            v = o.data.get(name)
            if v is not None:
                if v is UNBOUND:
                    self.raise_(VExt("builtins.UnboundLocalError"), node, (const(name),))
                if isinstance(v, VChoice) and (v.a is UNBOUND or v.b is UNBOUND):
                    c = v.cond if v.a is UNBOUND else lnot(v.cond)
                    self.raise_if(c, VExt("builtins.UnboundLocalError"), node, (const(name),))
                    return v.b if v.a is UNBOUND else v.a
                return v
            env = o.data.get("__parent__")
        if name in BUILTINS:
            if name == "None":
                return NONE
            return VExt("builtins." + name)
        if name == "__name__":
            return const(self.frames[-1].fi.module)
        if name in ("__file__", "__doc__", "__path__"):
            return const(name)
        self.raise_(VExt("builtins.NameError"), node, (const(name),))

    def setname(self, name, v):
        fr = self.frames[-1]
        env = fr.env
        if name in fr.globals:
            env = self.modules[fr.fi.module]
            self.event("write", "global name " + name, (env,), node=None, extra=[("global", fr.fi.module + "." + name)])
        elif name in fr.nonlocals:
            e = self.get(env).data.get("__parent__")
            while e is not None and name not in self.get(e).data:
                e = self.get(e).data.get("__parent__")
            env = e or env
        o = self.get(env)
        d = dict(o.data)
        d[name] = v
        self.put(env, o.with_data(d))

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.steps += 1
            self.cover.add(id(s))
            if self.steps > MAXSTEPS:
                raise AnalysisError("step budget exceeded")
            try:
                m = getattr(self, "x_" + s.__class__.__name__, None)
                if m is None:
                    raise AnalysisError("statement %s" % s.__class__.__name__)
                m(s)
            except Dead:
                self.st = None
                return

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def x_Assert(self, s):
        c = self.decide(self.truth(self.ev(s.test)))
        self.raise_if(lnot(c), VExt("builtins.AssertionError"), s)

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            m = self.import_module(a.name, s)
            if a.asname:
                self.setname(a.asname, m)
            else:
                self.setname(top, self.import_module(top, s))

    def x_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            cur = self.frames[-1].fi.module
            parts = cur.split(".")
            if not self.is_pkg(cur):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name == "__future__":
            return
        m = self.import_module(name, s)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, VMod):
                    env = self.get(self.modules[m.name])
                    names = None
                    if "__all__" in env.data:
                        al = env.data["__all__"]
                        names = [pyval(self.term(x)) for x in self.items_of(al, s)]
                    else:
                        names = [n for n in env.data if not n.startswith("_")]
                    for n in names:
                        v = env.data.get(n)
                        if v is None and self.find_module(m.name + "." + n):
                            v = self.import_module(m.name + "." + n, s)
                        if v is None:
                            self.raise_(VExt("builtins.AttributeError"), s, (const(n),))
                        self.setname(n, v)
                continue
            self.setname(a.asname or a.name, self.import_from(m, a.name, s))

    def import_from(self, m, n, s):
        if isinstance(m, VMod):
            env = self.get(self.modules[m.name])
            v = env.data.get(n)
            if v is None:
                if self.find_module(m.name + "." + n) or self.is_external(m.name + "." + n):
                    return self.import_module(m.name + "." + n, s)
                self.raise_(VExt("builtins.ImportError"), s, (const(n),))
            return v
        return VExt(m.path + "." + n)

    def find_module(self, name):
        if not name.startswith("pydsm"):
            return None
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        for ext in (".py", ".pyx"):
            if os.path.isfile(p + ext):
                return p + ext
        return None

    def is_pkg(self, name):
        f = self.find_module(name)
        return bool(f) and f.endswith("__init__.py")

    def is_external(self, name):
        return any(name == e or name.startswith(e + ".") for e in self.external)

    def import_module(self, name, node=None):
        if self.is_external(name) or not name.startswith("pydsm"):
            return VExt(name)
        f = self.find_module(name)
        if f is None:
            self.raise_(VExt("builtins.ImportError"), node, (const(name),))
        if name in self.modules:
            return VMod(name)
        parent = name.rpartition(".")[0]
        if parent and parent not in self.modules:
            self.import_module(parent, node)
        self.load(name, f)
        if parent:
            pe = self.modules[parent]
            o = self.get(pe)
            d = dict(o.data)
            d.setdefault(name.rpartition(".")[2], VMod(name))
            self.put(pe, o.with_data(d))
        return VMod(name)

    def load(self, name, f):
        if f.endswith(".pyx"):
            from .cyfront import parse_cython
            tree = parse_cython(f, name)
        else:
            tree = ast.parse(open(f).read(), f)
        self.module_files[name] = f
        self.trees[name] = tree
        env = self.alloc(HObj("env", {"__parent__": None}, origin=None))
        self.modules[name] = env
        fi = FInfo(tree, None, "<module>", name, [], {}, name)
        if getattr(tree, "cy_extern", None):
            o = self.get(env)
            d = dict(o.data)
            for n in tree.cy_extern:
                d[n] = VExt("c." + n)
            self.put(env, o.with_data(d))
        self.frames.append(Frame(env, fi))
        self.stack.append((f, "<module>"))
        save = self.sinks
        self.sinks = [[]] if not save else save
        td = self.try_depth
        # a module imported from inside another is still initialised unconditionally
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.try_depth = td
        if not save:
            if self.st is None:
                r = self.sinks[-1]
                raise AnalysisError("module %s always raises: %s" % (name, [(x.exc, x.args, x.where()) for x in r]))
            self.sinks = save
        elif self.st is None:
            raise Dead()

    def x_FunctionDef(self, s):
        v = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if isinstance(dv, VExt) and dv.path in ("builtins.staticmethod", "builtins.classmethod", "builtins.property"):
                o = self.get(v)
                self.put(v, o.with_meta(deco=dv.path))
                continue
            v = self.call(dv, [v], {}, s)
        self.setname(s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def mkfunc(self, node, name, cls=None):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d)
        fr = self.frames[-1]
        qual = fr.fi.qual + "." + name
        env = fr.env
        if self.get(env).meta.get("classbody"):
            env = self.get(env).data.get("__parent__")
        fi = FInfo(node, env, name, fr.fi.module, defaults, kwd, qual)
        return self.alloc(HObj("func", (fi, {})))

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.frames[-1]
        env = self.alloc(HObj("env", {"__parent__": fr.env}, meta={"classbody": True}))
        fi = FInfo(s, None, s.name, fr.fi.module, [], {}, fr.fi.qual + "." + s.name)
        self.frames.append(Frame(env, fi))
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()
        ci = CInfo(s.name, fr.fi.module, bases, env)
        self.setname(s.name, self.alloc(HObj("class", ci)))

    def x_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        fr = self.frames[-1]
        self.setname_local("__ret__", v)
        fr.returns.append(self.st)
        self.st = None

    def setname_local(self, name, v):
        env = self.frames[-1].env
        o = self.get(env)
        d = dict(o.data)
        d[name] = v
        self.put(env, o.with_data(d))

    def x_Raise(self, s):
        if s.exc is None:
            fr = self.frames[-1]
            cur = getattr(self, "_handling", None)
            self.raise_(cur[-1] if cur else VExt("builtins.RuntimeError"), s)
        e = self.ev(s.exc)
        cls, args = self.exc_class(e)
        self.raise_(cls, s, args)

    def exc_class(self, e):
        if isinstance(e, Ref):
            o = self.get(e)
            if o.kind == "class":
                return e, ()
            if o.kind == "inst":
                return o.data["__class__"], ()
        if isinstance(e, VExt):
            return e, ()
        if isinstance(e, Term) and e.op == "excinst":
            return VExt(e.args[0]), e.args[1:]
        if isinstance(e, VChoice):
            a, x = self.exc_class(e.a)
            return a, x
        return VExt("builtins.Exception"), ()

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.frames[-1].env
                o = self.get(env)
                d = dict(o.data)
                d.pop(t.id, None)
                self.put(env, o.with_data(d))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                self.delitem(o, k, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.write_event(o, t, "del attribute " + t.attr)

    def delitem(self, o, k, node):
        if isinstance(o, VChoice):
            return self.on_choice(o, lambda x: self.delitem(x, k, node))
        self.write_event(o, node, "del item")
        if isinstance(o, Ref):
            h = self.get(o)
            if h.kind == "dict":
                self.dict_pop(o, k, None, node)
            elif h.kind == "list":
                kt = self.term(k)
                n = num(kt)
                if n is not None and -len(h.data) <= n < len(h.data):
                    l = list(h.data)
                    del l[int(n)]
                    self.put(o, h.with_data(tuple(l)))
        elif isinstance(o, Term):
            self.event("method", "__delitem__", (o, k), node=node)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is None:
            ct = getattr(s, "cy_type", None)
            if ct is not None and isinstance(s.target, ast.Name):
                env = self.get(self.frames[-1].env)
                if s.target.id not in env.data:
                    self.setname(s.target.id, UNBOUND if "ndarray" not in ct else NONE)
            return
        v = self.ev(s.value)
        ct = getattr(s, "cy_type", None)
        if ct is not None:
            v = self.lib.ccoerce(v, ct, s)
        self.assign(s.target, v, s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            fi = self.frames[-1].fi
            ct = getattr(fi.node, "cy_types", {}).get(t.id) if hasattr(fi.node, "cy_types") else None
            if ct:
                v = self.lib.ccoerce(v, ct, node)
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items_of(v, node)
                i = star[0]
                m = len(items) - (len(t.elts) - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, node)
                self.assign(t.elts[i].value, self.newlist(items[i:i + m]), node)
                for e, x in zip(t.elts[i + 1:], items[i + m:]):
                    self.assign(e, x, node)
                return
            items = self.unpack(v, len(t.elts), node)
            for e, x in zip(t.elts, items):
                self.assign(e, x, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            raise AnalysisError("assign target")

    def unpack(self, v, n, node):
        if isinstance(v, VChoice):
            a, b = None, None
            st0 = self.st
            c = self.decide(v.cond)
            if c is TRUE:
                return self.unpack(v.a, n, node)
            if c is FALSE:
                return self.unpack(v.b, n, node)
            self.st = st0.fork(c)
            try:
                a = self.unpack(v.a, n, node)
                sa = self.st
            except Dead:
                sa = None
            self.st = st0.fork(lnot(c))
            try:
                b = self.unpack(v.b, n, node)
                sb = self.st
            except Dead:
                sb = None
            if sa is None and sb is None:
                self.st = None
                raise Dead()
            self.st = self.merge([sa, sb])
            if sa is None:
                return b
            if sb is None:
                return a
            return [self.join_val(c, x, y) for x, y in zip(a, b)]
        items = self.items_of(v, node, soft=True)
        if items is not None:
            if len(items) != n:
                self.raise_(VExt("builtins.ValueError"), node, (const("unpack"),))
            return items
        t = self.term(v)
        L = self.lib.length(t)
        if isinstance(v, (Term, Ref)) and t.op not in ("app",):
            c = self.decide(eq0(sub(L, const(n))))
            if c is FALSE:
                self.raise_(VExt("builtins.ValueError"), node, (const("unpack"),))
        return [self.getitem(v, const(i), node) for i in range(n)]

    def items_of(self, v, node, soft=False):
        """Concrete list of the items of an iterable, or None."""
        v = self.payload(v)
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == "list":
                return list(o.data)
            if o.kind == "dict":
                d, rest = o.data
                if rest is None and all(c is TRUE for c, _ in d.values()):
                    return [k if isinstance(k, Ref) else self._keyterm(k) for k in d]
            if o.kind in ("arr", "slist"):
                t = self.obj_term(o)
                if t.op == "vec":
                    return [x if x.op != "vec" else self.arr(x) for x in t.args]
        if isinstance(v, Term):
            if v.op == "vec":
                return list(v.args)
            if is_str(v):
                return [const(ch) for ch in v.args[1]]
        if isinstance(v, VRange):
            lo, hi, step = num(v.lo), num(v.hi), num(v.step)
            if None not in (lo, hi, step) and step:
                r = range(int(lo), int(hi), int(step))
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
        if isinstance(v, VSeq):
            n = num(v.count)
            if n is not None and n <= UNROLL:
                return [v.fn(const(i)) for i in range(int(n))]
        if soft:
            return None
        if isinstance(v, VChoice):
            c = self.decide(v.cond)
            if c is TRUE:
                return self.items_of(v.a, node)
            if c is FALSE:
                return self.items_of(v.b, node)
        raise AnalysisError("iteration over a value of unknown length at line %s: %r" % (getattr(node, "lineno", "?"), v))

    def x_AugAssign(self, s):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, s)
            v = self.ev(s.value)
            self.setname(t.id, self.aug(cur, op, v, s))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            v = self.ev(s.value)
            self.setattr(o, t.attr, self.aug(cur, op, v, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k, t)
            v = self.ev(s.value)
            r = self.aug(cur, op, v, s, inplace=False) if not (isinstance(cur, Ref) and self.get(cur).kind in ("list", "dict")) else self.aug(cur, op, v, s)
            self.setitem(o, k, r, t)

    def aug(self, cur, op, v, node, inplace=True):
        """cur op= v.  Lists and arrays are modified in place."""
        if isinstance(cur, VChoice):
            return self.on_choice(cur, lambda x: self.aug(x, op, v, node, inplace))
        if inplace and isinstance(cur, Ref):
            o = self.get(cur)
            if o.kind == "list" and op == "+":
                self.write_event(cur, node, "+=")
                more = self.items_of(v, node, soft=True)
                if more is not None:
                    self.put(cur, o.with_data(o.data + tuple(more)))
                else:
                    self.put(cur, HObj("slist", mk("concat", self.obj_term(o), self.term(v)), o.origin))
                return cur
            if o.kind in ("list", "slist") and op == "*":
                self.write_event(cur, node, "*=")
                r = self.binop(op, cur, v, node)
                ro = self.get(r) if isinstance(r, Ref) else None
                if ro is not None and ro.kind in ("list", "slist"):
                    self.put(cur, HObj(ro.kind, ro.data, o.origin, o.base, o.meta))
                else:
                    self.put(cur, HObj("slist", self.term(r), o.origin))
                return cur
            if o.kind == "slist" and op == "+":
                self.write_event(cur, node, "+=")
                self.put(cur, HObj("slist", mk("concat", o.data, self.term(v)), o.origin))
                return cur
            if o.kind == "arr":
                self.write_event(cur, node, op + "=")
                r = self.binop(op, cur, v, node)
                self.write_term(cur, self.term(r))
                return cur
            if o.kind == "inst":
                m = self.find_method(o, "__i%s__" % DUNDER[op])
                if m is not None:
                    return self.call(m, [v], {}, node)
            if o.kind == "dict" and op == "|":
                self.dict_update(cur, v, node)
                return cur
        return self.binop(op, cur, v, node)

    def x_If(self, s):
        c = self.decide(self.truth(self.ev(s.test)))
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        st0 = self.st
        self.st = st0.fork(c)
        self.block(s.body)
        sa = self.st
        self.st = st0.fork(lnot(c))
        self.block(s.orelse)
        sb = self.st
        self.st = self.merge([sa, sb])

    def x_Try(self, s):
        sink = []
        self.sinks.append(sink)
        self.try_depth += 1
        fr = self.frames[-1]
        nret = len(fr.returns)
        loops = [fr.loops[-1][0], fr.loops[-1][1]] if fr.loops else []
        lmarks = [len(x) for x in loops]
        st_before = self.st.fork()
        self.block(s.body)
        self.try_depth -= 1
        self.sinks.pop()
        normal = self.st
        late = []
        if s.finalbody:
            # what the handlers and the else branch raise still passes through finally
            self.sinks.append(late)
            self.try_depth += 1
        if normal is not None and s.orelse:
            self.block(s.orelse)
            normal = self.st
        outs = [normal]
        remaining = sink
        for h in s.handlers:
            if h.type is None:
                types = None
            else:
                self.st = st_before.fork()
                tv = self.ev(h.type)
                types = tv.items if isinstance(tv, VTuple) else (tv,)
            caught, rest, maybe = [], [], []
            for r in remaining:
                m = True if types is None else self.exc_match(r, types)
                if m is True:
                    caught.append(r)
                elif m is None:
                    maybe.append(r)
                    rest.append(r)
                else:
                    rest.append(r)
            remaining = rest
            hs = [r.st for r in caught + maybe]
            if not hs:
                continue
            self.st = self.merge([x.fork() for x in hs]) if len(hs) > 1 else hs[0].fork()
            if h.name:
                self.setname(h.name, mk("excval", getattr(h, "lineno", 0)))
            if not hasattr(self, "_handling"):
                self._handling = []
            self._handling.append((caught + maybe)[0].exc)
            self.block(h.body)
            self._handling.pop()
            outs.append(self.st)
        if s.finalbody:
            self.sinks.pop()
            self.try_depth -= 1
            remaining = list(remaining) + late
            for l, k in zip(loops, lmarks):
                new = l[k:]
                del l[k:]
                for x in new:
                    sv = self.st
                    self.st = x
                    self.block(s.finalbody)
                    if self.st is not None:
                        l.append(self.st)
                    self.st = sv
            # normal
            self.st = self.merge(outs)
            if self.st is not None:
                self.block(s.finalbody)
            n2 = self.st
            # exceptional continuations
            for r in remaining:
                self.st = r.st.fork()
                self.block(s.finalbody)
                if self.st is not None:
                    self.sinks[-1].append(Raised(self.st, r.exc, r.node, r.stack, r.args, r.implicit))
            # returns inside the try
            new = fr.returns[nret:]
            del fr.returns[nret:]
            for x in new:
                self.st = x
                self.block(s.finalbody)
                if self.st is not None:
                    fr.returns.append(self.st)
            self.st = n2
        else:
            self.sinks[-1].extend(remaining)
            self.st = self.merge(outs)

    def exc_names(self, e):
        """List of class names (with ancestors) of an exception class value."""
        out = []
        if isinstance(e, VExt):
            n = e.path.split(".")[-1]
            if e.path.startswith("builtins."):
                while n:
                    out.append(n)
                    n = EXC_BASES.get(n)
            elif n == "LinAlgError":
                out += [n, "ValueError", "Exception", "BaseException"]
            else:
                out += [n, "Exception", "BaseException"]
        elif isinstance(e, Ref) and self.get(e).kind == "class":
            ci = self.get(e).data
            out.append(ci.name)
            for b in ci.bases:
                out += self.exc_names(b)
        elif isinstance(e, VChoice):
            return self.exc_names(e.a)
        return out

    def exc_match(self, r, types):
        names = self.exc_names(r.exc)
        if r.implicit:
            if any(set(self.exc_names(t)[:1]) & {"Exception", "BaseException", "builtins.Exception", "builtins.BaseException"} for t in types):
                return True
            return None if any(t for t in types) else False
        for t in types:
            tn = self.exc_names(t)
            if tn and tn[0] in names:
                return True
        return False

    def x_With(self, s):
        self._with(s, 0)

    def _with(self, s, i):
        if i == len(s.items):
            self.block(s.body)
            return
        item = s.items[i]
        cm = self.ev(item.context_expr)
        leave = None
        if isinstance(cm, Ref) and self.get(cm).kind == "inst":
            v = self.call(self.getattr(cm, "__enter__", s), [], {}, s)
            leave = lambda: self.call(self.getattr(cm, "__exit__", s), [NONE, NONE, NONE], {}, s)
        elif isinstance(cm, VObj) and hasattr(cm, "enter"):
            v = cm.enter(self, s)
            leave = lambda: cm.leave(self, s)
        else:
            v = cm
            self.event("enter", self.term(cm), (cm,), node=s)

        def body():
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, s)
            self._with(s, i + 1)
        if leave is None:
            body()
        else:
            self.protected(body, leave)

    def protected(self, body, final):
        """body, then final on every way out of it (normal, exception, return, break, continue)."""
        sink = []
        self.sinks.append(sink)
        self.try_depth += 1
        fr = self.frames[-1]
        lists = [fr.returns] + ([fr.loops[-1][0], fr.loops[-1][1]] if fr.loops else [])
        marks = [len(x) for x in lists]
        try:
            body()
        except Dead:
            self.st = None
        self.try_depth -= 1
        self.sinks.pop()

        def fin(st):
            self.st = st
            try:
                final()
            except Dead:
                self.st = None
            return self.st
        normal = fin(self.st) if self.st is not None else None
        for r in sink:
            st = fin(r.st.fork())
            if st is not None:
                self.sinks[-1].append(Raised(st, r.exc, r.node, r.stack, r.args, r.implicit))
        for l, k in zip(lists, marks):
            new = l[k:]
            del l[k:]
            for x in new:
                st = fin(x)
                if st is not None:
                    l.append(st)
        self.st = normal

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        itv = self.ev(s.iter)
        self.for_loop(itv, s)

    def for_loop(self, itv, s):
        if isinstance(itv, VChoice):
            c = self.decide(itv.cond)
            if c is TRUE:
                return self.for_loop(itv.a, s)
            if c is FALSE:
                return self.for_loop(itv.b, s)
            st0 = self.st
            self.st = st0.fork(c)
            try:
                self.for_loop(itv.a, s)
            except Dead:
                self.st = None
            sa = self.st
            self.st = st0.fork(lnot(c))
            try:
                self.for_loop(itv.b, s)
            except Dead:
                self.st = None
            self.st = self.merge([sa, self.st])
            return
        items = self.items_of(itv, s, soft=True)
        if items is not None and len(items) > 4 and isinstance(itv, VRange) and not getattr(self, "unroll_breaks", False) and _has_break(s.body):
            items = None        # iterate-until-converged loop: summarised, not unrolled
        if items is not None and len(items) <= UNROLL * 3:
            fr = self.frames[-1]
            brk_all = []
            for x in items:
                fr.loops.append(([], []))
                self.assign(s.target, x, s)
                self.block(s.body)
                brk, cont = fr.loops.pop()
                brk_all += brk
                self.st = self.merge([self.st] + cont)
                if self.st is None:
                    break
            if self.st is not None and s.orelse:
                self.block(s.orelse)
            self.st = self.merge([self.st] + brk_all)
            return
        count, fn = self.iter_seq(itv, s)
        self.sym_loop(s, count, fn)

    def iter_seq(self, v, node):
        """(count term, index -> element value) of a symbolic iterable."""
        if isinstance(v, VRange):
            one = num(v.step)
            if one is not None and one == 1:
                cnt = self.lib.clip0(sub(v.hi, v.lo))
            else:
                cnt = mk("rangelen", v.lo, v.hi, v.step)
            return cnt, (lambda i: add(v.lo, mul(i, v.step)))
        if isinstance(v, VSeq):
            return v.count, v.fn
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == "dict":
                t = self.obj_term(o)
                return mk("len", t), (lambda i: mk("dictkey", t, i))
            if o.kind in ("arr", "slist", "list"):
                L = self.lib.length(self.obj_term(o))
                return L, (lambda i: self.getitem(v, i, node))
            if o.kind == "inst" and "__payload__" in o.data:
                return self.iter_seq(o.data["__payload__"], node)
            if o.kind == "inst":
                t = self.obj_term(o)
                return mk("len", t), (lambda i: self.getitem(v, i, node))
        if isinstance(v, VTuple):
            t = self.term(v)
            return const(len(v.items)), (lambda i: self.lib.getitem_term(t, i))
        t = self.term(v)
        return self.lib.length(t), (lambda i: self.getitem(v, i, node) if not isinstance(v, VObj) else v.getitem(self, i, node))

    def x_While(self, s):
        items = None
        # try concrete unrolling while the condition is decided
        last = None
        for _ in range(UNROLL):
            st_save = self.st.fork()
            ev0 = len(self.events)
            if self.lib.regions:
                snap = self._snapshot()
                if snap is not None and snap == last and all(c is TRUE for c in (self.decide(self.truth(self.ev(s.test))),)):
                    # an iteration that changes nothing repeats for ever
                    self.event("diverge", "while", node=s)
                    raise Dead()
                last = snap
            c = self.decide(self.truth(self.ev(s.test)))
            if c is FALSE:
                if s.orelse:
                    self.block(s.orelse)
                return
            if c is TRUE and not (isinstance(s.test, ast.Constant)):
                fr = self.frames[-1]
                fr.loops.append(([], []))
                self.block(s.body)
                brk, cont = fr.loops.pop()
                self.st = self.merge([self.st] + cont)
                if brk:
                    if self.st is None:
                        self.st = self.merge(brk)
                        return
                    # both: fall back to the symbolic treatment from here
                    self.st = self.merge([self.st] + brk)
                    self.sym_loop(s, None, None)
                    return
                if self.st is None:
                    raise Dead()
                continue
            self.st = st_save
            del self.events[ev0:]
            break
        self.sym_loop(s, None, None)

    def _snapshot(self):
        try:
            env = self.get(self.frames[-1].env).data
            return tuple((k, self.term(v)) for k, v in sorted(env.items()) if k != "__parent__"), self.st.pc
        except AnalysisError:
            return None

    def sym_loop(self, s, count, fn):
        """Summarise a loop: find the locations the body changes, run it over symbols for them."""
        fr = self.frames[-1]
        st0 = self.st
        ev0 = len(self.events)
        nimp = len(self.imprecise)
        iv = self.newsym("i", kind="int", lo=0)
        changed = {}    # (objid, key) -> init value ; key None for whole object
        mus = {}
        nsink = len(self.sinks[-1])
        kinds = {}
        test = count is None
        loopvar = count is not None
        for attempt in range(12):
            del self.events[ev0:]
            del self.sinks[-1][nsink:]
            st = st0.fork(mk("inloop", iv) if count is None else mk("inloop", iv, count))
            self.st = st
            for loc, mu in mus.items():
                self._setloc(loc, mu)
            fr.loops.append(([], []))
            nret = len(fr.returns)
            cond = None
            body_entry = self.st
            try:
                if test:
                    cond = self.truth(self.ev(s.test))
                    d = self.decide(cond)
                    if d is FALSE and count is None:
                        raise Dead()
                    if d is not TRUE and count is None:
                        self.st.pc = self.st.pc + (d,)
                else:
                    self.assign(s.target, fn(iv), s)
                self.block(s.body)
            except Dead:
                self.st = None
            brk, cont = fr.loops.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            ends = [x for x in [self.st] + cont if x is not None]
            new = set()
            for x in ends + brk + rets:
                new |= self._changed(st0, x)
            tgt = set()
            if loopvar and isinstance(s.target, (ast.Name, ast.Tuple)):
                tgt = {(fr.env.id, n.id) for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            new -= {(fr.env.id, "__ret__")}
            # arrays standing for the referents of loop-carried names: their content is that of the name
            own = {m.id for m in mus.values() if isinstance(m, Ref)}
            new = {l for l in new if l[1] is not None or l[0] not in own}
            add_ = [l for l in new if l not in mus and l not in tgt]
            redo = False
            for l in sorted(add_, key=repr):
                init = self._getloc(st0, l)
                if init is UNBOUND:
                    endv = None
                    for x in ends:
                        endv = (x, self._getloc(x, l))
                    mus[l] = self._mu_unbound(l, st0, iv, endv)
                else:
                    mus[l] = self._mu(l, init, st0)
                redo = True
            if not redo:
                # inductive shape check
                for l, mu in list(mus.items()):
                    if self._check_mu(l, mu, ends, st0):
                        redo = True
            if not redo and ends:
                for l, mu in list(mus.items()):
                    v = self._induction(l, mu, mus, ends, st0, iv)
                    if v is not None:
                        mus[l] = v
                        redo = True
            if not redo and count is None and not rets:
                count = self._turns(cond, mus, iv)
                redo = count is not None
            if not redo:
                break
        else:
            self.note("loop did not stabilise", s)
        end = self.merge(ends) if ends else None
        # build result state
        finals = {}
        infos = {}
        save = self.st
        bodies = {}
        inits = {}
        for l, mu in mus.items():
            inits[l] = self._locterm(st0, l)
            if end is not None:
                self.st = end
                bodies[l] = self._locterm(end, l)
            else:
                bodies[l] = None
        self.st = st0
        mts = {l: self._muterm(l, mus[l]) for l in mus}
        names = {l: self._locname(l) for l in mus}
        brkst = self.merge(brk) if brk else None
        out = st0.fork()
        self.st = out
        stopc = None
        if brkst is not None:
            plen = len(st0.pc) + 1
            stopc = land(*brkst.pc[plen:]) if len(brkst.pc) >= plen else mk("brk", getattr(s, "lineno", 0))
        condt = None
        if count is None:
            condt = cond if cond is not None else TRUE
        # values after the loop
        for l in mus:
            t = self._loop_value(l, mus, mts, inits, bodies, count, iv, condt, stopc, brkst, s)
            finals[l] = t
        for l in mus:
            self._setloc(l, self._final_value(l, mus[l], finals[l], end, brkst, st0))
        if loopvar:
            # loop target after the loop
            for l in sorted(tgt, key=repr):
                o = self.get(l[0])
                prev = o.data.get(l[1])
                last = mk("lastof", mk("s", l[1]), count) if prev is None else mk("lastof", mk("s", l[1]), count)
                self._setloc(l, last)
        after = self.st
        # returns inside the loop: under an opaque literal
        outs = [after]
        for r in rets:
            lit = mk("loopexit", getattr(s, "lineno", 0), bindclose(land(*r.pc[len(st0.pc) + 1:]), [iv] + [m for m in mts.values() if isinstance(m, Term)]))
            rs = State(r.heap, st0.pc + (lit,))
            fr.returns.append(rs)
            after.pc = after.pc + (lnot(lit),)
        for r in self.sinks[-1][nsink:]:
            pass
        self.st = after
        if s.orelse:
            self.block(s.orelse)

    def _induction(self, l, mu, mus, ends, st0, iv):
        """A loop symbol that every turn advances by the same integer: its value as a function of the turn."""
        m = mu.off if isinstance(mu, VPtr) else mu
        if not isinstance(m, Term) or m.op != "sym" or not m.args[0].startswith("mu#") or not T.isint(m):
            return None
        init = self._locterm(st0, l)
        if not T.isint(init):
            return None
        d = None
        for e in ends:
            x = sub(self._locterm(e, l), m)
            if d is not None and x is not d:
                return None
            d = x
        if d is None or not T.isint(d):
            return None
        fd = T.free(d)
        if iv in fd or any(isinstance(x, Term) and T.free(x) & fd for x in (self._muterm(k, v) for k, v in mus.items())):
            return None
        v = add(init, mul(iv, d))
        return VPtr(mu.arr, v, mu.ctype) if isinstance(mu, VPtr) else v

    def _turns(self, cond, mus, iv):
        """Number of turns of a while loop whose condition is a bound on the turn number."""
        if cond is None:
            return None
        if cond.op == "lt0":
            b = sub(cond.args[0], iv)
        elif cond.op == "not" and cond.args[0].op == "lt0":
            # p >= 0 as -p - 1 < 0 over the integers
            b = sub(sub(neg(cond.args[0].args[0]), ONE), iv)
        else:
            return None
        fb = T.free(b)
        if iv in fb or not T.isint(b) or any(isinstance(x, Term) and x.op == "sym" and x in fb for x in (self._muterm(k, v) for k, v in mus.items())):
            return None
        return self.lib.clip0(neg(b))

    def _locname(self, l):
        return l[1] if l[1] is not None else "obj"

    def _changed(self, s0, s1):
        out = set()
        for i, o in s1.heap.items():
            o0 = s0.heap.get(i)
            if o0 is None:
                o0 = self.base.get(i)
            if o0 is None or o0 is o:
                continue
            if o.kind in ("env", "inst"):
                for n, v in o.data.items():
                    v0 = o0.data.get(n)
                    if v0 is None or not same(v0, v):
                        out.add((i, n))
            else:
                out.add((i, None))
        return out

    def _getloc(self, st, l):
        o = st.heap.get(l[0]) or self.base.get(l[0])
        if l[1] is None:
            return o
        return o.data.get(l[1], UNBOUND)

    def _locterm(self, st, l):
        save = self.st
        self.st = st
        try:
            v = self._getloc(st, l)
            if isinstance(v, HObj):
                return self.obj_term(v)
            if isinstance(v, VPtr):
                return v.off
            return self.term(v)
        finally:
            self.st = save

    def _mu(self, l, init, st0):
        """Symbolic value standing for location l at loop entry of an arbitrary iteration."""
        save = self.st
        self.st = st0
        try:
            if isinstance(init, HObj):
                k = init.kind
                if k in ("arr", "slist"):
                    t = self.obj_term(init)
                    m = self.newsym("mu", kind="arr", shape=self.lib.shape(t), init=t, real=T.is_real(t))
                    return HObj(k, m, init.origin, None, init.meta)
                if k == "list":
                    t = self.obj_term(init)
                    m = self.newsym("mu", kind="arr", init=t)
                    return HObj("slist", m, init.origin, None, init.meta)
                if k == "dict":
                    return HObj(k, ({n: (TRUE if c is TRUE else self.newsym("muc", kind="bool"), v) for n, (c, v) in init.data[0].items()}, self.newsym("mu")), init.origin, None, init.meta)
                return init
            if isinstance(init, Term):
                if init.op == "unbound":
                    return self.newsym("mu", kind="any")
                kind = "int" if T.isint(init) else ("real" if T.is_real(init) else "any")
                if T.isboolt(init):
                    kind = "bool"
                return self.newsym("mu", kind=kind if kind != "real" else "any", init=init, shape=self.lib.shape(init), scalar=True)
            if isinstance(init, Ref):
                o = self.get(init)
                if o.kind in ("arr", "slist", "list"):
                    t = self.obj_term(o)
                    m = self.newsym("mu", kind="arr", shape=self.lib.shape(t), init=t)
                    roots = self.origins(init)
                    org = roots[0] if roots else None
                    r = self.alloc(HObj("arr" if o.kind != "list" else "slist", m, org, meta=o.meta))
                    self._mu_objs[r.id] = self.get(r)
                    return r
                return init
            if isinstance(init, VTuple):
                return VTuple([self._mu(l, x, st0) for x in init.items])
            if isinstance(init, VPtr):
                return VPtr(init.arr, self.newsym("mu", kind="int", init=init.off, shape=(), scalar=True), init.ctype)
            if init is UNBOUND:
                return UNBOUND
            return init
        finally:
            self.st = save

    def _mu_unbound(self, l, st0, iv, endv):
        """A name first assigned inside the loop: unbound in the first iteration only."""
        if endv is None or endv[1] is UNBOUND:
            return UNBOUND
        st, v = endv
        cond = eq0(iv)
        if isinstance(v, VChoice) and (v.a is UNBOUND or v.b is UNBOUND):
            cond = lor(cond, self.newsym("maybeunbound", kind="bool"))
            v = v.b if v.a is UNBOUND else v.a
        if isinstance(v, Term):
            sh = self.lib.shape(v)
            return VChoice(cond, UNBOUND, self.newsym("mu", kind="any", shape=sh, scalar=True) if sh == () else self.newsym("mu", kind="any"))
        if isinstance(v, Ref):
            save = self.st
            self.st = st
            o = self.get(v)
            try:
                if o.kind in ("arr", "slist", "list"):
                    t = self.obj_term(o)
                    roots = self.origins(v)
                    sh = self.lib.shape(t)
                    self.st = st0
                    r = self.alloc(HObj("arr" if o.kind == "arr" else "slist", self.newsym("mu", kind="arr", shape=sh), roots[0] if roots else None))
                    self._mu_objs[r.id] = self.get(r)
                    return VChoice(cond, UNBOUND, r)
            finally:
                self.st = save
        return UNBOUND

    def _muterm(self, l, mu):
        if isinstance(mu, VChoice) and mu.a is UNBOUND:
            return self._muterm(l, mu.b)
        save = self.st
        try:
            if isinstance(mu, HObj):
                return mu.data if isinstance(mu.data, Term) else mk("obj", mu.kind)
            if isinstance(mu, Term):
                return mu
            if isinstance(mu, Ref):
                # allocated in a loop pass state: its record holds the symbol
                return self._mu_ref_term(mu)
            if isinstance(mu, VTuple):
                return mk("vec", *[self._muterm(l, x) for x in mu.items])
            if isinstance(mu, VPtr):
                return mu.off
            return mk("unbound") if mu is UNBOUND else self.term(mu)
        finally:
            self.st = save

    def _mu_ref_term(self, ref):
        o = self._mu_objs.get(ref.id)
        return o.data if o is not None and isinstance(o.data, Term) else mk("obj", "ref")

    _mu_objs = {}

    def _setloc(self, l, v):
        if l[1] is None:
            self.put(l[0], v)
            return
        if isinstance(v, Ref) and self.get(v) is None:
            o = self._mu_objs.get(v.id)
            if o is not None:
                self.put(v, o)
        o = self.get(l[0])
        d = dict(o.data)
        d[l[1]] = v
        self.put(l[0], o.with_data(d))

    def _check_mu(self, l, mu, ends, st0):
        """Adjust kind/shape assumptions on a loop symbol that the body does not preserve."""
        mt = self._muterm(l, mu)
        if not isinstance(mt, Term) or mt.op != "sym":
            return False
        inf = T.INFO[mt.args[0]]
        changed = False
        for e in ends:
            t = self._locterm(e, l)
            v = self._getloc(e, l)
            if isinstance(mu, Ref) and mu.id in self._mu_objs:
                o, o2 = self._mu_objs[mu.id], (e.heap.get(v.id) or self.base.get(v.id)) if isinstance(v, Ref) else None
                keep = {x: y for x, y in o.meta.items() if o2 is not None and (o2.meta.get(x) is y or o2.meta.get(x) == y)}
                if keep != o.meta:
                    self._mu_objs[mu.id] = HObj(o.kind, o.data, o.origin, o.base, keep)
                    changed = True
            if isinstance(mu, VPtr):
                v = self._getloc(e, l)
                if not isinstance(v, VPtr) or v.arr != mu.arr or v.ctype != mu.ctype:
                    self.note("pointer moved to another array in a loop", None)
            if inf.get("shape") is not None:
                sh = self.lib.shape(t)
                if sh != inf["shape"]:
                    inf["shape"] = None
                    inf.pop("scalar", None)
                    changed = True
            if inf.get("kind") == "int" and not T.isint(t):
                inf["kind"] = "any"
                changed = True
            if inf.get("kind") == "bool" and not T.isboolt(t) and t is not mt:
                inf["kind"] = "any"
                changed = True
        return changed

    def _loop_value(self, l, mus, mts, inits, bodies, count, iv, condt, stopc, brkst, s):
        mt, init, body = mts[l], inits[l], bodies[l]
        plain = count is not None and brkst is None and body is not None
        if plain:
            others = {m for k, m in mts.items() if k != l and isinstance(m, Term)}
            fb = T.free(body)
            if mt in fb and not (fb & others) and mt.op == "sym":
                r = self.lib.loop_pattern(mt, init, body, count, iv)
                if r is not None:
                    return r
            if mt not in fb and not (fb & others):
                # overwritten each time: value of the last iteration
                last = T.subst(body, {iv: sub(count, ONE)})
                if init.op == "unbound":
                    return last
                return ite(eq0(count), init, last)
        # dependency slice
        need = [l]
        seen = {l}
        deps = {}
        extra = [x for x in (condt, stopc) if isinstance(x, Term)]
        work = [l]
        bm = {m: k for k, m in mts.items() if isinstance(m, Term) and m.op == "sym"}

        def touch(t):
            for f in T.free(t):
                k = bm.get(f)
                if k is not None and k not in seen:
                    seen.add(k)
                    need.append(k)
                    work.append(k)
        for x in extra:
            touch(x)
        while work:
            k = work.pop(0)
            if bodies[k] is not None:
                touch(bodies[k])
            if brkst is not None:
                touch(self._locterm(brkst, k))
        syms = []
        comps = []
        for k in need:
            m = mts[k]
            if isinstance(m, Term) and m.op == "sym":
                syms.append(m)
            else:
                syms.append(self.newsym("nomu"))
            comps.append(mk("st", inits[k], bodies[k] if bodies[k] is not None else mk("dead"),
                            self._locterm(brkst, k) if brkst is not None else mk("none")))
        body = mk("loopbody", condt if condt is not None else mk("none"), stopc if stopc is not None else mk("none"), *comps)
        for m in syms + [iv]:
            pass
        body = bindclose(body, syms + [iv])
        inf = T.INFO.get(mt.args[0], {}) if mt.op == "sym" else {}
        t = mk("loop", count if count is not None else mk("while"), body)
        if inf.get("shape") is not None:
            alts = [inf["shape"]]
            if brkst is not None:
                alts += [x for x in self.lib.alternatives(self._locterm(brkst, l)) if x not in alts]
            if len(alts) == 1:
                self.lib.SHAPES[t] = inf["shape"]
            else:
                self.lib.ALTS[t] = alts
        elif isinstance(inits[l], Term) and isinstance(bodies[l], Term):
            # no invariant shape: the value is the initial one, that of some turn, or that at a break
            alts = []
            for v in (inits[l], bodies[l]) + ((self._locterm(brkst, l),) if brkst is not None else ()):
                alts += [x for x in self.lib.alternatives(v) if x not in alts]
            if None not in alts:
                self.lib.ALTS[t] = alts
        return t

    def _final_value(self, l, mu, t, end, brkst, st0):
        if isinstance(mu, VChoice) and mu.a is UNBOUND:
            mu = UNBOUND
        if isinstance(mu, HObj):
            if mu.kind in ("arr", "slist"):
                init = self._getloc(st0, l)
                return HObj(mu.kind, t, mu.origin, init.base if isinstance(init, HObj) and init.data is None else None, mu.meta)
            if mu.kind == "dict" and end is not None:
                v = self._getloc(end, l)
                i = self._getloc(st0, l)
                return self.join_obj(mk("loopran", getattr(t, "uid", 0)), v, i, end, st0)
            return mu
        if isinstance(mu, Ref):
            o = self._mu_objs.get(mu.id)
            base = None
            v = self._getloc(end, l) if end is not None else (self._getloc(brkst, l) if brkst is not None else None)
            org = o.origin if o is not None else None
            if isinstance(v, Ref):
                save = self.st
                self.st = end or brkst
                roots = self.origins(v)
                self.st = save
                if roots:
                    org = roots[0]
            return self.alloc(HObj(o.kind if o is not None else "arr", t, org, meta=o.meta if o is not None else None))
        if isinstance(mu, Term):
            v = self._getloc(end, l) if end is not None else (self._getloc(brkst, l) if brkst is not None else mu)
            if isinstance(v, Ref):
                vo = (end or brkst).heap.get(v.id) or self.base.get(v.id)
                if vo is not None and vo.kind in ("arr", "slist", "list"):
                    org = vo.origin
                    return self.alloc(HObj("arr" if vo.kind == "arr" else "slist", t, org))
                return v
            if isinstance(v, Term):
                return t
            return v
        if mu is UNBOUND:
            v = self._getloc(end, l) if end is not None else (self._getloc(brkst, l) if brkst is not None else UNBOUND)
            if isinstance(v, Ref):
                src = end if end is not None else brkst
                vo = src.heap.get(v.id) or self.base.get(v.id)
                save = self.st
                self.st = src
                tt = self.term(v) if vo.kind in ("arr", "slist", "list") else None
                roots = self.origins(v)
                self.st = save
                if tt is not None:
                    return self.alloc(HObj("arr", t, roots[0] if roots else None))
                self.put(v, vo)
                return v
            if isinstance(v, Term):
                return t
            if v is UNBOUND:
                return v
            return t
        if isinstance(mu, VTuple):
            return VTuple([self.lib.getitem_term(t, const(i)) for i in range(len(mu.items))])
        if isinstance(mu, VPtr):
            return VPtr(mu.arr, t, mu.ctype)
        v = self._getloc(end, l) if end is not None else mu
        return v

    def x_Break(self, s):
        self.frames[-1].loops[-1][0].append(self.st)
        self.st = None

    def x_Continue(self, s):
        self.frames[-1].loops[-1][1].append(self.st)
        self.st = None

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            raise AnalysisError("expression %s" % e.__class__.__name__)
        self.cover.add(id(e))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        return const(v)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        return VTuple(self.ev_list(e.elts))

    def e_List(self, e):
        return self.newlist(self.ev_list(e.elts))

    def e_Set(self, e):
        return VTuple(self.ev_list(e.elts))

    def ev_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                out += self.items_of(v, x)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        r = self.alloc(HObj("dict", ({}, None)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v), e, quiet=True)
            else:
                kv = self.ev(k)
                self.dict_set(r, kv, self.ev(v), e, quiet=True)
        return r

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(const(v.value))
            else:
                out.append(self.term(self.ev(v.value)))
        return self.lib.strfmt("f", out)

    def e_IfExp(self, e):
        c = self.decide(self.truth(self.ev(e.test)))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        return self.choose(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def choose(self, c, fa, fb):
        st0 = self.st
        a = b = None
        self.st = st0.fork(c)
        try:
            a = fa()
            sa = self.st
        except Dead:
            sa = None
        self.st = st0.fork(lnot(c))
        try:
            b = fb()
            sb = self.st
        except Dead:
            sb = None
        if sa is None and sb is None:
            self.st = None
            raise Dead()
        self.st = self.merge([sa, sb])
        if sa is None:
            return b
        if sb is None:
            return a
        return self.join_val(c, a, b)

    def on_choice(self, v, f):
        c = self.decide(v.cond)
        if c is TRUE:
            return f(v.a)
        if c is FALSE:
            return f(v.b)
        if v.a is UNBOUND:
            return f(v.b)
        if v.b is UNBOUND:
            return f(v.a)
        return self.choose(c, lambda: f(v.a), lambda: f(v.b))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self._boolop(e.values, isand)

    def _boolop(self, vals, isand):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.decide(self.truth(v))
        if c is (FALSE if isand else TRUE):
            return v
        if c is (TRUE if isand else FALSE):
            return self._boolop(vals[1:], isand)
        if isand:
            return self.choose(c, lambda: self._boolop(vals[1:], isand), lambda: self._as_falsy(v, c))
        return self.choose(c, lambda: self._as_truthy(v, c), lambda: self._boolop(vals[1:], isand))

    def _as_falsy(self, v, c):
        return FALSE if (isinstance(v, Term) and T.isboolt(v)) else v

    def _as_truthy(self, v, c):
        return TRUE if (isinstance(v, Term) and T.isboolt(v)) else v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return lnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.unop("-", v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.unop("~", v, e)

    def unop(self, op, v, node):
        if isinstance(v, VChoice):
            return self.on_choice(v, lambda x: self.unop(op, x, node))
        if isinstance(v, VObj):
            r = v.unop(self, op, node)
            if r is not NotImplemented:
                return r
        if isinstance(v, Ref) and self.get(v).kind == "inst":
            m = self.find_method(self.get(v), {"-": "__neg__", "~": "__invert__"}[op], v)
            if m is not None:
                return self.call(m, [], {}, node)
        t = self.term(v)
        if op == "-":
            r = self.lib.arith("*", const(-1), t)
        else:
            from .lib import boolvec, lnotv
            r = lnotv(t) if T.isboolt(t) or boolvec(t) else mk("invert", t)
        return self.wrap(r, v)

    def wrap(self, t, *srcs):
        """Array-valued result if some operand is an array object."""
        for s in srcs:
            if self.is_arrayish(s):
                return self.arr(t, **self.elementwise_meta(t, srcs))
        return t

    def elementwise_meta(self, t, srcs):
        """Storage of the fresh result of an elementwise operation: that of its operands when they agree."""
        if T.isboolt(t):
            return {}
        sh = None
        srcs = list(srcs)
        while any(isinstance(s, VChoice) for s in srcs):
            if len(srcs) > 1:
                return {}
            c = srcs[0]
            ms = [self.elementwise_meta(t, [x]) for x in (c.a, c.b)]
            return ms[0] if ms[0] == ms[1] else {}
        for s in srcs:
            if isinstance(s, Term):
                if self.lib.shape(s) != () or not T.is_real(s):
                    return {}
                continue
            if not isinstance(s, Ref) or self.get(s).kind != "arr":
                return {}
            m = self.get(s).meta
            if not (m.get("contig") or m.get("dense") and len(srcs) == 1) or m.get("dtype") != "float64":
                return {}
            if not m.get("contig"):
                return dict(dense=True, dtype="float64")
            x = self.lib.shape(self.term(s))
            if x is None and len(srcs) > 1 or sh is not None and sh != x:
                return {}
            sh = x
        return dict(contig=True, dtype="float64")

    def is_arrayish(self, s):
        if isinstance(s, Ref):
            return self.get(s).kind in ("arr", "list", "slist")
        if isinstance(s, VTuple):
            return True
        if isinstance(s, VChoice):
            return self.is_arrayish(s.a) or self.is_arrayish(s.b)
        return False

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(OPS[type(e.op)], a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(a, VChoice):
            if self._opaque_choice(a):
                return self.on_choice(a, lambda x: self.binop(op, x, b, node))
        if isinstance(b, VChoice):
            if self._opaque_choice(b):
                return self.on_choice(b, lambda x: self.binop(op, a, x, node))
        if isinstance(a, VObj):
            r = a.binop(self, op, b, False, node)
            if r is not NotImplemented:
                return r
        if isinstance(b, VObj):
            r = b.binop(self, op, a, True, node)
            if r is not NotImplemented:
                return r
        tried = False
        ia = isinstance(a, Ref) and self.get(a).kind == "inst"
        ib = isinstance(b, Ref) and self.get(b).kind == "inst"
        if ia:
            m = self.find_method(self.get(a), "__%s__" % DUNDER[op], a)
            if m is not None:
                r = self.call(m, [b], {}, node)
                if not self._notimpl(r):
                    return r
                tried = True
        if ib:
            m = self.find_method(self.get(b), "__r%s__" % DUNDER[op], b)
            if m is not None:
                r = self.call(m, [a], {}, node)
                if not self._notimpl(r):
                    return r
                tried = True
        if tried:
            self.raise_(VExt("builtins.TypeError"), node, (const("unsupported operand type(s) for %s" % op),))
        if isinstance(a, VPtr) and op in "+-":
            t = self.term(b)
            return VPtr(a.arr, add(a.off, t if op == "+" else neg(t)), a.ctype)
        if isinstance(b, VPtr) and op == "+":
            return VPtr(b.arr, add(b.off, self.term(a)), b.ctype)
        # sequences
        la = self._seq(a)
        lb = self._seq(b)
        if op == "+" and la is not None and lb is not None:
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(la + lb)
            if not isinstance(a, VTuple) and not isinstance(b, VTuple):
                return self.newlist(la + lb)
        if op == "+" and (self._islist(a) and self._islist(b)):
            return self.alloc(HObj("slist", mk("concat", self.term(a), self.term(b))))
        if op == "*" and la is not None and self._pyint(b):
            n = num(self.term(b))
            if n is not None:
                r = la * max(0, int(n))
                return VTuple(r) if isinstance(a, VTuple) else self.newlist(r)
            return self.alloc(HObj("slist", self.lib.repeat(self.term(a), self.term(b))))
        if op == "*" and lb is not None and self._pyint(a):
            return self.binop(op, b, a, node)
        if self._pyseq(a) and (self._pyseq(b) or self._pynum(b)) or self._pyseq(b) and self._pynum(a):
            self.raise_(VExt("builtins.TypeError"), node, (const("unsupported operand type(s) for %s" % op),))
        ta, tb = self.term(a), self.term(b)
        if op == "%" and (is_str(ta) or ta.op == "str"):
            return self.lib.strfmt("%", [ta, tb])
        if op == "+" and (is_str(ta) or is_str(tb) or ta.op == "str" or tb.op == "str"):
            return self.lib.strfmt("+", [ta, tb])
        if op in ("/", "//", "%"):
            z = num(tb)
            if z is not None and z == 0 and not self.is_arrayish(a):
                self.raise_(VExt("builtins.ZeroDivisionError"), node)
        r = self.lib.arith(op, ta, tb)
        if op == "@":
            return self.arr(r)
        return self.wrap(r, a, b)

    def _opaque_choice(self, v):
        """Choices between plain data are handled as ite terms; others are forked."""
        for x in (v.a, v.b):
            if isinstance(x, VChoice):
                if self._opaque_choice(x):
                    return True
            elif isinstance(x, Ref):
                if self.get(x).kind not in ("arr", "list", "slist"):
                    return True
            elif not isinstance(x, (Term, VTuple, Unbound)):
                return True
        return False

    def _seq(self, v):
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == "list":
                return list(o.data)
        return None

    def _islist(self, v):
        return isinstance(v, Ref) and self.get(v).kind in ("list", "slist")

    def _pyseq(self, v):
        return isinstance(v, VTuple) or isinstance(v, Ref) and self.get(v).kind in ("list", "slist", "dict")

    def _pynum(self, v):
        """Plain Python number (a NumPy scalar would broadcast over a sequence instead)."""
        if not isinstance(v, Term):
            return False
        if num(v) is not None or v is NONE:
            return True
        return v.op == "sym" and T.info(v).get("kind") in ("int", "real")

    def _pyint(self, v):
        return isinstance(v, Term) and T.isint(v)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(CMP[type(op)], left, right, e)
            if res is None:
                res = c
            else:
                res = land(self.truth(res), self.truth(c))
            left = right
        return res

    def compare(self, op, a, b, node):
        if isinstance(a, VChoice) and (op in ("is", "is not", "in", "not in") or self._opaque_choice(a)):
            return self.on_choice(a, lambda x: self.compare(op, x, b, node))
        if isinstance(b, VChoice) and (op in ("is", "is not", "in", "not in") or self._opaque_choice(b)):
            return self.on_choice(b, lambda x: self.compare(op, a, x, node))
        if op in ("is", "is not"):
            r = self.lib.is_same(a, b)
            return r if op == "is" else lnot(r)
        if op in ("in", "not in"):
            r = self.contains(b, a, node)
            return r if op == "in" else lnot(r)
        if isinstance(a, VObj):
            r = a.compare(self, op, b, False, node)
            if r is not NotImplemented:
                return r
        if isinstance(b, VObj):
            r = b.compare(self, FLIP[op], a, True, node)
            if r is not NotImplemented:
                return r
        if isinstance(a, Ref) and self.get(a).kind == "inst":
            m = self.find_method(self.get(a), "__%s__" % CMPD[op], a)
            if m is not None:
                return self.call(m, [b], {}, node)
        if isinstance(b, Ref) and self.get(b).kind == "inst":
            m = self.find_method(self.get(b), "__%s__" % CMPD[FLIP[op]], b)
            if m is not None:
                return self.call(m, [a], {}, node)
        if op in ("==", "!=") and isinstance(a, Ref) and isinstance(b, Ref) and self._plain_inst(a) and self._plain_inst(b):
            return TRUE if (a == b) == (op == "==") else FALSE
        return self.wrap(self.lib.cmp(op, a, b), a, b) if (self._arrop(a) or self._arrop(b)) else self.lib.cmp(op, a, b)

    def _plain_inst(self, v):
        o = self.get(v)
        return o.kind == "inst" and "__payload__" not in o.data

    @staticmethod
    def _notimpl(v):
        return isinstance(v, VExt) and v.path == "builtins.NotImplemented"

    _passed = {}

    def passed_on(self, fn):
        """The attribute names (a container) that a __getattribute__ override hands to the default lookup:
        all but those it compares the name with, when it is one chain of such comparisons."""
        r = self._passed.get(fn)
        if r is None:
            r = self._passed[fn] = self._passed_on(fn)
        return r

    @staticmethod
    def _passed_on(fn):
        a = [x.arg for x in fn.args.args]
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        names = set()
        while True:
            if len(body) != 1 or len(a) != 2:
                return ()
            s = body[0]
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Eq):
                l, r = s.test.left, s.test.comparators[0]
                if isinstance(l, ast.Name) and l.id == a[1] and isinstance(r, ast.Constant):
                    names.add(r.value)
                    body = s.orelse
                    continue
                return ()
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and ast.unparse(s.value) in (
                    "object.__getattribute__(%s, %s)" % tuple(a), "list.__getattribute__(%s, %s)" % tuple(a)):
                class Rest(object):
                    def __contains__(self, n):
                        return n not in names
                return Rest()
            return ()

    def payload(self, v):
        """The list held by an instance of a subclass of list, or the value itself."""
        if isinstance(v, Ref):
            o = self.get(v)
            if o.kind == "inst" and "__payload__" in o.data:
                return o.data["__payload__"]
        return v

    def _arrop(self, v):
        return isinstance(v, Ref) and self.get(v).kind == "arr"

    def contains(self, cont, x, node):
        if isinstance(cont, Ref):
            o = self.get(cont)
            if o.kind == "dict":
                return self.dict_has(cont, x)
            if o.kind == "inst":
                m = self.find_method(o, "__contains__", cont)
                if m is not None:
                    return self.truth(self.call(m, [x], {}, node))
        if isinstance(x, Term) and is_str(x) and isinstance(cont, Term) and is_str(cont):
            return TRUE if x.args[1] in cont.args[1] else FALSE
        items = self.items_of(cont, node, soft=True)
        if items is not None:
            r = FALSE
            for y in items:
                same = isinstance(x, Ref) and isinstance(y, Ref) and x == y
                r = lor(r, TRUE if same else self.truth(self.compare("==", y, x, node) if isinstance(x, Ref) or isinstance(y, Ref) else self.lib.cmp("==", x, y)))
                if r is TRUE:
                    break
            return r
        return mk("in", self.term(x), self.term(cont))

    def e_Lambda(self, e):
        a = e.args
        n = ast.FunctionDef(name="<lambda>", args=a, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[])
        ast.copy_location(n, e)
        n.src_file = getattr(e, "src_file", None)
        return self.mkfunc(n, "<lambda>@%s:%s" % (e.lineno, e.col_offset))

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, e.attr, e)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.getitem(o, k, e)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        if isinstance(s, ast.Tuple):
            return VTuple([self.ev_index(x) for x in s.elts])
        if s.__class__.__name__ == "Index":
            return self.ev_index(s.value)
        return self.ev(s)

    def e_Slice(self, s):
        f = lambda x: NONE if x is None else self.ev(x)
        return VSlice(f(s.lower), f(s.upper), f(s.step))

    def e_Starred(self, e):
        raise AnalysisError("starred")

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        raise AnalysisError("yield")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_SetComp(self, e):
        return self.comp(e, "list")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def comp(self, e, kind):
        """Comprehension: own scope."""
        fr = self.frames[-1]
        env = self.alloc(HObj("env", {"__parent__": fr.env}, meta={"comp": True}))
        f2 = Frame(env, fr.fi)
        self.frames.append(f2)
        try:
            r = self._comp(e, kind, 0)
        finally:
            self.frames.pop()
        return r

    def _elt(self, e, kind):
        if kind == "dict":
            return VTuple((self.ev(e.key), self.ev(e.value)))
        return self.ev(e.elt)

    def _comp(self, e, kind, gi):
        out = self._comp_items(e, kind, gi)
        if out[0] == "items":
            if kind == "dict":
                r = self.alloc(HObj("dict", ({}, None)))
                for c, kv in out[1]:
                    k, v = kv.items
                    self.dict_set(r, k, v, e, quiet=True)
                return r
            items = out[1]
            if all(c is TRUE for c, _ in items):
                return self.newlist([v for _, v in items])
            return self.alloc(HObj("slist", mk("filtered", *[mk("kv", c, self.term(v)) for c, v in items])))
        if kind == "dict":
            return self.alloc(HObj("dict", ({}, out[1])))
        return self.alloc(HObj("slist", out[1]))

    def _comp_items(self, e, kind, gi):
        g = e.generators[gi]
        itv = self.ev(g.iter)
        if isinstance(itv, VChoice):
            c = self.decide(itv.cond)
            itv = itv.a if c is TRUE else itv.b if c is FALSE else self.arr(self.term(itv))
        items = self.items_of(itv, e, soft=True)
        if items is not None and len(items) <= UNROLL * 3:
            out = []
            for x in items:
                self.assign(g.target, x, e)
                c = TRUE
                dead = False
                for f in g.ifs:
                    d = self.decide(self.truth(self.ev(f)))
                    if d is FALSE:
                        dead = True
                        break
                    c = land(c, d)
                if dead:
                    continue
                if gi + 1 < len(e.generators):
                    r = self._comp_items(e, kind, gi + 1)
                    if r[0] != "items":
                        return ("term", mk("nested", r[1]))
                    out += [(land(c, c2), v) for c2, v in r[1]]
                else:
                    out.append((c, self._elt(e, kind)))
            return ("items", out)
        count, fn = self.iter_seq(itv, e)
        i = self.newsym("i", kind="int", lo=0)
        pc0 = self.st.pc
        self.st.pc = pc0 + (mk("inloop", i, count),)
        self.assign(g.target, fn(i), e)
        c = TRUE
        for f in g.ifs:
            c = land(c, self.decide(self.truth(self.ev(f))))
        if gi + 1 < len(e.generators):
            r = self._comp_items(e, kind, gi + 1)
            body = r[1] if r[0] == "term" else mk("vec", *[self.term(v) for _, v in r[1]])
            t = bind("concatmap", count, i, body)
        else:
            body = self.term(self._elt(e, kind))
            if c is TRUE:
                t = bind("map", count, i, body)
            else:
                t = bind("filtermap", count, i, mk("kv", c, body))
        self.st.pc = pc0
        return ("term", t)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id in ("super", "locals", "globals", "exec", "eval"):
            if e.func.id == "super":
                return self.do_super(e)
            if e.func.id in ("exec", "eval"):
                self.event("dynamic", e.func.id, node=e)
        if isinstance(e.func, ast.Name) and e.func.id == "__addr__" and isinstance(e.args[0], ast.Subscript):
            # &p[i] is p + i
            p = self.ev(e.args[0].value)
            if isinstance(p, VPtr):
                return VPtr(p.arr, add(p.off, self.term(self.ev(e.args[0].slice))), p.ctype)
        if isinstance(e.func, ast.Attribute):
            e.func._is_callee = True
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.items_of(v, a, soft=True)
                if items is None:
                    args.append(("*", v))
                else:
                    args += items
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                self.expand_kw(kw, v, e)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, e)

    def do_super(self, e):
        fr = self.frames[-1]
        o = self.get(fr.env)
        if e.args:
            args = [self.ev(a) for a in e.args]
            return VObjSuper(args[0], args[1])
        raise AnalysisError("super()")

    def expand_kw(self, kw, v, node):
        if isinstance(v, VChoice):
            # join the two dictionaries
            def mat(x):
                return x
            c = self.decide(v.cond)
            if c is TRUE:
                return self.expand_kw(kw, v.a, node)
            if c is FALSE:
                return self.expand_kw(kw, v.b, node)
            ka, kb = {}, {}
            self.expand_kw(ka, v.a, node)
            self.expand_kw(kb, v.b, node)
            for n in list(ka) + [n for n in kb if n not in ka]:
                va = ka.get(n, (FALSE, NONE))
                vb = kb.get(n, (FALSE, NONE))
                ca, xa = va if isinstance(va, Maybe) else ((TRUE, va) if n in ka else va)
                cb, xb = vb if isinstance(vb, Maybe) else ((TRUE, vb) if n in kb else vb)
                cc = ite(c, ca, cb)
                val = xa if n not in kb else xb if n not in ka else self.join_val(c, xa, xb)
                kw[n] = val if cc is TRUE else Maybe((cc, val))
            return
        if isinstance(v, Ref) and self.get(v).kind == "dict":
            d, rest = self.get(v).data
            for n, (c, x) in d.items():
                if isinstance(n, Term):
                    kw["**"] = mk("dictrest", self.term(v))
                    continue
                c = self.decide(c)
                if c is FALSE:
                    continue
                kw[n] = x if c is TRUE else Maybe((c, x))
            if rest is not None:
                kw["**"] = rest
            return
        kw["**"] = self.term(v)

    def call(self, f, args, kw, node):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisError("step budget exceeded")
        if isinstance(f, VChoice):
            return self.on_choice(f, lambda x: self.call(x, args, kw, node))
        if isinstance(f, Ref):
            o = self.get(f)
            if o.kind == "func":
                return self.call_func(f, args, kw, node)
            if o.kind == "class":
                return self.instantiate(f, args, kw, node)
            if o.kind == "inst":
                m = self.find_method(o, "__call__", f)
                if m is not None:
                    return self.call(m, args, kw, node)
            t = self.obj_term(o)
            if o.kind in ("list", "dict") or (o.kind == "arr" and T.INFO.get(t.args[0] if t.op == "sym" else None, {}).get("kind") not in ("any", "obj", "callable")):
                if o.kind != "arr":
                    self.raise_(VExt("builtins.TypeError"), node, (const("not callable"),))
            return self.call_opaque(t, args, kw, node)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, VExt):
            return self.lib.call(f.path, args, kw, node)
        if isinstance(f, VMeth):
            return self.lib.method(f.recv, f.name, args, kw, node)
        if isinstance(f, VObj):
            r = f.call(self, args, kw, node)
            if r is not NotImplemented:
                return r
        if isinstance(f, Term):
            if f.op == "c" or T.isboolt(f) or f.op in ("vec", "poly", "str"):
                self.raise_(VExt("builtins.TypeError"), node, (const("not callable"),))
            return self.call_opaque(f, args, kw, node)
        if isinstance(f, (VTuple, VMod)):
            self.raise_(VExt("builtins.TypeError"), node, (const("not callable"),))
        raise AnalysisError("call of %r" % (f,))

    def call_opaque(self, f, args, kw, node):
        self.event("callback", f, tuple(args), kw, node)
        self.may_raise(node, "callback")
        ts = [self.argterm(a) for a in args]
        for k in sorted(kw):
            ts.append(mk("kw", k, self.kwterm(kw[k])))
        if f.op == "lam" and not kw and len(ts) == 1:
            return apply_lam(f, ts)
        return mk("call", f, *ts)

    def argterm(self, a):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
            return mk("star", self.term(a[1]))
        return self.term(a)

    def kwterm(self, v):
        if isinstance(v, Maybe):
            return ite(v[0], self.term(v[1]), mk("absent"))
        return self.term(v)

    def call_func(self, ref, args, kw, node):
        o = self.get(ref)
        fi = o.data[0]
        hook = self.lib.repo_hooks.get(fi.qual)
        if hook is not None:
            r = hook(self, ref, args, kw, node)
            if r is not NotImplemented:
                return r
        n = self.active.get(fi.qual, 0)
        if n >= self.maxrec or len(self.frames) > self.maxdepth:
            self.note("recursion limit in " + fi.qual, node)
            return mk("call", mk("fn", fi.qual), *[self.argterm(a) for a in args])
        self.event("call", fi.qual, tuple(args), dict(kw), node)
        env = self.alloc(HObj("env", {"__parent__": fi.env}))
        self.active[fi.qual] = n + 1
        fr = Frame(env, fi)
        fname = self.module_files.get(fi.module, fi.module)
        bound = self.bind_args(fi, args, kw, node)
        self.frames.append(fr)
        self.stack.append((fname, fi.qual[len(fi.module) + 1:] if fi.qual.startswith(fi.module + ".") else fi.qual))
        try:
            eo = self.get(env)
            d = dict(eo.data)
            d.update(bound)
            # locals start unbound
            for nm in self.local_names(fi.node):
                d.setdefault(nm, UNBOUND)
            self.put(env, eo.with_data(d))
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(fi.node)):
                self.note("generator function " + fi.qual, node)
                return mk("gen", mk("fn", fi.qual), *[self.argterm(a) for a in args])
            self.block(fi.node.body)
            if self.st is not None:
                self.setname_local("__ret__", NONE)
                fr.returns.append(self.st)
            if not fr.returns:
                self.st = None
                raise Dead()
            self.st = self.merge(fr.returns)
            r = self.get(env).data["__ret__"]
            if o.meta.get("cached"):
                self.cached_result(r, fi.qual)
            return r
        finally:
            self.frames.pop()
            self.stack.pop()
            self.active[fi.qual] = n

    def cached_result(self, v, qual, seen=None):
        """A cache keeps what a cached function returns: its mutable results outlive the call."""
        seen = set() if seen is None else seen
        for ref in self.reachable(v):
            o = self.get(ref)
            if o.kind in ("arr", "list", "slist", "dict") and o.origin is None:
                self.put(ref, HObj(o.kind, o.data, ("global", "cache of " + qual), o.base, o.meta))

    def reachable(self, v):
        """References reachable from a value (containers, views, instances, closures excluded)."""
        out, st, seen = [], [v], set()
        while st:
            x = st.pop()
            if isinstance(x, VChoice):
                st += [x.a, x.b]
            elif isinstance(x, VTuple):
                st += list(x.items)
            elif isinstance(x, VBound):
                st.append(x.self_)
            elif isinstance(x, Ref):
                if x.id in seen:
                    continue
                seen.add(x.id)
                o = self.get(x)
                if o is None:
                    continue
                out.append(x)
                if o.base is not None:
                    st.append(o.base[0])
                if o.kind == "dict":
                    st += [y for c, y in o.data[0].values()]
                elif o.kind == "list":
                    st += list(o.data)
                elif o.kind == "inst":
                    st += list(o.data.values()) if isinstance(o.data, dict) else []
        return out

    _locals_cache = {}

    def local_names(self, node):
        r = self._locals_cache.get(node)
        if r is None:
            glob = set()
            r = set()
            for x in own_nodes(node):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob.update(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    r.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    r.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        r.add((a.asname or a.name).split(".")[0])
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    r.add(x.name)
            r -= glob
            self._locals_cache[node] = r
        return r

    def bind_args(self, fi, args, kw, node):
        a = fi.node.args
        TE = VExt("builtins.TypeError")
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        star = [x for x in args if isinstance(x, tuple) and len(x) == 2 and x[0] == "*"]
        pos = [x for x in args if not (isinstance(x, tuple) and len(x) == 2 and x[0] == "*")]
        if len(pos) > len(params) and not a.vararg:
            self.raise_(TE, node, (const("too many positional arguments for " + fi.name),))
        for p, v in zip(params, pos):
            out[p] = v
        if a.vararg:
            extra = pos[len(params):]
            if star:
                out[a.vararg.arg] = mk("star", *[self.term(x[1]) for x in star])
            else:
                out[a.vararg.arg] = VTuple(extra)
        elif star:
            t = self.term(star[0][1])
            k = 0
            for p in params:
                if p not in out and p not in kw:
                    out[p] = self.lib.getitem_term(t, const(k))
                    k += 1
        kwd = {}
        rest = None
        konly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                rest = v
                continue
            if k in params or k in konly:
                if k in out:
                    if isinstance(v, Maybe):
                        self.raise_if(v[0], TE, node, (const("multiple values for %s" % k),))
                        continue
                    self.raise_(TE, node, (const("multiple values for %s" % k),))
                out[k] = v
            else:
                kwd[k] = v
        if kwd and not a.kwarg:
            cs = [v[0] if isinstance(v, Maybe) else TRUE for v in kwd.values()]
            self.raise_if(lor(*cs), TE, node, (const("unexpected keyword for %s: %s" % (fi.name, ", ".join(map(str, kwd)))),))
            kwd = {}
        if a.kwarg:
            d = {k: ((v[0], v[1]) if isinstance(v, Maybe) else (TRUE, v)) for k, v in kwd.items()}
            out[a.kwarg.arg] = self.alloc(HObj("dict", (d, rest)))
        nd = len(fi.defaults)
        for i, p in enumerate(params):
            dv = fi.defaults[i - (len(params) - nd)] if i >= len(params) - nd else None
            if p not in out:
                if dv is None:
                    if rest is not None:
                        out[p] = mk("getitem", rest, const(p))
                        continue
                    self.raise_(TE, node, (const("missing argument %s of %s" % (p, fi.name)),))
                out[p] = dv
            elif isinstance(out[p], Maybe):
                c, v = out[p]
                if dv is None:
                    self.raise_if(lnot(c), TE, node, (const("missing argument %s" % p),))
                    out[p] = v
                else:
                    out[p] = self.join_val(c, v, dv)
        for p in konly:
            if p not in out:
                if p not in fi.kwdefaults:
                    self.raise_(TE, node, (const("missing argument %s" % p),))
                out[p] = fi.kwdefaults[p]
            elif isinstance(out[p], Maybe):
                out[p] = self.join_val(out[p][0], out[p][1], fi.kwdefaults.get(p, NONE))
        ct = getattr(fi.node, "cy_types", None)
        if ct:
            for p in list(out):
                if p in ct and (p in params or p in konly):
                    out[p] = self.lib.ccoerce(out[p], ct[p], node, arg=True)
        return out

    # ------------------------------------------------------------ classes
    def mro(self, cref):
        out = [cref]
        ci = self.get(cref).data
        for b in ci.bases:
            if isinstance(b, Ref) and self.get(b).kind == "class":
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def class_attr(self, cref, name):
        for c in self.mro(cref):
            if isinstance(c, Ref):
                v = self.get(self.get(c).data.env).data.get(name)
                if v is not None:
                    return v
        return None

    def find_method(self, o, name, ref=None):
        c = o.data.get("__class__")
        if c is None:
            return None
        v = self.class_attr(c, name)
        if v is None:
            return None
        if ref is None:
            return v
        return VBound(v, ref)

    def instantiate(self, cref, args, kw, node):
        ci = self.get(cref).data
        hook = self.lib.class_hooks.get(ci.name)
        if hook is not None:
            r = hook(self, cref, args, kw, node)
            if r is not NotImplemented:
                return r
        if "BaseException" in self.exc_names(cref):
            return self.alloc(HObj("inst", {"__class__": cref, "__class__name": ci.name}))
        r = self.alloc(HObj("inst", {"__class__": cref, "__class__name": ci.name}))
        for c in self.mro(cref):
            if not isinstance(c, Ref) and c.path in ("builtins.list", "builtins.dict", "builtins.tuple"):
                o = self.get(r)
                d = dict(o.data)
                d["__payload__"] = self.newlist(self.items_of(args[0], node, soft=True) or []) if args else self.newlist([])
                self.put(r, o.with_data(d))
        init = self.class_attr(cref, "__init__")
        if init is not None:
            self.call(init, [r] + list(args), kw, node)
        return r

    # ------------------------------------------------------------ attributes
    _plain = object()     # marks the access of object.__getattribute__ / object.__setattr__

    def getattr(self, o, name, node):
        if isinstance(o, VChoice):
            return self.on_choice(o, lambda x: self.getattr(x, name, node))
        if isinstance(o, VExt):
            return self.lib.ext_attr(o.path, name, node)
        if isinstance(o, VSlice) and name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        if isinstance(o, VMod):
            env = self.get(self.modules[o.name])
            v = env.data.get(name)
            if v is None:
                if name == "__name__":
                    return const(o.name)
                if self.find_module(o.name + "." + name) and (o.name + "." + name) in self.modules:
                    return VMod(o.name + "." + name)
                if self.is_external(o.name + "." + name):
                    return VExt(o.name + "." + name)
                self.raise_(VExt("builtins.AttributeError"), node, (const(o.name + "." + name),))
            return v
        if isinstance(o, VObj):
            r = o.getattr(self, name, node)
            if r is not NotImplemented:
                return r
        if isinstance(o, Ref):
            h = self.get(o)
            if h.kind == "func":
                fi, at = h.data
                if name in at:
                    return at[name]
                if name in ("__name__", "__doc__", "__module__", "__qualname__"):
                    return const(fi.name)
                self.raise_(VExt("builtins.AttributeError"), node, (const(fi.qual + "." + name),))
            if h.kind == "inst":
                if node is not self._plain:
                    ga = self.class_attr(h.data["__class__"], "__getattribute__")
                    if ga is not None and not (isinstance(ga, Ref) and self.get(ga).kind == "func" and name in self.passed_on(self.get(ga).data[0].node)):
                        return self.call(ga, [o, const(name)], {}, node)
                if name in h.data:
                    v = h.data[name]
                    if isinstance(v, VChoice) and (v.a is UNBOUND or v.b is UNBOUND):
                        return v.b if v.a is UNBOUND else v.a
                    return v
                c = h.data["__class__"]
                v = self.class_attr(c, name)
                if v is not None:
                    if isinstance(v, Ref) and self.get(v).kind == "func":
                        deco = self.get(v).meta.get("deco", "")
                        if deco.endswith("property"):
                            return self.call(v, [o], {}, node)
                        if deco.endswith("staticmethod"):
                            return v
                        if deco.endswith("classmethod"):
                            return VBound(v, c)
                        return VBound(v, o)
                    return v
                if name == "__class__":
                    return c
                ga = self.class_attr(c, "__getattr__")
                if ga is not None:
                    return self.call(ga, [o, const(name)], {}, node)
                if "__payload__" in h.data:
                    return self.getattr(h.data["__payload__"], name, node)
                self.raise_(VExt("builtins.AttributeError"), node, (const("%s.%s" % (h.data.get("__class__name"), name)),))
            if h.kind == "class":
                v = self.class_attr(o, name)
                if v is not None:
                    return v
                if name == "__name__":
                    return const(h.data.name)
                if isinstance(h.data.bases and h.data.bases[0], VExt):
                    return VExt(h.data.bases[0].path + "." + name)
                self.raise_(VExt("builtins.AttributeError"), node, (const(h.data.name + "." + name),))
        return self.lib.getattr(o, name, node)

    def setattr(self, o, name, v, node, plain=False):
        if isinstance(o, VChoice):
            return self.on_choice(o, lambda x: self.setattr(x, name, v, node, plain))
        if isinstance(o, Ref):
            h = self.get(o)
            if h.kind == "func":
                if h.origin is not None:
                    self.write_event(o, node, "attribute " + name)
                fi, at = h.data
                d = dict(at)
                d[name] = v
                self.put(o, h.with_data((fi, d)))
                return
            if h.kind == "inst":
                if h.origin is not None:
                    self.write_event(o, node, "attribute " + name)
                sa = None if plain else self.class_attr(h.data["__class__"], "__setattr__")
                if sa is not None:
                    self.call(sa, [o, const(name), v], {}, node)
                    return
                d = dict(h.data)
                d[name] = v
                self.put(o, h.with_data(d))
                return
            if h.kind == "class":
                if h.origin is not None:
                    self.write_event(o, node, "class attribute " + name)
                eo = self.get(h.data.env)
                d = dict(eo.data)
                d[name] = v
                self.put(h.data.env, eo.with_data(d))
                return
            if h.kind == "arr":
                self.write_event(o, node, "attribute " + name)
                if name == "flat":
                    self.write_term(o, mk("fillflat", self.term(o), self.term(v)))
                elif name in ("shape", "real", "imag"):
                    self.write_term(o, mk("set" + name, self.term(o), self.term(v)))
                return
        if isinstance(o, VMod):
            env = self.modules[o.name]
            self.event("write", "module attribute", (o,), node=node, extra=[("global", o.name + "." + name)])
            eo = self.get(env)
            d = dict(eo.data)
            d[name] = v
            self.put(env, eo.with_data(d))
            return
        if isinstance(o, VExt):
            self.event("extwrite", o.path + "." + name, (v,), node=node)
            return
        if isinstance(o, Term):
            self.event("extwrite", mk("attr", o, name), (v,), node=node)
            return
        if isinstance(o, VObj):
            f = getattr(o, "setattr", None)
            if f is not None:
                return f(self, name, v, node)
            return
        raise AnalysisError("setattr on %r" % (o,))

    # ------------------------------------------------------------ items
    def getitem(self, o, k, node):
        if isinstance(o, VChoice):
            if isinstance(o.a, (Ref, VTuple)) or isinstance(o.b, (Ref, VTuple)) or self._opaque_choice(o):
                return self.on_choice(o, lambda x: self.getitem(x, k, node))
        if isinstance(k, VChoice) and isinstance(o, Ref) and self.get(o).kind in ("dict", "list"):
            return self.on_choice(k, lambda x: self.getitem(o, x, node))
        if isinstance(o, VObj):
            r = o.getitem(self, k, node)
            if r is not NotImplemented:
                return r
        if isinstance(o, VExt):
            return self.lib.ext_getitem(o.path, k, node)
        if isinstance(o, (VTuple,)) or (isinstance(o, Ref) and self.get(o).kind == "list"):
            items = list(o.items) if isinstance(o, VTuple) else list(self.get(o).data)
            if isinstance(k, VSlice):
                lo, hi, st = [self.const_or(x) for x in (k.lo, k.hi, k.step)]
                if "?" not in (lo, hi, st):
                    r = items[slice(lo, hi, st)]
                    return VTuple(r) if isinstance(o, VTuple) else self.newlist(r)
                return self.arr(self.lib.getitem_term(self.term(o), self.term(k)))
            kt = self.term(k)
            n = num(kt)
            if n is not None:
                n = int(n)
                if -len(items) <= n < len(items):
                    return items[n]
                self.raise_(VExt("builtins.IndexError"), node)
            if kt.op == "ite":
                return self.choose(kt.args[0], lambda: self.getitem(o, kt.args[1], node), lambda: self.getitem(o, kt.args[2], node))
            t = self.lib.getitem_term(self.term(o), kt)
            return t if all(isinstance(x, Term) for x in items) else self.arr(t)
        if isinstance(o, Ref):
            h = self.get(o)
            if h.kind == "dict":
                return self.dict_get(o, k, None, node)
            if h.kind == "inst":
                m = self.find_method(h, "__getitem__", o)
                if m is not None:
                    return self.call(m, [k], {}, node)
                if "__payload__" in h.data:
                    return self.getitem(h.data["__payload__"], k, node)
            if h.kind in ("arr", "slist"):
                return self.lib.arr_getitem(o, k, node)
        if isinstance(o, VPtr):
            return self.lib.ptr_read(o, self.term(k), node)
        if isinstance(o, (VRange, VSeq)):
            n, fn = self.iter_seq(o, node)
            return fn(self.term(k))
        t = self.term(o)
        if is_str(t) and not isinstance(k, VSlice) and num(self.term(k)) is not None:
            s = t.args[1]
            i = int(num(self.term(k)))
            if -len(s) <= i < len(s):
                return const(s[i])
        return self.lib.getitem_term(t, self.term(k))

    def const_or(self, v):
        t = self.term(v)
        if t is NONE:
            return None
        n = num(t)
        return int(n) if n is not None else "?"

    def setitem(self, o, k, v, node):
        if isinstance(o, VChoice):
            return self.on_choice(o, lambda x: self.setitem(x, k, v, node))
        if isinstance(o, VObj):
            f = getattr(o, "setitem", None)
            if f is not None:
                return f(self, k, v, node)
            return
        if isinstance(o, Ref):
            h = self.get(o)
            if h.kind == "dict":
                return self.dict_set(o, k, v, node)
            if h.kind == "inst":
                m = self.find_method(h, "__setitem__", o)
                if m is not None:
                    return self.call(m, [k, v], {}, node)
                if "__payload__" in h.data:
                    return self.setitem(h.data["__payload__"], k, v, node)
            if h.kind == "list":
                self.write_event(o, node, "item")
                kt = self.term(k)
                n = num(kt)
                if n is not None and -len(h.data) <= n < len(h.data):
                    l = list(h.data)
                    l[int(n)] = v
                    self.put(o, h.with_data(tuple(l)))
                else:
                    self.put(o, HObj("slist", self.lib.store(self.obj_term(h), kt, self.term(v)), h.origin))
                return
            if h.kind in ("arr", "slist"):
                self.write_event(o, node, "item")
                self.lib.arr_setitem(o, k, v, node)
                return
        if isinstance(o, VExt):
            self.event("extwrite", o.path + "[]", (k, v), node=node)
            return
        if isinstance(o, VPtr):
            return self.lib.ptr_write(o, self.term(k), v, node)
        if isinstance(o, Term):
            self.event("extwrite", mk("item", o), (k, v), node=node)
            return
        if isinstance(o, VTuple):
            self.raise_(VExt("builtins.TypeError"), node)
        raise AnalysisError("setitem on %r" % (o,))

    def origins(self, v):
        """Origins (param/global) of the memory an array-like value denotes."""
        out = []
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, VChoice):
                st += [x.a, x.b]
                continue
            if not isinstance(x, Ref) or x.id in seen:
                continue
            seen.add(x.id)
            o = self.get(x)
            if o is None:
                continue
            if o.origin is not None:
                out.append(o.origin)
            if o.base is not None:
                st.append(o.base[0])
        return out

    def write_event(self, v, node, how):
        self.event("write", how, (v,), node=node, extra=self.origins(v))

    def write_term(self, ref, t):
        """Replace the contents of an array object (through views)."""
        if isinstance(ref, VChoice):
            # either object may be the one written: both become conditional
            c = ref.cond
            for side, x in ((True, ref.a), (False, ref.b)):
                if isinstance(x, (Ref, VChoice)):
                    old = self.term(x)
                    d = self.decide(c)
                    if d is TRUE and not side or d is FALSE and side:
                        continue
                    self.write_term(x, t if d in (TRUE, FALSE) else ite(c, t if side else old, old if side else t))
            return
        if not isinstance(ref, Ref):
            return
        o = self.get(ref)
        if o is None:
            self.note("write to an unknown object")
            return
        if o.base is not None and o.data is None:
            b, vk, idx = o.base
            self.write_term(b, self.lib.view_store(vk, self.term(b), idx, t))
            return
        self.put(ref, HObj(o.kind, t, o.origin, o.base, o.meta))
        if o.base is not None:
            self.note("write through a joined view")

    # ------------------------------------------------------------ dictionaries
    def _key(self, k):
        if isinstance(k, Ref) and self.get(k).kind == "inst" and self.find_method(self.get(k), "__eq__") is None and "__payload__" not in self.get(k).data:
            return k       # compared by identity
        t = self.term(k)
        if t.op == "c":
            return pyval(t)
        return t

    def dict_has(self, ref, k):
        o = self.get(ref)
        d, rest = o.data
        key = self._key(k)
        if key in d:
            c = d[key][0]
            if c is TRUE:
                return TRUE
            if rest is not None:
                return lor(c, mk("haskey", rest, self._keyterm(key)))
            return c
        if rest is None and isinstance(key, Ref) and all(isinstance(x, Ref) for x in d):
            return FALSE
        if isinstance(key, Term) or any(isinstance(x, Term) for x in d):
            return mk("haskey", self.obj_term(o), self._keyterm(key))
        if rest is not None:
            return mk("haskey", rest, self._keyterm(key))
        return FALSE

    def dict_get(self, ref, k, default, node):
        """d[k] (default None) or d.get(k, default)."""
        o = self.get(ref)
        d, rest = o.data
        key = self._key(k)
        if isinstance(key, Term) and key.op == "ite":
            return self.choose(key.args[0], lambda: self.dict_get(ref, key.args[1], default, node), lambda: self.dict_get(ref, key.args[2], default, node))
        has = self.decide(self.dict_has(ref, k))
        if has is FALSE:
            if default is None:
                self.raise_(VExt("builtins.KeyError"), node, (self._keyterm(key),))
            return default
        if isinstance(key, Term):
            cand = mk("getitem", self.obj_term(o), key)
            if default is None:
                # a lookup table with a symbolic key
                if d and all(isinstance(v, (Term,)) or True for c, v in d.values()):
                    alts = [(self.truth(self.lib.cmp("==", key, self._keyterm(n))), v) for n, (c, v) in d.items() if not isinstance(n, Term)]
                    if alts and rest is None:
                        self.raise_if(lnot(lor(*[c for c, _ in alts])), VExt("builtins.KeyError"), node, (key,))
                        v = alts[-1][1]
                        for c, x in reversed(alts[:-1]):
                            v = self.join_val(c, x, v)
                        return v
                return cand
            alts = [(self.truth(self.lib.cmp("==", key, self._keyterm(n))), v) for n, (c, v) in d.items() if not isinstance(n, Term)]
            v = default
            for c, x in reversed(alts):
                v = self.join_val(c, x, v)
            return v
        if key in d:
            v = d[key][1]
            if has is TRUE:
                return v
        else:
            v = mk("getitem", rest, self._keyterm(key))
        if default is None:
            self.raise_if(lnot(has), VExt("builtins.KeyError"), node, (self._keyterm(key),))
            return v
        return self.join_val(has, v, default)

    def dict_set(self, ref, k, v, node, quiet=False):
        if not quiet:
            self.write_event(ref, node, "item")
        o = self.get(ref)
        d, rest = o.data
        d = dict(d)
        key = self._key(k)
        if isinstance(key, Term):
            d[key] = (TRUE, v)
        else:
            d[key] = (TRUE, v)
        self.put(ref, o.with_data((d, rest)))

    def dict_pop(self, ref, k, default, node):
        v = self.dict_get(ref, k, default, node)
        self.write_event(ref, node, "pop")
        o = self.get(ref)
        d, rest = o.data
        d = dict(d)
        key = self._key(k)
        d.pop(key, None)
        if rest is not None and not isinstance(key, Term):
            rest = mk("without", rest, self._keyterm(key))
        self.put(ref, o.with_data((d, rest)))
        return v

    def dict_update(self, ref, other, node, quiet=False):
        if not quiet:
            self.write_event(ref, node, "update")
        o = self.get(ref)
        d, rest = o.data
        d = dict(d)
        if isinstance(other, VChoice):
            if self._opaque_choice(other) or True:
                def f(x):
                    self.dict_update(ref, x, node, quiet=True)
                    return NONE
                self.on_choice(other, f)
                return
        if isinstance(other, Ref) and self.get(other).kind == "dict":
            d2, r2 = self.get(other).data
            for n, (c, v) in d2.items():
                if c is TRUE or n not in d:
                    d[n] = (c, v)
                else:
                    c0, v0 = d[n]
                    d[n] = (lor(c, c0), self.join_val(c, v, v0))
            if r2 is not None:
                rest = r2 if rest is None else mk("merged", rest, r2)
            self.put(ref, o.with_data((d, rest)))
            return
        items = self.items_of(other, node, soft=True)
        if items is not None:
            for it in items:
                k, v = self.unpack(it, 2, node)
                d[self._key(k)] = (TRUE, v)
            self.put(ref, o.with_data((d, rest)))
            return
        t = self.term(other)
        rest = t if rest is None else mk("merged", rest, t)
        # unknown entries may override known ones
        for n in list(d):
            c, v = d[n]
            h = mk("haskey", t, self._keyterm(n))
            d[n] = (lor(c, h), self.join_val(h, mk("getitem", t, self._keyterm(n)), v))
        self.put(ref, o.with_data((d, rest)))

    # ------------------------------------------------------------ driving
    def load_package(self, names):
        self.sinks = [[]]
        for n in names:
            self.import_module(n)
        self.mark_globals()
        self.commit_globals()
        self.sinks = []

    def mark_globals(self):
        """Give every object reachable from module namespaces a global origin."""
        heap = self.st.heap
        seen = set()

        def visit(v, path):
            if isinstance(v, Ref):
                if v.id in seen:
                    return
                seen.add(v.id)
                o = heap.get(v.id) or self.base.get(v.id)
                if o is None:
                    return
                if o.kind in ("arr", "list", "slist", "dict", "func", "inst", "class") and o.origin is None:
                    heap[v.id] = HObj(o.kind, o.data, ("global", path), o.base, o.meta)
                    o = heap[v.id]
                if o.kind == "dict":
                    for n, (c, x) in o.data[0].items():
                        visit(x, "%s[%r]" % (path, n))
                elif o.kind == "list":
                    for i, x in enumerate(o.data):
                        visit(x, "%s[%d]" % (path, i))
                elif o.kind == "func":
                    fi, at = o.data
                    for n, x in at.items():
                        visit(x, "%s.%s" % (path, n))
                    for i, x in enumerate(fi.defaults):
                        visit(x, "%s default argument" % path)
                    for n, x in fi.kwdefaults.items():
                        visit(x, "%s default argument %s" % (path, n))
                    e = fi.env
                    while e is not None:
                        eo = heap.get(e.id) or self.base.get(e.id)
                        if eo is None or e.id in seen or eo.data.get("__parent__") is None:
                            break
                        seen.add(e.id)
                        for n, x in eo.data.items():
                            if n != "__parent__":
                                visit(x, "%s closure %s" % (path, n))
                        e = eo.data.get("__parent__")
                elif o.kind in ("inst", "env"):
                    for n, x in o.data.items():
                        visit(x, "%s.%s" % (path, n))
                elif o.kind == "class":
                    e = heap.get(o.data.env.id) or self.base.get(o.data.env.id)
                    for n, x in e.data.items():
                        visit(x, "%s.%s" % (path, n))
                if o.base is not None:
                    visit(o.base[0], path)
            elif isinstance(v, VTuple):
                for i, x in enumerate(v.items):
                    visit(x, "%s[%d]" % (path, i))
            elif isinstance(v, VChoice):
                visit(v.a, path)
                visit(v.b, path)

        order = sorted(self.modules, key=lambda m: -m.count("."))
        for m in order:
            e = heap.get(self.modules[m].id) or self.base.get(self.modules[m].id)
            for n, x in e.data.items():
                if n.startswith("__") and n != "__all__":
                    continue
                if isinstance(x, Ref):
                    o = heap.get(x.id) or self.base.get(x.id)
                    if o is not None and o.kind in ("func", "class"):
                        q = o.data[0].module if o.kind == "func" else o.data.module
                        if q != m:
                            continue
                visit(x, m + "." + n)

    def glob(self, dotted):
        """Value of a dotted repository name such as pydsm.ft.dtft."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                v = VMod(mod)
                for p in parts[i:]:
                    if isinstance(v, VMod):
                        x = self.get(self.modules[v.name]).data.get(p)
                        if x is None:
                            return None
                        v = x
                    else:
                        return None
                return v
        return None

    def run(self, f, args=(), kw=None, pc=()):
        """Call a function value in a fresh state; returns Outcome."""
        self.st = State({}, tuple(pc))
        self.sinks = [[]]
        self.events = []
        self.frames = [Frame(self.alloc(HObj("env", {"__parent__": None})), FInfo(None, None, "<root>", "<root>", [], {}, "<root>"))]
        self.stack = []
        self.steps = 0
        self.imprecise = []
        self.active = {}
        args = [a(self) if callable(a) else a for a in args]
        kw = {k: (v(self) if callable(v) else v) for k, v in (kw or {}).items()}
        node = ast.parse("None").body[0]
        try:
            v = self.call(f, list(args), kw, node)
            st = self.st
        except Dead:
            v, st = None, None
        o = Outcome(self, v, st, self.sinks.pop(), self.events, args, kw, list(self.imprecise))
        if st is None:
            self.st = State({}, tuple(pc))
        return o


class Maybe(tuple):
    """(presence condition, value) keyword argument."""
    __slots__ = ()


class Outcome(object):
    def __init__(self, it, value, st, raises, events, args, kw, imprecise):
        self.it, self.value, self.st, self.raises, self.events = it, value, st, raises, events
        self.args, self.kw, self.imprecise = args, kw, imprecise

    @property
    def returns(self):
        return self.st is not None

    def term(self, v=None):
        self.it.st = self.st
        self.it.sinks = [[]]
        if not self.it.frames:
            self.it.frames = [Frame(self.it.alloc(HObj("env", {"__parent__": None})), FInfo(None, None, "<root>", "<root>", [], {}, "<root>"))]
        return self.it.term(self.value if v is None else v)


class VObjSuper(VObj):
    __slots__ = ("cls", "inst")

    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst

    def getattr(self, it, name, node):
        for c in it.mro(self.cls)[1:]:
            if isinstance(c, Ref):
                v = it.get(it.get(c).data.env).data.get(name)
                if v is not None:
                    return VBound(v, self.inst)
        return VExt("builtins.object." + name)


def own_nodes(fn):
    """AST nodes of a function body not inside nested functions/classes/comprehension scopes' names."""
    out = []

    def rec(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(c)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                # only the walrus targets leak; first iterable is evaluated outside
                for g in ast.walk(c):
                    if isinstance(g, ast.NamedExpr):
                        out.append(g.target)
                continue
            out.append(c)
            rec(c, False)
    for s in fn.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(s)
            continue
        out.append(s)
        rec(s, True)
    return out


# ---------------------------------------------------------------- binders
_H = {}


def height(t):
    h = _H.get(t)
    if h is not None:
        return h
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _H:
            stack.pop()
            continue
        kids = []
        if x.op == "poly":
            kids = [a for m, c in x.args for a, e in m]
        else:
            kids = [a for a in x.args if isinstance(a, Term)]
        todo = [k for k in kids if k not in _H]
        if todo:
            stack += todo
            continue
        m = max([_H[k] for k in kids], default=0)
        if x.op == "bv":
            m = max(m, x.args[0])
        elif x.op == "closed":
            m = max(m, x.args[0] + x.args[1])
        _H[x] = m
        stack.pop()
    return _H[t]


def bind(op, rng, var, body):
    """Binder term with a canonical bound variable (named by binder height)."""
    h = height(body) + 1
    b = mk("bv", h)
    body2 = T.subst(body, {var: b})
    if op == "sum" or op == "prod":
        if var not in T.free(body):
            return mul(rng, body) if op == "sum" else power(body, rng)
        if op == "sum" and body2.op == "poly":
            # linearity and constant factors
            r = ZERO
            for m, c in body2.args:
                inn = [(a, e) for a, e in m if b in T.free(a)]
                outm = [(a, e) for a, e in m if b not in T.free(a)]
                k = const(c)
                for a, e in outm:
                    k = mul(k, power(a, const(e)))
                x = ONE
                for a, e in inn:
                    x = mul(x, power(a, const(e)))
                if not inn:
                    r = add(r, mul(k, rng))
                else:
                    hh = height(T.subst(x, {b: var})) + 1
                    b3 = mk("bv", hh)
                    r = add(r, mul(k, mk("sum", rng, b3, T.subst(x, {b: b3}))))
            return r
    return mk(op, rng, b, body2)


def bindclose(t, vs):
    """Close t over several symbols (in order) with canonical names."""
    h = height(t)
    mp = {}
    for i, v in enumerate(vs):
        mp[v] = mk("bv", h + 1 + i)
    return mk("closed", len(vs), h, T.subst(t, mp))


def apply_lam(f, ts):
    for x in ts:
        if f.op != "lam":
            return mk("call", f, x)
        f = T.subst(f.args[2], {f.args[1]: x})
    return f
