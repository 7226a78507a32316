"""Shared set-up of the checks: whole-package loading, abstract arguments, spec comparison."""
import os

from . import terms as T
from .terms import sym, const, mk, Term, TRUE, FALSE, land, lor, lnot, ite
from .interp import (Interp, HObj, Ref, VTuple, VChoice, VExt, VMod, Unbound, AnalysisError, Dead, SRC)
from . import equal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("tests", "benchmarks", "__pycache__")


def all_modules(src=None, external=()):
    """Every module of the package that is not a test or benchmark."""
    src = src or SRC
    out = []
    for d, dirs, files in os.walk(os.path.join(src, "pydsm")):
        dirs[:] = sorted(x for x in dirs if x not in SKIP)
        rel = os.path.relpath(d, src).replace(os.sep, ".")
        if any(rel == e or rel.startswith(e + ".") for e in external):
            continue
        if "__init__.py" not in files:
            continue
        for f in sorted(files):
            b, e = os.path.splitext(f)
            if e not in (".py", ".pyx") or b in ("conftest", "_pytesttester", "setup"):
                continue
            m = rel if b == "__init__" else rel + "." + b
            if any(m == x or m.startswith(x + ".") for x in external):
                continue
            out.append(m)
    return sorted(set(out))


def new_interp(modules=None, external=("pydsm.cvxpy_tdr",), specs=(), prepare=None, **kw):
    it = Interp(external=external, **kw)
    mods = modules if modules is not None else all_modules(external=external)
    it.sinks = [[]]
    if prepare is not None:
        prepare(it)
    for m in mods:
        it.import_module(m)
    for s in specs:
        it.load("specs." + s, os.path.join(ROOT, "specs", s + ".py"))
    it.mark_globals()
    it.commit_globals()
    it.sinks = []
    return it


def arr(name, *shape, **info):
    """Caller-owned array argument with the given (symbolic) dimensions."""
    sh = None if shape and shape[0] is None else tuple(const(d) if isinstance(d, int) else d for d in shape)
    t = sym(name, kind="arr", shape=sh, **info)

    def f(it):
        return it.alloc(HObj("arr", t, ("param", name)))
    f.term = t
    return f


def tup(*xs):
    def f(it):
        return VTuple([x(it) if callable(x) else x for x in xs])
    return f


def lst(*xs):
    def f(it):
        return it.newlist([x(it) if callable(x) else x for x in xs])
    return f


def plist(name, *xs):
    """Caller-owned list."""
    def f(it):
        return it.newlist([x(it) if callable(x) else x for x in xs], ("param", name))
    return f


def dct(**kw):
    def f(it):
        r = it.newdict()
        for k, v in kw.items():
            it.dict_set(r, const(k), v(it) if callable(v) else v, None, quiet=True)
        return r
    return f


def outcome_term(o, raises=True):
    """Result of a run as one term; abnormal ends become `raised(class)` leaves."""
    t = o.term() if o.returns else mk("raised", "?")
    if raises:
        for r in o.raises:
            c = land(*[x for x in r.st.pc]) if r.st is not None else TRUE
            if c is FALSE:
                continue
            names = o.it.exc_names(r.exc)
            t = ite(c, mk("raised", (names[0] if names else "?").rpartition(".")[2]), t)
    return t


class Spec(object):
    """Comparison of repository functions with specification functions."""

    def __init__(self, rep, it, module):
        self.rep, self.it, self.module = rep, it, module

    def same(self, rule, construct, impl, spec, args=(), kw=None, skw=None, sargs=None, raises=True, post=None, pc=(), **cmp):
        """impl: dotted repository name; spec: name in the spec module (or a term builder)."""
        try:
            return self._same(rule, construct, impl, spec, args, kw, skw, sargs, raises, post, pc, **cmp)
        except Exception as e:
            import traceback
            self.rep.unk(rule, construct, "analysis stopped: %s" % traceback.format_exc()[-700:])

    def _same(self, rule, construct, impl, spec, args, kw, skw, sargs, raises, post, pc, **cmp):
        rep, it = self.rep, self.it
        f = it.glob(impl) if isinstance(impl, str) else impl
        if f is None:
            raise AnalysisError("anchor %s vanished" % impl)
        where = None
        try:
            o = it.run(f, list(args), dict(kw or {}), pc=pc)
            if not o.returns:
                rep.bad(rule, construct, "never returns normally: " + "; ".join(
                    "%s at %s" % (it.exc_names(r.exc)[:1], r.where()) for r in o.raises[:4]), where)
                return
            ti = outcome_term(o, raises)
            why = o.imprecise
            if post:
                ti = post(ti)
        except AnalysisError as e:
            rep.unk(rule, construct, "analysis: %s" % e)
            return
        if callable(spec):
            ts = spec(it)
        else:
            g = it.glob("specs.%s.%s" % (self.module, spec))
            o2 = it.run(g, list(args if sargs is None else sargs), dict(skw if skw is not None else (kw or {})), pc=pc)
            ts = outcome_term(o2, raises)
            if post:
                ts = post(ts)
        v = equal.compare(ts, ti, pc=pc, **cmp)
        rep.add("value graphs compared")
        rep.add("operators in compared graphs", sum(1 for _ in T.walk(ti)))
        if v.kind == equal.EQUAL:
            rep.ok(rule, construct, v.how)
        elif v.kind == equal.DIFFERENT:
            rep.bad(rule, construct, "computes %s instead of %s; differs at %s" % (T.show(ti)[:500], T.show(ts)[:300], v.witness), impl)
        else:
            rep.unk(rule, construct, "%s; %s; impl=%s" % (v.how, why[:3], T.show(ti)[:300]))
        return v
