"""Running the catalogue of public functions on several cores and extracting facts from the runs."""
import ast
import os

from . import scen, par, terms as T
from .ctx import *
from .interp import SRC

# public names that are not functions, or that another check analyses
PRIVATE_DIRS = ("tests", "benchmarks", "__pycache__", "cvxpy_tdr")


def public_functions(it, src=None):
    """Dotted names of the functions exported by the modules of the package (without the bundled modeller)."""
    src = src or SRC
    out = {}
    for d, ds, fs in os.walk(os.path.join(src, "pydsm")):
        ds[:] = sorted(x for x in ds if x not in PRIVATE_DIRS)
        rel = os.path.relpath(d, src).replace(os.sep, ".")
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("conftest.py", "_pytesttester.py", "_version.py", "setup.py"):
                continue
            mod = rel if f == "__init__.py" else rel + "." + f[:-3]
            tree = ast.parse(open(os.path.join(d, f)).read())
            names = []
            for n in tree.body:
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(t, ast.Name) and t.id == "__all__" and isinstance(n.value, (ast.List, ast.Tuple)):
                        names += [e.value for e in n.value.elts if isinstance(e, ast.Constant)]
            for x in names:
                v = it.glob(mod + "." + x)
                if isinstance(v, Ref) and it.get(v).kind == "func":
                    out.setdefault(it.get(v).data[0].qual, mod + "." + x)
    return out


def covered(it, cat):
    out = set()
    for s in cat:
        v = it.glob(s.func)
        if isinstance(v, Ref) and it.get(v).kind == "func":
            out.add(it.get(v).data[0].qual)
    return out


def run(it, extract, cat=None, rep=None, rule="catalogue", pcs=None):
    """[(scenario, extract(scenario, outcome))]; scenarios that could not be analysed are reported undecided."""
    cat = scen.catalogue() if cat is None else cat

    def f(s):
        try:
            o = s.run(it)
        except AnalysisError as e:
            n = it.cover - sent
            sent.update(n)
            return par.Failed("analysis: %s" % e), n
        n = it.cover - sent
        sent.update(n)
        return extract(s, o), n
    sent = set()
    out = []
    for s, r in zip(cat, par.pmap(f, cat)):
        if isinstance(r, par.Failed):
            if rep is not None:
                rep.unk(rule, s.label, r.why)
            continue
        it.cover |= r[1]
        r = r[0], 0
        if isinstance(r[0], par.Failed):
            if rep is not None:
                rep.unk(rule, s.label, r[0].why)
            continue
        out.append((s, r[0]))
    return out


def unreached(it, skip=("pydsm.cvxpy_tdr",), handlers=True):
    """[(module, line, source)]: statements and selectable subexpressions inside functions that no run reached."""
    out = []
    for m, tree in sorted(it.trees.items()):
        if not m.startswith("pydsm") or m.startswith(skip):
            continue

        def walk(n, infn):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    walk(c, True)
                    continue
                if isinstance(c, ast.ExceptHandler) and not handlers:
                    continue
                if infn and isinstance(c, ast.stmt) and id(c) not in it.cover:
                    if not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                        out.append((m, c.lineno, ast.unparse(c).split("\n")[0][:100]))
                    continue
                if infn and isinstance(c, ast.IfExp):
                    for b in (c.body, c.orelse):
                        if id(b) not in it.cover:
                            out.append((m, b.lineno, ast.unparse(b)[:100]))
                walk(c, infn)
        walk(tree, False)
    return out


def coverage_rule(rep, it, cat):
    rep.rule("coverage", "every exported function occurs in the catalogue of analysed calls")
    cov = covered(it, cat)
    for q, n in sorted(public_functions(it).items()):
        if q in cov:
            rep.ok("coverage", n)
        else:
            rep.unk("coverage", n, "exported function without an analysed call")


def statements_rule(rep, it, handlers=True):
    rep.rule("reach", "every statement inside a function of the package was executed abstractly (raise statements need not be)")
    un = [x for x in unreached(it, handlers=handlers) if not x[0].endswith("._pytesttester") and not x[2].startswith("raise ")]
    for m, line, txt in un:
        rep.unk("reach", "%s:%d" % (m, line), "no analysed call reaches: %s" % txt)
    if not un:
        rep.ok("reach", "all statements")


def live(o, e):
    """Can the event happen (its path condition is not false)?"""
    return land(*e.pc) is not FALSE


def opaque(it, o):
    """Reasons for which the events of the run may be incomplete."""
    return [x for x in o.imprecise if "generator" in str(x[0]) or "unknown object" in str(x[0]) or "recursion" in str(x[0])]


def history_leaks(it, o, exempt=lambda path: False):
    """[(kind, text, where)]: ways in which the call leaves something behind, hands out internal data or reads hidden state."""
    out = []
    for e in o.events:
        if not live(o, e):
            continue
        if e.kind in ("write", "extwrite"):
            for x in e.extra or ():
                if isinstance(x, tuple) and x[0] == "global" and not exempt(x[1]):
                    out.append(("write", "%s modified by %s" % (x[1], e.what), e.where()))
            if e.kind == "extwrite" and isinstance(e.what, str):
                out.append(("write", "%s of another module is set" % e.what, e.where()))
        elif e.kind == "impure":
            out.append(("impure", "%s is called" % e.what, e.where()))
    if o.returns:
        it.st = o.st
        for r in it.reachable(o.value):
            ob = it.get(r)
            if ob.kind in ("arr", "list", "slist", "dict") and ob.origin is not None and ob.origin[0] == "global" and not exempt(ob.origin[1]):
                out.append(("return", "the result gives access to %s" % ob.origin[1], ""))
    return sorted(set(out))


# calls whose arguments determine the numerical work
ENGINE = ("scipy.integrate.", "scipy.optimize.", "cvxpy.", "picos.", "cvxopt.", "pydsm.cvxpy_tdr", "pydsm.delsig._simulateDSM")


def trace(it, o, engine=ENGINE):
    """Sequence of (name, arguments term, condition term) of the engine calls of a run (needs it.traced)."""
    out = []
    for e in o.events:
        if e.terms is None or not live(o, e):
            continue
        w = e.what if isinstance(e.what, str) else T.show(e.what)
        if e.kind == "extcall" and not w.startswith(engine):
            continue
        out.append((e.kind + " " + w, mk("vec", *(list(e.terms[0]) + [mk("kw", k, t) for k, t in e.terms[1]])), land(*e.pc), e.where()))
    return out


def same_trace(a, b, pc=(), n=10):
    """(verdict, text): do two runs call the numerical engines in the same way?"""
    from . import equal
    if [x[0] for x in a] != [x[0] for x in b]:
        d = next((i for i in range(min(len(a), len(b))) if a[i][0] != b[i][0]), min(len(a), len(b)))
        return False, "engine calls differ: %s instead of %s" % (["%s (%s)" % (x[0], x[3]) for x in a[d:d + 2]], ["%s (%s)" % (x[0], x[3]) for x in b[d:d + 2]])
    unk = None
    for x, y in zip(a, b):
        if x[1] is y[1] and x[2] is y[2]:
            continue
        for s, t in ((x[1], y[1]), (x[2], y[2])):
            if s is t:
                continue
            if s.op == "vec" and t.op == "vec" and len(s.args) == len(t.args):
                prs = [(p, q) for p, q in zip(s.args, t.args) if p is not q]
            else:
                prs = [(s, t)]
            for p, q in prs:
                if p.op == "kw" and q.op == "kw":
                    if p.args[0] is not q.args[0]:
                        return False, "%s at %s: keyword %s instead of %s" % (x[0], x[3], T.show(p)[:150], T.show(q)[:150])
                    p, q = p.args[1], q.args[1]
                v = equal.compare(q, p, pc=pc, n=n)
                if v.kind == equal.DIFFERENT:
                    return False, "%s at %s receives %s instead of %s; differs at %s" % (x[0], x[3], T.show(p)[:200], T.show(q)[:200], v.witness)
                if v.kind != equal.EQUAL:
                    unk = "%s at %s: %s" % (x[0], x[3], v.how)
    return (None, unk) if unk else (True, "%d engine calls agree" % len(a))


def always(c, n=40):
    """Is the condition true at every point (True), false somewhere (False), or unknown (None)?"""
    from . import equal
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    v = equal.compare(const(1), ite(c, const(1), const(0)), n=n)
    return True if v.kind == equal.EQUAL else False if v.kind == equal.DIFFERENT else None


class summaries(object):
    """While active, calls of the given functions are recorded as opaque terms over their bound arguments."""

    def __init__(self, it, quals):
        self.it, self.quals = it, quals

    def __enter__(self):
        for q in self.quals:
            self.it.lib.repo_hooks[q] = self.hook
        return self

    def __exit__(self, *a):
        for q in self.quals:
            self.it.lib.repo_hooks.pop(q, None)

    def hook(self, it, ref, args, kw, node):
        o = it.get(ref)
        fi, attrs = o.data
        it.event("call", fi.qual, tuple(args), dict(kw), node)
        b = it.bind_args(fi, args, kw, node)
        va = fi.node.args.kwarg
        ts = []
        for k in sorted(b):
            v = b[k]
            if va is not None and k == va.arg:
                d = attrs.get("default_options")
                m = it.glob("specs.c05f.merged")
                if d is not None and m is not None:
                    v = it.call(m, [v, d], {}, node)
            ts.append(mk("kw", k, it.kwterm(v)))
        r = mk("app", "summary:" + fi.qual, *ts)
        e = it.event("extcall", "summary:" + fi.qual, (), {}, node)
        e.terms = (tuple(ts), ())
        return r


def canonical(*ts):
    """Fresh symbols of an analysis renamed in order of first occurrence."""
    out = []
    for t in ts:
        names = {}
        order = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x.op == "sym" and "#" in str(x.args[0]):
                order.append(x)
            st.extend(a for a in reversed(x.args) if isinstance(a, Term))
        cnt = {}
        for x in order:
            p = str(x.args[0]).split("#")[0]
            cnt[p] = cnt.get(p, 0) + 1
            info = {k: v for k, v in (T.INFO.get(x.args[0]) or {}).items()}
            names[x] = sym("%s~%d" % (p, cnt[p]), **info)
        out.append(T.subst(t, names) if names else t)
    return out


def has_fresh(t):
    return any(x.op == "sym" and ("#" in str(x.args[0]) or "~" in str(x.args[0])) for x in T.walk(t))


def equivalent(it, rep_a, rep_b, n=12):
    """Compare two runs (callables returning outcomes): [(rule, verdict, text)]."""
    from . import equal
    oa, ob = rep_a(), rep_b()
    if not oa.returns and not ob.returns:
        return [("same result", None, "neither function returns for these arguments")], oa
    if not oa.returns:
        return [("same result", False, "never returns: " + "; ".join("%s at %s" % (it.exc_names(r.exc)[:1], r.where()) for r in oa.raises[:3]))], oa
    res = []
    ta, tb = canonical(outcome_term(oa), outcome_term(ob))
    if ta is tb:
        res.append(("same result", True, "identical value graphs"))
    else:
        v = equal.compare(tb, ta, n=n)
        k = True if v.kind == equal.EQUAL else False if v.kind == equal.DIFFERENT else None
        if k is False and (has_fresh(ta) or has_fresh(tb)):
            k = None
        res.append(("same result", k, v.how if v.kind != equal.DIFFERENT else "computes %s instead of %s; differs at %s" % (T.show(ta)[:300], T.show(tb)[:300], v.witness)))
    a, b = trace(it, oa), trace(it, ob)
    both = []
    for x in (a, b):
        c = canonical(mk("vec", *[mk("vec", y[1], y[2]) for y in x]))[0]
        both.append([(y[0], z.args[0], z.args[1], y[3]) for y, z in zip(x, c.args)])
    ok, why = same_trace(both[0], both[1])
    if ok is False and "engine calls differ" not in why and any(has_fresh(z) for x in both for y in x for z in y[1:3]):
        ok = None
    res.append(("same work", ok, why))
    return res, oa
