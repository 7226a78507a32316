"""C19: process-wide settings are as found at every exit."""
from sa.ctx import *
from sa import cat, scen
from sa.settings import Settings, Mutating, references
import ast
import os

# documented purpose is to set or use the default random state
OWN = {"pydsm.cvxpy_tdr.utils.seed", "pydsm.cvxpy_tdr.utils.rand", "pydsm.cvxpy_tdr.utils.randn"}
TDR = (("call_solver", "pydsm.cvxpy_tdr.procedures.call_solver.call_solver", 2), ("solve_prog", "pydsm.cvxpy_tdr.procedures.solve_prog.solve_prog", 2))


def summarise(it, refs):
    """Functions and classes of the bundled modeller that cannot reach a setting are treated as opaque calls (which may raise)."""
    rel = {q.split(".")[-1] for p, l, q, x in refs if "cvxpy_tdr" in p}
    fs = []
    for m in all_modules(external=()):
        if not m.startswith("pydsm.cvxpy_tdr"):
            continue
        p = os.path.join(SRC, *m.split("."))
        p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}
                fs.append((m, n, names))
    while True:
        new = {n.name for m, n, names in fs if names & rel and isinstance(n, ast.FunctionDef) and n.name != "__init__"} - rel
        if not new:
            break
        rel |= new

    def opaque(it, *a):
        node = a[-1]
        it.may_raise(node, "call")
        return it.newsym("r", kind="obj")
    for m, n, names in fs:
        if isinstance(n, ast.ClassDef):
            it.lib.class_hooks[n.name] = opaque
        elif n.name not in rel and n.name not in [t[0] for t in TDR]:
            it.lib.repo_hooks[m + "." + n.name] = opaque


def run(rep, tier):
    rep.explanation = ("Typestate analysis: process-wide settings (floating-point error handling, warning filters, print options, solver option dictionaries, random "
                       "state, working directory, environment and others) are abstract cells of the interpreter's heap; calls and assignments that change them update "
                       "the cells, context managers and finally clauses restore them on the exits they cover, and every call made while a cell is changed may raise. "
                       "Every exit state of every public function must have all cells at their entry value.")
    rep.rule("exits", "at every normal and exceptional exit every settings cell holds its entry value")
    rep.rule("import", "importing the package changes no setting")
    rep.rule("mentions", "every mention of a setting in the source lies in code the analysis executed abstractly")
    reached = set()
    keep = []

    def make(**kw):
        it = new_interp(prepare=lambda it: keep.append(Settings(it)), **kw)
        return it, keep[-1]

    def report(label, w):
        w = [x for x in w if x[0]]
        if w:
            ch, how, where = w[0]
            rep.bad("exits", label, "%s changed at a %s exit" % (", ".join("%s (now %s)" % (k, v[:80]) for k, v in sorted(ch.items())[:3]), how), where)
        else:
            rep.ok("exits", label)

    def facts_of(it, S, o):
        w = [({k: T.show(v) for k, v in S.changed(r.st).items()}, "raising", r.where()) for r in o.raises if r.st is not None]
        if o.returns:
            last = [e for e in o.events if e.kind in ("setting", "extwrite")]
            w.append(({k: T.show(v) for k, v in S.changed(o.st).items()}, "normal", last[-1].where() if last else ""))
        return [x for x in w if x[0]][:3], len(w), len(o.raises), set(S.reached), sum(e.kind == "setting" for e in o.events), [str(x)[:200] for x in cat.opaque(it, o)]

    it, S = make()
    imp = S.changed(it.st) if it.st is not None else {}
    rep.check(not imp, "import", "pydsm", "settings changed: %s" % ", ".join(imp))
    cs = scen.catalogue()
    for s, (w, n, r, re_, ns, op) in cat.run(it, lambda s, o: facts_of(it, S, o), cs, rep, "exits"):
        rep.add("calls analysed")
        rep.add("exits inspected", n + r)
        rep.add("settings changes modelled", ns)
        reached |= re_
        if not w and op:
            rep.unk("exits", s.label, op[0])
        else:
            report(s.label, w)
    cat.coverage_rule(rep, it, cs)
    cat.statements_rule(rep, it, handlers=False)
    it2, S2 = make(external=())
    src = os.path.join(SRC, "pydsm")
    refs = references(src, Mutating(S2))
    summarise(it2, refs)
    for nm, f, na in TDR:
        fv = it2.glob(f)
        if fv is None:
            rep.unk("exits", f, "anchor vanished")
            continue
        o = it2.run(fv, [sym("program", kind="obj"), sym("quiet", kind="bool")][:na], {})
        w, n, r, re_, ns, op = facts_of(it2, S2, o)
        rep.add("exits inspected", n + r)
        reached |= re_
        report(f[6:], w)
    for p, line, q, x in refs:
        rel = os.path.relpath(p, SRC)
        mod = rel[:-3].replace(os.sep, ".")
        if mod + "." + q in OWN:
            rep.ok("mentions", "%s:%s %s" % (rel, line, x or ""), "documented purpose")
        elif x is None:
            rep.unk("mentions", rel, "not parsed")
        elif (p, line) in reached or (p, 0) in reached:
            rep.ok("mentions", "%s:%s %s" % (rel, line, x))
        elif q == "<module>":
            rep.ok("mentions", "%s:%s %s" % (rel, line, x), "module level, see rule import")
        else:
            rep.unk("mentions", "%s:%s %s" % (rel, line, x), "in %s, which no analysed call reaches" % q)
