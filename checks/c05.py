"""C05: superseded names warn and forward."""
from sa.ctx import *
from sa import cat, scen, par, equal
from sa.scen import real, integer, cb, zpk, opendict, user_opts, MODELERS
from specs import c05 as table

WARN = "PyDsmDeprecationWarning"


def deprecation(e):
    return e.kind == "warn" and any(str(x).rpartition(".")[2] == WARN for x in (e.what or ()))


def run(rep, tier):
    rep.explanation = ("Every superseded function and its replacement are interpreted abstractly on the same symbolic arguments (required only, all positional, "
                       "by keyword, with options for every modeler); results, exceptions and the calls made to numerical engines are compared as value graphs. "
                       "The deprecation warning must be issued on every path; functions that are not superseded must not issue one on any path.")
    rep.rule("warns", "the deprecation warning is issued under a path condition that is always true")
    rep.rule("same result", "value and exceptions == those of the replacement")
    rep.rule("same work", "calls made to quadrature, minimizers, solvers and simulators == those of the replacement")
    rep.rule("no spurious warning", "functions that are not superseded issue no deprecation warning")
    it = new_interp(specs=("c05f",))
    it.traced = True
    pairs = table.pairs()

    F = "pydsm.NTFdesign."
    callees = {F + "weighting._fir_weighting.q0_weighting", F + "weighting._fir_weighting.ntf_fir_from_q0", F + "merit_factors.quantization_noise_gain",
               F + "legacy._q0_from_ir.q0_from_filter_ir"}

    def one(p):
        old, new, label, args, kw, nargs, nkw = p
        new = new if new.startswith("specs.") else "pydsm." + new
        res = []
        fo, fn = it.glob("pydsm." + old), it.glob(new)
        ro = lambda: it.run(fo, list(args), dict(kw))
        rn = lambda: it.run(fn, list(nargs), dict(nkw))
        # forwarding, the replacement being opaque
        q = callees if new.startswith("specs.") else {it.get(fn).data[0].qual}
        try:
            with cat.summaries(it, q):
                r1, o = cat.equivalent(it, ro, rn)
        except AnalysisError as e:
            r1, o = [("same result", None, "analysis: %s" % e)], None
        r2 = None
        if not (len(r1) == 2 and all(x[1] is True for x in r1)):
            r2, o = cat.equivalent(it, ro, rn)
        cs = [land(*e.pc) for e in o.events if deprecation(e)]
        a = cat.always(lor(*cs)) if cs else False
        res.append((a, "warns", "warning issued on every path" if a else "no deprecation warning when %s" % (T.show(lnot(lor(*cs)))[:200] if cs else "called")))
        for x in (r1 if r2 is None else r2):
            if r2 is not None and x[1] is None:
                # undecided in full: the forwarded arguments differ, or nothing is forwarded
                y = [z for z in r1 if z[0] == x[0]]
                if y and y[0][1] is False and not new.startswith("specs.") and "summary:" in y[0][2]:
                    x = y[0]
            res.append((x[1], x[0], x[2]))
        return res
    for p, r in zip(pairs, par.pmap(one, pairs)):
        name = p[0] + "(%s)" % p[2]
        if isinstance(r, par.Failed):
            rep.unk("same result", name, r.why)
            continue
        rep.add("call forms compared")
        for ok, rule, why in r:
            rep.check(None if ok == "unk" else ok, rule, name, why, "src/pydsm/" + p[0].replace(".", "/"))
    cs = [s for s in scen.catalogue() if not s.tags.get("dep") and not s.tags.get("deprecated")]

    def facts(s, o):
        return sorted({e.where() for e in o.events if deprecation(e) and cat.live(o, e)})
    for s, w in cat.run(it, facts, cs, rep, "no spurious warning"):
        rep.check(not w, "no spurious warning", s.label, "deprecation warning issued at %s" % ", ".join(w) if w else "")
    names = {it.get(it.glob("pydsm." + p[0])).data[0].qual for p in pairs if it.glob("pydsm." + p[0]) is not None}
    rep.rule("coverage", "every function that issues the deprecation warning itself is compared with its replacement")
    for q in sorted(set(warners(it))):
        rep.check(True if q in names else None, "coverage", q, "" if q in names else "function issuing a deprecation warning without a comparison")


def warners(it):
    """Functions whose own body refers to the deprecation warning class."""
    import ast
    from sa.interp import SRC
    out = []
    for m in all_modules(external=("pydsm.cvxpy_tdr",)):
        f = it.module_files.get(m)
        if not f or not f.endswith(".py"):
            continue
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef) and any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) == WARN for x in ast.walk(n)):
                out.append(m + "." + n.name)
    return out
