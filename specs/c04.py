"""Documented images of options at the numerical engines."""
from sa import terms as T
from sa.terms import TRUE, FALSE, const, mk, ite, land

INT = ("limit", "maxiters", "max_iters", "maxiter", "maxfun", "maxcor", "acceleration_lookback")
BOOL = ("show_progress", "fix_pos", "use_optimizer", "override_kktsolver", "normalize", "use_indirect", "disp")
QUADKW = ("epsabs", "epsrel", "limit", "points", "limlst", "maxp1", "weight", "wvar", "wopts")
# one entry of cvxopt_opts may have several names in picos
PICOS = {"maxiters": ("max_iterations",), "abstol": ("abs_ipm_opt_tol",), "reltol": ("rel_ipm_opt_tol",), "feastol": ("rel_prim_fsb_tol", "rel_dual_fsb_tol")}
ENGINE = {"cvxpy_old": "tdr", "cvxpy": "cvxpy", "picos": "picos"}
# documented inner calls made without options: the inner function's own table applies there
INNER = {"delsig.clans": ("T:delsig.synthesizeNTF:use_optimizer",), "NTFdesign.delsig.clans": ("T:delsig.synthesizeNTF:use_optimizer",)}
SIM = {"scipy": "pydsm.delsig._simulateDSM_scipy.simulateDSM", "scipy_blas": "pydsm.delsig._simulateDSM_scipy_blas.simulateDSM", "cblas": "pydsm.delsig._simulateDSM_cblas.simulateDSM"}


def kind(e):
    return "int" if e in INT else "bool" if e in BOOL else "any" if e == "points" else "real"


def truth(t):
    return TRUTH(t)


def entries(t):
    """{name: term} of a dictionary term."""
    if t.op != "dict":
        return None
    return {a.args[0].args[-1] if hasattr(a.args[0], "op") else a.args[0]: a.args[1] for a in t.args if a.op == "kv"}


def verify(fn, mo, so, backend, tab, value, vals, ev, same):
    out = []
    o = ev["outcome"]

    def match(where, what, got, want, optional=()):
        """got, want: {key: (cond, term)}."""
        for k in sorted(set(got) | set(want)):
            if k not in want:
                out.append((False if k not in optional else True, "%s receives the undocumented entry %s = %s" % (what, k, T.show(got[k][1])[:80]), where))
                continue
            wc, wt = want[k]
            if k not in got:
                out.append((False, "%s does not receive %s (%s)" % (what, k, T.show(wt)[:80]), where))
                continue
            gc, gt = got[k]
            s = same(ite(gc, gt, mk("absent")), ite(wc, wt, mk("absent"))) if (gc is not TRUE or wc is not TRUE) else same(gt, wt)
            out.append((s, "" if s else "%s receives %s = %s%s instead of %s" % (what, k, T.show(gt)[:80], "" if gc is TRUE else " if " + T.show(gc)[:60], T.show(wt)[:80]), where))
    if not o.returns:
        return [(False if o.raises else None, "the call does not return" + (" but raises " + ", ".join(str(x) for r in o.raises[:1] for x in EXC(r)) if o.raises else ""), o.raises[0].where() if o.raises else "")]
    if "quad_opts" in tab and fn.tag != "imp":
        want = {k: (TRUE, value("quad_opts." + k)) for k in tab["quad_opts"]}
        for kw, n, pc, where in ev["quad"]:
            got = {k: v for k, v in kw.items() if k in QUADKW}
            if n > 3 or "**" in kw:
                out.append((None, "quadrature options given positionally or not enumerable", where))
                continue
            match(where, "quad", got, want)
        if not ev["quad"]:
            out.append((False, "no quadrature receives the options", ""))
    if "modeler" in tab:
        runs = [r for r in ev["solver"] if r[3] is not FALSE]
        if not runs:
            out.append((None, "no solver run seen", ""))
        for kind_, d, ts, pc, where in runs:
            if kind_ != ENGINE[mo]:
                out.append((False, "modeler %s runs the %s engine" % (mo, kind_), where))
                continue
            sp = value("show_progress")
            if mo == "cvxpy_old":
                want = {k: (TRUE, value("cvxopt_opts." + k)) for k in tab["cvxopt_opts"]}
                want["quiet"] = (TRUE, ite(truth(sp), const(0), const(1)))
                got = dict(d)
                if "quiet" in got:
                    got["quiet"] = (got["quiet"][0], ite(truth(got["quiet"][1]), const(1), const(0)))
            elif mo == "picos":
                want = {n: (TRUE, value("cvxopt_opts." + k)) for k in tab["cvxopt_opts"] for n in PICOS[k]}
                want["verbosity"] = (TRUE, ite(truth(sp), const(1), const(0)))
                got = {k: v for k, v in d.items() if not (k == "solver" and v[1] is const("cvxopt"))}
                if "verbosity" in got:
                    got["verbosity"] = (got["verbosity"][0], ite(truth(got["verbosity"][1]), const(1), const(0)) if T.isboolt(got["verbosity"][1]) else got["verbosity"][1])
            else:
                got = dict(d)
                sub = "scs_opts" if so == "scs" else "cvxopt_opts"
                want = {k: (TRUE, value(sub + "." + k)) for k in tab[sub]}
                want["verbose"] = (TRUE, ite(truth(sp), const(1), const(0)))
                if "verbose" in got:
                    got["verbose"] = (got["verbose"][0], ite(truth(got["verbose"][1]), const(1), const(0)))
                want["solver"] = (TRUE, mk("ext", "cvxpy." + so.upper()))
                if "solver" in got and got["solver"][1] is const(so.upper()):
                    want["solver"] = (TRUE, const(so.upper()))
                if so == "cvxopt":
                    want["kktsolver"] = (truth(value("cvxpy_opts.override_kktsolver")), const("chol"))
                elif "kktsolver" in got:
                    pass
            match(where, "the solver", got, want)
            if "fix_pos" in tab:
                fr = set()
                for t in ts:
                    fr |= {x.args[0] for x in T.free(t) if x.op == "sym"}
                    fr |= {n for n in T.symbols(t) if "fix_pos" in n}
                s = value("fix_pos").args[0]
                out.append((s in fr, "" if s in fr else "the positivity option %s does not reach the program" % s, where))
        others = [r for r in ev["solver"] if r[0] != ENGINE[mo]]
        out.append((not others, "", ""))
    for path, sub in (("slsqp_opts", "slsqp_opts"), ("L_BFGS_B_opts", "L_BFGS_B_opts")):
        if path not in tab:
            continue
        if not ev["minimize"]:
            out.append((None, "no call of the minimizer seen", ""))
        for kw, pc, where in ev["minimize"]:
            want = {k: (TRUE, value(path + "." + k)) for k in tab[path]}
            if path == "slsqp_opts":
                want["disp"] = (TRUE, ite(truth(value("show_progress")), const(1), const(0)))
            got = {}
            if "options" in kw:
                e = entries(kw["options"][1])
                if e is None:
                    out.append((None, "minimizer options are %s" % T.show(kw["options"][1])[:100], where))
                    continue
                got = {k: (TRUE, v) for k, v in e.items()}
            if "tol" in kw:
                out.append((False, "the minimizer receives tol, which overrides the tolerances given", where))
            if "disp" in got:
                got["disp"] = (TRUE, ite(truth(got["disp"][1]), const(1), const(0)))
            match(where, "the minimizer", got, want)
    if "use_optimizer" in tab:
        uo = truth(value("use_optimizer"))
        for q, want in (("pydsm.delsig._synthesizeNTF1.synthesizeNTF1", uo), ("pydsm.delsig._synthesizeNTF0.synthesizeNTF0", T.lnot(uo))):
            cs = [c for n, c in ev["calls"] if n == q]
            if not cs:
                got = FALSE
            else:
                got = T.lor(*cs)
            if not any(n.startswith("pydsm.delsig._synthesizeNTF") for n, c in ev["calls"]):
                out.append((None, "neither optimizer is called", ""))
                continue
            r = same(ite(got, const(1), const(0)), ite(want, const(1), const(0)))
            out.append((r, "" if r else "%s runs when %s instead of %s" % (q.split(".")[-1], T.show(got)[:80], T.show(want)[:80]), ""))
    if "backend" in tab:
        cs = [n for n, c in ev["calls"] if n in SIM.values()]
        if not cs:
            out.append((None, "no simulator called", ""))
        elif backend in SIM:
            ok = set(cs) == {SIM[backend]}
            out.append((ok, "" if ok else "back end %s runs %s" % (backend, sorted(set(cs))), ""))
        else:
            out.append((True, "", ""))
    # an overridden default must not be used anywhere
    own = "T:%s:" % fn.table_name
    used = set()
    seen = set()
    for ts in ev["all"]:
        for t in ts:
            used |= T.symbols(t, seen)
    for p in vals:
        ok = own + p not in used
        out.append((ok, "" if ok else "the table entry %s is used although the caller gave the option" % p, ""))
    return out
