"""C04: options reach the engine; defaults come from the called function's own table."""
from sa.ctx import *
from sa import cat, par, engines, equal, options as O
from specs import c04 as spec


def run(rep, tier):
    rep.explanation = ("Information flow: the published default table of the called function is replaced by one symbol per entry, user options are further symbols; every call form "
                       "(no options, each option alone, each nested entry alone, all together; selection by argument and by table; every modeler, solver and back end) is "
                       "interpreted abstractly and the keyword arguments reaching quadrature, minimizer, solver and simulator are compared with the documented mapping, entry by entry.")
    rep.rule("engine options", "options received by the engine == documented image of (user option if given, else own table entry)")
    rep.rule("own table", "the tables of different functions share no mutable object")
    rep.rule("other tables", "no value of another function's table reaches an engine or the result")
    rep.rule("coverage", "every exported function with a keyword catch-all is analysed")
    it = new_interp(specs=())
    it.traced = True
    spec.TRUTH, spec.EXC = it.truth, lambda r: it.exc_names(r.exc)
    rec = engines.install(it)
    fns = O.functions()
    tables = {}
    for f in fns:
        r = O.table(it, f)
        if r is None:
            rep.unk("coverage", f.name, "no published table found")
        else:
            tables[f.table_name] = r
    names = sorted(tables)
    # sharing
    owner = {}
    for n in names:
        refs = [("", tables[n])] + [("[%r]" % k, v) for k, (c, v) in it.get(tables[n]).data[0].items() if isinstance(v, Ref)]
        for p, r in refs:
            owner.setdefault(r.id, []).append(n + ".default_options" + p)
    canon = {}
    for n in names:
        canon.setdefault(it.glob("pydsm." + n).id, n)
    for n in sorted(canon.values()):
        rep.check(not [x for x in owner.values() if len(x) > 1 and any(y.startswith(n + ".") for y in x)], "own table", n,
                  "shared: %s" % [x for x in owner.values() if len(x) > 1][:2])

    def leaf(tn, path, kind=None):
        nm = "T:%s:%s" % (tn, path)
        return sym(nm, kind=spec.kind(path.split(".")[-1]))

    def symbolise(tn, choice):
        """Replaces the entries of a table by symbols; entries that select code stay concrete."""
        for n in names:
            r = tables[n]
            for k, (c, v) in list(it.get(r).data[0].items()):
                if isinstance(v, Ref) and it.get(v).kind == "dict":
                    for e in list(it.get(v).data[0]):
                        if e != "solver":
                            it.dict_set(v, const(e), leaf(n, k + "." + e), None, quiet=True)
                        elif n == tn and choice.get("solver"):
                            it.dict_set(v, const(e), const(choice["solver"]), None, quiet=True)
                elif k not in ("modeler", "backend"):
                    it.dict_set(r, const(k), leaf(n, k), None, quiet=True)
                elif n == tn and choice.get(k):
                    it.dict_set(r, const(k), const(choice[k]), None, quiet=True)

    jobs = []
    for f in fns:
        if f.table_name not in tables or it.glob("pydsm." + f.name) is None:
            continue
        tab = O.nested(it, tables[f.table_name])
        for s in f.sel:
            label, kw, mo, so = s
            choices = [("", dict(kw), {})]
            if mo and label not in ("default", "cvxpy"):
                choices.append(("table", {}, {"modeler": mo, "solver": so}))
            if "backend" in kw:
                choices.append(("table", {}, {"backend": label}))
            for how, kw0, choice in choices:
                users = [("none", {})]
                top = [k for k in tab if k not in ("modeler", "backend")]
                for k in top:
                    if tab[k] is None:
                        if k not in kw0:
                            users.append((k, {k: None}))
                    else:
                        for e in tab[k]:
                            if e != "solver":
                                users.append(("%s.%s" % (k, e), {k: [e]}))
                        users.append((k + " empty", {k: []}))
                rel = {k: (None if tab[k] is None else [e for e in tab[k] if e != "solver"]) for k in top if O.RELEVANT.get(k, lambda m, x: True)(mo, so) and k not in ("use_optimizer",)}
                users.append(("all", rel))
                users = [(n, u) for n, u in users if all(O.RELEVANT.get(k, lambda m, x: True)(mo, so) for k in u)]
                jobs.append((f, s, how, kw0, choice, users))

    def one(job):
        f, s, how, kw0, choice, users = job
        out = []
        for un, u in users:
            kw = dict(kw0)
            vals = {}
            for k, es in u.items():
                if es is None:
                    vals[k] = kw[k] = sym("U:" + k, kind=spec.kind(k))
                else:
                    d = {e: sym("U:%s.%s" % (k, e), kind=spec.kind(e)) for e in es}
                    for e, v in d.items():
                        vals[k + "." + e] = v
                    if k == "cvxpy_opts" and k in kw0:
                        d = dict(d, solver=const(s[3]))
                    kw[k] = O.opendict(k, **d)
            del rec[:]
            first = [True]

            def wrap(a):
                def g(it):
                    symbolise(f.table_name, choice)
                    return a(it) if callable(a) else a
                return g
            args = list(f.args)
            args[0] = wrap(args[0])
            # a fresh generation of table symbols is in place for this run only
            o = it.run(it.glob("pydsm." + f.name), args, kw)
            tab = O.nested(it, tables[f.table_name])

            def value(path):
                return vals[path] if path in vals else kw0[path] if path in kw0 else leaf(f.table_name, path)
            ev = observed(it, o, list(rec))
            out += [(a, "%s" % un, b, w) for a, b, w in spec.verify(f, s[2], s[3], choice.get("backend") or (s[0] if "backend" in tab else None), tab, value, vals, ev, same)]
            # foreign symbols
            bad = set()
            good = "T:%s:" % f.table_name
            seen = set()
            for e in ev["all"]:
                for t in e:
                    for x in T.symbols(t, seen):
                        if x.startswith("T:") and not x.startswith(good) and x not in spec.INNER.get(f.table_name, ()):
                            bad.add(x)
            out.append((not bad, un, "values of another function's table are used: %s" % sorted(bad)[:3] if bad else "", "", "other tables"))
            un_ = [str(x)[:150] for x in cat.opaque(it, o)]
            if un_:
                out.append((None, un, un_[0], ""))
        return out

    def same(a, b):
        """True / False / None for two terms."""
        if a is b:
            return True
        v = equal.compare(b, a, n=8)
        return True if v.kind == equal.EQUAL else False if v.kind == equal.DIFFERENT else None

    for job, r in zip(jobs, par.pmap(one, jobs)):
        f, s, how, kw0, choice, users = job
        lab = "%s(%s%s)" % (f.label, s[0], ",by table" if how else "")
        if isinstance(r, par.Failed):
            rep.unk("engine options", lab, r.why)
            continue
        rep.add("call forms analysed", len(users))
        for x in r:
            rep.check(x[0], x[4] if len(x) > 4 else "engine options", "%s %s" % (lab, x[1]), x[2], x[3])
    quals = {it.get(it.glob("pydsm." + f.name)).data[0].qual for f in fns if it.glob("pydsm." + f.name) is not None}
    for q, n in sorted(O.takes_options(it).items()):
        rep.check(True if q in quals else None, "coverage", n, "" if q in quals else "takes options but is not analysed")


def observed(it, o, rec):
    """Engine calls of a run: quad [(kw, cond, where)], minimize, solver, calls of package functions, all terms."""
    out = {"quad": [], "minimize": [], "solver": rec, "calls": [], "all": []}
    for e in o.events:
        if not cat.live(o, e):
            continue
        if e.kind in ("call", "enter_func"):
            out["calls"].append((e.what, land(*e.pc)))
        if e.terms is None:
            continue
        ts = list(e.terms[0]) + [t for k, t in e.terms[1]]
        out["all"].append(ts)
        if e.kind == "extcall" and isinstance(e.what, str):
            kws = {k: (TRUE, t) for k, t in e.terms[1]}
            if e.what in ("scipy.integrate.quad", "scipy.integrate._quadpack_py.quad"):
                out["quad"].append((kws, len(e.terms[0]), land(*e.pc), e.where()))
            elif e.what == "scipy.optimize.minimize":
                out["minimize"].append((kws, land(*e.pc), e.where()))
    for kind, d, ts, pc, where in rec:
        out["all"].append([t for c, t in d.values()] + [c for c, t in d.values() if isinstance(c, Term)] + list(ts))
    if o.returns:
        out["all"].append([it.term(o.value)])
    out["outcome"] = o
    return out
