"""C03: unsupported option names are refused, published ones accepted."""
import os
from sa.ctx import *
from sa import cat, par, options as O


def run(rep, tier):
    rep.explanation = ("Exception analysis: every function with a keyword catch-all is interpreted abstractly once per modeler/solver/back-end selection and option name, "
                       "the value of the option being an unknown symbol. Names: every word of the package's source (table keys, parameters, string constants) and one "
                       "name that occurs nowhere; code cannot tell other names apart except by inspecting their characters, which is reported as undecided. "
                       "Unsupported names must leave no feasible normal exit and no exception other than TypeError beyond those the call raises without the option.")
    rep.rule("refused", "no normal exit; every exit added by the unknown option raises TypeError")
    rep.rule("accepted", "an option of the published table leaves a normal exit and no TypeError")
    rep.rule("coverage", "every exported function with a keyword catch-all is analysed")
    it = new_interp()
    fns = O.functions()
    base = {}
    tabs = {}
    all_keys = set()
    for f in fns:
        r = O.table(it, f)
        tabs[f] = O.nested(it, r) if r is not None else {}
        for k, v in tabs[f].items():
            all_keys |= {k} | set(v or ())
    words = O.words(os.path.join(SRC, "pydsm"))
    pool = sorted(all_keys | {"bogus_option", "option", "options", "opts", "solver", "verbose", "tol", "maxiter", "quad_opt", "show_progres"})
    if tier == "thorough" or len(words) < 600:
        pool = sorted(set(pool) | words)
    rep.add("option names", len(pool))
    rep.add("words of the source", len(words))

    def outcome(f, sel, extra):
        kw = dict(sel[1])
        kw.update(extra)
        return it.run(it.glob("pydsm." + f.name), list(f.args), kw)

    def exits(o):
        """Feasible raises: {(class, where)}."""
        return {((it.exc_names(r.exc) or ["?"])[0], r.where()) for r in o.raises if r.st is not None and land(*r.st.pc) is not FALSE}

    def value(name):
        return sym("v_" + name, kind="any")

    def good(f, name):
        """A valid value for a published option."""
        sub = tabs[f].get(name)
        if sub is not None:
            ks = [k for k in sub if isinstance(k, str) and k not in ("solver", "override_kktsolver")]
            return O.opendict(name, **{k: real("u_" + k) for k in ks[:2]})
        if name in ("modeler", "backend"):
            return None
        return sym("u_" + name, kind="bool")
    from sa.scen import real
    jobs = []
    for f in fns:
        fv = it.glob("pydsm." + f.name)
        if fv is None:
            rep.unk("coverage", f.name, "anchor vanished")
            continue
        params = {a.arg for a in it.get(fv).data[0].node.args.args + it.get(fv).data[0].node.args.kwonlyargs}
        rv = it.glob("pydsm." + f.table_name)
        if rv is not None:
            # a superseded name supports what its replacement supports
            params |= {a.arg for a in it.get(rv).data[0].node.args.args}
        for s in f.sel:
            names = [n for n in pool if n not in params and n not in tabs[f] and n not in s[1]]
            for i in range(0, len(names), 12):
                jobs.append((f, s, "refused", names[i:i + 12]))
            acc = [n for n in tabs[f] if O.RELEVANT.get(n, lambda m, so: True)(s[2], s[3]) and n not in s[1]]
            jobs.append((f, s, "accepted", acc))
            jobs.append((f, s, "together", acc))

    def one(job):
        f, s, what, names = job
        b = outcome(f, s, {})
        be = exits(b)
        out = []
        if not b.returns:
            return [(None, what, "base call", "the call without further options does not return: %s" % sorted(be))]
        if what == "together":
            # an unknown name next to every published one
            ex = {n: good(f, n) for n in names if good(f, n) is not None}
            be |= exits(outcome(f, s, ex))
            names, what = ["bogus_option"], "refused"
        else:
            ex = {}
        for n in names:
            if sum(x[0] is False for x in out) > 2:
                break
            if what == "refused":
                o = outcome(f, s, dict(ex, **{n: value(n)}))
                new = exits(o)
                other = {x for x in new if x[0] != "TypeError" and x not in be}
                if o.returns:
                    out.append((False, what, n, "option %r is not refused: the call can return normally" % n, ""))
                elif other:
                    out.append((False, what, n, "option %r ends in %s" % (n, sorted(other)), sorted(other)[0][1]))
                elif not any(x[0] == "TypeError" for x in new):
                    out.append((None, what, n, "no exit found: %s" % sorted(new), ""))
                else:
                    out.append((True, what, n, "", ""))
            else:
                v = good(f, n)
                if v is None:
                    out.append((True, what, n, "selects the rows of this table", ""))
                    continue
                o = outcome(f, s, {n: v})
                te = {x for x in exits(o) if x[0] in ("TypeError", "KeyError") and x not in be}
                if te and not o.returns:
                    out.append((False, what, n, "published option %r is refused: %s" % (n, sorted(te)), sorted(te)[0][1]))
                elif te:
                    out.append((None, what, n, "published option %r may be refused: %s" % (n, sorted(te)), ""))
                else:
                    out.append((True, what, n, "", ""))
        return out
    for job, r in zip(jobs, par.pmap(one, jobs)):
        f, s, what, names = job
        lab = "%s(%s)" % (f.label, s[0]) if s[0] else f.label
        if isinstance(r, par.Failed):
            rep.unk(what, "%s %s" % (lab, names), r.why)
            continue
        rep.add("calls analysed", len(r))
        for x in r:
            ok, rule, n, why = x[:4]
            rep.check(ok, rule, "%s %s" % (lab, n), why, x[4] if len(x) > 4 else "")
    quals = {it.get(it.glob("pydsm." + f.name)).data[0].qual for f in fns if it.glob("pydsm." + f.name) is not None}
    for q, n in sorted(O.takes_options(it).items()):
        rep.check(True if q in quals else None, "coverage", n, "" if q in quals else "takes options but is not analysed")
