"""C18: derivatives handed to the solver by the smooth sets of the bundled modeller."""
from sa.ctx import *
from sa import modeller, deriv, par
import itertools

M = "pydsm.cvxpy_tdr.sets."
# set -> (module, instance, number of entries for each size, kinds of domain)
SETS = {"exp": ("exp_cone", (3,)), "ncdf": ("log_norm_cdf_hypo", (2,)), "pow": ("power_pos_epi", (2,)), "kl": ("kl_div_epi", (3, 5, 7)), "geo": ("geo_mean_cone", (2, 3, 4))}


def partitions(n):
    """Assignments of n positions to variables 0, 1, ... (first occurrences in order)."""
    def rec(i, k):
        if i == n:
            yield ()
            return
        for v in range(k + 1):
            for r in rec(i + 1, max(k, v + 1)):
                yield (v,) + r
    return list(rec(0, 0))


def layouts(n, full, params=True):
    """Kinds of the n entries: numbers ('k'), parameters ('p') and variables, with repetitions."""
    out = set()
    masks = [m for m in itertools.product((0, 1), repeat=n) if not all(m) and (n < 6 or sum(m) <= 1 or sum(m) >= n - 1)]
    for m in masks:
        pos = [i for i in range(n) if not m[i]]
        ps = partitions(len(pos)) if full else [tuple(range(len(pos)))]
        for q in ps:
            l = ["k"] * n
            for i, v in zip(pos, q):
                l[i] = v
            out.add(tuple(l))
    if not full:
        for i, j in itertools.combinations(range(n), 2):      # one repeated variable
            l, v = [], {}
            for k in range(n):
                r = i if k == j else k
                l.append(v.setdefault(r, len(v)))
            out.add(tuple(l))
    for l in list(out):
        if params and "k" in l and (n <= 3 or l.count("k") == 1):
            out.add(tuple("p" if x == "k" else x for x in l))
    return sorted(out, key=str)


def dom(E):
    v = E.rng.uniform(0.2, 3)
    return v if E.rng.random() < 0.85 else -v


def dpow(E):
    return float(E.rng.choice([1.5, 2, 2.5, 3, 4, E.rng.uniform(1.05, 5)]))


def where_of(it, name):
    """Location of the construction of the functions of a set."""
    import ast
    mod = M + SETS[name][0]
    for n in ast.walk(it.trees[mod]):
        if isinstance(n, ast.FunctionDef) and n.name == "_construct":
            return "src/%s.py:%d (_construct)" % (mod.replace(".", "/"), n.lineno)
    return "src/%s.py" % mod.replace(".", "/")


def job(a):
    name, kinds, n = a
    it, C = ENGINE
    rep = []
    vals = [sym("k%d" % i, kind="real") for i in range(len(kinds))]
    p = sym("p", kind="real", lo=1, lo_open=True)
    C.calls = []
    label = "%s, entries %s" % (SETS[name][0], " ".join("x%s" % k if isinstance(k, int) else {"k": "number", "p": "parameter"}[k] for k in kinds))
    kt = lst(*[const(k) for k in kinds])
    D = {t: dom for t in ["k%d" % i for i in range(9)] + ["x%d" % i for i in range(9)]}
    D["p"] = dpow
    nv = len({k for k in kinds if isinstance(k, int)})
    if name == "geo":
        x = modeller.VMat
        S = it.glob(M + "geo_mean_cone.geo_mean_cone")
        if it.class_attr(it.get(S).data["__class__"], "_construct") is None:
            return rep
        o = it.run(it.glob("specs.c18.direct"), [S, kt, lst(*vals), const(nv), lambda it: C.point(it, nv)])
        if not o.returns or o.raises:
            return [("unk", "domain", label, "the construction does not complete: %s" % [it.exc_names(r.exc)[:1] for r in o.raises], None)]
        f, g, h, ok = [y for y in it_items(it, o)]
        d = dict(n=nv, x=[C.point(it, nv).at(it, i, 0) for i in range(nv)], z=[ONE_], dom=it.truth(ok), pc=())
        d["F1"] = d["F2"] = [(1, 1, {(0, 0): it.term(f)}), (1, nv, {(0, i): v for (i, _), v in g.entries(it).items()})]
        d["F2"] = d["F1"] + [(h.m, h.n, h.entries(it))]
        d["node"] = None
    else:
        o = it.run(it.glob("specs.c18.member"), [const(name), kt, lst(*vals), p])
        if len(C.calls) != 1 or C.calls[0]["F"] is None:
            return [("unk", "domain", label, "the program does not reach the nonlinear solver once (%d calls; %s)" % (len(C.calls), [(it.exc_names(r.exc)[:1], r.where()) for r in o.raises][:2]), None)]
        d = C.calls[0]
    where = where_of(it, name)
    verdicts(rep, it, name, label, d, D, where, n)
    return rep


ONE_ = const(1)


def it_items(it, o):
    it.st = o.st
    return it.items_of(o.value, None)


def verdicts(rep, it, name, label, d, D, where, n):
    pc = tuple(d["pc"]) + (d["dom"],)
    f = d["F1"][0][2]
    m = d["F1"][0][0]
    nv = d["n"]

    def cmp(rule, what, spec, impl):
        v = equal.compare(spec, impl, pc, domain=D, n=n, rtol=1e-7, atol=1e-9, shapes=it.lib.shape, floor=1.0)
        msg = "%s is %s instead of %s%s" % (what, T.show(impl)[:250], T.show(spec)[:250], "; differs at %s" % v.witness if v.witness else "")
        rep.append(({equal.EQUAL: "ok", equal.DIFFERENT: "bad"}.get(v.kind, "unk"), rule, label, msg if v.kind != equal.EQUAL else what, where))
    g, h = d["F1"][1], d["F2"][2]
    Z = const(0)
    for i in range(m):
        fi = f.get((i, 0), Z)
        cmp("value", "f%d returned with the Hessian" % i, fi, d["F2"][0][2].get((i, 0), Z))
        for j in range(nv):
            try:
                s = deriv.diff(fi, d["x"][j])
            except deriv.NoDerivative as e:
                rep.append(("unk", "gradient", label, "no derivative rule for %s" % e, where))
                continue
            cmp("gradient", "df%d/dx%d" % (i, j), s, g[2].get((i, j), Z))
            cmp("gradient", "df%d/dx%d returned with the Hessian" % (i, j), s, d["F2"][1][2].get((i, j), Z))
    if (g[0], g[1]) != (m, nv) or (h[0], h[1]) != (nv, nv):
        rep.append(("bad", "gradient", label, "the derivatives have sizes %s and %s for %d functions of %d variables" % (g[:2], h[:2], m, nv), where))
    for j in range(nv):
        for k in range(nv):
            try:
                s = Z
                for i in range(m):
                    s = T.add(s, T.mul(d["z"][i], deriv.diff(deriv.diff(f.get((i, 0), Z), d["x"][j]), d["x"][k])))
            except deriv.NoDerivative as e:
                rep.append(("unk", "hessian", label, "no derivative rule for %s" % e, where))
                continue
            cmp("hessian", "sum of multipliers times d2f/dx%d dx%d" % (j, k), s, h[2].get((j, k), Z))


def several(n):
    it, C = ENGINE
    C.calls = []
    rep = []
    a, b, p = sym("k0", kind="real"), sym("k1", kind="real"), sym("p", kind="real", lo=1, lo_open=True)
    D = {t: dom for t in ["k0", "k1"] + ["x%d" % i for i in range(9)]}
    D["p"] = dpow
    o = it.run(it.glob("specs.c18.several"), [a, b, p])
    if len(C.calls) != 1:
        return [("unk", "domain", "program with four smooth sets", "%d solver calls" % len(C.calls), None)]
    verdicts(rep, it, "several", "program with four smooth sets", C.calls[0], D, "src/pydsm/cvxpy_tdr/procedures/call_solver.py (call_solver)", n)
    return rep


ENGINE = None


def build():
    global ENGINE
    it = new_interp(modules=["pydsm.cvxpy_tdr"], external=(), specs=("c18",), prepare=modeller.install)
    ENGINE = (it, modeller.Capture(it))


def run(rep, tier):
    rep.explanation = ("Programs with one membership in each smooth set are built through the package's own interface by abstract interpretation (symbolic constants, "
                       "symbolic point), down to the call of the nonlinear solver, whose function argument is evaluated abstractly: the value graphs of the gradient and "
                       "Hessian entries are compared with the symbolic derivatives of the value graph of the constraint function, on the domain the function itself declares.")
    rep.rule("value", "the constraint function returned with the Hessian is the one returned with the gradient")
    rep.rule("gradient", "each gradient entry == symbolic partial derivative of f (0 for variables f does not contain)")
    rep.rule("hessian", "each Hessian entry == sum over the constraints of multiplier times symbolic second partial derivative")
    rep.rule("domain", "the program reaches the nonlinear solver, and every smooth set of the package is covered")
    build()
    it, C = ENGINE
    full = tier != "quick"
    n = 8 if not full else 40
    # every set with derivatives is among those analysed
    found = set()
    for q, env in it.modules.items():
        if not q.startswith(M):
            continue
        for k, v in it.get(env).data.items():
            if isinstance(v, Ref) and it.get(v).kind == "class" and it.get(v).data.module == q and it.class_attr(v, "_construct") is not None:
                found.add(q.rpartition(".")[2])
    for q in sorted(found):
        known = q in {s[0] for s in SETS.values()} | {"semidefinite_cone", "second_order_cone"}
        (rep.ok if known else rep.unk)("domain", q, "set analysed" if known else "a set this analysis has no scenarios for")
    todo = []
    for name, (mod, sizes) in sorted(SETS.items()):
        for s in sizes:
            for l in layouts(s, full and s <= 5 or s <= 3, name != "geo"):
                todo.append((name, l, n))
    for a, r in zip(todo, par.pmap(job, todo)):
        if isinstance(r, par.Failed):
            rep.unk("domain", "%s %s" % a[:2], r.why[-400:])
            continue
        put(rep, r)
    r = several(n)
    put(rep, r)


def put(rep, r):
    for kind, rule, label, msg, where in r:
        getattr(rep, kind)(rule, label, msg, where) if kind != "ok" else rep.ok(rule, label, msg)
