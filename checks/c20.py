"""C20: translation of programs of the bundled modeller into the arrays given to the solver."""
from sa.ctx import *
from sa import modeller, par
from sa.facts import num
from fractions import Fraction
import itertools, re

M = "pydsm.cvxpy_tdr."
ENGINE = None
NK, NP = 5, 3
CALL = "src/pydsm/cvxpy_tdr/procedures/call_solver.py (call_solver)"


def build():
    global ENGINE
    it = new_interp(modules=["pydsm.cvxpy_tdr"], external=(), specs=("c20",), prepare=modeller.install)
    ENGINE = (it, modeller.Capture(it))


# ---------------------------------------------------------------- affine forms
def sub(f, i, g):
    """Affine form f (index -> coefficient, None -> constant) with variable i replaced by the form g."""
    c = f.get(i)
    if c is None:
        return f
    out = {k: v for k, v in f.items() if k != i}
    for k, v in g.items():
        out[k] = T.add(out[k], T.mul(c, v)) if k in out else T.mul(c, v)
    return {k: v for k, v in out.items() if k is None or num(v) != 0}


def rows(mat, rhs, n, sign):
    """The affine forms rhs - mat x (sign=1) or mat x - rhs (sign=-1)."""
    m, _, e = mat
    out = []
    for i in range(m):
        f = {None: rhs[2].get((i, 0), ZERO)}
        for j in range(n):
            if (i, j) in e and num(e[i, j]) != 0:
                f[j] = T.neg(e[i, j])
        out.append(f)
    return out


def eliminate(eqs, forms, aux):
    """Solves the equalities for the auxiliary variables, one row each, and substitutes."""
    eqs, forms, aux = list(eqs), list(forms), set(aux)
    while True:
        best = None
        for r, f in enumerate(eqs):
            for i in f:
                if i in aux and num(f[i]) not in (None, 0):
                    k = (sum(1 for j in f if j in aux), r)
                    if best is None or k < best[0]:
                        best = (k, r, i)
        if best is None:
            return eqs, forms, aux
        _, r, i = best
        f = eqs.pop(r)
        c = Fraction(-1) / Fraction(num(f[i]))
        g = {k: T.mul(const(c if c.denominator != 1 else int(c)), v) for k, v in f.items() if k != i}
        eqs = [sub(q, i, g) for q in eqs]
        forms = [sub(q, i, g) for q in forms]
        aux.discard(i)


def as_term(f, names):
    t = f.get(None, ZERO)
    for k, v in sorted(f.items(), key=lambda kv: -1 if kv[0] is None else kv[0]):
        if k is not None:
            t = T.add(t, T.mul(v, names[k]))
    return t


ZERO = const(0)


def user_index(v):
    m = re.match(r"sol(\d+)$", v.args[0]) if isinstance(v, Term) and v.op == "sym" else None
    return int(m.group(1)) if m else None


def coefs(neg):
    """Numbers and parameters: positive, negative (parameters well above the numbers, so that sums keep their sign), given."""
    if neg == 2:
        return [const(y) for y in (2., 3., 5., 7., 11.)], [const(y) for y in (13., 17., 19.)]
    r = lambda a, b: dict(lo=a, hi=b) if not neg else dict(lo=-b, hi=-a)
    k = [sym("k%d" % i, kind="real", **r(1.5, 6)) for i in range(NK)]
    p = [sym("p%d" % i, kind="real", **r(50, 60)) for i in range(NP)]
    return k, p


def dom_any(E):
    return E.rng.uniform(-4, 4)


SPECIAL = ["app:scipy.stats.norm." + f for f in ("cdf", "sf", "logcdf", "pdf", "logpdf")] + ["app:scipy.special." + f for f in ("ndtr", "log_ndtr")]


class Cmp(object):
    def __init__(self, it, neg, n, pc):
        self.it, self.n = it, n
        g = -1 if neg == 1 else 1
        self.D = {"k%d" % i: lambda E: g * E.rng.uniform(1.5, 6) for i in range(9)}
        self.D.update({"p%d" % i: lambda E: g * E.rng.uniform(50, 60) for i in range(9)})
        self.D.update({c: dom_any for c in ("x", "y", "z", "optval")})
        self.D.update({"v%d" % i: dom_any for i in range(20)})
        # only the conditions on coefficients matter
        self.pc = [c for c in pc if {s.args[0] for s in T.free(c)} <= set(self.D)]

    def same(self, a, b):
        return equal.compare(a, b, self.pc, domain=self.D, n=self.n, rtol=1e-9, atol=1e-11, shapes=self.it.lib.shape, floor=1.0, ignore_heads=SPECIAL)


def match(rep, rule, label, what, spec, impl, cmp, where, sides=(1,)):
    """Every stated form has its own row and every row is stated."""
    left = list(range(len(impl)))
    free = []
    und = None
    for s in spec:
        hit = None
        for i in left:
            for g in sides:
                v = cmp.same(s if g == 1 else T.neg(s), impl[i])
                if v.kind == equal.EQUAL:
                    hit = i
                    break
                if v.kind == equal.UNKNOWN:
                    und = v
            if hit is not None:
                break
        if hit is None:
            free.append(s)
        else:
            left.remove(hit)
    if not free and not left:
        rep.append(("ok", rule, label, "%d %s" % (len(spec), what), where))
    elif und is not None:
        rep.append(("unk", rule, label, "%s: %s" % (what, und), where))
    else:
        rep.append(("bad", rule, label, "%s: stated but not given to the solver: %s; given but not stated: %s" % (
            what, ", ".join(T.show(t)[:120] for t in free) or "none", ", ".join(T.show(impl[i])[:120] for i in left) or "none"), where))


def captured(label, o, it, C, rep):
    if len(C.calls) != 1 or not o.returns:
        rep.append(("bad" if o.raises and not o.returns and any(not r.implicit for r in o.raises) else "unk", "reached", label,
                    "the program is not given to the solver once: %d calls; %s" % (len(C.calls), o.raises and [(it.exc_names(r.exc)[:1], r.where()) for r in o.raises][:2]), None))
        return None
    return C.calls[0]


def linear(a):
    form, i, j, r, swap, mx, neg, status, n = a
    it, C = ENGINE
    rep = []
    C.calls = []
    C.status = status
    k, p = coefs(neg)
    name = ("relation", "objective", "mixed", "repeated")[form]
    label = "%s: expression %d, %s %d, %s%s%s, %s%s" % (name, i, "other side", j, "<= >= ==".split()[r], ", sides swapped" if swap else "", ", maximise" if mx else "",
                                                    ("positive", "negative", "given")[neg], "" if status == "optimal" else ", outcome " + status)
    idx = [const(form), const(i), const(j), const(r), const(bool(swap))]
    o = it.run(it.glob("specs.c20.solved"), idx + [const(bool(mx)), lst(*k), lst(*p)])
    d = captured(label, o, it, C, rep)
    if d is None:
        return rep
    it.st = o.st
    val, ok, vs = it.items_of(o.value, None)
    vs = it.items_of(vs, None)
    m = it.run(it.glob("specs.c20.meaning"), idx + [sym("x", kind="real"), sym("y", kind="real"), sym("z", kind="real"), lst(*k), lst(*p)])
    it.st = m.st
    obj, kinds, forms = it.items_of(m.value, None)
    obj = it.term(obj)
    kinds = [T.pyval(x) for x in it.items_of(kinds, None)]
    forms = [it.term(x) for x in it.items_of(forms, None)]
    cmp = Cmp(it, neg, n, d["pc"])
    xyz = [sym(c, kind="real") for c in "xyz"]
    used = {s.args[0] for f in forms + [obj] for s in T.free(f)}
    if status == "primal infeasible":
        # values are kept: identify the variables by an optimal outcome
        C.calls, C.status = [], "optimal"
        o2 = it.run(it.glob("specs.c20.solved"), idx + [const(bool(mx)), lst(*k), lst(*p)])
        it.st = o2.st
        vs2 = it.items_of(it.items_of(o2.value, None)[2], None)
        bad = [c for c, v in zip("xyz", vs) if not (isinstance(v, Term) and v.op == "const" and v.args[0] != v.args[0]) and T.show(it.term(v)) != "nan"]
        rep.append(("bad" if bad else "ok", "values", label, "values of %s change" % bad if bad else "no value is assigned", CALL))
        vs = vs2
    ids = {}
    for c, v, s in zip("xyz", vs, xyz):
        u = user_index(v)
        if u is not None:
            ids[u] = s
        if (u is None) and c in used:
            rep.append(("bad", "values", label, "variable %s receives %s instead of a component of the solution" % (c, T.show(it.term(v))[:80]), CALL))
            return rep
    if len(ids) != len([v for v in vs if user_index(v) is not None]):
        rep.append(("bad", "values", label, "two variables receive the same component", CALL))
        return rep
    rep.append(("ok", "values", label, "each variable receives its own component", CALL))
    system(rep, it, d, ids, cmp, label, kinds, forms, obj, mx)
    # reported optimum
    sg = -1 if mx else 1
    off = T.subst(obj, {s: ZERO for s in xyz}) if not (T.free(obj) & set(xyz)) else ZERO
    opt = T.add(T.mul(const(sg), sym("optval", kind="real")), off)
    want, good = {"optimal": (opt, True), "unknown": (opt, False), "primal infeasible": (const(sg * float("inf")), True),
                  "dual infeasible": (const(-sg * float("inf")), True)}[status]
    v = cmp.same(want, it.term(val))
    rep.append(({equal.EQUAL: "ok", equal.DIFFERENT: "bad"}.get(v.kind, "unk"), "outcome", label, "optimum reported as %s instead of %s" % (T.show(it.term(val))[:80], T.show(want)[:80]),
                "src/pydsm/cvxpy_tdr/procedures/solve_prog.py (solve_prog)"))
    rep.append(("ok" if T.pyval(it.term(ok)) is good else "bad", "outcome", label, "status flag %s" % T.show(it.term(ok))[:40], "src/pydsm/cvxpy_tdr/procedures/solve_prog.py (solve_prog)"))
    return rep


def system(rep, it, d, ids, cmp, label, kinds, forms, obj, mx, xs=None):
    xs = xs or [sym(c, kind="real") for c in "xyz"]
    n = d["n"]
    dims = d["dims"]
    eqs = rows(d["A"], d["b"], n, 1) if d["A"] else []
    ins = rows(d["G"], d["h"], n, 1) if d["G"] else []
    dependent(rep, label, d, cmp)
    if dims[0] != len(ins) or dims[1] or dims[2]:
        rep.append(("bad", "rows", label, "dimensions %s for %d inequality rows" % (dims, len(ins)), CALL))
        return
    c = {j: d["c"][2][j, 0] for j in range(n) if (j, 0) in d["c"][2] and num(d["c"][2][j, 0]) != 0}
    c[None] = ZERO
    eqs, out, aux = eliminate(eqs, ins + [c], set(range(n)) - set(ids))
    names = [ids.get(j, sym("v%d" % j, kind="real")) for j in range(n)]
    left = {j for f in eqs + out for j in f if j is not None} - set(ids)
    ti = [as_term(f, names) for f in out[:-1]]
    te = [as_term(f, names) for f in eqs]
    match(rep, "inequalities", label, "inequalities", [f for k, f in zip(kinds, forms) if k == "l"], ti, cmp, CALL)
    se = [f for k, f in zip(kinds, forms) if k == "e"]
    equalities(rep, label, se, te, cmp, xs)
    want = T.mul(const(-1 if mx else 1), obj)
    if not (T.free(obj) & set(xs)):
        want = ZERO
    v = cmp.same(want, as_term(out[-1], names))
    rep.append(({equal.EQUAL: "ok", equal.DIFFERENT: "bad"}.get(v.kind, "unk"), "objective", label,
                "the solver minimises %s instead of %s" % (T.show(as_term(out[-1], names))[:120], T.show(want)[:120]), CALL))


def dependent(rep, label, d, cmp):
    """The solver needs independent equalities: no row may repeat another up to a factor."""
    rs = [r for r in rows(d["A"], d["b"], d["n"], 1)] if d["A"] else []
    iszero = lambda t: cmp.same(ZERO, t).kind == equal.EQUAL
    for (i, a), (j, b) in itertools.combinations(enumerate(rs), 2):
        ks = sorted(set(a) | set(b), key=str)
        ca, cb = [a.get(q, ZERO) for q in ks], [b.get(q, ZERO) for q in ks]
        if {q for q, y in zip(ks, ca) if q is not None} != {q for q, y in zip(ks, cb) if q is not None}:
            continue
        if all(iszero(T.add(T.mul(ca[x], cb[y]), T.neg(T.mul(ca[y], cb[x])))) for x, y in itertools.combinations(range(len(ks)), 2)):
            rep.append(("bad", "independent", label, "rows %d and %d of the equalities are proportional" % (i, j), CALL))
            return
    rep.append(("ok", "independent", label, "%d rows" % len(rs), CALL))


def equalities(rep, label, spec, impl, cmp, xs):
    """Each stated equality is a row up to a factor; rows may be missing when zero or repeating an earlier one."""
    at = lambda t, e: T.subst(t, dict(zip(xs, [const(y) for y in e])))

    def vec(t):
        z = [0] * len(xs)
        c0 = at(t, z)
        return [c0] + [T.add(at(t, z[:i] + [1] + z[i + 1:]), T.neg(c0)) for i in range(len(xs))]

    def iszero(t):
        return cmp.same(ZERO, t).kind == equal.EQUAL

    def prop(a, b):
        z = [iszero(y) for y in a], [iszero(y) for y in b]
        if z[0] != z[1]:
            return False
        return all(iszero(T.add(T.mul(a[i], b[j]), T.neg(T.mul(a[j], b[i])))) for i, j in itertools.combinations(range(len(a)), 2) if not (z[0][i] or z[0][j]))
    S, I = [vec(t) for t in spec], [vec(t) for t in impl]
    und = any(T.free(t) - set(xs) - {y for y in T.free(t) if y.args[0][0] in "kp"} for t in impl)
    seen, missing = [], []
    left = list(range(len(I)))
    for s, t in zip(S, spec):
        if all(iszero(y) for y in s):
            continue
        rep_of = [i for i in range(len(seen)) if prop(seen[i], s)]
        hit = [i for i in left if prop(s, I[i])]
        seen.append(s)
        if hit:
            left.remove(hit[0])
        elif not rep_of:
            missing.append(t)
    left = [i for i in left if not all(iszero(y) for y in I[i])]
    if missing or left:
        rep.append(("unk" if und else "bad", "equalities", label, "stated but not given to the solver: %s; given but not stated: %s" % (
            ", ".join(T.show(t)[:120] for t in missing) or "none", ", ".join(T.show(impl[i])[:120] for i in left) or "none"), CALL))
    else:
        rep.append(("ok", "equalities", label, "%d equalities" % len(spec), CALL))


def run(rep, tier):
    rep.explanation = ("Programs built through the package's own interface are interpreted abstractly down to the solver call; the arrays recorded there, with the "
                       "auxiliary variables eliminated through their own rows, are compared with the stated relations, for symbolic numbers and parameters.")
    rep.rule("reached", "the program is given to the solver once")
    rep.rule("values", "each variable receives its own component of the solution (none when infeasible)")
    rep.rule("inequalities", "rows of h - G x == the stated differences, each once")
    rep.rule("equalities", "rows of A x - b proportional to the stated differences, each once up to repetitions and zero rows")
    rep.rule("independent", "no two rows of the equalities proportional (the solver requires independent rows)")
    rep.rule("rows", "cone dimensions match the rows")
    rep.rule("objective", "c x == stated objective, negated for maximisation")
    rep.rule("outcome", "reported optimum and status per outcome of the solver")
    rep.rule("cone", "rows of cone blocks == entries in the solver's order; smooth constraint == the documented set's function")
    rep.rule("function", "least (greatest) value the arrays leave to an expression with programs used as functions == value of the expression")
    rep.rule("refused", "ill-formed programs raise before any solver call")
    build()
    it, C = ENGINE
    full = tier != "quick"
    n = 6 if not full else 20
    NE, NO = 25, 6
    todo = []
    for i in range(NE):
        for j in range(NO):
            for r in range(3):
                if i in (0, 2, 21) and j in (0, 2) and r == 2:
                    continue                      # number == number: no variable
                if r == 2 and j in (4, 5):
                    todo += [(0, i, j, r, s, 0, 2, "optimal", n) for s in (0, 1) if full or s]
                elif full:
                    todo += [(0, i, j, r, s, 0, g, "optimal", n) for s in (0, 1) for g in (0, 1)]
                elif (i + j + r) % 2 == 0 or j in (1, 3) and i in (0, 1, 2, 17):
                    todo.append((0, i, j, r, (i + j) % 3 == 0, 0, (i + r) % 2, "optimal", n))
        for mx in (0, 1):
            for s in ("optimal", "primal infeasible", "dual infeasible", "unknown"):
                if full or s == "optimal" or i in (0, 2, 4, 16, 21):
                    todo.append((1, i, 0, 0, 0, mx, i % 2, s, n))
        todo.append((2, i, (7*i + 3) % NE, 0, 0, i % 2, i % 2 if i not in (0, 1, 2, 21) else 2, "optimal", n))
    todo.append((3, 0, 0, 0, 0, 0, 0, "optimal", n))
    go(rep, linear, todo)
    go(rep, cone_job, [c + (n,) for c in CONES])
    go(rep, blocks_job, [n])
    go(rep, function_job, [(w, mx, n) for w in range(len(FUNS)) for mx in ((0, 1) if full else (w % 2,))])
    go(rep, refused_job, list(range(len(REFUSED))))
    go(rep, array_job, [(w, g, n) for w in range(NARR) for g in ((0, 1) if full else (w % 2,))])


# ---------------------------------------------------------------- arrays
def grid(c, m=2, n=2):
    return {(i, j): sym("%s%d%d" % (c, i, j), kind="real") for i in range(m) for j in range(n)}


def array_meaning(w, k, p):
    """Names of the reported variables and stated relations, for each program of specs.c20.arrays."""
    X, Y, v = grid("X"), grid("Y"), [sym("w0", kind="real"), sym("w1", kind="real")]
    x = sym("x", kind="real")
    A = {(0, 0): 1, (0, 1): 2, (1, 0): 3, (1, 1): 4}
    A = {q: const(y) for q, y in A.items()}
    R = sorted(X)
    le = lambda a, b: ("l", T.add(b, T.neg(a)))
    ge = lambda a, b: ("l", T.add(a, T.neg(b)))
    eq = lambda a, b: ("e", T.add(a, T.neg(b)))
    dot = lambda a, b: T.add(T.mul(a[0], b[0]), T.mul(a[1], b[1]))
    names = [X[q] for q in R] + [x] + v
    if w == 0:
        f = [le(X[q], A[q]) for q in R]
    elif w == 1:
        f = [ge(X[q], k[0]) for q in R]
    elif w == 2:
        f = [eq(x, X[q]) for q in R]
    elif w == 3:
        f = [le(dot([A[i, 0], A[i, 1]], v), v[i]) for i in range(2)]
    elif w == 4:
        f = [eq(T.add(X[j, i], A[i, j]), T.mul(k[0], X[i, j])) for i, j in R]
    elif w == 5:
        f = [ge(dot(v, [A[0, j], A[1, j]]), k[0]) for j in range(2)]
    elif w == 6:
        f = [le(X[0, j], T.mul(k[0], v[j])) for j in range(2)]
    elif w == 7:
        f = [le(a, const(1)) for a in v + [x]]
    elif w == 8:
        f = [le(a, k[0]) for a in [x] + v]
    elif w == 9:
        f = [ge(T.add(A[q], T.neg(X[q])), x) for q in R]
    elif w == 10:
        Y[0, 1] = Y[1, 0]
        f = [le(X[q], Y[q]) for q in R]
        names = [X[q] for q in R] + [Y[q] for q in R]
    elif w == 11:
        f = [eq(X[q], Y[q]) if q != (0, 1) else eq(X[q], ZERO) for q in R]
        names = [X[q] for q in R] + [Y[q] for q in R if q != (0, 1)]
    elif w == 12:
        f = [le(T.add(X[i, j], T.add(T.mul(p[0], const(i + 1)), const(j))), x) for i, j in R]
    elif w == 13:
        f = [eq(v[i] if i == j else ZERO, X[i, j]) for i, j in R]
    elif w == 14:
        f = [le(T.add(T.add(X[0, 0], X[0, 1]), T.add(X[1, 0], X[1, 1])), x)]
    return names, f + [ge(x, const(-8))]


NARR = 15


def identify(rep, label, names, vs, used):
    ids = {}
    for s, v in zip(names, vs):
        u = user_index(v)
        if u is None:
            if s in used:
                rep.append(("bad", "values", label, "variable %s receives %s instead of a component of the solution" % (T.show(s), T.show(v)[:80]), CALL))
                return None
        elif ids.setdefault(u, s) is not s:
            rep.append(("bad", "values", label, "%s and %s receive the same component" % (T.show(s), T.show(ids[u])), CALL))
            return None
    rep.append(("ok", "values", label, "each variable receives its own component", CALL))
    return ids


def array_job(a):
    w, neg, n = a
    it, C = ENGINE
    rep = []
    C.calls, C.status = [], "optimal"
    k, p = coefs(neg)
    label = "array program %d, %s" % (w, ("positive", "negative", "given")[neg])
    o = it.run(it.glob("specs.c20.arrays"), [const(w), lst(*k), lst(*p)])
    d = captured(label, o, it, C, rep)
    if d is None:
        return rep
    it.st = o.st
    vs = [it.term(y) for y in it.items_of(o.value, None)]
    names, forms = array_meaning(w, k, p)
    x = sym("x", kind="real")
    ids = identify(rep, label, names, vs, set().union(*[T.free(f) for _, f in forms]))
    if ids is None:
        return rep
    cmp = Cmp(it, neg, n, d["pc"])
    cmp.D.update({s.args[0]: dom_any for s in names})
    if x not in ids.values():
        # the objective is the one variable nobody else names
        c = [j for j in range(d["n"]) if (j, 0) in d["c"][2] and num(d["c"][2][j, 0]) != 0]
        if len(c) == 1 and c[0] not in ids:
            ids[c[0]] = x
    system(rep, it, d, ids, cmp, label, [q for q, _ in forms], [f for _, f in forms], x, False, names + [x])
    return rep


# ---------------------------------------------------------------- cones
def cone_entries(rows_, kinds, k, p):
    v = [sym("w%d" % i, kind="real") for i in range(len(kinds))]

    def one(i, c):
        if c == "k":
            return k[i]
        if c == "p":
            return p[i]
        if c == "t":
            return T.add(T.add(T.mul(k[i], v[0]), T.neg(v[i])), p[i])
        return v[c]
    return v, [one(i, c) for i, c in enumerate(kinds)]


def smooth(name, e, q):
    """(function that is to be <= 0, condition of its domain) of the documented set."""
    if name == "exp":
        return T.add(T.mul(e[1], mk("exp", T.mul(e[0], T.power(e[1], const(-1))))), T.neg(e[2]))
    if name == "pow":
        return T.add(mk("pow", e[0], q), T.neg(e[1]))
    if name == "ncdf":
        return T.add(e[1], T.neg(mk("log", mk("app", "scipy.stats.norm.cdf", e[0]))))
    n = len(e) // 2
    t = T.neg(e[-1])
    for a, b in zip(e[:n], e[n:]):
        t = T.add(t, T.add(T.mul(a, mk("log", T.mul(a, T.power(b, const(-1))))), T.add(T.neg(a), b)))
    return t


CONES = [
    ("soc", 3, (0, 1, 2)), ("soc", 3, ("k", 0, 1)), ("soc", 3, (0, 1, "p")), ("soc", 3, (0, "t", 1)), ("soc", 3, ("t", "k", "t")), ("soc", 2, (0, 0)),
    ("soc", 4, (0, 1, 2, 3)), ("soc", 5, (1, 0, "k", 1, "t")), ("soc", 2, ("t", "t")),
    ("sdc", 1, (0,)), ("sdc", 2, (0, 1, 1, 2)), ("sdc", 2, (0, "k", "k", 1)[:4]), ("sdc", 2, ("k", 0, 0, 1)), ("sdc", 2, ("t", 0, 0, "t")), ("sdc", 3, (0, 1, 2, 1, 3, 4, 2, 4, 5)),
    ("sdc", 3, ("k", 1, 0, 1, "t", 2, 0, 2, "p")), ("sdc", 2, (0, 1, 2, 3)),
    ("exp", 3, (0, 1, 2)), ("exp", 3, ("k", 0, 1)), ("exp", 3, (0, "k", 1)), ("exp", 3, (0, 1, "p")), ("exp", 3, ("t", 0, "t")), ("exp", 3, (1, 0, 0)),
    ("pow", 2, (0, 1)), ("pow", 2, ("k", 0)), ("pow", 2, (0, "p")), ("pow", 2, ("t", 0)), ("ncdf", 2, (0, 1)), ("ncdf", 2, ("k", 0)), ("ncdf", 2, (0, "p")), ("ncdf", 2, (0, "t")),
    ("kl", 3, (0, 1, 2)), ("kl", 5, (0, 1, 2, 3, 4)), ("kl", 5, ("k", 0, 1, "p", "t")), ("kl", 3, (0, 0, 1)), ("kl", 7, (0, 1, 2, 3, 4, 5, 6)),
]


def cone_job(a):
    name, nr, kinds, n = a
    it, C = ENGINE
    rep = []
    C.calls, C.status = [], "optimal"
    L = len(kinds)
    k = [sym("k%d" % i, kind="real", lo=Fraction(3, 2), hi=6) for i in range(L + 1)]
    p = [sym("p%d" % i, kind="real", lo=50, hi=60) for i in range(L)]
    if name == "sdc":                       # symmetric numbers
        for i in range(nr):
            for j in range(i):
                k[i * nr + j] = k[j * nr + i]
    full = {"soc": "second_order_cone", "sdc": "semidefinite_cone", "exp": "exp_cone", "pow": "power_pos_epi", "ncdf": "log_norm_cdf_hypo", "kl": "kl_div_epi"}[name]
    v, e = cone_entries(nr, kinds, k, p)
    m = int(round(L ** .5))
    skew = name == "sdc" and any(e[i * m + j] is not e[j * m + i] for i in range(m) for j in range(i))
    label = "%s, matrix not symmetric" % full if skew else "%s, entries %s" % (full, " ".join({"k": "number", "p": "parameter", "t": "expression"}.get(c, "x%s" % c) for c in kinds))
    where = "src/pydsm/cvxpy_tdr/sets/%s.py (_construct)" % full
    o = it.run(it.glob("specs.c20.cone"), [const(name), const(m if name == "sdc" else L), lst(*[const(c) for c in kinds]), lst(*k), lst(*p)])
    d = captured(label, o, it, C, rep)
    if d is None:
        return rep
    it.st = o.st
    vs = [it.term(y) for y in it.items_of(o.value, None)]
    used = set().union(*[T.free(x) for x in e]) | {v[0]}
    ids = identify(rep, label, v, vs, used)
    if ids is None:
        return rep
    cmp = Cmp(it, 0, n, d["pc"])
    cmp.D.update({s.args[0]: dom_any for s in v})
    N = d["n"]
    ins = rows(d["G"], d["h"], N, 1) if d["G"] else []
    eqs = rows(d["A"], d["b"], N, 1) if d["A"] else []
    eqs, out, aux = eliminate(eqs, ins, set(range(N)) - set(ids))
    names = [ids.get(j, sym("v%d" % j, kind="real")) for j in range(N)]
    t = [as_term(f, names) for f in out]
    dims = d["dims"]
    want = (2, [L] if name == "soc" else [], [m] if name == "sdc" else [])
    if tuple(dims) != want or len(t) != 2 + sum(want[1]) + sum(y * y for y in want[2]):
        rep.append(("bad", "rows", label, "dimensions %s, %d rows, instead of %s" % (tuple(dims), len(t), want), CALL))
        return rep
    rep.append(("ok", "rows", label, "dimensions %s" % (want,), CALL))
    match(rep, "inequalities", label, "inequalities", [T.add(k[0], T.neg(v[0])), T.add(v[0], T.neg(k[1]))], t[:2], cmp, CALL)

    def one(rule, what, a, b, sure=True):
        r = cmp.same(a, b)
        rep.append(({equal.EQUAL: "ok", equal.DIFFERENT: "bad"}.get(r.kind, "unk"), rule, label,
                    "%s is %s instead of %s" % (what, T.show(b)[:150], T.show(a)[:150]) if r.kind != equal.EQUAL else what, where))
    if name == "soc":
        for i, s in enumerate([e[-1]] + e[:-1]):
            one("cone", "row %d of the block" % i, s, t[2 + i])
    elif name == "sdc":
        for i in range(m):
            for j in range(i + 1):
                one("cone", "entry (%d, %d) of the block" % (i, j), e[i * m + j], t[2 + j * m + i])
        se = [T.add(e[i * m + j], T.neg(e[j * m + i])) for i in range(m) for j in range(i) if e[i * m + j] is not e[j * m + i]]
        r = []
        equalities(r, label, se, [as_term(f, names) for f in eqs], cmp, v)
        rep += [(q[0], "cone" if skew else q[1]) + q[2:] for q in r]
    else:
        if d["F"] is None or len(d["F1"][0][2]) > 1 or d["F1"][0][0] != 1:
            rep.append(("bad", "cone", label, "not one smooth constraint", CALL))
            return rep
        # the point of the solver, with the auxiliary variables replaced by what their rows say
        if eqs:
            rep.append(("unk", "cone", label, "equalities left", CALL))
        f = d["F1"][0][2].get((0, 0), ZERO)
        sol = solution(d, ids, N)
        mp = {d["x"][j]: as_term(sol[j], names) if j in sol else names[j] for j in range(N)}
        f = T.subst(f, mp)
        dm = T.subst(d["dom"], mp)
        pos = {"exp": [e[1]], "pow": [e[0]], "ncdf": []}.get(name, e[:-1])
        inside = T.land(*[T.lt0(T.neg(y)) for y in pos]) if pos else TRUE
        one("cone", "domain", T.ite(inside, const(1), const(0)), T.ite(dm, const(1), const(0)))
        cmp.pc = list(cmp.pc) + [dm]
        for s in v:
            cmp.D[s.args[0]] = (lambda E: E.rng.uniform(.2, 3)) if "t" not in kinds else (lambda E: E.rng.uniform(-3, 60))
        one("cone", "constraint function", smooth(name, e, k[-1]), f)
    if name in ("soc", "sdc") and d["F"] is not None:
        rep.append(("bad", "cone", label, "a smooth constraint nobody stated", CALL))
    return rep


def blocks_job(n):
    """Cones of the same kind and different sizes, in one program with equalities and inequalities."""
    it, C = ENGINE
    rep = []
    C.calls, C.status = [], "optimal"
    label = "two second order cones and two semidefinite cones"
    o = it.run(it.glob("specs.c20.blocks"), [lst(*[sym("k%d" % i, kind="real", lo=Fraction(3, 2), hi=6) for i in range(4)])])
    d = captured(label, o, it, C, rep)
    if d is None:
        return rep
    it.st = o.st
    k = [sym("k%d" % i, kind="real", lo=Fraction(3, 2), hi=6) for i in range(4)]
    v = [sym("w%d" % i, kind="real") for i in range(6)]
    ids = identify(rep, label, v, [it.term(y) for y in it.items_of(o.value, None)], set(v))
    if ids is None:
        return rep
    cmp = Cmp(it, 0, n, d["pc"])
    cmp.D.update({s.args[0]: dom_any for s in v})
    N = d["n"]
    eqs, out, _ = eliminate(rows(d["A"], d["b"], N, 1), rows(d["G"], d["h"], N, 1), set(range(N)) - set(ids))
    names = [ids.get(j, sym("v%d" % j, kind="real")) for j in range(N)]
    t = [as_term(f, names) for f in out]
    l, q, s = d["dims"]
    if l + sum(q) + sum(y * y for y in s) != len(t) or l != 2:
        rep.append(("bad", "rows", label, "dimensions %s for %d rows" % ((l, q, s), len(t)), CALL))
        return rep
    match(rep, "inequalities", label, "inequalities", [T.add(k[0], T.neg(v[0])), T.add(v[1], T.neg(k[1]))], t[:l], cmp, CALL)
    have, at = [], l
    for y in q:
        have.append(("soc", t[at:at + y]))
        at += y
    for y in s:
        have.append(("sdc", [t[at + j * y + i] for i in range(y) for j in range(i + 1)]))
        at += y * y
    # the solver's blocks: second order cones with the bound first, lower triangles of matrices
    want = [("soc", [v[3], v[0], v[1], v[2]]), ("soc", [v[4], T.add(v[0], v[5])]),
            ("sdc", [v[0], v[1], v[2]]), ("sdc", [v[3], k[2], v[4], v[5], v[0], v[1]])]
    for kind, e in want:
        ok = [i for i, (c, f) in enumerate(have) if c == kind and len(f) == len(e) and all(cmp.same(x, y).kind == equal.EQUAL for x, y in zip(e, f))]
        w = "%s of %d entries" % (kind, len(e))
        rep.append(("ok" if ok else "bad", "cone", "%s: %s" % (label, w), "own block" if ok else "no block of the solver's arrays holds its entries", CALL))
        if ok:
            have.pop(ok[0])
    rep.append(("bad" if have else "ok", "cone", label, "%d blocks nobody stated" % len(have), CALL))
    return rep


def solution(d, ids, N):
    """Affine forms of the auxiliary variables in the user's."""
    eqs = rows(d["A"], d["b"], N, 1) if d["A"] else []
    aux = sorted(set(range(N)) - set(ids))
    forms = [{j: const(1)} for j in aux]
    _, out, _ = eliminate(eqs, forms, aux)
    return dict(zip(aux, out))


# ---------------------------------------------------------------- programs used as functions
INF = float("inf")
FUNS = [
    ("f(x)", lambda x, y: abs(x)),
    ("f(x) + f(y)", lambda x, y: abs(x) + abs(y)),
    ("f(x) + 2 f(y), bounded by f(w) <= 4", lambda x, y: abs(x) + 2 * abs(y) if abs(x) + 2 * abs(y) <= 4 else None),
    ("g(x, y), concave", lambda x, y: min(x, 2 * y + 1)),
    ("g(x, y) + g(y, x)", lambda x, y: min(x, 2 * y + 1) + min(y, 2 * x + 1)),
    ("h(x) + h(y - 1)", lambda x, y: max(x, 0) - x + max(y - 1, 0) - (y - 1) if -x <= 5 and 1 - y <= 5 else None),
    ("m([x, y])", lambda x, y: max(x, y)),
    ("m([f(x) + y, x])", lambda x, y: max(abs(x) + y, x)),
    ("f(x) - g(y, x)", lambda x, y: abs(x) - min(y, 2 * x + 1)),
    ("m([x, 2]) + m([y, -x])", lambda x, y: max(x, 2) + max(y, -x)),
    ("abs(x) + max([x, y, 1])", lambda x, y: abs(x) + max(x, y, 1)),
    ("norm1([x, y - 1])", lambda x, y: abs(x) + abs(y - 1)),
    ("norm_inf([x, y - 1]) - min([x, 2 y, 1])", lambda x, y: max(abs(x), abs(y - 1)) - min(x, 2 * y, 1)),
    ("f(x) twice", lambda x, y: abs(x) if abs(x) + y <= 3 else None),
    ("f of its own variables", lambda x, y: abs(x) + abs(y)),
    ("m of its own variables", lambda x, y: max(y, 3 * x)),
    ("abs(x - 2 y) + f(y)", lambda x, y: abs(x - 2 * y) + abs(y)),
]


def function_job(a):
    import numpy as np
    from scipy.optimize import linprog
    w, mx, n = a
    it, C = ENGINE
    rep = []
    C.calls, C.status = [], "optimal"
    label = "program used as a function: %s%s" % (FUNS[w][0], ", maximise" if mx else "")
    where = "src/pydsm/cvxpy_tdr/programs.py (_pm_expand)"
    o = it.run(it.glob("specs.c20.function"), [const(w), const(bool(mx))])
    d = captured(label, o, it, C, rep)
    if d is None:
        return rep
    it.st = o.st
    vs = [it.term(y) for y in it.items_of(o.value, None)]
    N = d["n"]
    ux, uy = user_index(vs[0]), user_index(vs[1])
    if d["F"] is not None or d["dims"][1] or d["dims"][2]:
        rep.append(("unk", "function", label, "not a linear program", where))
        return rep

    def dense(t):
        if t is None:
            return np.zeros((0, N))
        A = np.zeros((t[0], t[1]))
        for (i, j), v in t[2].items():
            A[i, j] = float(num(v))
        return A
    c, G, h, A, b = [dense(d[q]) for q in ("c", "G", "h", "A", "b")]
    rng = np.random.default_rng(7)
    pts = [tuple(q) for q in rng.uniform(-4, 4, size=(n, 2))] + [(x, y) for x in (-2.5, 0, 1.5) for y in (-3., 0, 1.25)]
    sg = -1 if w in (3, 4) else 1
    for x, y in pts:
        want = FUNS[w][1](x, y)
        bd = [(None, None)] * N
        for u, q in ((ux, x), (uy, y)):
            if u is not None:
                bd[u] = (q, q)
        r = linprog(c[:, 0], A_ub=G, b_ub=h[:, 0] if len(h) else None, A_eq=A if len(A) else None, b_eq=b[:, 0] if len(A) else None, bounds=bd, method="highs")
        got = r.fun * sg if r.status == 0 else {2: None, 3: -INF * sg}.get(r.status, "?")
        if got == "?":
            rep.append(("unk", "function", label, "no verdict at x = %g, y = %g" % (x, y), where))
            return rep
        if (got is None) != (want is None) or got is not None and not abs(got - want) <= 1e-7 * (1 + abs(want)):
            rep.append(("bad", "function", label, "the arrays given to the solver bound the expression by %s instead of %s at x = %g, y = %g" % (got, want, x, y), where))
            return rep
    rep.append(("ok", "function", label, "%d points" % len(pts), where))
    return rep


# ---------------------------------------------------------------- refused
REFUSED = ["arrays of different shapes compared", "rectangular matrix in the semidefinite cone", "square matrix in the second order cone", "scalar in a cone",
           "text in a cone", "parameter without a value", "product of variables", "matrix in the exponential cone", "array as objective", "pair in the exponential cone",
           "triple in the power set", "array for a scalar formal", "too many arguments", "variable for a parameter"]


def refused_job(a):
    it, C = ENGINE
    C.calls, C.status = [], "optimal"
    o = it.run(it.glob("specs.c20.refused"), [const(a)])
    label = REFUSED[a]
    if C.calls:
        return [("bad", "refused", label, "reaches the solver", "src/pydsm/cvxpy_tdr/programs.py")]
    if o.returns:
        return [("bad", "refused", label, "completes without exception", "src/pydsm/cvxpy_tdr/programs.py")]
    return [("ok", "refused", label, str([it.exc_names(r.exc)[:1] for r in o.raises][:1]), None)]


def go(rep, f, todo):
    for a, r in zip(todo, par.pmap(f, todo)):
        if isinstance(r, par.Failed):
            rep.unk("reached", "%s %s" % (f.__name__, a), r.why[-400:])
            continue
        for kind, rule, label, msg, where in r:
            if kind == "ok":
                rep.ok(rule, label, msg)
            else:
                getattr(rep, kind)(rule, label, msg, where)
