"""C17: the bundled modeller accepts only problems its convexity rules allow."""
from sa.ctx import *
from sa import interp, modeller, par
import os

ENGINE = None
WHERE = "src/pydsm/cvxpy_tdr/scalars.py, constraints.py, programs.py"


def build():
    global ENGINE
    interp.MAXSTEPS = 40000
    it = new_interp(modules=["pydsm.cvxpy_tdr"], external=(), specs=("c17",), prepare=modeller.install)
    ENGINE = (it, modeller.Capture(it))


# ---------------------------------------------------------------- the rules
class Refused(Exception):
    """No rule gives the expression a meaning."""


class F:
    """What the rules allow to say about an expression."""
    def __init__(self, vex, cave, nn=False, np=False, const=False):
        self.vex, self.cave, self.nn, self.np, self.const = vex, cave, nn, np, const

    @property
    def aff(self):
        return self.vex and self.cave


def number(v):
    return F(True, True, v >= 0, v <= 0, True)


class X:
    """An expression, not yet judged."""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __add__(self, o): return X("add", self, o)
    def __radd__(self, o): return X("add", o, self)
    def __sub__(self, o): return X("add", self, X("mul", -1, o))
    def __rsub__(self, o): return X("add", o, X("mul", -1, self))
    def __mul__(self, o): return X("mul", self, o)
    def __rmul__(self, o): return X("mul", o, self)
    def __neg__(self): return X("mul", -1, self)


# name: (convex or concave, monotonicity per argument (one entry for all), sign of the value)
RULES = {
    "abs": (1, 0, 1), "det_rootn": (-1, 0, 0), "exp": (1, 1, 1), "geo_mean": (-1, 1, 0), "huber": (1, 0, 1), "kl_div": (1, 0, 1),
    "lambda_max": (1, 0, 0), "lambda_min": (-1, 0, 0), "log": (-1, 1, 0), "log_norm_cdf": (-1, 1, -1), "log_sum_exp": (1, 1, 0),
    "max": (1, 1, 0), "min": (-1, 1, 0), "norm1": (1, 0, 1), "norm2": (1, 0, 1), "norm_inf": (1, 0, 1), "nuclear_norm": (1, 0, 1),
    "power_abs": (1, 0, 1), "power_p": (1, 0, 1), "power_pos": (1, 1, 1), "quad_form": (1, 0, 1), "quad_over_lin": (1, (0, -1), 1),
    "sqrt": (-1, 1, 1), "square": (1, 0, 1)}


def flat(*a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += flat(*x)
        else:
            out.append(x)
    return out


def judge(x, env):
    if not isinstance(x, X):
        return number(x)
    if x in env:
        return env[x]
    if x.op == "var":
        return F(True, True)
    if x.op == "par":
        return F(True, True, x.args[0] == "nonnegative", x.args[0] == "nonpositive", True)
    if x.op == "call":
        p, args = x.args
        fs = [judge(a, env) for a in flat(args)]
        e = {}
        for formal, f in zip(p.formals, fs):
            if formal.op == "par" and not f.const:
                raise Refused
            e[formal] = f
        try:
            ok = p.allowed(e)
        except Refused:
            if not all(f.const for f in fs):
                raise
            ok = False
        if all(f.const for f in fs):
            return F(True, True, const=True)
        return F(ok and not p.mx, ok and p.mx)
    fs = [judge(a, env) for a in x.args[-1]] if x.op == "atom" else [judge(a, env) for a in x.args]
    const = all(f.const for f in fs)
    if x.op == "add":
        return F(all(f.vex for f in fs), all(f.cave for f in fs), all(f.nn for f in fs), all(f.np for f in fs), const)
    if x.op == "mul":
        a, b = fs
        if not a.const:
            a, b = b, a
        if not a.const:
            raise Refused
        return F(b.aff or a.nn and b.vex or a.np and b.cave, b.aff or a.nn and b.cave or a.np and b.vex,
                 a.nn and b.nn or a.np and b.np, a.nn and b.np or a.np and b.nn, const)
    curv, mono, sign = RULES[x.args[0]]
    if const:
        return F(True, True, sign > 0, sign < 0, True)
    ok = True
    for k, f in enumerate(fs):
        m = mono[k] if isinstance(mono, tuple) else mono
        ok = ok and (f.aff or m*curv > 0 and f.vex or m*curv < 0 and f.cave)
    return F(ok and curv > 0, ok and curv < 0)


class Program:
    def __init__(self, pair, constraints=(), formals=()):
        self.mx, self.o = pair
        self.cs, self.formals = list(constraints), flat(formals)

    def __call__(self, *args):
        return X("call", self, args)

    def allowed(self, env):
        o = judge(self.o, env)
        ok = o.cave if self.mx else o.vex
        return all([ok] + [satisfied(c, env) for c in flat(self.cs)])


class R:
    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b


def relation(op):
    def rel(a, b):
        a, b = flat(a), flat(b)
        n = len(a) if len(b) == 1 else len(b)
        a, b = a*(n if len(a) == 1 else 1), b*(n if len(b) == 1 else 1)
        return [R(op, s, t) for s, t in zip(a, b)]
    return rel


def satisfied(c, env):
    a = [judge(v, env) for v in flat(c.a)]
    if c.op == "in":
        return all(f.aff for f in a)
    b = judge(c.b, env)
    a = a[0]
    return {"==": a.aff and b.aff, "<=": a.vex and b.cave, ">=": a.cave and b.vex}[c.op]


class Names:
    def __init__(self):
        self.x, self.y, self.z = X("var"), X("var"), X("var")
        self.p, self.q, self.n, self.m = X("par", None), X("par", None), X("par", "nonnegative"), X("par", "nonpositive")


def atom(name):
    n = 2 if name in ("kl_div", "quad_over_lin") else 1
    return lambda *a: X("atom", name, flat(*a[:n]))


def oracle():
    """The programs of the specification, in the vocabulary of the rules."""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "c17.py")) as fh:
        text = fh.read().split("# TWICE")[1].split("# END")[0]
    g = {n: atom(n) for n in RULES}
    g.update(vstack=lambda s: list(s), hstack=lambda s: list(s), eye=lambda n: None,
             variable=lambda: X("var"), parameter=lambda attribute=None: X("par", attribute), program=Program,
             minimize=lambda o: (False, o), maximize=lambda o: (True, o),
             less_equals=relation("<="), greater_equals=relation(">="), equals=relation("=="),
             belongs=lambda v, s: [R("in", v)], second_order_cone=None, semidefinite_cone=None)
    exec(compile(text, "specs/c17.py", "exec"), g)
    return g


SPEC = oracle()
NL = len(SPEC["LEAF"])


def expression(op, i, j):
    e = Names()
    a, b = SPEC["LEAF"][i][1](e), SPEC["LEAF"][j][1](e)
    return e, (SPEC["OP"][op][1](a, b) if op < 100 else SPEC["ATOM"][op - 100][1](a, b) if op < 200 else SPEC["use"](op - 200, a, b))


def called(op, i, j):
    n = SPEC["OP"][op][0] if op < 100 else SPEC["ATOM"][op - 100][0] if op < 200 else "program used as function no. %d" % (op - 200)
    return "%s with a = %s, b = %s" % (n, SPEC["LEAF"][i][0], SPEC["LEAF"][j][0])


NAMES = ["convex", "concave", "affine", "nonnegative constant", "nonpositive constant"]


def classify_job(a):
    it, C = ENGINE
    op, todo = a
    rep = []
    for i, j in todo:
        label = called(op, i, j)
        try:
            f = judge(expression(op, i, j)[1], {})
            allow = [f.vex, f.cave, f.aff, f.nn, f.np]
        except Refused:
            allow = [False]*5
        C.calls, C.status = [], "optimal"
        o = it.run(it.glob("specs.c17.classified"), [const(op), const(i), const(j)])
        if not o.returns:
            if any(r.implicit for r in o.raises) or not o.raises or o.imprecise:
                rep.append(("unk", "classified", label, "no outcome: %s" % [(it.exc_names(r.exc)[:1], r.where()) for r in o.raises][:2], WHERE))
            else:
                rep.append(("ok", "classified", label, "refused", None))
            continue
        it.st = o.st
        t = it.term(o.value)
        if t is const(None):
            rep.append(("ok", "classified", label, "a number", None))
            continue
        got = [truth(it, it.term(v)) for v in it.items_of(o.value, None)]
        for g, w, n in zip(got, allow, NAMES):
            what = "%s taken for %s" % (label, n)
            if g is None and not w:
                rep.append(("unk", "classified", what, "the answer depends on more than the expression", WHERE))
            elif g and not w:
                rep.append(("bad", "classified", what, "the rules do not allow this", WHERE))
            elif not w:
                rep.append(("ok", "classified", what, "not said", None))
    return rep


def truth(it, t):
    if t is const(True) or t is const(False):
        return t is const(True)
    return None


def solve_job(a):
    it, C = ENGINE
    kind, op, todo = a
    rep = []
    for i, j, mx in todo:
        if any(r[0] == "bad" for r in rep):        # one per chunk is enough
            break
        if kind == "optimised":
            label = "%s %s" % ("maximise" if mx else "minimise", called(op, i, j))
            try:
                e, v = expression(op, i, j)
                ok = Program((mx, v)).allowed({})
            except Refused:
                ok = False
        else:
            label = "constraint form no. %d with a = %s, b = %s" % (op, SPEC["LEAF"][i][0], SPEC["LEAF"][j][0])
            try:
                e = Names()
                s, t = X("var"), X("var")
                cs = SPEC["constrained"](op, SPEC["LEAF"][i][1](e), SPEC["LEAF"][j][1](e), s, t)
                ok = Program((mx, -t if mx else t), cs).allowed({})
            except Refused:
                ok = False
        if ok:
            continue
        C.calls, C.status = [], "optimal"
        o = it.run(it.glob("specs.c17." + kind), [const(op), const(i), const(j), const(bool(mx))])
        if C.calls:
            rep.append(("bad", "refused", label, "reaches the solver though no rule accepts it", WHERE))
        elif o.returns:
            rep.append(("bad", "refused", label, "completes without exception though no rule accepts it", WHERE))
        elif not o.raises or any(r.implicit for r in o.raises) or o.imprecise:
            rep.append(("unk", "refused", label, "no outcome: %s" % [(it.exc_names(r.exc)[:1], r.where()) for r in o.raises][:2], WHERE))
        else:
            rep.append(("ok", "refused", label, str([it.exc_names(r.exc)[0] for r in o.raises][:1]), None))
    return rep


SIGNED = ["declared nonnegative, then given a value", "given a value, then declared nonnegative", "declared nonpositive, then given a value",
          "given a value, then declared nonpositive", "declared nonnegative, then nonpositive, then given a value", "in an array declared nonnegative",
          "in an array given values", "in an array declared nonpositive", "a number", "declared nonnegative, given a value, declaration withdrawn"]


def signed_job(w):
    it, C = ENGINE
    rep = []
    C.calls = []
    v, u = sym("v", kind="real"), sym("w", kind="real")
    o = it.run(it.glob("specs.c17.signed"), [const(w), v, u])
    label = "parameter: " + SIGNED[w] if w != 8 else "constant"
    where = "src/pydsm/cvxpy_tdr/scalars.py"
    if not o.returns:
        return [("unk", "sign", label, "no outcome: %s" % [(it.exc_names(r.exc)[:1], r.where()) for r in o.raises][:2], where)]
    it.st = o.st
    val, nn, npos = [it.term(x) for x in it.items_of(o.value, None)]
    for flag, n, wrong in ((nn, "nonnegative", T.lt0(val)), (npos, "nonpositive", T.lt0(T.neg(val)))):
        t = T.land(it.truth(flag) if not isinstance(flag, T.Term) else flag, wrong)
        verdict = equal.compare(const(False), t, o.st.pc, n=24)
        what = "%s taken for %s" % (label, n)
        if verdict.kind == equal.EQUAL:
            rep.append(("ok", "sign", what, verdict.how, None))
        elif verdict.kind == equal.DIFFERENT:
            rep.append(("bad", "sign", what, "with a value of the other sign: %s" % (verdict.witness,), where))
        else:
            rep.append(("unk", "sign", what, verdict.how, where))
    return rep


def go(rep, f, todo):
    for a, r in zip(todo, par.pmap(f, todo)):
        if isinstance(r, par.Failed):
            rep.unk("classified", "%s %s" % (f.__name__, str(a)[:60]), r.why[-400:])
            continue
        for kind, rule, label, msg, where in r:
            if kind == "ok":
                rep.ok(rule, label, msg)
            else:
                getattr(rep, kind)(rule, label, msg, where)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


KINDS = ["x", "p", "n", "square(x)", "sqrt(y)", "2x-py", "sqrt(square(x))", "-sqrt(y)", "square(p)"]


def run(rep, tier):
    rep.rule("classified", "an expression is called convex, concave, affine or a constant of one sign only if the rules of disciplined convex programming, evaluated independently on the same expression, allow it")
    rep.rule("refused", "a program whose objective or some constraint has not the curvature its direction requires ends in an exception and no solver is called")
    rep.rule("sign", "a constant taken for nonnegative (nonpositive) never has a value of the other sign")
    build()
    deep = 4 if tier == "thorough" else 1
    every = [(i, j) for i in range(NL) for j in range(NL)]
    kinds = [k for k in range(NL) if SPEC["LEAF"][k][0] in KINDS]
    few = [(i, j) for i in kinds for j in kinds]

    def some(pairs, n, k):
        n = max(1, n//deep)
        return [p for q, p in enumerate(pairs) if q % n == k % n]
    nop = len(SPEC["OP"])
    todo = []
    for op in range(nop):
        todo += [(op, c) for c in chunks([(i, 0) for i in range(NL)] if op == 0 else some(every, 12 if op < 8 else 97, op), 16)]
    for k in range(len(SPEC["ATOM"])):
        todo += [(100 + k, c) for c in chunks(some(few, 4, k), 12)]
    for k in range(SPEC["NUSE"]):
        todo += [(200 + k, c) for c in chunks(some(few, 4, k), 12)]
    go(rep, classify_job, todo)
    todo = []
    for op in range(nop):
        for mx in (0, 1):
            todo += [("optimised", op, c) for c in chunks([(i, j, mx) for i, j in ([(i, 0) for i in range(NL)] if op == 0 else some(every, 97, 7*op + mx))], 10)]
    for k in range(SPEC["NUSE"]):
        todo += [("optimised", 200 + k, c) for c in chunks([(i, j, (i + j) % 2) for i, j in some(few, 6, k)], 10)]
    for w in range(SPEC["NCON"]):
        todo += [("restricted", w, c) for c in chunks([(i, j, (i + j) % 2) for i, j in some(every, 29, w)], 10)]
    go(rep, solve_job, todo)
    go(rep, signed_job, list(range(len(SIGNED))))
