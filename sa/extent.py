"""Bounds of memory accesses: linear integer arithmetic over the symbolic dimensions and loop counters of an access.

prove(goal, facts): goal >= 0 follows from the facts (Fourier-Motzkin over the rationals, products of a fact with the coefficient
of a counter where the goal multiplies a counter by a dimension, case splits for min/max/clip).
refute(goal, lits): dimensions and counters that satisfy every fact and make the goal negative.
"""
import itertools
from fractions import Fraction as Fr
from . import terms as T
from .terms import Term, add, sub, mul, neg, const, num, ZERO, ONE

SPLIT = ("clip0", "min", "max")
CONTENT = ("load", "getitem", "loop", "gemv", "vcopy", "pstore", "app", "call", "sumall", "mcall", "any", "all")


# ------------------------------------------------------------ polynomials with rational coefficients over atoms
def poly(t):
    if num(t) is not None:
        n = num(t)
        return {(): Fr(n)} if n else {}
    if t.op == "poly":
        return {m: Fr(c) for m, c in t.args}
    return {((t, 1),): Fr(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (x[0].uid, x[1])))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def norm(p):
    """Canonical order of the atoms of each monomial."""
    r = {}
    for m, c in p.items():
        r[tuple(sorted(m, key=lambda x: (x[0].uid, x[1])))] = c
    return r


def atoms(p):
    return {a for m in p for a, e in m}


# ------------------------------------------------------------ facts
def literals(pc):
    """Conjunction of literals, with conditions decided by the others resolved."""
    todo, out = list(pc), []
    while todo:
        x = todo.pop(0)
        if x.op == "and":
            todo += list(x.args)
        elif x not in out:
            out.append(x)
    changed = True
    while changed:
        changed = False
        have = set(out)
        for x in list(out):
            if x.op == "not" and x.args[0].op == "and":
                rest = [y for y in x.args[0].args if y not in have]
                if any(T.lnot(y) in have for y in rest):
                    continue
                if len(rest) == 1:
                    y = T.lnot(rest[0])
                    new = list(y.args) if y.op == "and" else [y]
                    new = [z for z in new if z not in have]
                    if new:
                        out += new
                        changed = True
                        break
    return out


def integral(t):
    return T.isint(t)


def facts(lits):
    """Polynomials known to be >= 0."""
    out = []
    for x in lits:
        if x.op == "inloop" and len(x.args) == 2:
            out += [poly(x.args[0]), poly(sub(sub(x.args[1], ONE), x.args[0]))]
        elif x.op == "inloop":
            out.append(poly(x.args[0]))
        elif x.op == "eq0":
            p = poly(x.args[0])
            out += [p, padd({}, p, -1)]
        elif x.op == "lt0":
            p = padd({}, poly(x.args[0]), -1)
            if integral(x.args[0]) or all(integral(a) for a in atoms(p)):
                d = 1
                for c in p.values():
                    d = d * c.denominator // __import__("math").gcd(d, c.denominator)
                p = padd({m: c * d for m, c in p.items()}, {(): Fr(1)}, -1)
            out.append(p)
        elif x.op == "not" and x.args[0].op == "lt0":
            out.append(poly(x.args[0].args[0]))
    return [norm(p) for p in out]


def bounds(ats):
    out = []
    for a in ats:
        if a.op == "sym":
            i = T.INFO.get(a.args[0], {})
            if i.get("lo") is not None:
                out.append(padd(poly(a), {(): Fr(i["lo"])}, -1))
            if i.get("hi") is not None:
                out.append(padd({(): Fr(i["hi"])}, poly(a), -1))
        elif a.op in ("len", "size", "clip0", "rangelen", "ndim"):
            out.append(poly(a))
    return [norm({m: c for m, c in p.items() if c}) for p in out]


def _split(ps):
    for p in ps:
        for a in sorted(atoms(p), key=lambda x: x.uid):
            for b in ([a] if a.op in SPLIT else []):
                if not any(x.op in SPLIT for k in b.args for x in T.walk(k)):
                    return b
            for b in T.walk(a):
                if b.op in SPLIT and b is not a and not any(x.op in SPLIT for k in b.args for x in T.walk(k)):
                    return b
    return None


def _replace(p, a, v):
    r = {}
    for m, c in p.items():
        t = {(): c}
        for x, e in m:
            y = T.subst(x, {a: v}) if x is not a else v
            q = norm(poly(y))
            for _ in range(int(e)):
                t = pmul(t, q)
        r = padd(r, t)
    return r


def prove(goal, fs, depth=0):
    """goal >= 0 from fs >= 0 (polynomials)."""
    goal = norm(goal)
    if all(m == () for m in goal):
        if goal.get((), 0) >= 0:
            return True
    a = _split([goal] + list(fs))
    if a is not None and depth < 7:
        if a.op == "clip0":
            x = a.args[0]
            cases = [(x, [poly(x)]), (ZERO, [poly(sub(neg(x), ONE))])]
        else:
            args = list(a.args)
            cases = []
            for i, x in enumerate(args):
                d = [poly(sub(y, x) if a.op == "min" else sub(x, y)) for j, y in enumerate(args) if j != i]
                cases.append((x, d))
        return all(prove(_replace(goal, a, v), [_replace(f, a, v) for f in fs] + [norm(e) for e in extra], depth + 1) for v, extra in cases)
    fs = [f for f in fs if f]
    seen = set()
    fs = [f for f in fs if not (frozenset(f.items()) in seen or seen.add(frozenset(f.items())))]
    ats = atoms(goal) | {x for f in fs for x in atoms(f)}
    fs = fs + bounds(ats)
    if infeasible(fs + [padd({(): Fr(-1)}, goal, -1)]):
        return True
    # products: coefficient of a counter in the goal times a bound of that counter
    extra = []
    for v in sorted(atoms(goal), key=lambda x: x.uid):
        c = {}
        for m, k in goal.items():
            e = dict(m).get(v, 0)
            if e == 1:
                c = padd(c, {tuple((a, n) for a, n in m if a is not v): k})
            elif e:
                c = None
                break
        if not c or all(m == () for m in c) or depth > 9:
            continue
        for s in (1, -1):
            cc = norm({m: k * s for m, k in c.items()})
            if prove(cc, fs, depth + 3) if atoms(cc) != atoms(goal) else False:
                for f in fs:
                    if v in atoms(f):
                        extra.append(pmul(cc, f))
                break
    return bool(extra) and infeasible(fs + extra + [padd({(): Fr(-1)}, goal, -1)])


def infeasible(cons, cap=1500):
    """No real values of the monomials satisfy every constraint p >= 0."""
    cur = []
    seen = set()

    def put(lst, p):
        p = {m: c for m, c in p.items() if c}
        if not p or set(p) == {()}:
            return p.get((), 0) < 0
        k = max(abs(c) for m, c in p.items() if m != ())
        p = {m: c / k for m, c in p.items()}
        key = frozenset((m, c) for m, c in p.items() if m != ())
        old = best.get(key)
        if old is None or p.get((), Fr(0)) < old.get((), Fr(0)):
            best[key] = p
        return False
    best = {}
    for p in cons:
        if put(cur, p):
            return True
    while True:
        ps = list(best.values())
        ms = {m for p in ps for m in p if m != ()}
        if not ms:
            return False

        def cost(m):
            a = sum(1 for p in ps if p.get(m, 0) > 0)
            b = sum(1 for p in ps if p.get(m, 0) < 0)
            return a * b - a - b
        m = min(ms, key=lambda m: (cost(m), len(m), str(m)))
        pos = [p for p in ps if p.get(m, 0) > 0]
        neg_ = [p for p in ps if p.get(m, 0) < 0]
        best = {}
        for p in ps:
            if m not in p and put(None, p):
                return True
        for p in pos:
            for q in neg_:
                r = padd({k: c / p[m] for k, c in p.items()}, {k: c / -q[m] for k, c in q.items()})
                if put(None, r):
                    return True
        if len(best) > cap:
            return False


# ------------------------------------------------------------ counterexamples
class Unknown(Exception):
    pass


def value(t, env):
    n = num(t)
    if n is not None:
        return n
    if t in env:
        return env[t]
    op = t.op
    if op == "poly":
        r = 0
        for m, c in t.args:
            k = c
            for a, e in m:
                k = k * value(a, env) ** e
            r += k
        return r
    if op == "clip0":
        return max(0, value(t.args[0], env))
    if op in ("min", "max"):
        return (min if op == "min" else max)(value(a, env) for a in t.args)
    if op == "ite":
        return value(t.args[1 if holds(t.args[0], env) else 2], env)
    raise Unknown(op)


def holds(x, env):
    if x is T.TRUE or x is T.FALSE:
        return x is T.TRUE
    if x.op == "and":
        return all(holds(y, env) for y in x.args)
    if x.op == "not":
        return not holds(x.args[0], env)
    if x.op == "lt0":
        return value(x.args[0], env) < 0
    if x.op == "eq0":
        return value(x.args[0], env) == 0
    if x.op == "inloop":
        return 0 <= value(x.args[0], env) < (value(x.args[1], env) if len(x.args) == 2 else 10 ** 9)
    if x.op == "sym" and x in env:
        return bool(env[x])
    raise Unknown(x.op)


def refute(goal, lits, vals=(1, 2, 0, 3, 4, 5), cap=150000):
    """Assignment with every decidable literal true and the goal negative; raises Unknown when a literal over dimensions is not decidable."""
    keep = []
    for x in lits:
        ops = {y.op for y in T.walk(x)}
        arrs = [y for y in T.free(x) if y.op == "sym" and T.INFO.get(y.args[0], {}).get("kind") != "int"]
        if ops & set(CONTENT) or arrs:
            continue
        keep.append(x)
    ats = set()
    for x in keep + [goal]:
        ats |= {y for y in T.free(x) if y.op == "sym"}
        ats |= {y for y in T.walk(x) if y.op in ("len", "size", "ndim")}
    ats = sorted(ats, key=lambda x: x.uid)

    def rng(a):
        i = T.INFO.get(a.args[0], {}) if a.op == "sym" else {}
        return [v for v in vals if (i.get("lo") is None or v >= i["lo"]) and (i.get("hi") is None or v <= i["hi"])]
    # literals are tested as soon as their symbols are assigned
    lits2 = [(x, {y for y in ats if y in T.free(x) or any(z is y for z in T.walk(x))}) for x in keep]
    count = [0]

    def search(k, env):
        count[0] += 1
        if count[0] > cap:
            return None
        if k == len(ats):
            return dict(env) if value(goal, env) < 0 else None
        a = ats[k]
        done = set(ats[:k + 1])
        for v in rng(a):
            env[a] = v
            if all(holds(x, env) for x, fs in lits2 if a in fs and fs <= done):
                r = search(k + 1, env)
                if r is not None:
                    return r
            del env[a]
        return None
    return search(0, {})
