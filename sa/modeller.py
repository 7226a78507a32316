"""Abstract matrices for the bundled modelling package: solver matrices (cvxopt) and the
package's dense matrix class, both with concrete sizes and symbolic entries.  Entries live
in the interpreter's heap, so that they follow its paths and joins."""
from . import terms as T
from .terms import const, mk, num, Term, add, mul, neg, ite, NONE, TRUE, FALSE
from . import interp as I
from .interp import VObj, VExt, VTuple, VSlice, Ref, HObj, AnalysisError

ZERO, ONE = const(0), const(1)


def _int(it, v, what="index"):
    n = num(it.term(v))
    if n is None:
        raise AnalysisError("symbolic matrix %s %s" % (what, T.show(it.term(v))[:80]))
    return int(n)


class VMat(VObj):
    """m x n matrix; ref is a heap dictionary from i*n+j to the entry (absent: zero)."""
    __slots__ = ("m", "n", "ref", "kind", "cls")

    def __init__(self, it, m, n, entries, kind, cls=None):
        self.m, self.n, self.kind, self.cls = m, n, kind, cls
        self.ref = it.alloc(HObj("dict", ({i * n + j: (TRUE, v) for (i, j), v in entries.items()}, None)))

    def at(self, it, i, j):
        d, rest = it.get(self.ref).data
        c = d.get(i * self.n + j)
        if c is None:
            return const(0)
        return it.term(c[1]) if c[0] is TRUE else ite(c[0], it.term(c[1]), ZERO)

    def entries(self, it):
        return {(i, j): self.at(it, i, j) for i in range(self.m) for j in range(self.n) if (i * self.n + j) in it.get(self.ref).data[0]}

    def new(self, it, m, n, e, kind=None):
        return VMat(it, m, n, e, kind or self.kind, self.cls)

    def term(self, it):
        return mk("vec", *[mk("vec", *[self.at(it, i, j) for j in range(self.n)]) for i in range(self.m)]) if self.m else mk("empty", const(self.m), const(self.n))

    def pytype(self, it):
        return self.cls or VExt({"matrix": "cvxopt.base.matrix", "spmatrix": "cvxopt.base.spmatrix"}.get(self.kind, "scipy.sparse." + self.kind))

    # ---- indexing
    def _range(self, it, k, size):
        """(indices, is_slice) of one subscript."""
        if isinstance(k, VSlice):
            f = lambda x: None if it.term(x) is NONE else _int(it, x)
            return list(range(*slice(f(k.lo), f(k.hi), f(k.step)).indices(size))), True
        i = _int(it, k)
        if not -size <= i < size:
            it.raise_(VExt("builtins.IndexError"), None, (const(i),))
        return [i % size if size else i], False

    def index(self, it, k):
        if isinstance(k, VTuple):
            if len(k.items) != 2:
                it.raise_(VExt("builtins.TypeError"), None)
            r, a = self._range(it, k.items[0], self.m)
            c, b = self._range(it, k.items[1], self.n)
            return r, c, a or b
        if isinstance(k, VSlice):
            raise AnalysisError("flat slice of a matrix")
        if self.kind in ("matrix", "spmatrix"):        # column-major position
            p, _ = self._range(it, k, self.m * self.n)
            return [p[0] % self.m], [p[0] // self.m], False
        r, _ = self._range(it, k, self.m)
        return r, list(range(self.n)), True

    def getitem(self, it, k, node):
        r, c, sl = self.index(it, k)
        if not sl:
            return self.at(it, r[0], c[0])
        e = {}
        have = self.entries(it)
        for a, i in enumerate(r):
            for b, j in enumerate(c):
                if (i, j) in have:
                    e[a, b] = have[i, j]
        return self.new(it, len(r), len(c), e)

    def setitem(self, it, k, v, node):
        r, c, sl = self.index(it, k)
        for a, i in enumerate(r):
            for b, j in enumerate(c):
                x = v.at(it, a, b) if isinstance(v, VMat) else v
                it.dict_set(self.ref, const(i * self.n + j), x, node, quiet=True)

    # ---- arithmetic
    def map(self, it, f):
        return self.new(it, self.m, self.n, {k: f(v) for k, v in self.entries(it).items()})

    def binop(self, it, op, o, swapped, node):
        if isinstance(o, VMat):
            if op in "+-":
                if (o.m, o.n) != (self.m, self.n):
                    it.raise_(VExt("builtins.TypeError"), node, (const("matrix dimensions"),))
                a, b = (o, self) if swapped else (self, o)
                ea, eb = a.entries(it), b.entries(it)
                return self.new(it, self.m, self.n, {k: it.lib.arith(op, ea.get(k, ZERO), eb.get(k, ZERO)) for k in set(ea) | set(eb)},
                                "matrix" if "matrix" in (self.kind, o.kind) else self.kind)
            if op in "*@":
                a, b = (o, self) if swapped else (self, o)
                if a.n != b.m:
                    it.raise_(VExt("builtins.TypeError"), node, (const("matrix dimensions"),))
                ea, eb = a.entries(it), b.entries(it)
                e = {}
                for (i, k), x in ea.items():
                    for (k2, j), y in eb.items():
                        if k2 == k:
                            e[i, j] = add(e.get((i, j), ZERO), mul(x, y))
                return self.new(it, a.m, b.n, e)
            return NotImplemented
        if isinstance(o, Term):
            if op == "*" or op == "/" and not swapped:
                return self.map(it, lambda x: it.lib.arith(op, x, o))
        return NotImplemented

    def unop(self, it, op, node):
        return self.map(it, neg) if op == "-" else NotImplemented

    def nz(self, it):
        """Positions of the stored entries that are not zero (symbolic entries count as nonzero: coefficients are generic)."""
        return sorted(k for k, v in self.entries(it).items() if num(v) is None or num(v) != 0)

    def getattr(self, it, name, node):
        if name in ("shape", "size") and not (name == "size" and self.kind not in ("matrix", "spmatrix")):
            return VTuple([const(self.m), const(self.n)])
        if name == "T":
            return self.new(it, self.n, self.m, {(j, i): v for (i, j), v in self.entries(it).items()})
        if name == "data":
            e = self.entries(it)
            return it.newlist([e[k] for k in self.nz(it)])
        f = {"tocsr": lambda a, k: self.new(it, self.m, self.n, self.entries(it), "csr_matrix"),
             "tocsc": lambda a, k: self.new(it, self.m, self.n, self.entries(it), "csc_matrix"),
             "tocoo": lambda a, k: self.new(it, self.m, self.n, self.entries(it), "coo_matrix"),
             "copy": lambda a, k: self.new(it, self.m, self.n, self.entries(it)),
             "transpose": lambda a, k: self.getattr(it, "T", node),
             "ctrans": lambda a, k: self.getattr(it, "T", node),
             "trans": lambda a, k: self.getattr(it, "T", node),
             "nonzero": lambda a, k: VTuple([it.newlist([const(x[i]) for x in self.nz(it)]) for i in (0, 1)]),
             "dot": lambda a, k: self.binop(it, "@", a[0], False, node)}.get(name)
        return VFn(f) if f else NotImplemented


class VFn(VObj):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def call(self, it, args, kw, node):
        return self.f(args, kw)

    def term(self, it):
        return mk("matmethod")


class Count(VObj):
    """itertools.count(): every draw is larger than the ones before."""
    __slots__ = ("i",)

    def __init__(self):
        self.i = 0

    def term(self, it):
        return mk("count")


def entries_of(it, v):
    """(m, n, {(i, j): entry}) of a matrix-like value."""
    if isinstance(v, VMat):
        return v.m, v.n, v.entries(it)
    if isinstance(v, Term) and it.lib.shape(v) == ():
        return 1, 1, {(0, 0): v}
    items = it.items_of(v, None, soft=True)
    if items is None:
        s = it.lib.shape(it.term(v))
        if s is None or any(num(d) is None for d in s) or len(s) > 2:
            raise AnalysisError("matrix of unknown size")
        d = [int(num(x)) for x in s]
        t = it.term(v)
        g = it.lib.elem
        if not d:
            return 1, 1, {(0, 0): t}
        if t.op == "eye" and num(t.args[2] if len(t.args) > 2 else ZERO) == 0:
            return d[0], d[1], {(i, j): const(float(i == j)) for i in range(d[0]) for j in range(d[1])}
        if len(d) == 2:
            return d[0], d[1], {(i, j): g(g(t, const(i)), const(j)) for i in range(d[0]) for j in range(d[1])}
        return 1, d[0], {(0, i): g(t, const(i)) for i in range(d[0])}
    rows = []
    for x in items:
        y = it.items_of(x, None, soft=True)
        rows.append(y if y is not None else None)
    if all(r is None for r in rows):
        return len(items), 1, {(i, 0): it.term(x) for i, x in enumerate(items)}
    return len(rows), len(rows[0]), {(i, j): it.term(x) for i, r in enumerate(rows) for j, x in enumerate(r)}


def install(it):
    it.unroll_breaks = True
    H = it.lib.ext_hooks
    it.lib.real_float = True
    it.maxrec, it.maxdepth = 24, 200

    def size(v):
        x = it.items_of(v, None)
        return _int(it, x[0], "size"), _int(it, x[1], "size")

    def matrix(it, p, a, kw, node):
        x = a[0] if a else kw.get("x", const(0))
        sz = a[1] if len(a) > 1 else kw.get("size")
        if isinstance(x, Term) and it.lib.shape(x) == ():
            m, n = size(sz) if sz is not None else (1, 1)
            return VMat(it, m, n, {(i, j): x for i in range(m) for j in range(n)}, "matrix")
        if sz is None and not isinstance(x, VMat):
            items = it.items_of(x, node, soft=True)
            if items is not None and items and all(isinstance(y, VMat) for y in items):
                m, e = 0, {}
                for y in items:
                    if y.n != items[0].n:
                        it.raise_(VExt("builtins.TypeError"), node, (const("incompatible dimensions"),))
                    e.update({(m + i, j): v for (i, j), v in y.entries(it).items()})
                    m += y.m
                return VMat(it, m, items[0].n, {(i, j): e.get((i, j), ZERO) for i in range(m) for j in range(items[0].n)}, "matrix")
        m, n, e = entries_of(it, x)
        e = {(i, j): e.get((i, j), ZERO) for i in range(m) for j in range(n)}
        if sz is not None:
            m2, n2 = size(sz)
            if m2 * n2 != m * n:
                it.raise_(VExt("builtins.TypeError"), node, (const("incompatible dimensions"),))
            e = {((j * m + i) % m2, (j * m + i) // m2): v for (i, j), v in e.items()}
            m, n = m2, n2
        return VMat(it, m, n, e, "matrix")

    def spmatrix(it, p, a, kw, node):
        x = a[0]
        r = [_int(it, y) for y in it.items_of(a[1], node)]
        c = [_int(it, y) for y in it.items_of(a[2], node)]
        sz = a[3] if len(a) > 3 else kw.get("size")
        m, n = size(sz) if sz is not None else (max(r + [-1]) + 1, max(c + [-1]) + 1)
        xs = [x] * len(r) if isinstance(x, Term) and it.lib.shape(x) == () else it.items_of(x, node)
        if not len(xs) == len(r) == len(c):
            it.raise_(VExt("builtins.TypeError"), node)
        e = {}
        for i, j, v in zip(r, c, xs):
            if not (0 <= i < m and 0 <= j < n):
                it.raise_(VExt("builtins.TypeError"), node)
            e[i, j] = add(e[i, j], it.term(v)) if (i, j) in e else it.term(v)
        return VMat(it, m, n, e, "spmatrix")

    def stack(kind, down=True):
        def f(it, p, a, kw, node):
            items = it.items_of(a[0], node, soft=True)
            if items is None or not items or not all(isinstance(y, VMat) for y in items):
                return NotImplemented
            m, e = 0, {}
            for y in items:
                w = y.n if down else y.m
                if w != (items[0].n if down else items[0].m):
                    it.raise_(VExt("builtins.ValueError"), node, (const("incompatible dimensions"),))
                e.update({((m + i, j) if down else (i, m + j)): v for (i, j), v in y.entries(it).items()})
                m += y.m if down else y.n
            M, N = (m, items[0].n) if down else (items[0].m, m)
            return VMat(it, M, N, e, kind or items[0].kind, None if kind else items[0].cls)
        return f

    def lil(kind):
        def f(it, p, a, kw, node):
            if isinstance(a[0], VTuple):
                return VMat(it, *size(a[0]), {}, kind)
            m, n, e = entries_of(it, a[0])
            return VMat(it, m, n, e, kind)
        return f
    for q in ("cvxopt.", "cvxopt.base."):
        H[q + "matrix"], H[q + "spmatrix"], H[q + "sparse"] = matrix, spmatrix, stack("spmatrix")
    for k in ("lil_matrix", "csr_matrix", "csc_matrix", "coo_matrix", "dok_matrix", "lil_array", "csr_array"):
        H["scipy.sparse." + k] = lil(k)
    H["scipy.sparse.vstack"] = stack("coo_matrix")
    H["scipy.sparse.hstack"] = stack("coo_matrix", False)
    H["numpy.vstack"] = stack(None)
    H["numpy.hstack"] = stack(None, False)
    H["itertools.count"] = lambda it, p, a, kw, node: Count()

    def nxt(it, p, a, kw, node):
        if isinstance(a[0], Count):
            a[0].i += 1
            return const(a[0].i - 1)
        return NotImplemented
    H["builtins.next"] = nxt

    def dense(it, cref, a, kw, node):
        m, n, e = entries_of(it, a[0])
        return VMat(it, m, n, {(i, j): e.get((i, j), ZERO) for i in range(m) for j in range(n)}, "matrix_np", cref)
    it.lib.class_hooks["cvxpy_matrix"] = dense
    it.lib.class_hooks["cvxpy_spmatrix"] = lambda it, cref, a, kw, node: (lambda r: VMat(it, *(size(a[0]) if isinstance(a[0], VTuple) else r[:2]), {} if isinstance(a[0], VTuple) else r[2], "lil_matrix", cref))(None if isinstance(a[0], VTuple) else entries_of(it, a[0]))


class Capture(object):
    """Stand-in for the solver: records what it is given and returns a symbolic outcome.
    Smooth constraints are evaluated at a symbolic point while the state of the call is current."""

    def __init__(self, it, status="optimal", smooth=True):
        self.it, self.status, self.smooth, self.calls = it, status, smooth, []
        for p in ("cvxopt.solvers.", "cvxopt.cvxprog.", "cvxopt.coneprog."):
            it.lib.ext_hooks[p + "cpl"] = self.cpl
            it.lib.ext_hooks[p + "conelp"] = self.conelp
        for n in ("lp", "qp", "cp", "socp", "sdp", "gp", "coneqp"):
            it.lib.ext_hooks["cvxopt.solvers." + n] = self.other

    def other(self, it, p, a, kw, node):
        raise AnalysisError("solver entry point %s is not modelled" % p)

    def bind(self, names, a, kw, **dflt):
        d = dict(zip(names, a))
        d.update({k: v for k, v in kw.items() if k in names})
        d["options"] = kw.get("options")
        return d

    def conelp(self, it, p, a, kw, node):
        d = self.bind(("c", "G", "h", "dims", "A", "b", "primalstart", "dualstart", "kktsolver", "xnewcopy"), a, kw)
        d["F"] = None
        return self.record(it, d, node)

    def cpl(self, it, p, a, kw, node):
        d = self.bind(("c", "F", "G", "h", "dims", "A", "b", "kktsolver"), a, kw)
        return self.record(it, d, node)

    def record(self, it, d, node):
        c = d["c"]
        n = c.m
        x = self.point(it, n)
        d["n"], d["x"] = n, [x.at(it, i, 0) for i in range(n)]
        for k in ("G", "h", "A", "b"):
            if not isinstance(d.get(k), VMat):
                d[k] = None
        for k in ("c", "G", "h", "A", "b"):
            if d[k] is not None:
                d[k] = (d[k].m, d[k].n, d[k].entries(it))
        if d.get("dims") is not None:
            o = it.get(d["dims"])
            g = lambda k: it.dict_get(d["dims"], const(k), None, node)
            d["dims"] = (_int(it, g("l")), [_int(it, y) for y in it.items_of(g("q"), node)], [_int(it, y) for y in it.items_of(g("s"), node)])
        d["pc"], d["node"] = it.st.pc, node
        if self.smooth and d["F"] is not None:
            d["m"] = it.items_of(it.call(d["F"], [], {}, node), node)
            m = _int(it, d["m"][0])
            r = it.call(d["F"], [x], {}, node)
            d["dom"], d["F1"] = self.split(it, r, node)
            z = VMat(it, m, 1, {(i, 0): T.sym("z%d" % i, kind="real", lo=0) for i in range(m)}, "matrix")
            d["z"] = [z.at(it, i, 0) for i in range(m)]
            r = it.items_of(it.call(d["F"], [x, z], {}, node), node)
            d["F2"] = [(y.m, y.n, y.entries(it)) for y in r]
        self.calls.append(d)
        out = it.newdict()
        put = lambda k, v: it.dict_set(out, const(k), v, node, quiet=True)
        put("status", const(self.status) if isinstance(self.status, str) else self.status)
        put("x", VMat(it, n, 1, {(i, 0): T.sym("sol%d" % i, kind="real") for i in range(n)}, "matrix"))
        put("primal objective", T.sym("optval", kind="real"))
        return out

    def point(self, it, n):
        return VMat(it, n, 1, {(i, 0): T.sym("x%d" % i, kind="real") for i in range(n)}, "matrix")

    def split(self, it, r, node):
        """(domain condition, [f, Df]) of F(x): a pair of matrices, or (None, None) outside the domain."""
        alts = []

        def rec(v, c):
            if isinstance(v, I.VChoice):
                rec(v.a, T.land(c, v.cond))
                rec(v.b, T.land(c, T.lnot(v.cond)))
                return
            items = it.items_of(v, node)
            if any(isinstance(y, I.VChoice) for y in items):
                y = [y for y in items if isinstance(y, I.VChoice)][0]
                for w, cc in ((0, y.cond), (1, T.lnot(y.cond))):
                    rec(VTuple([(z.a if w == 0 else z.b) if isinstance(z, I.VChoice) and z.cond is y.cond else z for z in items]), T.land(c, cc))
                return
            alts.append((c, items))
        rec(r, TRUE)
        good = [(c, i) for c, i in alts if all(isinstance(y, VMat) for y in i)]
        bad = [(c, i) for c, i in alts if all(isinstance(y, Term) and y is NONE for y in i)]
        if len(good) != 1 or len(good) + len(bad) != len(alts):
            raise AnalysisError("outcome of F(x) not separable into inside and outside of the domain")
        return good[0][0], [(y.m, y.n, y.entries(it)) for y in good[0][1]]
