"""Folding of sorts, masks and searches over vectors whose elements are symbols confined to regions (used by C09 on the pairing of complex numbers).

A vector of known length is exploded into its elements; comparisons between elements are decided by interval reasoning only.  Whatever stays undecided is
left as the term it was."""
from sa.ctx import *
from sa import terms as T
from sa import interp as I
from sa.terms import *


def explode(lib, t):
    s = lib.shape(t)
    if s is None or len(s) != 1 or num(s[0]) is None or not 0 <= num(s[0]) <= 16:
        return None
    if t.op == "vec":
        return list(t.args)
    return [lib.elem(t, const(i)) for i in range(int(num(s[0])))]


def decided(lib, cs):
    out = []
    for c in cs:
        c = lib.it.decide(c)
        if c is not TRUE and c is not FALSE:
            return None
        out.append(c is TRUE)
    return out


def order(lib, xs):
    """Stable ascending order of the elements (real part first, as numpy does), or None."""
    it = lib.it
    keys = [(real_of(x), imag_of(x)) for x in xs]

    def less(a, b):
        for p, q in zip(a, b):
            d = sub(p, q)
            if num(d) == 0:
                continue
            c = it.decide(T.lt0(d))
            if c is TRUE:
                return True
            if c is FALSE:
                if it.decide(T.lt0(neg(d))) is TRUE:
                    return False
                return None
            return None
        return False
    idx = []
    for i in range(len(xs)):
        k = len(idx)
        while k > 0:
            l = less(keys[i], keys[idx[k - 1]])
            if l is None:
                return None
            if not l:
                break
            k -= 1
        idx.insert(k, i)
    return idx


def real_of(x):
    return T.freal(x)


def imag_of(x):
    return T.fimag(x)


def install(lib):
    it = lib.it

    def mask(t, idx):
        cs, xs = explode(lib, idx), explode(lib, t)
        if cs is None and xs is not None and len(xs) == 1 and lib.shape(idx) == ():
            cs = [idx]
        if cs is None or xs is None or len(cs) != len(xs):
            return None
        d = decided(lib, [it.truth(c) for c in cs])
        return None if d is None else mk("vec", *[x for x, k in zip(xs, d) if k])

    def nxt(it, path, args, kw, node):
        xs = it.items_of(args[0], node, soft=True)
        if xs is None:
            return NotImplemented
        if xs:
            return xs[0]
        return args[1] if len(args) > 1 else NotImplemented
    lib.repo_hooks["pydsm.relab.eps"] = lambda it, ref, args, kw, node: T.EPS
    lib.regions = mask
    lib.ext_hooks["builtins.next"] = nxt

    def sort(it, path, args, kw, node):
        xs = explode(lib, it.term(args[0]))
        o = None if xs is None or len(args) > 1 or kw else order(lib, xs)
        if o is None:
            return NotImplemented
        return it.arr(mk("vec", *[xs[i] for i in o]))

    def argsort(it, path, args, kw, node):
        xs = explode(lib, it.term(args[0]))
        o = None if xs is None or len(args) > 1 or kw else order(lib, xs)
        if o is None:
            return NotImplemented
        return it.arr(mk("vec", *[const(i) for i in o]))

    def along(it, path, args, kw, node):
        if len(args) < 3 or len(lib.shape(it.term(args[2])) or ()) != 1:
            return NotImplemented
        return it.call(args[0], [args[2]] + list(args[3:]), kw, node)

    def anyall(name):
        def h(it, path, args, kw, node):
            xs = explode(lib, it.term(args[0]))
            if xs is None or len(args) > 1 or kw:
                return NotImplemented
            cs = [it.truth(x) for x in xs]
            return it.decide((lor if name == "any" else land)(*cs)) if cs else (FALSE if name == "any" else TRUE)
        return h
    lib.ext_hooks["numpy.sort"] = sort
    lib.ext_hooks["numpy.argsort"] = argsort
    lib.ext_hooks["numpy.apply_along_axis"] = along
    lib.ext_hooks["numpy.any"] = anyall("any")
    lib.ext_hooks["numpy.all"] = anyall("all")
