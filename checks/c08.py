"""C08: the compiled simulators access only memory inside the arrays they own."""
import ast
import itertools
from sa import extent as X, interp as I, par, terms as T
from sa.ctx import *
from sa.report import Report

BACK = ("cblas", "scipy_blas")
nu, N, R, C, K, M, M2, P = [sym(n, kind="int", lo=0) for n in ("nu", "N", "rows", "cols", "nq", "m", "m2", "poles")]
C_TYPES = {"double": "float64", "float": "float32", "int": "int32", "long": "int64", "complex": "complex128", "char": "int8"}
TWO, ONE = const(2), const(1)


def inputs():
    return [("u of two dimensions", arr("u", nu, N)), ("u of one dimension", arr("u1", N)), ("u of three dimensions", arr("u3", nu, N, TWO)),
            ("scalar u", sym("us", kind="real")), ("integer u", arr("ui", nu, N, dtype="int")), ("u as a list", lst(arr("ua", N), arr("ub", N)))]


def modulators():
    return [("matrix", arr("h", R, C)), ("matrix of integers", arr("hi", R, C, dtype="int")), ("vector instead of a matrix", arr("h1", R)),
            ("NTF", tup(arr("z", R, complex=True), arr("p", P, complex=True), sym("k0", kind="real"))),
            ("NTF with a matrix of zeros", tup(arr("z2", R, C, complex=True), arr("p", P, complex=True), sym("k0", kind="real"))),
            ("NTF with a matrix of poles", tup(arr("z", R, complex=True), arr("p2", P, TWO, complex=True), sym("k0", kind="real")))]


def level_counts():
    return [("levels of one dimension", arr("nlev", K, dtype="int")), ("scalar levels", sym("n1", kind="int")), ("levels of two dimensions", arr("n2", K, TWO, dtype="int")),
            ("list of levels", lst(sym("na", kind="int"), sym("nb", kind="int"))), ("levels of unknown type", arr("nr", K))]


def states():
    return [("zero state", const(0)), ("state vector", arr("x0", M)), ("state matrix", arr("x2", M, M2)), ("state of three dimensions", arr("x3", M, M2, TWO)),
            ("scalar state", sym("xs", kind="real")), ("state as a list", lst(sym("xa", kind="real"), sym("xb", kind="real")))]


def scenarios(tier):
    """Every kind of each argument with the plain kinds of the others; in the thorough tier every combination."""
    kinds = [inputs(), modulators(), level_counts(), states()]
    out = []
    base = [kinds[0][0], kinds[1][0], kinds[2][0], kinds[3][1]]
    if tier != "quick":
        out = list(itertools.product(*kinds))
    else:
        for i, ks in enumerate(kinds):
            for k in ks:
                out.append(tuple(k if j == i else b for j, b in enumerate(base)))
        out += [(kinds[0][1], m, n, x) for m in kinds[1] for n in kinds[2][:2] for x in kinds[3][:3]]
    seen, res = set(), []
    for c in out:
        k = tuple(x[0] for x in c)
        if k not in seen:
            seen.add(k)
            res.append((", ".join(k), [x[1] for x in c]))
    return res


def accesses(e):
    """(label, pointer, index of the last element relative to the pointer, conditions for an access, increments, row lengths) of an event."""
    one = T.ONE
    if e.kind == "raw":
        p, off, n, inc = e.args
        yield ("element", p, T.sub(T.add(off, T.mul(T.sub(n, one), inc)), p.off), [n], [inc], None)
    elif e.kind == "copy":
        n, x, ix, y, iy = e.args
        yield ("source", x, T.mul(T.sub(n, one), ix), [n], [ix], None)
        yield ("destination", y, T.mul(T.sub(n, one), iy), [n], [iy], None)
    else:
        m, n, al, a, lda, x, ix, be, y, iy = e.args
        col = e.what.endswith("N")
        row = m if col else n
        yield ("matrix", a, T.add(T.mul(T.sub(n if col else m, one), lda), T.sub(row, one)), [m, n], [], (lda, row))
        yield ("vector", x, T.mul(T.sub(n, one), ix), [m, n], [ix], None)
        yield ("result", y, T.mul(T.sub(m, one), iy), [m, n], [iy], None)


def decide(goal, pc, extra=()):
    """('ok'|'bad'|'unk', text) for goal >= 0 under the path condition; every non-zero length is at least one."""
    lits = X.literals(pc)
    fs = X.facts(lits) + [X.norm(X.poly(T.sub(x, T.ONE))) for x in extra]
    if X.prove(X.poly(goal), fs):
        return "ok", ""
    try:
        w = X.refute(goal, lits + [T.lnot(T.lt0(T.sub(x, T.ONE))) for x in extra])
    except X.Unknown as ex:
        return "unk", "not proved (%s is not understood)" % ex
    if w is None:
        return "unk", "not proved"
    return "bad", "fails at " + ", ".join("%s=%s" % (T.show(k), v) for k, v in sorted(w.items(), key=lambda x: x[0].uid) if k.op == "sym")


def one(job):
    b, label, args, flags = job
    it = new_interp()
    out, seen = [], {}
    o = it.run(it.glob("pydsm.delsig._simulateDSM_%s.simulateDSM" % b), args + [const(f) for f in flags])
    n = 0
    for e in o.events:
        if e.kind in ("extcall", "method", "callback", "call") and any(isinstance(a, I.VPtr) for a in list(e.args) + list((e.kw or {}).values())) and e.kind != "call":
            seen[("unk", "extent", "%s: %s" % (b, e.what), "a pointer is given to code whose accesses are not known", e.where())] = 1
        if e.kind not in ("raw", "gemv", "copy") or T.land(*e.pc) is T.FALSE:
            continue
        for acc, (lab, p, last, lens, incs, row) in enumerate(accesses(e)):
            con = "%s %s, %s of %s" % (b, (e.where().split(" ")[0]).rpartition("/")[2], lab, e.what)
            if not isinstance(p, I.VPtr):
                seen[("unk", "extent", con, "not a pointer into a known array", e.where())] = 1
                continue
            k = [i for i, a in enumerate(e.args) if a is p][0]
            for ref, meta, shape, held, cond in e.mem[k]:
                n += 1

                def put(v, rule, msg):
                    seen[(v, rule, con, msg + (" (%s, store_xn=%d store_xmax=%d store_y=%d)" % ((label,) + tuple(flags)) if v != "ok" else ""), e.where())] = 1
                if ref is None:
                    put("unk", "extent", "array not known")
                    continue
                # element type and layout
                ct = p.ctype.replace("*", "").replace("_ptr", "").strip()
                want, have = C_TYPES.get(ct), meta.get("dtype")
                if want is not None and have == want:
                    put("ok", "type", "")
                else:
                    put("bad" if have is not None or meta["loose"] else "unk", "type", "%s elements read through a pointer to %s" % (have or "elements of any type", ct))
                known = [s for s in shape or [None] if s is not None]
                exact = len(shape or ()) == 1 and len(known) == 1
                if meta.get("contig"):
                    put("ok", "layout", "")
                elif exact and sum(T.num(d) != 1 for d in known[0]) <= (1 if meta.get("dense") else 0):
                    # a vector without gaps
                    put("ok", "layout", "")
                else:
                    put("bad" if meta["loose"] else "unk", "layout", "the array can have any strides and is accessed as contiguous")
                pc = e.pc + cond
                put("ok" if held else "bad", "owner", "" if held else "no variable keeps the array alive")
                # extent, for every shape the array can have
                if not known or len(known) != len(shape):
                    put("unk", "extent", "size of the array not known")
                    continue
                for sh in known:
                    size = T.ONE
                    for d in sh:
                        size = T.mul(size, d)
                    v, msg = decide(T.sub(T.sub(size, T.add(p.off, last)), T.ONE), pc, lens)
                    put(v if exact or v != "bad" else "unk", "extent", "" if v == "ok" else "access to element %s of %s: %s" % (T.show(T.add(p.off, last)), T.show(size), msg))
                v, msg = decide(p.off, pc, lens)
                put(v, "extent", "" if v == "ok" else "negative offset %s: %s" % (T.show(p.off), msg))
                for i in incs:
                    v, msg = decide(T.sub(i, T.ONE), pc, lens)
                    put(v, "extent", "" if v == "ok" else "increment %s: %s" % (T.show(i), msg))
                if row is not None:
                    v, msg = decide(T.sub(row[0], row[1]), pc, lens)
                    put(v, "extent", "" if v == "ok" else "leading dimension %s below the row length %s: %s" % (T.show(row[0]), T.show(row[1]), msg))
    return list(seen), n, [r.where() for r in o.raises], [x for x in o.imprecise], sorted(pointer_sites(it, b))


def pointer_sites(it, b):
    """Places of the compiled module where a pointer is taken and whether the run reached them."""
    out = []
    m = it.trees["pydsm.delsig._simulateDSM_%s" % b]
    for nd in ast.walk(m):
        if isinstance(nd, ast.Call):
            f = nd.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in ("PyArray_DATA", "dbldata", "intdata") or nm == "__cast__" and "*" in str(getattr(nd.args[0], "value", "")):
                fn = getattr(nd, "src_file", "") or ""
                out.append(("%s:%s" % (fn.rpartition("/")[2], nd.lineno), id(nd) in it.cover))
    return out


def run(rep, tier):
    rep.explanation = ("The compiled simulators are interpreted with arguments of symbolic dimensions, any strides and any element type. At every access through a "
                       "raw pointer (BLAS kernels and the inlined helpers) the last element touched is compared with the size of the array in linear integer "
                       "arithmetic under the conditions of the path; the array must be contiguous, of the pointer's element type and held by a variable.")
    rep.rule("extent", "0 <= offset, offset + (rows-1)*ld + length <= size of the array under the path condition; increments >= 1; ld >= row length")
    rep.rule("layout", "arrays accessed through pointers are C-contiguous on every path")
    rep.rule("type", "element type of the array == type of the pointer")
    rep.rule("owner", "the array is held by a variable during the access")
    rep.rule("sites", "every place that takes a raw pointer is reached by an interpreted scenario")
    rep.rule("scenario", "arguments of a scenario are accepted with accesses in bounds or refused")
    flags = list(itertools.product((False, True), repeat=3))
    jobs = []
    for b in BACK:
        for i, (label, args) in enumerate(scenarios(tier)):
            for f in (flags if i == 0 or tier != "quick" else [(True, True, True), (False, False, False)]):
                jobs.append((b, label, args, f))
    sites, acc = {}, 0
    bad = {}
    for j, res in zip(jobs, par.pmap(one, jobs)):
        con = "%s: %s, store_xn=%d store_xmax=%d store_y=%d" % ((j[0], j[1]) + tuple(j[3]))
        if isinstance(res, par.Failed):
            rep.unk("scenario", con, res.why[-300:])
            continue
        items, n, raises, imp, cov = res
        if imp:
            rep.unk("scenario", con, "the run is imprecise: %s" % (imp[:1],))
        elif not n and not raises:
            rep.unk("scenario", con, "neither an access nor a refusal")
        else:
            rep.ok("scenario", con, "%d accesses, refused at %d places" % (n, len(raises)))
        acc += n
        for s, c in cov:
            sites[(j[0], s)] = sites.get((j[0], s), False) or c
        for v, rule, c, msg, where in items:
            o = bad.get((rule, c))
            rank = {"ok": 0, "unk": 1, "bad": 2}
            if o is None or rank[v] > rank[o[0]]:
                bad[(rule, c)] = (v, msg, where)
    for (rule, c), (v, msg, where) in sorted(bad.items()):
        {"ok": rep.ok, "bad": rep.bad, "unk": rep.unk}[v](rule, c, msg, where)
    for (b, s), c in sorted(sites.items()):
        (rep.ok if c else rep.unk)("sites", "%s %s" % (b, s), "" if c else "no scenario reaches this pointer")
    rep.add("accesses through raw pointers", acc)
    rep.add("scenarios", len(jobs))
