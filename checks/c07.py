"""C07: every simulator back end computes the documented recurrence and returns the same quantities."""
import itertools
from sa import interp as I
from sa.simul import *


def cases():
    """(label, prefix of the specification, u, modulator, levels, initial state)"""
    return [("matrix form", "s", U, H, NL, X0, True),
            ("matrix form, zero state", "s", U, H, NL, const(0), False),
            ("matrix form, column state", "s", U, H, NL, X0C, False),
            ("matrix form, vector input", "s", U1, H1, NL1, X0, False),
            ("matrix form, vector input, several quantizers", "s", U1, HQ, NL, X0, False),
            ("matrix form, list of levels", "s", U, H2, lst(NLA, NLB), X0, False),
            ("NTF form", "n", U1, NTF, NL1, const(0), True),
            ("NTF form, initial state", "n", U1, NTF, NL1, X0, False)]


def overlap(b):
    """The vector or matrix read by a kernel is not the vector it writes."""
    out = []
    for label, pre, u, h, nl, x0, _ in cases():
        it = new_interp()
        o = it.run(it.glob("pydsm.delsig.simulateDSM"), [u, h, nl, x0, const(True), const(True), const(True)], dict(backend=const(b)))
        k = 0
        for e in o.events:
            if e.kind not in ("gemv",):
                continue
            k += 1
            a, x, y = e.args[3], e.args[5], e.args[8]

            def root(p):
                r = p.arr if isinstance(p, I.VPtr) else None
                while r is not None and it.get(r) is not None and it.get(r).base is not None:
                    r = it.get(r).base[0]
                return r
            ry = root(y)
            where = "%s:%s" % (b, getattr(e.node, "lineno", "?"))
            for nm, p in (("matrix", a), ("vector", x)):
                if root(p) is None or ry is None:
                    out.append(("unk", "overlap", "%s, %s: %s" % (b, label, nm), "pointer of unknown array", where))
                elif root(p) == ry:
                    out.append(("bad" if p.off is y.off else "unk", "overlap", "%s, %s: line %s" % (b, label, getattr(e.node, "lineno", "?")), "the %s read by %s is the vector it overwrites" % (nm, e.what), where))
        if not any(r[0] != "ok" for r in out):
            out.append(("ok", "overlap", "%s, %s" % (b, label), "%d kernel calls" % k, None))
    return out


def run(rep, tier):
    rep.explanation = ("The three simulators are interpreted on symbolic inputs, modulator descriptions, levels and states of symbolic order, number of "
                       "inputs, quantizers and samples; BLAS kernels, pointers and the inlined C helpers have their documented meaning. Each output, under "
                       "every combination of output flags, is compared as a value graph with the recurrence y = Cx + D1u, v = Q(y), x = Ax + B1u + B2v.")
    rep.rule("recurrence", "value graph of each output == graph of the recurrence")
    rep.rule("complete", "outputs that are not requested are empty")
    rep.rule("overlap", "no kernel overwrites the vector or the matrix it reads")
    rep.rule("quantizer", "value graph of ds_quantize == graph of the level rule")
    n = 24 if tier == "quick" else 120
    flags = list(itertools.product((False, True), repeat=3))
    jobs = []
    for b in BACKENDS:
        for label, pre, u, h, nl, x0, full in cases():
            for xn, xmax, y in (flags if full or tier != "quick" else [(True, True, True), (False, False, False)]):
                f = [const(b), const(xn), const(xmax), const(y)]
                lab = "%s, %s, store_xn=%d store_xmax=%d store_y=%d" % (b, label, xn, xmax, y)
                a = [u, h, nl, x0] + f
                jobs.append(("recurrence", lab + ": v", "i_v", pre + "_v", a))
                jobs.append(("recurrence", lab + ": xn", "i_xn", pre + "_xn", a))
                jobs.append(("recurrence", lab + ": xmax", "i_xmax", pre + "_xmax", a) if xmax else ("complete", lab + ": xmax", "i_size_xmax", "s_none", a))
                jobs.append(("recurrence", lab + ": y", "i_y", pre + "_y", a) if y else ("complete", lab + ": y", "i_size_y", "s_none", a))
        jobs.append(("recurrence", b + ", default arguments", "i_defaults", "s_defaults", [U1, H1, const(b)]))
        jobs.append(("recurrence", b + ", keyword arguments", "i_kw", "s_kw", [U, H, NL, X0, const(b)]))
    yc, yv, ys = arr("yc", nq, const(1)), arr("yv", nq), sym("ys", kind="real")
    DOM.update(yc=dyadic(nq, 1), yv=dyadic(nq), ys=dyadic())
    for label, y, nl, spec in (("column", yc, NL, "q_col"), ("vector", yv, NL, "q_vec"), ("scalar", ys, NL1, "q_one")):
        jobs.append(("quantizer", "ds_quantize(%s)" % label, "pydsm.delsig.ds_quantize", spec, [y, nl]))
    compare_all(rep, "c07", jobs, n)
    for rs in par.pmap(overlap, BACKENDS[1:]):
        if isinstance(rs, par.Failed):
            rep.unk("overlap", "kernels", rs.why[-300:])
            continue
        for v, rule, construct, msg, where in rs:
            {"ok": rep.ok, "bad": rep.bad, "unk": rep.unk}[v](rule, construct, msg, where)
