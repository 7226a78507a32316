"""C06: all modelers state the same optimisation problem."""
import itertools
import numpy as np
from sa.ctx import *
from sa import cat, par, equal, programs as P, terms as T
from sa.terms import const as K

MODELERS = ("cvxpy", "cvxpy_old", "picos")
PKG = {"cvxpy": "cvxpy", "cvxpy_old": "bundled modeller", "picos": "PICOS"}
PARTS = ("objective", "matrix inequalities", "equalities", "scalar inequalities")


@equal.op("part")
def _(E, t):
    return E.ev(t.args[1])[t.args[0]]


@equal.op("both")
def _(E, t):
    p, r, c = t.args
    return equal.Tup([E.ev(p) if equal._truth(E.ev(c)) else equal.Str("no program"), E.ev(r)])


def scenarios(tier):
    """(label, function, arguments, keywords, assumptions)"""
    out = []
    real = lambda n, **k: sym(n, kind="real", **k)
    order, H = sym("order", kind="int", lo=2, hi=12), real("H_inf", lo=1, lo_open=True)
    w = sym("w", kind="callable", realvalued=True)
    f = lambda i: real("f%d" % i, lo=0, hi=0.5, lo_open=True)
    R = lambda i: real("osr%d" % i, lo=1)
    mm = "pydsm.NTFdesign.minmax.ntf_fir_minmax"
    bands = [("f0=0", K(0)), ("f0=0.", K(0.)), ("f0 in ]0,.5]", f(0)), ("f0=.5", K(.5)), ("f0=[0]", lst(K(0))), ("f0=[0,f1]", lst(K(0), f(1))), ("f0=[f0,0]", lst(f(0), K(0))),
             ("f0=[f0,f1]", lst(f(0), f(1)))]
    if tier != "quick":
        bands += [("f0=[0,f1,f2]", lst(K(0), f(1), f(2))), ("f0=[f0,f1,0]", lst(f(0), f(1), K(0))), ("f0=.25", K(.25)), ("f0=[0,0]", lst(K(0), K(0)))]
    ords = [("", order), (", order=1", K(1)), (", order=2", K(2)), (", order=50", K(50))] if tier != "quick" else [("", order), (", order=1", K(1))]
    for (lo, o), (lb, b), zf, (lh, h) in itertools.product(ords, bands, (False, True), (("", H), (", H_inf=inf", T.INF if hasattr(T, "INF") else None))):
        if h is None:
            h = mk("inf")
        if lo and tier == "quick" and (lh or lb not in ("f0=0", "f0 in ]0,.5]")):
            continue
        if lo == ", order=50" and lb not in ("f0=0", "f0 in ]0,.5]", "f0=[0,f1]"):
            continue
        if lo == ", order=1" and zf and lb not in ("f0=0", "f0=0."):
            continue            # one coefficient cannot give two conditions: nothing can be designed
        out.append(("ntf_fir_minmax(%s%s%s%s)" % (lb, ", zf" if zf else "", lh, lo), mm, [o, R(0), h, b, K(zf)], {}))
    out.append(("ntf_fir_minmax(osr=[..], f0=[..])", mm, [order, lst(R(0), R(1)), H, lst(f(0), f(1)), K(True)], {}))
    out.append(("ntf_fir_minmax()", mm, [], {}))
    W = "pydsm.NTFdesign.weighting."
    poles = lambda n, nm="poles": arr(nm, n, complex=True)
    for (lo, o), fp in itertools.product(ords, (None, True, False)):
        kw = {} if fp is None else {"fix_pos": K(fp)}
        lf = "" if fp is None else ", fix_pos=%s" % fp
        out.append(("ntf_fir_weighting(w%s%s)" % (lo, lf), W + "ntf_fir_weighting", [o, w, H], kw))
        out.append(("ntf_hybrid_weighting(w%s%s)" % (lo, lf), W + "ntf_hybrid_weighting", [o, w, H], kw))
        out.append(("ntf_hybrid_weighting(w, poles%s%s)" % (lo, lf), W + "ntf_hybrid_weighting", [o, w, H], dict(kw, poles=poles(sym("npoles", kind="int", lo=0)))))
    q0 = arr("q0", sym("nq", kind="int", lo=3, hi=9))
    for ln, n in (("", None), (", normalize=None", K(None)), (", normalize=g", real("g", lo=0, lo_open=True))):
        kw = {} if n is None else {"normalize": n}
        out.append(("ntf_fir_from_q0(q0%s)" % ln, W + "ntf_fir_from_q0", [q0, H], kw))
        out.append(("ntf_fir_weighting(w%s)" % ln, W + "ntf_fir_weighting", [order, w, H], kw))
        out.append(("ntf_hybrid_weighting(w, poles%s)" % ln, W + "ntf_hybrid_weighting", [order, w, H], dict(kw, poles=poles(const(2), "poles2"))))
    out.append(("ntf_fir_from_q0(q0 of 2 entries)", W + "ntf_fir_from_q0", [arr("q0_2", const(2)), H], {}))
    out.append(("ntf_fir_weighting(w, H_inf=inf)", W + "ntf_fir_weighting", [order, w, mk("inf")], {}))
    out.append(("ntf_hybrid_weighting(list of poles)", W + "ntf_hybrid_weighting", [order, w, H], {"poles": lst(K(0), real("p1"))}))
    A = "pydsm.NTFdesign.psychoacoustic.ntf_fir_audio_weighting"
    out.append(("ntf_fir_audio_weighting", A, [order, real("osr", lo=1)], {}))
    return out


def run(rep, tier):
    rep.explanation = ("Each designer is interpreted once per modeler with the modelling package replaced by the documented meaning of its operations on matrices of symbolic "
                       "order; the program given to solve() (objective, matrix inequalities, equalities) and the returned coefficients become value graphs over the unknowns. Unknowns "
                       "of two modelers are put in correspondence and the graphs compared by value numbering with random interpretation.")
    rep.rule("program", "objective, matrix inequalities, equalities, inequalities equal under one correspondence of the unknowns")
    rep.rule("readout", "the returned NTF is the same function of the unknowns")
    n = 4 if tier == "quick" else 12
    it = new_interp()
    rec = P.install(it)
    T.STRICT = {}
    sc = scenarios(tier)
    T.STRICT = None

    def build(s, m, extra=None):
        label, fn, args, kw = s[:4]
        del rec[:]
        F = it.glob(fn)
        if F is None:
            return None, "function not found"
        kw = dict(kw)
        kw["modeler"] = K(m)
        kw["show_progress"] = K(False)
        if extra:
            kw.update(extra)
        o = it.run(F, list(args), kw)
        if not o.returns:
            rs = [r for r in o.raises if r.st is not None]
            return False, "%s: never returns%s" % (PKG[m], " (%s at %s)" % (it.exc_names(rs[0].exc)[0].rpartition(".")[2], rs[0].where()) if rs else "")
        if len(rec) != 1:
            return None, "%s: %d solver calls" % (PKG[m], len(rec))
        c, p, where = rec[0]
        return (outcome_term(o), p, c, where, [str(x)[:120] for x in o.imprecise[:2]]), ""

    def unknowns(t):
        return [x for x in T.free(t) if x.op == "sym" and "#" in str(x.args[0]) and x.args[0] not in P.SQUARE]

    def one(s):
        res = []
        got = {}
        for m in MODELERS:
            try:
                got[m] = build(s, m)
            except AnalysisError as e:
                got[m] = (None, "analysis: %s" % e)
        rets = {m: got[m][0] for m in MODELERS}
        fails = [m for m in MODELERS if rets[m] is False]
        if fails and len(fails) < len(MODELERS) and all(rets[m] is not None for m in MODELERS):
            for m in fails:
                res.append(("bad", "program", "%s with %s" % (s[0], PKG[m]), got[m][1] + "; other modelers return a design", ""))
            return res
        if any(rets[m] in (None, False) for m in MODELERS):
            why = next(got[m][1] for m in MODELERS if rets[m] in (None, False))
            return [("unk", "program", s[0], why, "")]
        terms = {}
        for m in MODELERS:
            r, p, c, w, imp = rets[m]
            terms[m] = mk("both", p, r, c)
        pairs = {}
        for a, b in (("cvxpy", "cvxpy_old"), ("cvxpy", "picos"), ("cvxpy_old", "picos")):
            if len([1 for x in pairs.values() if x[0] == "ok"]) == 2:
                break
            pairs[a, b] = compare(terms[a], terms[b])
        good = [k for k, v in pairs.items() if v[0] == "ok"]
        files = {m: rets[m][3] for m in MODELERS}
        for (a, b), (v, rule, msg) in pairs.items():
            construct = "%s: %s / %s" % (s[0], PKG[a], PKG[b])
            if v == "bad":
                # name the odd one out
                odd = [m for m in (a, b) if any(m not in k for k in good)]
                if good:
                    odd = [m for m in (a, b) if not any(m in k for k in good)]
                msg = msg + "; " + ("deviating: %s, %s" % (PKG[odd[0]], files[odd[0]]) if len(odd) == 1 else "%s, %s" % (files[a], files[b]))
                if good and not odd:
                    continue
                res.append((v, rule, construct, msg, files[odd[0]] if len(odd) == 1 else files[a]))
                continue
            res.append((v, rule, construct, msg, ""))
        return res

    def heavy(t, memo):
        r = memo.get(t)
        if r is None:
            r = memo[t] = t.op in ("app", "lam", "call", "poly") or any(heavy(a, memo) for a in t.args if isinstance(a, Term))
        return r

    def closed(x):
        fr = T.free(x)
        if any(v.op == "sym" and v.args[0] in P.SQUARE for v in fr):
            return False
        bvs = {v for v in fr if v.op == "bv"}
        return not bvs or bvs <= {y.args[1] for y in T.walk(x) if y.op in ("lam", "map", "concatmap")}

    def abstracted(A, B):
        """Constants that both graphs share (weighting matrix, fixed denominator) replaced by symbols of the same shape."""
        both = set(T.walk(A)) & set(T.walk(B))
        memo, mp, seen, st = {}, {}, set(), [A]
        while st:
            x = st.pop()
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            if x in both and heavy(x, memo) and closed(x):
                sh = it.lib.shape(x)
                if sh:
                    mp[x] = sym(it.newsym("shared").args[0].replace("#", "_"), kind="arr", shape=sh)
                    continue
            st.extend(x.args)
        return T.subst(A, mp), T.subst(B, mp)

    def compare(A, B):
        A, B = abstracted(A, B)
        stray = unknowns(A) + unknowns(B)
        ca, cb = A, B
        dom = {"order": lambda E: int(E.rng.integers(2, 6)), "nq": lambda E: int(E.rng.integers(3, 7))}
        try:
            m, k = P.match(ca, cb, domain=dom)
            if m is None:
                # which component has no correspondence at all
                rule, part = "program", "no correspondence of the unknowns makes the two programs and results equal (%s tried)" % k
                bad = []
                for i, nm in enumerate(PARTS):
                    ea, eb = P.epigraph(A.args[0]), P.epigraph(B.args[0])
                    fa, fb = only(A, i), only(B, i)
                    mm, kk = match_part(A, B, fa, fb, dom)
                    if mm is None:
                        bad.append(nm)
                if bad:
                    part = "differ in: " + ", ".join(bad)
                elif match_part(A, B, A.args[0], B.args[0], dom)[0] is not None:
                    rule, part = "readout", "the programs agree but the returned coefficients are other functions of the unknowns"
                return ("unk" if stray else "bad"), rule, part
            B2 = T.subst(cb, m)
            v = equal.compare(ca, B2, domain={**dom, **{x: P.sampler(x) for x in P.variables(ca)}}, n=n, rtol=1e-6, atol=1e-9, shapes=it.lib.shape,
                              ignore_heads=equal.heads_of(B2))
        except equal.Unsupported as e:
            return "unk", "program", "outside the model: %s" % e
        if v.kind == equal.EQUAL:
            return "ok", "program", v.how
        if v.kind == equal.DIFFERENT and not stray:
            return "bad", "program", "programs or results differ: %s" % (v.witness or "")[:300]
        return "unk", "program", v.how

    def only(t, i):
        return mk("part", i, t.args[0])

    def match_part(A, B, fa, fb, dom):
        return P.match(mk("second", A.args[0], fa, A.args[2]), mk("second", B.args[0], fb, B.args[2]), domain=dom)

    for s, rs in zip(sc, par.pmap(one, sc)):
        if isinstance(rs, par.Failed):
            rep.unk("program", s[0], rs.why[-400:])
            continue
        for v, rule, construct, msg, where in rs:
            {"ok": rep.ok, "bad": rep.bad, "unk": rep.unk}[v](rule, construct, msg, where or None)
        rep.add("call forms")
        rep.add("programs compared", len(rs))


@equal.op("second")
def _(E, t):
    if not equal._truth(E.ev(t.args[2])):
        raise equal.EvalError("no program")
    return E.ev(t.args[1])
