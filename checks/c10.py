"""C10: a designed NTF has exactly as many zeros and as many poles as its order."""
import numpy as np
from sa.ctx import *
from sa import par, regions, programs as P, equal, terms as T
from sa.interp import VTuple
from sa.terms import const as K, num

NAMES = {"zeros": 0, "poles": 1}


def best(n, opt):
    """The placement of n zeros in [-1, 1] that minimises the integral of prod (x - a)^2: the roots of the Legendre polynomial; with opt 2 and n even, two of
    them are kept at 0 and the others are the roots of the polynomial orthogonal for the weight x^4."""
    from scipy.special import roots_jacobi
    if opt == 0:
        return np.zeros(n)
    if opt == 1 or n % 2:
        return np.polynomial.legendre.leggauss(n)[0]
    k = (n - 2) // 2
    t = np.sqrt((roots_jacobi(k, 0, 1.5)[0] + 1) / 2) if k else np.zeros(0)
    return np.concatenate((-t, [0, 0], t))


equal.OPS["cplxpair"] = lambda E, t: np.sort_complex(np.atleast_1d(np.asarray(E.ev(t.args[0]))))


def rows(tier):
    """(label, function, args, keywords, order, what: 'ntf' or 'zeros', pc)"""
    out = []
    deep, deeper = True, tier != "quick"
    real = lambda n, **k: sym(n, kind="real", **k)
    osr, H = real("osr", lo=32, hi=100), real("H_inf", lo=1, lo_open=True)
    f0 = real("f0", lo=0.1, hi=0.4)
    uz = lambda n: arr("uz%d" % n, const(n), complex=True) if n > 1 else plist("uz1", K(1))
    D, N = "pydsm.delsig.", "pydsm.NTFdesign."
    low, band = (range(1, 15), range(2, 17, 2)) if deep else (range(1, 10), range(2, 9, 2))
    for f in (D + "synthesizeNTF", N + "ntf_schreier") if deep else (N + "ntf_schreier",):
        s = f.rpartition(".")[2]
        for uo in (True, False):
            kw = {"use_optimizer": K(uo)}
            for n in low:
                for opt in (0, 1, 2, 3) + ((4,) if deep else ()):
                    if uo is False and opt > 2:
                        continue
                    out.append(("%s(%d, opt=%d, use_optimizer=%s)" % (s, n, opt, uo), f, [K(n), osr, K(opt), H, K(0)], kw, n, "ntf", (), (opt, 0) if opt < 3 else None))
                out.append(("%s(%d, user zeros, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, uz(n), H, K(0)], kw, n, "ntf", (), None if n == 1 else mk("sym", "uz%d" % n)))
                if n < 4 or deep:
                    out.append(("%s(%d, list of user zeros, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, plist("lz%d" % n, *[mk("exp", T.mul(T.IMAG, real("th%d" % i, lo=0.01, hi=3))) if i % 2 else K(1) for i in range(n)]), H, K(0)], kw, n, "ntf", ()))
                out.append(("%s(%d, f0 too low for a bandpass, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, K(1), H, real("fl", lo=0, hi=0.001, lo_open=True)], kw, n, "ntf", ()))
            for n in band:
                for opt in (0, 1, 2, 3, 4):
                    if uo is False and opt > 2 or opt == 4 and not deep:
                        continue
                    for lf, fv in (("f0", f0), ("f0=.25", K(.25))) + ((("f0=.5", K(.5)),) if opt != 3 and opt != 4 else ()):
                        if n > 16 and opt:
                            continue
                        out.append(("%s(%d, opt=%d, %s, use_optimizer=%s)" % (s, n, opt, lf, uo), f, [K(n), osr, K(opt), H, fv], kw, n, "ntf", (), (opt, "f0" if num(fv) is None else float(num(fv))) if opt < 3 else None))
                out.append(("%s(%d, user zeros, f0, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, uz(n), H, f0], kw, n, "ntf", (), mk("sym", "uz%d" % n)))
                for m in (n - 1, n + 1):
                    if m > 1:
                        out.append(("%s(%d, %d user zeros, use_optimizer=%s)" % (s, n, m, uo), f, [K(n), osr, uz(m), H, K(0)], kw, n, "refused", ()))
                out.append(("%s(%d, user zeros in a matrix, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, arr("um%d" % n, const(1), const(n), complex=True), H, K(0)], kw, n, "refused", ()))
                out.append(("%s(%d, bandpass, use_optimizer=%s)" % (s, n - 1, uo), f, [K(n - 1), osr, K(1), H, f0], kw, n, "refused", ()))
                out.append(("%s(%d, f0 beyond Nyquist, use_optimizer=%s)" % (s, n, uo), f, [K(n), osr, K(1), H, real("fn", lo=.5, lo_open=True)], kw, n, "refused", ()))
            for n in (15, 16):
                for opt in (1, 2, 3) if uo else (1, 2):
                    out.append(("%s(%d, opt=%d, use_optimizer=%s)" % (s, n, opt, uo), f, [K(n), osr, K(opt), H, K(0)], kw, n, "refused", ()))
    for n in (1, 3, 5):
        out.append(("ntf_chebyshev(%d, bandpass)" % n, N + "ntf_chebyshev", [K(n), osr, K(0), H, f0], {}, n, "refused", ()))
    for n in (9, 10):
        out.append(("ntf_dunn(%d)" % n, N + "ntf_dunn", [K(n), osr, H], {}, n, "refused", ()))
    for n in low:
        out.append(("ntf_chebyshev(%d)" % n, N + "ntf_chebyshev", [K(n), osr, K(0), H], {}, n, "ntf", ()))
        out.append(("ntf_chebyshev(%d, f0=0.)" % n, N + "ntf_chebyshev", [K(n), osr, K(0), H, K(0.)], {}, n, "ntf", ()))
        if n % 2 == 0:
            out.append(("ntf_chebyshev(%d, f0)" % n, N + "ntf_chebyshev", [K(n), osr, K(0), H, f0], {}, n, "ntf", ()))
        for opt in (0, 1, 2, 3) if deep or n < 7 else (0,):
            out.append(("ntf_clans(%d, opt=%d)" % (n, opt), N + "ntf_clans", [K(n), osr, real("nq", lo=1), real("rmax", lo=0, lo_open=True, hi=1), K(opt)], {}, n, "ntf", ()))
        if n < 9:
            out.append(("ntf_dunn(%d)" % n, N + "ntf_dunn", [K(n), osr, H], {}, n, "ntf", ()))
        out.append(("maxflat_fir_zeros(%d)" % n, N + "helpers.maxflat_fir_zeros", [K(n), real("alpha", lo=0, lo_open=True)], {}, n, "zeros", ()))
        out.append(("spread_fir_uc_zeros(%d)" % n, N + "helpers.spread_fir_uc_zeros", [K(n), osr, sym("cf", kind="callable", realvalued=True)], {}, n, "zeros", ()))
        if n < 6 or deeper:
            w = sym("w", kind="callable", realvalued=True)
            for m in ("cvxpy", "cvxpy_old", "picos"):
                kw = {"modeler": K(m), "show_progress": K(False)}
                out.append(("ntf_fir_from_q0(order %d, %s)" % (n, m), N + "weighting.ntf_fir_from_q0", [arr("q%d" % n, const(n + 1)), H], kw, n, "ntf", ()))
                out.append(("ntf_fir_weighting(%d, %s)" % (n, m), N + "ntf_fir_weighting", [K(n), w, H], kw, n, "ntf", ()))
                out.append(("ntf_hybrid_weighting(%d, %s)" % (n, m), N + "ntf_hybrid_weighting", [K(n), w, H], kw, n, "ntf", ()))
                for k in range(1, n + 1):
                    if k in (1, n):
                        out.append(("ntf_hybrid_weighting(%d, %d poles, %s)" % (n, k, m), N + "ntf_hybrid_weighting", [K(n), w, H], dict(kw, poles=arr("hp%d" % k, const(k), complex=True)), n, "ntf", ()))
                out.append(("ntf_fir_audio_weighting(%d, %s)" % (n, m), N + "ntf_fir_audio_weighting", [K(n), osr], kw, n, "ntf", ()))
                for lf, fv in (("f0=0", K(0)), ("f0", f0), ("f0=[0,f0]", lst(K(0), f0))):
                    for zf in (False, True):
                        out.append(("ntf_fir_minmax(%d, %s, zf=%s, %s)" % (n, lf, zf, m), N + "ntf_fir_minmax", [K(n), osr, H, fv, K(zf)], kw, n, "ntf", ()))
    return out


def setup():
    it = new_interp(specs=())
    lib = it.lib
    P.install(it)
    regions.install(lib)
    H = lib.repo_hooks

    def pairing(it, ref, args, kw, node):
        return it.arr(mk("cplxpair", it.term(args[0])))

    def evaltf(it, ref, args, kw, node):
        z = args[1] if len(args) > 1 else kw["z"] if "z" in kw else kw["x"]
        sh = lib.shape(it.term(z))
        s = it.newsym("tf", kind="complex", shape=sh, scalar=(sh == ()))
        return s if sh == () else it.arr(s)
    H["pydsm.relab.cplxpair"] = pairing
    H["pydsm.delsig._tf.evalTF"] = evaltf

    def cheby2(it, path, args, kw, node):
        names = ("N", "rs", "Wn", "btype", "analog", "output", "fs")
        a = dict(zip(names, args))
        a.update(kw)
        n = it.term(a["N"])
        bt = it.term(a["btype"]) if "btype" in a else K("low")
        if it.term(a.get("output", K("ba"))) != K("zpk"):
            return NotImplemented
        if bt in (K("stop"), K("bandstop"), K("band"), K("bandpass"), K("bs"), K("bp")):
            n = T.mul(K(2), n)
        elif bt not in (K("low"), K("high"), K("lowpass"), K("highpass"), K("lp"), K("hp")):
            return NotImplemented
        return VTuple([it.arr(it.newsym("cz", kind="complex", shape=(n,))), it.arr(it.newsym("cp", kind="complex", shape=(n,))), it.newsym("ck", kind="real")])
    lib.ext_hooks["scipy.signal.cheby2"] = cheby2

    def angle(it, path, args, kw, node):
        xs = regions.explode(lib, it.term(args[0]))
        if xs is None or len(args) > 1 or kw:
            return NotImplemented
        out = []
        for x in xs:
            p = phase(it, x)
            if p is None:
                return NotImplemented
            out.append(p)
        r = mk("vec", *out)
        return it.arr(r) if lib.shape(it.term(args[0])) != () else out[0]
    lib.ext_hooks["numpy.angle"] = angle

    def negligible(it, ref, args, kw, node):
        xs = regions.explode(lib, it.term(args[0]))
        if xs is None or len(args) > 1 or kw:
            return NotImplemented
        out = [it.decide(T.eq0(x)) for x in xs]
        for k, x in enumerate(xs):
            if out[k] not in (TRUE, FALSE):
                return NotImplemented
        return it.arr(mk("vec", *out))
    H["pydsm.relab.is_negligible"] = negligible

    def nonzero(it, path, args, kw, node):
        xs = regions.explode(lib, it.term(args[0]))
        if xs is None or len(args) > 1 or kw:
            return NotImplemented
        cs = [it.decide(it.truth(x)) for x in xs]
        if any(c is not TRUE and c is not FALSE for c in cs):
            return NotImplemented
        return VTuple([it.arr(mk("vec", *[K(k) for k, c in enumerate(cs) if c is TRUE]))])
    lib.ext_hooks["numpy.nonzero"] = nonzero

    def delete(it, path, args, kw, node):
        xs = regions.explode(lib, it.term(args[0]))
        ks = it.term(args[1]) if len(args) == 2 and not kw else None
        if xs is None or ks is None:
            return NotImplemented
        while ks.op == "vec" and len(ks.args) == 1 and ks.args[0].op == "vec":
            ks = ks.args[0]
        if ks.op != "vec" or any(num(k) is None for k in ks.args):
            return NotImplemented
        drop = {int(num(k)) % len(xs) for k in ks.args}
        return it.arr(mk("vec", *[x for k, x in enumerate(xs) if k not in drop]))
    lib.ext_hooks["numpy.delete"] = delete

    def phase(it, x):
        """phi for exp(I*phi) with phi known to lie in ]-pi, pi]"""
        if num(x) is not None:
            return K(0) if num(x) > 0 else None
        if x in (T.IMAG, T.neg(T.IMAG)):
            return T.mul(K(.5 if x is T.IMAG else -.5), T.PI)
        if x.op != "exp":
            return None
        phi = T.fimag(x.args[0])
        if T.freal(x.args[0]) != K(0):
            return None
        inside = it.decide(T.lt0(T.sub(T.PI, phi))) is FALSE and it.decide(T.lt0(T.add(phi, T.PI))) is FALSE
        return phi if inside else None
    return it


def run(rep, tier):
    rep.explanation = ("Shape inference over the interpreted designers: the number of zeros and of poles returned is followed through every branch, every way out of the design loops "
                       "(break, fall-back, iteration limit) and every option; the values of the tables of optimised zeros are constants of the source and are folded.")
    rep.rule("lengths", "on every path to a normal exit the zero vector and the pole vector have length order")
    rep.rule("placed", "with no numerical optimisation the zeros are the optimum placement scaled to the band and shifted to plus and minus f0; supplied zeros are those returned")
    rep.rule("refused", "a request that the documentation excludes (zeros in the wrong number, odd bandpass order, order beyond the tables) ends in ValueError")
    rep.rule("optimal", "the tables of optimised zeros hold the placements that minimise the in-band noise (roots of orthogonal polynomials)")
    rep.rule("monic", "the returned gain is 1 and a polynomial whose roots are returned has leading coefficient 1")
    rep.rule("tables", "a table of optimised zeros for order n has n values, the set of which is its own mirror image")
    it = setup()
    lib = it.lib

    def turn(k):
        """the values an iteration of a design loop can leave behind"""
        if k.op == "ite":
            return turn(k.args[1]) + turn(k.args[2])
        if k.op != "loop":
            return [k]
        st = k.args[1].args[-1].args[2]
        return [x for x in st.args[1:] if x.op not in ("none", "dead", "bv")]

    def placed(res, label, where, t, n, place):
        """the zeros are where the request puts them"""
        if isinstance(place, T.Term):
            why = None
            for trial in range(6):
                try:
                    E = equal.Ev(np.random.default_rng(11 + trial), {}, {}, lib.shape)
                    u, v = (np.sort_complex(np.atleast_1d(np.asarray(E.ev(x)))) for x in (place, t))
                except (equal.Unsupported, equal.EvalError) as e:
                    res.append(("unk", "placed", label, "zeros not evaluated: %s" % e, where))
                    return
                if u.shape != v.shape or not np.allclose(u, v):
                    why = "the zeros supplied are %s, those returned %s" % (np.round(u, 4).tolist(), np.round(v, 4).tolist())
            res.append(("bad" if why else "ok", "placed", label, why or "", where))
            return
        opt, bandpass = place
        rng = np.random.default_rng(7)
        for trial in range(4):
            osr, f0 = rng.uniform(32, 100), (rng.uniform(0.1, 0.4) if bandpass == "f0" else bandpass)
            try:
                v = np.atleast_1d(np.asarray(equal.Ev(rng, {mk("sym", "osr"): osr, mk("sym", "f0"): f0}, {}).ev(t))).astype(complex)
            except (equal.Unsupported, equal.EvalError) as e:
                res.append(("unk", "placed", label, "zeros not evaluated: %s" % e, where))
                return
            if f0:
                a = best(n // 2, opt) * np.pi / (2 * osr)
                w = np.concatenate((a + 2 * np.pi * f0, -a - 2 * np.pi * f0))
            else:
                w = best(n, opt) * np.pi / osr
            d = np.sort(np.angle(v * np.exp(1e-9j))) - np.sort(np.angle(np.exp(1j * (w + 1e-9)))) if v.shape == w.shape else None
            if d is not None and np.allclose(np.abs(v), 1, atol=1e-12) and np.all(np.abs(np.exp(1j * d) - 1) < 2e-5 * np.pi / osr + 1e-9):
                continue
            res.append(("bad", "placed", label, "for osr=%.4g%s the zeros are at the angles %s instead of %s" % (osr, " f0=%.4g" % f0 if f0 else "", np.round(np.sort(np.angle(v)), 5).tolist(), np.round(np.sort(w), 5).tolist()), where))
            return
        res.append(("ok", "placed", label, "", where))

    def one(row):
        label, fn, args, kw, n, what, pc = row[:7]
        place = row[7] if len(row) > 7 else None
        F = it.glob(fn)
        if F is None:
            return [("unk", "lengths", label, "%s is not there" % fn, "")]
        o = it.run(F, list(args), dict(kw), pc=pc)
        res = []
        if what == "refused":
            rs = [r for r in o.raises if r.st is not None]
            if o.returns:
                return [("bad" if not o.imprecise else "unk", "refused", label, "accepted; ValueError is documented", fn)]
            return [("ok" if it.exc_names(r.exc)[0] == "ValueError" else "bad", "refused", label, "" if it.exc_names(r.exc)[0] == "ValueError" else "%s at %s instead of ValueError" % (it.exc_names(r.exc)[0], r.where()), fn) for r in rs]
        if not o.returns:
            rs = [r for r in o.raises if r.st is not None]
            return [("bad" if not o.imprecise else "unk", "lengths", label, "no NTF is returned%s" % (": %s at %s" % (it.exc_names(rs[0].exc)[0], rs[0].where()) if rs else ""), "")]
        where = "%s" % fn
        for leaf in leaves(o.term()):
            if what == "ntf":
                if leaf.op != "vec" or len(leaf.args) != 3:
                    res.append(("unk", "lengths", label, "result is not a (zeros, poles, gain) tuple: %s" % T.show(leaf)[:100], where))
                    continue
                parts = list(zip(("zeros", "poles"), leaf.args))
                k = leaf.args[2]
                if num(k) is None:
                    v = equal.compare(K(1), k, shapes=lib.shape)
                    if v.kind == equal.UNKNOWN:
                        v = max((equal.compare(K(1), x, shapes=lib.shape) for x in turn(k)), key=lambda v: v.kind == equal.DIFFERENT, default=v)
                    res.append(({equal.EQUAL: "ok", equal.DIFFERENT: "bad"}.get(v.kind, "unk"), "monic", label, "" if v else "gain %s" % T.show(k)[:60], where))
                else:
                    res.append(("ok" if num(k) == 1 else "bad", "monic", label, "" if num(k) == 1 else "gain %s" % num(k), where))
            else:
                parts = [("zeros", leaf)]
            if place is not None:
                placed(res, label, where, parts[0][1], n, place)
            for nm, t in parts:
                for sh in lib.alternatives(t):
                    if sh is None or any(num(x) is None for x in sh):
                        res.append(("unk", "lengths", label, "%s: shape %s not known: %s" % (nm, sh and [T.show(x)[:60] for x in sh], T.show(t)[:120]), where))
                    else:
                        sh = tuple(int(num(x)) for x in sh)
                        res.append(("ok", "lengths", label, "", where) if sh == (n,) else
                                   ("bad", "lengths", label, "the vector of %s can have shape %s, the order is %d" % (nm, sh, n), where))
                for r in roots_in(t):
                    lead = leading(r.args[0])
                    if lead is None:
                        res.append(("unk", "monic", label, "leading coefficient of %s" % T.show(r)[:100], where))
                    elif num(lead) != 1:
                        res.append(("bad", "monic", label,
                                    "the roots returned are those of a polynomial with leading coefficient %s" % T.show(lead)[:60], where))
        return res

    def leaves(t):
        if t.op == "ite" and (t.args[1].op in ("ite", "vec") or t.args[2].op in ("ite", "vec")):
            return leaves(t.args[1]) + leaves(t.args[2])
        return [t]

    def roots_in(t):
        if t.op == "roots":
            return [t]
        return roots_in(t.args[0]) if t.op in ("cplxpair", "copy", "sort") else []

    def leading(t):
        if t.op == "concat":
            return leading(t.args[0])
        if t.op == "vec" and t.args:
            return t.args[0] if lib.shape(t.args[0]) == () else None
        r = lib.getitem_term(t, K(0))
        return r if r is not None and r.op != "getitem" else None

    def table(row):
        label, fn, args, n = row
        F = it.glob(fn)
        if F is None:
            return [("unk", "tables", label, "not there", "")]
        o = it.run(F, args, {})
        if not o.returns:
            return [("bad" if not o.imprecise else "unk", "tables", label, "refused: %s" % [it.exc_names(r.exc)[0] for r in o.raises][:1], fn)]
        try:
            v = np.atleast_1d(np.asarray(equal.Ev(np.random.default_rng(1)).ev(o.term())))
        except (equal.Unsupported, equal.EvalError) as e:
            return [("unk", "tables", label, "not constant: %s" % e, fn)]
        if "cplx" in fn:
            v = np.angle(v)
        if v.shape != (n,):
            return [("bad", "tables", label, "%d values" % v.size, fn)]
        if "ds_opt" in fn and not np.allclose(np.sort(v), np.sort(best(n, int(num(args[1])))), atol=2e-5):
            return [("bad", "optimal", label, "values %s, the minimum of the in-band noise is at %s" % (np.round(np.sort(v), 6).tolist(), np.round(np.sort(best(n, int(num(args[1])))), 6).tolist()), fn)]
        if np.any(np.abs(v) > 1):
            return [("bad", "tables", label, "zeros outside of the band: %s" % np.round(v, 4).tolist(), fn)]
        if not np.allclose(np.sort(v), -np.sort(v)[::-1], atol=1e-12):
            return [("bad", "tables", label, "values %s are not placed symmetrically" % np.round(v, 4).tolist(), fn)]
        return [("ok", "tables", label, "", fn)] + ([("ok", "optimal", label, "", fn)] if "ds_opt" in fn else [])
    T.STRICT = {}
    jobs = [(one, r) for r in rows(tier)]
    T.STRICT = None
    for n in range(1, 15):
        for opt in (0, 1, 2):
            jobs.append((table, ("ds_optzeros(%d, %d)" % (n, opt), "pydsm.delsig._ds.ds_optzeros", [K(n), K(opt)], n)))
    for n in range(1, 9):
        jobs.append((table, ("dunn_optzeros(%d)" % n, "pydsm.NTFdesign.psychoacoustic.dunn_optzeros", [K(n)], n)))
        jobs.append((table, ("dunn_optzeros_cplx(%d, osr)" % n, "pydsm.NTFdesign.psychoacoustic.dunn_optzeros_cplx", [K(n), sym("osr", kind="real", lo=32, hi=100)], n)))
    for (f, r), rs in zip(jobs, par.pmap(lambda j: j[0](j[1]), jobs)):
        rep.add("designs analysed" if f is one else "tables folded")
        if isinstance(rs, par.Failed):
            rep.unk("lengths", r[0], rs.why[-300:])
            continue
        for v, rule, construct, msg, where in rs:
            {"ok": rep.ok, "bad": rep.bad, "unk": rep.unk}[v](rule, construct, msg, where or None)
