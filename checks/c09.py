"""C09: requests outside the documented domain are refused, the others accepted."""
import ast
from sa.ctx import *
from sa import cat, par, regions, equal, terms as T
from specs import c09 as spec


def run(rep, tier):
    rep.explanation = ("Abstract interpretation of every documented refusal with arguments standing for a whole region (symbolic values with interval bounds, arrays of given shape): "
                       "outside the domain no path may reach a normal exit and the exits raise the documented exception; inside the closed domain no raise statement of that kind "
                       "is reachable. Path conditions are decided by interval and congruence reasoning.")
    rep.rule("refused", "no normal exit, and every raise statement reached raises the documented kind of exception")
    rep.rule("accepted", "a normal exit exists and no validation raises")
    T.STRICT = {}
    rows = spec.rows()
    T.STRICT = None
    plain, paired = new_interp(specs=()), new_interp(specs=())
    regions.install(paired.lib)

    def never(c):
        if c is FALSE:
            return True
        r = cat.always(lnot(c), n=40)
        # agreement at sample points does not prove that the condition never holds
        return False if r is False else None

    def one(row):
        g, label, f, args, kw, bad, checks, pc = row
        it = paired if g == "pairing" else plain
        F = it.glob(f)
        if F is None:
            return None, "the function is not there", ""
        o = it.run(F, args, kw, pc=pc)
        why = [str(x)[:150] for x in cat.opaque(it, o)]
        raises = [(r, set(it.exc_names(r.exc)), land(*r.st.pc)) for r in o.raises if r.st is not None and not r.implicit]
        raises = [x for x in raises if x[2] is not FALSE]
        if bad:
            if o.returns:
                c = land(*o.st.pc)
                n = never(c)
                if n is not True:
                    return (False if n is False and not why else None), "the call can return normally (if %s)" % T.show(c)[:160], ""
            stuck = [e for e in o.events if e.kind == "diverge" and land(*e.pc) is not FALSE]
            if stuck and not why and any(never(land(*e.pc)) is False for e in stuck):
                return False, "the call never ends: an iteration of the loop changes nothing", "%s:%s" % (getattr(stuck[0].node, "src_file", "") or "", stuck[0].node.lineno)
            if not raises:
                return None, "no exit seen", ""
            for r, ns, c in raises:
                if bad not in ns:
                    n = never(c)
                    if n is not True:
                        return (False if n is False and not why else None), "raises %s instead of %s" % (it.exc_names(r.exc)[:1], bad), r.where()
            return True, "", ""
        for r, ns, c in raises:
            if ns & set(checks) and isinstance(r.node, ast.Raise):
                n = never(c)
                if n is not True:
                    return (False if n is False and not why else None), "refused: %s if %s" % (it.exc_names(r.exc)[:1], T.show(c)[:160]), r.where()
        if not o.returns:
            return (None if why else False), "the call does not return" + (": %s" % (it.exc_names(raises[0][0].exc)[:1]) if raises else ""), raises[0][0].where() if raises else ""
        return True, "", ""
    for row, r in zip(rows, par.pmap(one, rows)):
        rule = "refused" if row[5] else "accepted"
        name = "%s: %s" % (row[0], row[1])
        if isinstance(r, par.Failed):
            rep.unk(rule, name, r.why)
            continue
        rep.check(r[0], rule, name, r[1], r[2])
