"""C01: arguments are never modified."""
from sa.ctx import *
from sa import cat, scen

# documented exception: this helper consumes recognised entries of the dictionary it is given
CONSUMES = {"pydsm.utilities.digested_options": "opts"}


def run(rep, tier):
    rep.explanation = ("Effect and alias analysis: every public function is interpreted abstractly once per selectable branch, with every array, "
                       "list and dictionary argument (nested ones too) marked as owned by the caller; conversions that may return their argument "
                       "alias it. Every write through any alias of caller memory is a violation. All paths are followed, the ones ending in exceptions included.")
    rep.rule("effects", "no write event on memory reachable from an argument")
    rep.assumptions.append("external functions modify an argument only through the parameters known to do so (out=, overwrite_*, in-place methods and the list in sa/lib.py)")
    it = new_interp(implicit_exc=True)
    cs = scen.catalogue()

    def facts(s, o):
        own = CONSUMES.get(s.func)
        w = []
        n = 0
        for e in o.events:
            if e.kind in ("write", "extwrite"):
                n += 1
                for x in e.extra or ():
                    if isinstance(x, tuple) and x[0] == "param" and x[1] != own and cat.live(o, e):
                        w.append((str(x[1]), str(e.what), e.where()))
        return sorted(set(w)), n, len(o.events), [str(x)[:200] for x in cat.opaque(it, o)]
    for s, (w, n, ev, op) in cat.run(it, facts, cs, rep, "effects"):
        rep.add("calls analysed")
        rep.add("write sites reached", n)
        rep.add("events", ev)
        if w:
            rep.bad("effects", s.label, "; ".join("argument '%s' modified by %s at %s" % x for x in w[:4]), w[0][2])
        elif op:
            rep.unk("effects", s.label, op[0])
        else:
            rep.ok("effects", s.label, "%d writes, none on an argument" % n)
    cat.coverage_rule(rep, it, cs)
    cat.statements_rule(rep, it)
