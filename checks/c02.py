"""C02: calls leave nothing behind and hand out nothing internal."""
from sa.ctx import *
from sa import cat, scen


def run(rep, tier):
    rep.explanation = ("Effect and escape analysis: every object reachable from module namespaces (tables, default-option dictionaries, function "
                       "attributes, default arguments, closures of decorated functions, contents of caches) is marked; every public function is interpreted "
                       "abstractly once per selectable branch. Writes to marked objects, marked mutable objects reachable from the result, and calls whose "
                       "value depends on clock, random numbers, environment or files are violations.")
    rep.rule("leaves nothing behind", "no write to module-level data, default arguments, function attributes or other modules' attributes")
    rep.rule("hands out nothing internal", "no module-level mutable object is reachable from the result")
    rep.rule("no hidden input", "no call of clock, random, environment or file-system functions")
    it = new_interp(implicit_exc=True)
    cs = scen.catalogue()
    glob = sum(1 for o in it.base.values() if o.origin is not None and o.origin[0] == "global" and o.kind in ("arr", "list", "slist", "dict"))
    rep.add("module-level mutable objects tracked", glob)
    kinds = {"write": "leaves nothing behind", "return": "hands out nothing internal", "impure": "no hidden input"}

    def facts(s, o):
        return cat.history_leaks(it, o), len(o.events), [str(x)[:200] for x in cat.opaque(it, o)]
    for s, (w, ev, op) in cat.run(it, facts, cs, rep, "leaves nothing behind"):
        rep.add("calls analysed")
        rep.add("events", ev)
        for k, r in kinds.items():
            mine = [x for x in w if x[0] == k]
            if mine:
                rep.bad(r, s.label, "; ".join("%s (%s)" % x[1:] for x in mine[:4]), mine[0][2])
            elif op:
                rep.unk(r, s.label, op[0])
            else:
                rep.ok(r, s.label)
    cat.coverage_rule(rep, it, cs)
    cat.statements_rule(rep, it)
