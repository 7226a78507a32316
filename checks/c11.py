"""C11: names, attributes, signatures, assignments and exports."""
import ast
import os
from sa.ctx import *
from sa import cat, scen, names

KINDS = {"NameError", "AttributeError", "ImportError", "UnboundLocalError", "ModuleNotFoundError"}


def run(rep, tier):
    rep.explanation = ("Flow-sensitive name resolution over the syntax tree of every module (compiled modules through the Cython parser): the state at each point says for every "
                       "local whether it is bound on all, some or no paths (path facts kept for repeated tests, constants, counting loops and interpreter version tests) and which package "
                       "module, function, class, instance or dependency object a name stands for. Reads, attribute accesses, imports and calls are obligations; dependency namespaces and signatures "
                       "come from the installed versions. In addition the abstract runs of every exported function must not end in such an error.")
    rep.rule("name", "every global or free name read is bound in its module, an enclosing scope or the builtins")
    rep.rule("unbound", "every local is assigned on each path reaching its use")
    rep.rule("attribute", "every attribute of a module, class, instance or typed value exists")
    rep.rule("attribute name", "an attribute of a value of unknown type is one that some object of the package, the dependencies or the language has")
    rep.rule("import", "every imported module and member exists")
    rep.rule("signature", "every call of a package or dependency callable fits its signature")
    rep.rule("export", "every name a module exports exists")
    rep.rule("runs", "no abstract run ends in NameError, AttributeError, ImportError, UnboundLocalError or a call-signature TypeError")
    W = names.World()
    for m, why in W.failed.items():
        rep.unk("parse", m, why)
    rep.add("modules", len(W.mods))
    seen = {}
    rank = {True: 0, None: 1, False: 2}
    unbound = {}

    def report(rule, verdict, construct, msg, where, node, walk):
        k = (rule, construct, where, getattr(node, "col_offset", 0))
        o = seen.get(k)
        if o is None or rank[o[0]] < rank[verdict]:
            seen[k] = (verdict, msg)
        if rule == "unbound":
            unbound.setdefault((walk.m.name, node.lineno, node.col_offset), []).append(k)
    for m in sorted(W.mods):
        names.Walk(W, W.mods[m], m, W.mods[m].tree, report).run()
        rep.add("functions", sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(W.mods[m].tree)))
    exports(rep, W)
    # abstract runs: decide the leftovers and look for errors of these kinds
    it = new_interp(implicit_exc=True)

    def facts(s, o):
        bad, names_bad = [], []
        for r in o.raises:
            ns = set(it.exc_names(r.exc))
            own = isinstance(r.node, ast.Raise) or r.implicit
            if own:
                continue
            if "NameError" in ns and isinstance(r.node, ast.Name):
                names_bad.append((r.node.lineno, r.node.col_offset, r.node.id, r.where()))
            elif ns & KINDS or (ns and "TypeError" in ns and isinstance(r.node, ast.Call) and not s.refused):
                bad.append((sorted(ns & (KINDS | {"TypeError"}))[0], r.where(), [str(it.term(a))[:100] for a in r.args][:2]))
        return bad, names_bad
    raised = {}
    for s, (bad, nb) in cat.run(it, facts, scen.catalogue(), rep, "runs"):
        rep.add("calls analysed")
        for l, c, n, w in nb:
            raised.setdefault((l, c, n, w), s.label)
        if bad:
            rep.bad("runs", s.label, "; ".join("%s %s" % (k, a) for k, w, a in bad[:3]), bad[0][1])
        else:
            rep.ok("runs", s.label)
    reached = executed(it)
    hit = {(l, c, w.rpartition(" in ")[0]) for l, c, n, w in raised}
    for at, ks in unbound.items():
        for k in ks:
            v, msg = seen[k]
            if v is True or "never" in msg:
                continue
            # the walk cannot exclude the unassigned path: the abstract runs, which relate the conditions, decide
            r = (at[1], at[2], k[2].rpartition(" in ")[0]) in hit
            if at in reached and not r:
                seen[k] = (True, "the unassigned path is excluded by the path conditions of the runs")
            elif v is False and "of a loop" in msg:
                seen[k] = (None, msg)
    known = {(k[2].rpartition(" in ")[0], k[3]): seen[k] for ks in unbound.values() for k in ks}
    for (l, c, n, w), lab in sorted(raised.items()):
        o = known.get((w.rpartition(" in ")[0], c))
        if o is None and lab is not None:
            rep.bad("runs", "%s: %s" % (lab, n), "%s is not bound here" % n, w)
    for (rule, c, where, col), (v, msg) in seen.items():
        rep.check(v, rule, c, msg, where)


def executed(it):
    """(module, line, column) of the names in statements that some run executed."""
    out = set()
    for m, tree in it.trees.items():
        for s in ast.walk(tree):
            if isinstance(s, ast.stmt) and id(s) in it.cover:
                st = [s]
                while st:
                    n = st.pop()
                    if isinstance(n, ast.Name):
                        out.add((m, n.lineno, n.col_offset))
                    st.extend(c for c in ast.iter_child_nodes(n) if not isinstance(c, (ast.stmt, ast.Lambda)))
    return out


def exports(rep, W):
    for m in sorted(W.mods):
        M = W.mods[m]
        for s in ast.walk(M.tree):
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AugAssign) else None
            if not (isinstance(t, ast.Name) and t.id == "__all__"):
                continue
            for n in ast.walk(s.value):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    ok = n.value in M.ns or (m in W.pkgs and m + "." + n.value in W.allmods)
                    if not ok and "*" in M.ns:
                        ok = None
                    rep.check(ok, "export", "%s.__all__ %s" % (m, n.value), "" if ok else "%s is exported but never bound" % n.value,
                              "%s:%d" % (os.path.relpath(M.path, os.path.dirname(W.src)), n.lineno))
        # every module named in a package's documentation listing of submodules exists by import checks
