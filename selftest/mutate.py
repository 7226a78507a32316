#!/usr/bin/env python3-vt
"""Engine self-test: caller-origin writes are seen in every function of mutate_yes and in none of mutate_no."""
import os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
def main():
    from sa.ctx import new_interp, arr, plist, sym, const
    from sa.scen import opendict, real, integer
    it = new_interp(modules=["pydsm.utilities"])
    it.sinks = [[]]
    for m in ("yes", "no"):
        it.load("selftest.mutate_" + m, os.path.join(HERE, "mutate_%s.py" % m))
    it.commit_globals(); it.sinks = []
    import ast
    n = bad = 0
    for m in ("yes", "no"):
        for f in ast.parse(open(os.path.join(HERE, "mutate_%s.py" % m)).read()).body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith("_"):
                n += 1
                nested = lambda it: it.newdict((), ("param", "d.n"))
                def dd(it):
                    r = it.newdict((), ("param", "d"))
                    q = it.newdict((), ("param", "d"))
                    it.dict_set(q, const("e"), real("e_"), None, quiet=True)
                    it.dict_set(r, const("k"), real("dk"), None, quiet=True)
                    it.dict_set(r, const("n"), q, None, quiet=True)
                    return r
                try:
                    o = it.run(it.glob("selftest.mutate_%s.%s" % (m, f.name)), [arr("x", integer("N", lo=1)), plist("l", real("l0"), real("l1")), dd], {})
                    w = [e for e in o.events if e.kind in ("write", "extwrite") and any(isinstance(x, tuple) and x[0] == "param" for x in (e.extra or ()))]
                except Exception as e:
                    print(m, f.name, "EXC", repr(e)[:200]); bad += 1; continue
                if bool(w) != (m == "yes"):
                    bad += 1
                    print(m, f.name, "WRONG", [e.where() for e in w][:1], [str(i)[:80] for i in o.imprecise[:2]])
    print(n, "functions,", bad, "wrong")
t = threading.Thread(target=main); t.start(); t.join()
