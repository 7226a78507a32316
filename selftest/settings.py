#!/usr/bin/env python3-vt
"""Engine self-test: changed settings are seen in every function of set_yes and in none of set_no."""
import os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
def main():
    from sa.ctx import new_interp, arr, sym
    from sa.scen import integer, cb
    from sa.settings import Settings
    it = new_interp(modules=["pydsm.utilities"])
    S = Settings(it)
    it.sinks = [[]]
    for m in ("yes", "no"):
        it.load("selftest.set_" + m, os.path.join(HERE, "set_%s.py" % m))
    it.mark_globals()
    it.commit_globals(); it.sinks = []
    import ast
    n = bad = 0
    for m in ("yes", "no"):
        for f in ast.parse(open(os.path.join(HERE, "set_%s.py" % m)).read()).body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith(("_",)):
                n += 1
                try:
                    o = it.run(it.glob("selftest.set_%s.%s" % (m, f.name)), [arr("x", integer("N", lo=1))] + ([cb("f")] if len(f.args.args) > 1 else []), {})
                    w = [S.changed(r.st) for r in o.raises] + ([S.changed(o.st)] if o.returns else [])
                    w = [x for x in w if x]
                except Exception as e:
                    import traceback
                    print(m, f.name, "EXC", traceback.format_exc()[-400:]); bad += 1; continue
                if bool(w) != (m == "yes"):
                    bad += 1
                    print(m, f.name, "WRONG", w[:1], len(o.raises), [str(i)[:80] for i in o.imprecise[:2]])
    print(n, "functions,", bad, "wrong")
t = threading.Thread(target=main); t.start(); t.join()
