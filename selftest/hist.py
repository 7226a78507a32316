#!/usr/bin/env python3-vt
"""Engine self-test: history leaks are seen in every function of hist_yes and in none of hist_no."""
import os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
threading.stack_size(512*1024*1024)
def main():
    from sa.ctx import new_interp, arr
    from sa.scen import integer
    from sa.cat import history_leaks
    it = new_interp(modules=["pydsm.utilities"])
    it.sinks = [[]]
    for m in ("yes", "no"):
        it.load("selftest.hist_" + m, os.path.join(HERE, "hist_%s.py" % m))
    it.mark_globals()
    it.commit_globals(); it.sinks = []
    import ast
    n = bad = 0
    for m in ("yes", "no"):
        for f in ast.parse(open(os.path.join(HERE, "hist_%s.py" % m)).read()).body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith(("_", "c_")):
                n += 1
                try:
                    o = it.run(it.glob("selftest.hist_%s.%s" % (m, f.name)), [arr("x", integer("N", lo=1))], {})
                    w = history_leaks(it, o)
                except Exception as e:
                    import traceback
                    print(m, f.name, "EXC", traceback.format_exc()[-300:]); bad += 1; continue
                if bool(w) != (m == "yes"):
                    bad += 1
                    print(m, f.name, "WRONG", w[:1], [str(i)[:80] for i in o.imprecise[:2]])
    print(n, "functions,", bad, "wrong")
t = threading.Thread(target=main); t.start(); t.join()
