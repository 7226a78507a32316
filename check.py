#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    import threading
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from sa.report import Report
    rep = Report(prop)
    limit = 780 if tier == "quick" else 3600
    done = threading.Event()

    def analyse():
        try:
            m = importlib.import_module("checks." + prop.lower())
            m.run(rep, tier)
        except Exception:
            import traceback
            rep.unk("analysis", "whole check", "the analysis stopped: " + traceback.format_exc()[-1500:])
        done.set()
    t = threading.Thread(target=analyse, daemon=True)
    t.start()
    if not done.wait(limit):
        rep.unk("analysis", "whole check", "stopped after %d s" % limit)
    return rep.finish(tier, seed)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc and isinstance(rc[0], int) else 3)
