"""Fork pool: run fn(item) for every item on several cores; results must be picklable."""
import os
import pickle
import struct
import traceback


class Failed(object):
    def __init__(self, why):
        self.why = why


def pmap(fn, items, nproc=8):
    items = list(items)
    n = len(items)
    if not n:
        return []
    nproc = max(1, min(nproc, n, os.cpu_count() or 1))
    out = [Failed("worker ended without an answer")] * n
    from . import introspect
    introspect.start()
    jr, jw = os.pipe()
    pids, rds = [], []
    import threading
    for _ in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(jw)
            try:
                with os.fdopen(w, "wb") as f:
                    while True:
                        b = os.read(jr, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack("I", b)[0]
                        try:
                            v = fn(items[i])
                            d = pickle.dumps((i, v))
                        except Exception:
                            d = pickle.dumps((i, Failed(traceback.format_exc()[-700:])))
                        f.write(struct.pack("I", len(d)) + d)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        pids.append(pid)
        rds.append(r)
    os.close(jr)

    def feed():
        try:
            for i in range(n):
                os.write(jw, struct.pack("I", i))
        except OSError:
            pass
        os.close(jw)
    ft = threading.Thread(target=feed, daemon=True)
    ft.start()

    def collect(r):
        with os.fdopen(r, "rb") as f:
            while True:
                b = f.read(4)
                if len(b) < 4:
                    return
                d = f.read(struct.unpack("I", b)[0])
                try:
                    i, v = pickle.loads(d)
                    out[i] = v
                except Exception:
                    return
    ts = [threading.Thread(target=collect, args=(r,), daemon=True) for r in rds]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    return out
