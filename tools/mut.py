#!/usr/bin/env python3-vt
"""mut.py FILE CHECK: apply each edit of FILE (blocks 'name | path | old ==> new', \\n in text) to a copy of the sources and run one check."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
src, prop = sys.argv[1:3]
par = int(sys.argv[3]) if len(sys.argv) > 3 else 2
jobs = []
for line in open(src):
    line = line.rstrip("\n")
    if not line.strip() or line.startswith("#"):
        continue
    n, p, e = line.split(" | ", 2)
    a, b = e.split(" ==> ")
    jobs.append((n.strip(), p.strip(), a.encode().decode("unicode_escape"), b.encode().decode("unicode_escape")))


def one(j):
    n, p, a, b = j
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "build", "__pycache__"))
        f = d + "/src/pydsm/" + p
        s = open(f).read()
        if s.count(a) < 1:
            return n, "TEXT NOT FOUND"
        open(f, "w").write(s.replace(a, b, 1))
        r = subprocess.run(["python3-vt", "/verif/check.py", prop], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True)
        o = r.stdout.splitlines()
        und = [x for x in o if "UNDECIDED" in x or ("undecided=" in x and not x.endswith("undecided=0"))]
        det = [x for x in o if x.startswith("  ") and " @ " in x]
        return n, "rc=%d %s" % (r.returncode, (det or und or o[-1:] or [r.stderr[-300:]])[0][:230])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(par) as ex:
    for n, r in ex.map(one, jobs):
        print("%-34s %s" % (n, r), flush=True)
