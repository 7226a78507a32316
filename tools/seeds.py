#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ from tools/seeds_src/*.py and tries them.

seeds.py gen [ids]    write patch.diff, demo.sh, demo.py, meta.json
seeds.py try [ids]    clean demo, apply in /repo, build, stable tests, demo, checks, undo
"""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/pydsm/"


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds_src/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def gen(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", SRC + f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times in", f, repr(old[:50]))
                return False
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n" + s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nPYTHONPATH=/repo/src exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return True


def attempt(s, full=True):
    d = os.path.join(ROOT, "seeded", s["id"])
    demo = "timeout 300 sh %s/demo.sh" % d
    pyx = "pyx" in open(d + "/patch.diff").read()
    r0 = sh(demo, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        return "%-28s DOES NOT APPLY %s" % (s["id"], a.stdout)
    try:
        miss = "-"
        b = 0
        if full:
            b = sh("bash /opt/vp/build.sh").returncode
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open("/tmp/seed_out.json"))
            miss = sorted(set(passed(base)) - set(passed(o)))
        r1 = sh(demo, cwd="/repo")
        cs = [s["property"]] + list(s.get("also", []))
        res = []
        for c in cs:
            x = sh("timeout 900 python3-vt check.py %s" % c, cwd=ROOT)
            res.append("%s:%s" % (c, {0: "missed", 1: "CAUGHT"}.get(x.returncode, "rc%d" % x.returncode)))
            open("/tmp/seed_%s_%s.log" % (s["id"], c), "w").write(x.stdout)
    finally:
        sh("git -C /repo checkout -- .")
        if full and pyx:
            sh("bash /opt/vp/build.sh")
    return "%-28s clean=%d build=%d tests_lost=%s demo=%d %s" % (s["id"], r0, b, miss, r1.returncode, " ".join(res)) + ("" if r0 == 0 and r1.returncode else "\n" + r1.stdout[-600:])


def passed(o):
    for k in ("stable", "passed", "stable_pass", "tests"):
        if k in o:
            return o[k] if isinstance(o[k], list) else [n for n, v in o[k].items() if v in ("passed", True, "pass")]
    raise KeyError(list(o))


if __name__ == "__main__":
    S = load()
    ids = [i for i in S if not sys.argv[2:] or any(i.startswith(x) for x in sys.argv[2:] if not x.startswith("--"))]
    for i in ids:
        if sys.argv[1] == "gen":
            if gen(S[i]):
                print("wrote", i)
        else:
            print(attempt(S[i], "--fast" not in sys.argv), flush=True)
