"""Names and signatures of the installed dependencies (never of the repository)."""
import fcntl
import json
import subprocess
import tempfile

PY = "/opt/venv/bin/python"

HELPER = r'''
import sys, json, importlib, inspect, warnings
warnings.simplefilter("ignore")
out = sys.stdout
sys.stdout = sys.stderr

def resolve(path):
    parts = path.split(".")
    obj = None
    err = None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:i]))
        except ImportError as e:
            err = err or str(e)
            continue
        except Exception as e:
            return None, "import fails: %r" % e, i
        for j in range(i, len(parts)):
            try:
                obj = getattr(obj, parts[j])
            except AttributeError as e:
                return None, "no attribute %r in %s" % (parts[j], ".".join(parts[:j])), j
        return obj, None, len(parts)
    return None, "no module %s (%s)" % (parts[0], err), 0

def sig(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    r = []
    for p in s.parameters.values():
        d = None
        if p.default is not p.empty:
            d = ["v", repr(p.default)]
        r.append([p.name, p.kind.name, d])
    return r

def universe(mods):
    """Every attribute name that objects of the named packages may have."""
    import types, re
    names = set()
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    tops = {m.split(".")[0] for m in mods}
    seen = set()
    for k, m in list(sys.modules.items()):
        if k.split(".")[0] not in tops or m is None:
            continue
        try:
            d = list(vars(m).values())
            src = inspect.getsource(m)
        except Exception:
            src = ""
        names.update(re.findall(r"self\.(\w+)\s*[,=]", src))
        names.update(re.findall(r"(\w+)\s*=[^=]", src) if k.startswith("scipy.optimize") else ())
        for o in d:
            if inspect.isclass(o) and id(o) not in seen:
                seen.add(id(o))
                try:
                    names.update(dir(o))
                except Exception:
                    pass
    for k, o in list(vars(types).items()) + list(vars(importlib.import_module("builtins")).items()):
        if inspect.isclass(o):
            names.update(dir(o))
    return sorted(names)

for line in sys.stdin:
    path = json.loads(line)
    if isinstance(path, list):
        out.write(json.dumps({"names": universe(path)}) + "\n")
        out.flush()
        continue
    if path.split(".")[0] == "pydsm":
        ans = {"exists": None}
    else:
        o, err, n = resolve(path)
        if err:
            ans = {"exists": False, "err": err}
        else:
            k = "module" if inspect.ismodule(o) else "class" if inspect.isclass(o) else "callable" if callable(o) else "value"
            ans = {"exists": True, "kind": k, "sig": sig(o) if k in ("class", "callable") else None,
                   "ufunc": type(o).__name__ == "ufunc", "nin": getattr(o, "nin", None), "nout": getattr(o, "nout", None),
                   "typename": type(o).__name__,
                   "mod": getattr(o, "__module__", None), "name": getattr(o, "__qualname__", None),
                   "exc": [c.__module__ + "." + c.__name__ for c in o.__mro__] if k == "class" else None}
            if k == "value":
                try:
                    ans["dir"] = dir(o)
                except Exception:
                    pass
            if k == "class":
                ans["attrs"] = dir(o)
                import re
                sa = set()
                try:
                    for c in o.__mro__:
                        if c is not object:
                            sa.update(re.findall(r"self\.(\w+)", inspect.getsource(c)))
                    ans["selfattrs"] = sorted(sa)
                except (OSError, TypeError):
                    ans["selfattrs"] = None if any(not hasattr(c, "__flags__") or c.__flags__ & 512 for c in o.__mro__ if c is not object) else []
    out.write(json.dumps(ans) + "\n")
    out.flush()
'''

_proc = None
_lock = None
_memo = {}


def universe(mods):
    return set(query(tuple(mods)).get("names") or ())


def query(path):
    """{'exists': bool|None, 'kind', 'sig': [[name, kind, default|None]]|None, ...}"""
    global _proc
    r = _memo.get(path)
    if r is not None:
        return r
    start()
    # forked analysis workers share the helper: one question at a time
    fcntl.lockf(_lock, fcntl.LOCK_EX)
    try:
        _proc.stdin.write(json.dumps(path) + "\n")
        _proc.stdin.flush()
        line = _proc.stdout.readline()
    finally:
        fcntl.lockf(_lock, fcntl.LOCK_UN)
    r = json.loads(line) if line else {"exists": None}
    _memo[path] = r
    return r


def start():
    global _proc, _lock
    if _proc is None:
        _lock = tempfile.TemporaryFile()
        _proc = subprocess.Popen([PY, "-E", "-s", "-c", HELPER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, cwd="/")


def bind(path, nargs, kwnames):
    """Positional names for a call, or None when the signature is unknown or does not fit."""
    q = query(path)
    s = q.get("sig")
    if not s:
        return None
    pos = [p[0] for p in s if p[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
    if nargs > len(pos):
        return None
    names = pos[:nargs]
    if any(k in names for k in kwnames):
        return None
    return names
