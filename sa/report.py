"""Collecting obligations, matching known findings, writing evidence."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known_findings(prop):
    """Entries `KNOWN-FINDING: property=<id> [rule|construct] text` of the committed file."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("KNOWN-FINDING:"):
            continue
        rest = line[len("KNOWN-FINDING:"):].strip()
        p, _, rest = rest.partition(" ")
        if p != "property=" + prop:
            continue
        rest = rest.strip()
        if not rest.startswith("["):
            continue
        key, _, txt = rest[1:].partition("]")
        out[key.strip()] = txt.strip()
    return out


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.items = {}
        self.order = []
        self.counts = {}
        self.assumptions = []
        self.explanation = ""
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def _put(self, kind, rule, construct, msg, where=None):
        k = (rule, construct)
        rank = {"ok": 0, "unk": 1, "bad": 2}
        old = self.items.get(k)
        if old is None:
            self.order.append(k)
            self.items[k] = [kind, msg, where, 1]
        else:
            old[3] += 1
            if rank[kind] > rank[old[0]]:
                old[0], old[1], old[2] = kind, msg, where

    def ok(self, rule, construct, msg="", where=None):
        self._put("ok", rule, construct, msg, where)

    def bad(self, rule, construct, msg, where=None):
        self._put("bad", rule, construct, msg, where)

    def unk(self, rule, construct, msg, where=None):
        self._put("unk", rule, construct, msg, where)

    def check(self, cond, rule, construct, msg, where=None):
        """cond: True / False / None (undecided)"""
        if cond is None:
            self.unk(rule, construct, msg, where)
        elif cond:
            self.ok(rule, construct, msg, where)
        else:
            self.bad(rule, construct, msg, where)
        return cond

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def finish(self, tier, seed, write=True):
        known = known_findings(self.prop)
        bad, unk, ok, kf = [], [], [], []
        for k in self.order:
            kind, msg, where, n = self.items[k]
            e = {"rule": k[0], "construct": k[1], "detail": msg, "where": where, "instances": n}
            if kind == "bad":
                key = k[0] + "|" + k[1]
                if key in known:
                    kf.append((key, e))
                else:
                    bad.append(e)
            elif kind == "unk":
                unk.append(e)
            else:
                ok.append(e)
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(evd, exist_ok=True)
        replay = os.path.join(evd, self.prop + ".violations.json")
        byrule = {}
        for k in self.order:
            kind = self.items[k][0]
            r = byrule.setdefault(k[0], {"held": 0, "violated": 0, "undecided": 0})
            r[{"ok": "held", "bad": "violated", "unk": "undecided"}[kind]] += 1
        cov = {"explanation": self.explanation or "see DESIGN.md",
               "obligations": len(self.order), "held": len(ok), "violated": len(bad) + len(kf),
               "undecided": len(unk), "known_findings": len(kf),
               "by_rule": byrule, "rules": self.rules}
        cov.update(self.counts)
        cov["undecided_obligations"] = ["%s %s: %s" % (e["rule"], e["construct"], e["detail"]) for e in unk][:60]
        cov["sites"] = ["%s %s%s" % (e["rule"], e["construct"], (" @ %s" % e["where"]) if e["where"] else "") for e in ok][:400]
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3), "assumptions": self.assumptions,
              "violations": [dict(e, where=str(e["where"])) for e in bad]}
        if write:
            with open(os.path.join(evd, self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "violations": bad, "undecided": unk}, f, indent=1, default=str)
        for key, e in kf:
            print("KNOWN-FINDING: property=%s [%s] %s" % (self.prop, key, known[key]))
        print("%s: %d obligations, %d held, %d violated, %d known findings, %d undecided, %.1f s" % (
            self.prop, len(self.order), len(ok), len(bad), len(kf), len(unk), time.time() - self.t0))
        for r, c in sorted(byrule.items()):
            print("  rule %-28s held=%d violated=%d undecided=%d" % (r, c["held"], c["violated"], c["undecided"]))
        for n, c in sorted(self.counts.items()):
            print("  %s: %s" % (n, c))
        for e in unk[:40]:
            print("  UNDECIDED %s %s: %s" % (e["rule"], e["construct"], str(e["detail"])[:300]))
        for e in bad:
            print("  %s %s @ %s: %s" % (e["rule"], e["construct"], e["where"], str(e["detail"])[:600]))
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0
