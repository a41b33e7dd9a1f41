"""Findings, known-findings list, evidence files and exit codes."""
import json
import os
import time

WRITE = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """one violated obligation; `key` identifies the construct without line numbers"""

    def __init__(self, rule, key, message, where="", path=()):
        self.rule, self.key, self.message, self.where, self.path = rule, key, message, where, tuple(path)

    def dict(self):
        return {"rule": self.rule, "key": self.key, "message": self.message, "where": self.where, "call_path": ["%s:%s" % p if isinstance(p, tuple) else str(p) for p in self.path]}

    def __repr__(self):
        return "%s %s: %s [%s]" % (self.rule, self.key, self.message, self.where)


class Result:
    """what one rule analysed"""

    def __init__(self):
        self.findings = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.inventory = {}

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=40):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)

    def undec(self, s):
        if s not in self.undecided:
            self.undecided.append(s)

    def fail(self, rule, key, message, where="", path=()):
        for f in self.findings:
            if f.rule == rule and f.key == key:
                return
        self.findings.append(Finding(rule, key, message, where, path))

    def merge(self, o):
        for f in o.findings:
            self.fail(f.rule, f.key, f.message, f.where, f.path)
        for k, v in o.counts.items():
            self.add(k, v)
        for s in o.samples:
            self.sample(s)
        for s in o.undecided:
            self.undec(s)
        for k, v in o.inventory.items():
            self.inventory.setdefault(k, []).extend(v if isinstance(v, list) else [v])


def load_known(prop):
    """known_findings.txt:  known: property=C01 key=<rule>|<key> :: text     /   fixed: ... (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf8") as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith("known: property=%s " % prop):
                    continue
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def finish(prop, tier, seed, rule_text, res, t0, assumptions):
    known = load_known(prop)
    bad, listed = [], []
    for f in res.findings:
        k = "%s|%s" % (f.rule, f.key)
        if k in known:
            listed.append((f, known[k]))
        else:
            bad.append(f)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.violations.json" % prop)
    for f, txt in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, txt or f.message, f.where))
    if bad and not WRITE:
        print("\n".join("  %s" % f for f in bad))
    elif bad:
        with open(replay, "w", encoding="utf8") as fh:
            json.dump([f.dict() for f in bad], fh, indent=1)
        for f in bad:
            print("  %s" % f)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif WRITE and os.path.exists(replay):
        os.remove(replay)
    cov = {"explanation": rule_text, "counts": dict(sorted(res.counts.items())), "samples": res.samples,
           "undecided": len(res.undecided), "undecided_sites": res.undecided[:60], "known_findings_seen": [f.key for f, _ in listed]}
    for k, v in res.inventory.items():
        cov[k] = sorted(set(v))[:400] if isinstance(v, list) else v
    out = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": assumptions,
           "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    if bad:
        cov["violation_details"] = [f.dict() for f in bad]
    with open(os.path.join(ev, "%s.json" % prop) if WRITE else os.devnull, "w", encoding="utf8") as fh:
        json.dump(out, fh, indent=1, default=str)
    print("%s: %s; %d violation(s), %d known, %d undecided" % (prop, ", ".join("%s=%s" % kv for kv in sorted(res.counts.items())), len(bad), len(listed), len(res.undecided)))
    return 1 if bad else 0
