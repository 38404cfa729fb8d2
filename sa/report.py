"""Obligation bookkeeping, known findings, evidence files."""
from __future__ import annotations

import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Finding:
    def __init__(self, rule, construct, where, detail):
        self.rule, self.construct, self.where, self.detail = rule, construct, where, detail

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.findings: list[Finding] = []
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.functions = set()
        self.trusted = ["Python ast / Cython parser", "the value-flow builder in /verif/sa"]
        self.rules = []
        self.short = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, rule, construct, detail=""):
        self.obligations += 1
        self.discharged += 1
        self.count("rule:" + rule)
        if sum(1 for s in self.samples if s["rule"] == rule) < 4:
            self.samples.append({"rule": rule, "construct": construct, "detail": str(detail)[:300]})

    def bad(self, rule, construct, where="", detail=""):
        self.obligations += 1
        self.count("rule:" + rule)
        f = Finding(rule, construct, where, detail)
        if all(x.key != f.key for x in self.findings):
            self.findings.append(f)

    def test(self, cond, rule, construct, where="", detail=""):
        if cond:
            self.ok(rule, construct, detail)
        else:
            self.bad(rule, construct, where, detail)
        return cond

    def undecided(self, rule, construct, why):
        """outside what the rule understands: recorded as an open obligation, neither passed nor reported"""
        self.obligations += 1
        self.count("unresolved")
        self.count("unresolved:" + rule)
        self.samples.append({"rule": rule, "construct": construct, "detail": f"UNRESOLVED {why}"[:600]})
        if os.environ.get("VERIF_DEBUG"):
            print("UNRESOLVED", rule, construct, why)

    def need(self, rule, n):
        """At least n instances of the rule are expected to be decided (vacuity guard)."""
        have = self.counts.get("rule:" + rule, 0)
        if have < n:
            self.short.append(f"rule {rule} decided {have} instances, expected at least {n}")


def load_known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    out.append(json.loads(line))
    return out


def finish(chk: Check, tier, seed):
    known = {k["key"]: k for k in load_known() if k["property"] == chk.pid}
    new = [f for f in chk.findings if f.key not in known]
    old = [f for f in chk.findings if f.key in known]
    for f in old:
        print(f"KNOWN-FINDING: property={chk.pid} {f.key}: {known[f.key].get('what', f.detail)}")
    if chk.short and not chk.findings and not chk.discharged:
        from .program import AnalysisError

        raise AnalysisError("nothing could be decided: " + "; ".join(chk.short))
    for x in chk.short:
        print(f"UNDECIDED property={chk.pid} {x}")
    ev = {
        "property": chk.pid,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": chk.obligations,
            "discharged": chk.discharged,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {chk.pid}",
            "trusted_base": chk.trusted,
            "counts": chk.counts,
            "functions_analysed": len(chk.functions),
            "functions": sorted(chk.functions)[:200],
            "rules": chk.rules,
            "undecided_rules": chk.short,
            "samples": chk.samples[:40],
            "known_findings": [f.key for f in old],
        },
        "assumptions": chk.assumptions,
        "wall_s": round(time.time() - chk.t0, 3),
        "violations": len(new),
    }
    evdir = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{chk.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{chk.pid}.json")
        with open(path, "w") as f:
            json.dump([{"rule": x.rule, "construct": x.construct, "where": x.where, "detail": x.detail}
                       for x in new], f, indent=1, default=str)
        for x in new:
            print(f"  [{x.rule}] {x.construct} at {x.where}: {x.detail}")
        print(f"VIOLATION property={chk.pid} replay={path}")
        return 1
    print(f"OK property={chk.pid} obligations={chk.obligations} discharged={chk.discharged} "
          f"known={len(old)} wall={ev['wall_s']}s")
    return 0
