#!/usr/bin/env python3
"""python3 checker/run.py <property> [--tier quick|thorough]"""
from __future__ import annotations

import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import registry
from framework import run_analysis, ROOT


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    info = registry.PROPERTIES.get(a.property)
    if info is None:
        print("unknown property", a.property)
        return 2
    findings = {}
    oblig, disch, samples = {}, {}, []
    cov = dict(entries=0, configurations=0, runs=0, method_calls_analysed=0)
    failed, funcs, unknown = [], set(), {}
    per = {}
    for cls in info["analyses"]:
        an, st, errs = run_analysis(cls, a.tier, a.jobs or None)
        if errs:
            for e in sorted(set(errs)):
                print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
            return 2
        only = getattr(an, "only", {}).get(a.property)
        for k, f in an.findings.items():
            if only is None or f.rule in only:
                findings.setdefault(k, f)
        for k, v in an.obligations.items():
            if only is None or k in only:
                oblig.setdefault(k, set()).update(v)
        for k, v in an.discharged.items():
            if only is None or k in only:
                disch.setdefault(k, set()).update(v)
        samples += an.samples
        cov["entries"] += st["entries"]
        cov["configurations"] += st["configs"]
        cov["runs"] += st["runs"]
        cov["method_calls_analysed"] += st["methods"]
        cov["oracle_capped"] = cov.get("oracle_capped", 0) + st["capped"]
        failed += st["failed"]
        funcs |= st["functions"]
        for k, v in st["unknown"].items():
            unknown[k] = unknown.get(k, 0) + v
    floor = info.get("floor", {})
    for rule, n in floor.items():
        got = len(oblig.get(rule, ()))
        if got < n:
            print("ANALYSIS-BROKEN property=%s rule %s matched %d instances, at least %d expected"
                  % (a.property, rule, got, n))
            return 2
    known = [k for k in load_known() if k["property"] == a.property]
    new, old = [], []
    for k, f in sorted(findings.items()):
        m = [x for x in known if x["key"] == k]
        (old if m else new).append((f, m[0] if m else None))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nob = sum(len(v) for v in oblig.values())
    cov.update(
        explanation=info["explain"],
        rules={k: len(v) for k, v in sorted(oblig.items())},
        obligations=nob,
        discharged=nob - sum(len(v) for v in disch.values()),
        functions_analysed=len(funcs),
        functions=sorted(funcs)[:400],
        not_analysed=failed[:50],
        not_analysed_count=len(failed),
        unmodelled_external_calls=unknown,
        samples=[str(s) for v in sorted(oblig) for s in sorted(map(str, oblig[v]))[:4]][:40],
        findings=[f.dump() for f, _ in new + old],
        known_findings=[f.key for f, _ in old],
        sources_digest=registry.digest(ROOT),
    )
    ev = dict(property=a.property, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
              seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              assumptions=info.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not os.environ.get("VERIF_NOEVID"):     # set by the developer's bug-planting loop
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
    for f, m in old:
        print("KNOWN-FINDING: property=%s %s" % (a.property, m["what"]))
    rc = 0
    if new:
        rc = 1
        rp = os.path.join(VERIF, "evidence", a.property + ".replay.json")
        if not os.environ.get("VERIF_NOEVID"):
            with open(rp, "w") as fh:
                json.dump([f.dump() for f, _ in new], fh, indent=1)
        for f, _ in new:
            print("%s: [%s] %s (entry %s; %s)" % (f.where, f.rule, f.message, f.entry, f.config))
            if a.list:
                print("    KEY", f.key)
        print("VIOLATION property=%s replay=%s" % (a.property, rp))
    print("%s: %d obligations, %d violations, %d known, %d runs, %d functions, %.1fs%s" % (
        a.property, nob, len(new), len(old), cov["runs"], len(funcs), time.time() - t0,
        ", %d runs not analysed" % len(failed) if failed else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
