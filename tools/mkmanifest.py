"""Writes MANIFEST.json from the plans."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import plans            # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    pl = plans.PLANS[i]
    invs = sorted({x for m in pl["mc"] for x in m[5] + m[6]})
    checks.append(dict(
        property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="TLA+ specification checked with TLC; recorded behaviours of the code (random, and generated "
                  "from the specification) validated against it with TLC",
        level="model_checking",
        level_note="Model: %s hold(s) in every state of bounded instances of the specification. Code: every "
                   "event of every recorded behaviour is a transition the specification allows (clauses %s); "
                   "this samples the inputs and histories of the code, it does not exhaust them, apart from "
                   "the small scopes replayed completely. Trusts TLC, the harness's reading of the public "
                   "interface, and its XML/YAML/JSON parsers." % (", ".join(invs), " ".join(pl["clauses"]))))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
               notes="Language: TLA+, checked with TLC. No hooks: the harness uses the public interface only. "
                     "./check --replay FILE runs a recorded violation again."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
