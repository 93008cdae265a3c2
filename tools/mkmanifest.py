"""Writes MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    checks.append(dict(
        property=p, quick_cmd="/opt/venv/bin/python check.py run %s" % p,
        thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python check.py run %s" % p,
        evidence_file="evidence/%s.json" % p,
        technique="deterministic simulation with fault injection: seeded search over schedules and faults, real client code against model brokers/ZooKeeper",
        level="exploration",
        level_note=PROPS[p].get("note", "Holds on every simulated execution explored (seeded, repeatable); says nothing about unexplored ones. Trusts the model brokers and the simulated network, clock and threads.")))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "not claimed yet")) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py list",
         hooks=dict(guard="none", enable="no hooks in /repo: every seam is installed from /verif around the standard library (sockets, selector, clock, threads, randomness, ids)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check.py replay <file> re-runs a violation; see DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
