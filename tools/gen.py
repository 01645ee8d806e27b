#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None, level_note=None, claim=True):
    P.append(dict(claim=claim, note=level_note, j=dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook))))

SCHED = "every interleaving of the clients' operations at lock, atomic, channel and (in part of the runs) memory-access granularity, with stalls of single goroutines and freezes of the whole process"

exec(open(os.path.join(HERE, "tools", "table.py")).read())

for p in P:
    j = p["j"]
    assert len(j["title"]) <= 80, j["id"]
    for f in j["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["j"]) + "\n")
checks = []
for p in P:
    if not p["claim"]:
        continue
    i = p["j"]["id"]
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="deterministic simulation with fault injection: seeded search over schedules and faults",
        level="exploration",
        level_note=p["note"] or "Seeded random search over schedules, faults and workloads running the real code in one process; a clean run means no violation in the sampled executions, not absence. Trusts the source instrumenter and the simulator's replacements for sync, atomic, time, context and random sources."))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
    notes="No hooks are committed in /repo: the seams are inserted at build time by a source-to-source instrumenter through go build -overlay. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
