#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
import registry
PROPS = []
NA = []


def P(pid, title, statement, over, text, why, files, mechanism, observe=(), note="", technique=""):
    assert len(title) <= 80, (pid, len(title))
    for f in files:
        assert os.path.exists("/repo/" + f), (pid, f)
    PROPS.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over, "text": " ".join(text.split())},
                  "why_tests_cant": " ".join(why.split()),
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": list(observe), "hook_needed": None},
                  "_note": " ".join(note.split()), "_technique": technique})


def not_applicable(pid, reason):
    NA.append({"property": pid, "reason": " ".join(reason.split())})


exec(open(V + "/tools/properties_src.py").read())
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
for p in PROPS:
    if p["id"] in registry.CHECKS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 tools/check.py run " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py run " + p["id"],
            "technique": p["_technique"] or "property-based testing (generated inputs against an independent reference model, with shrinking)",
            "level": "exploration",
            "level_note": p["_note"] or "Randomised search with the counts in the evidence file; assumes the oracle in the harness and the ROS message stand-ins of /verif/shim.",
        })
    else:
        assert p["id"] in {n["property"] for n in NA}, "neither claimed nor not_applicable: " + p["id"]
for pid in registry.CHECKS:
    assert pid in {p["id"] for p in PROPS}, pid
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": checks, "not_applicable": NA,
               "notes": "Every check rebuilds its harness from /repo's working tree into /verif/build (ignored by git)."}, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
