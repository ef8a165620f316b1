#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from harness/registry.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in registry.PROPS.values():
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")
        for f_ in p["prop"]["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f_)), f_
checks = [{"property": k, "quick_cmd": "./check.py %s --tier quick" % k,
           "thorough_cmd": "./check.py %s --tier thorough" % k,
           "evidence_file": "evidence/%s.json" % k, "technique": p["technique"],
           "level": p["level"], "level_note": p["note"]}
          for k, p in registry.PROPS.items() if p["family"]]
na = [{"property": k, "reason": p["reason"]} for k, p in registry.PROPS.items() if not p["family"]]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
