#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if registry.D.get(i):
        checks.append(dict(property=i, quick_cmd="python3 harness/check.py %s --tier quick" % i,
                           thorough_cmd="python3 harness/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=registry.technique(i), level="exploration",
                           level_note=registry.level_note(i)))
    else:
        na.append(dict(property=i, reason="No check built yet."))
m = dict(version=1, setup_cmd="python3 harness/build.py san d_int spiff", checks=checks, not_applicable=na,
         notes="Every check builds the library, the drivers and spiff from /repo's working tree into /verif/build "
               "(git-ignored). No hooks are needed in /repo: all state that is judged is public.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
