#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = checks.TECH[i]
        cs.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "technique": t, "level": checks.LEVEL.get(i, "exploration"), "level_note": n})
    else:
        na.append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true",
     "checks": cs, "not_applicable": na,
     "notes": "Each check builds what it needs from /repo's working tree into /verif/.build; see DESIGN.md."}
if checks.HOOK_COMMITS:
    m["hooks"] = {"guard": "--cfg verif_hooks (rustc cfg flag, off by default)",
                  "enable": "RUSTFLAGS='--cfg verif_hooks', set by lib/runner.py for every harness build",
                  "source_commits": checks.HOOK_COMMITS}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
