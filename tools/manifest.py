#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(here, "tools/checks.json")))
hooks = T["hook_commits"]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(bladeink_verif)",
        "enable": "RUSTFLAGS=\"--cfg bladeink_verif\" (set by /verif/env.sh, which run.sh sources)",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
}
for i in range(1, 21):
    pid = "C%02d" % i
    if pid in T["checks"]:
        c = T["checks"][pid]
        m["checks"].append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid} quick",
            "thorough_cmd": f"./run.sh {pid} thorough",
            "technique": c["technique"],
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": pid, "reason": T["missing"].get(pid, "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
