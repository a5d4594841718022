#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED: property -> (technique, level, note)."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
from claims import CLAIMED, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
src = [l.split()[0] for l in hooks if " hook" in l.split(":")[0]][::-1]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.sh)", "source_commits": src},
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in CLAIMED:
        t, level, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": t, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
