#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "driver"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none", "enable": "No hooks: everything is observed through public interfaces, the memory map, "
              "system and library call interposition and sanitizers.", "source_commits": []},
    "checks": [{"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                "evidence_file": f"evidence/{i}.json", "technique": PROPS[i]["technique"], "level": PROPS[i]["level"],
                "level_note": PROPS[i]["level_note"]} for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "The check for it is not built yet.")} for i in ids if i not in PROPS],
    "notes": "Run one check: VERIF_SEED=n python3 run.py <property> [quick|thorough]. See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
