#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/meta.py and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import meta, props
with open(V + "/properties.jsonl", "w") as f:
    for m in meta.META:
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps(m) + "\n")
checks, na = [], []
for m in meta.META:
    i = m["id"]
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": meta.TECH, "level": "model_checking", "level_note": meta.NOTE + " Bounds: " + p.bounds})
    else:
        na.append({"property": i, "reason": meta.PENDING.get(i, "the check of this property is not built yet")})
json.dump({"version": 1, "setup_cmd": "cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir build/engine", "checks": checks, "not_applicable": na,
           "notes": "No hook in /repo: the harness uses the public API only. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
