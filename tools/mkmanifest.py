#!/usr/bin/env python3
"""writes /verif/MANIFEST.json and levels.json from the units and harness binaries present"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools/claims.py")).read())
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na, levels = [], [], {}
for i in ids:
    if i in CLAIMS:
        lvl, tech, note = CLAIMS[i]
        levels[i] = lvl
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "cd tools/vx && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/target/vx cargo build --release --offline --quiet",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: contracts live in units/*.vrs and are merged on every run with the functions extracted from the compiler's macro-expanded source of the current tree."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
json.dump(levels, open(f"{V}/levels.json", "w"), indent=1)
