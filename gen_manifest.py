#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py."""
import json
import os
import props

HERE = os.path.dirname(os.path.abspath(__file__))
ALL = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py selftest",
    "checks": [],
    "not_applicable": [],
    "notes": "Deciding method: exhaustive stateless model checking of the real code with the yamc engine (mc/rt.cpp); see DESIGN.md.",
}
if props.HOOK_COMMITS:
    m["hooks"] = {"guard": "YACLIB_VERIF", "enable": "run.py compiles /repo's sources itself with -DYACLIB_VERIF for the "
                  "fiber-backend variants (C17, C18, C19); the other checks need no hook", "source_commits": props.HOOK_COMMITS}
for pid in ALL:
    if pid in props.PROPS:
        p = props.PROPS[pid]
        m["checks"].append({
            "property": pid,
            "quick_cmd": f"python3 run.py check {pid} --quick",
            "thorough_cmd": f"python3 run.py check {pid} --thorough",
            "technique": p.get("technique", "explicit-state stateless model checking of the compiled library (DPOR over all interleavings)"),
            "level": "model_checking",
            "level_note": p.get("note", "") + " Bounds: " + p["bounds"],
        })
    else:
        m["not_applicable"].append({"property": pid, "reason": props.NOT_APPLICABLE.get(pid, "check not built yet (work in progress)")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
