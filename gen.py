#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import props
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl", "w") as fh:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]) or ["public API results and buffers"],
                        "hook_needed": None}}) + "\n")
with open("MANIFEST.json", "w") as fh:
    json.dump({
        "version": 1, "setup_cmd": "python3 check.py --setup",
        "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"],
                    "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in props.P if p["tech"]],
        "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in props.P if not p["tech"]],
        "notes": "No hooks in /repo: everything is observed through public APIs, link-time interposition and sanitizers."},
        fh, indent=1)
    fh.write("\n")
