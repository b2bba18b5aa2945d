#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property tables."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

MODULES = ["props_abi", "props_core", "props_text", "props_cross"]


def load():
    props = []
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + ".py")):
            props += importlib.import_module(m).PROPS
    return props


def main():
    props = load()
    ids = [p["id"] for p in props]
    assert len(ids) == len(set(ids))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            json.dump({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                    "mechanism": [dict(name=n, where=w) for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }, f, ensure_ascii=False)
            f.write("\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash /verif/setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
            "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
            "evidence_file": "/verif/evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in props],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: the monitors sit on the library's own seams (allocator, memory, callees, readers and writers, destructors). known-findings.txt lists the defects found and repaired.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
