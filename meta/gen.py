#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table in meta/props_*.py."""
import importlib, glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from checks import CHECKS
PROPS = []
for f in sorted(glob.glob(os.path.join(HERE, "props_*.py"))):
    PROPS += importlib.import_module(os.path.basename(f)[:-3]).PROPS
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids)), ids
with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["files"]:
            assert os.path.exists(os.path.join("/repo", a)), a
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "observe_at": p["observe"], "hook_needed": None}
        if p.get("state"):
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": anchors,
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")]
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are rapid (pgregory.net/rapid) generators plus reference-model oracles, run as external Go tests of the module under /repo; no hooks in /repo are needed. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = [i for i in CHECKS if i not in ids]
print(len(PROPS), "properties,", len(checks), "checks; checks without property:", missing,
      "; unclaimed:", [i for i in ids if i not in CHECKS])
