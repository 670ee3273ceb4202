"""Writes properties.jsonl and MANIFEST.json"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props                                    # noqa
for f in sorted(glob.glob(os.path.join(HERE, "props_*.py"))):
    exec(compile(open(f).read(), f, "exec"), props.__dict__)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fil:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"],
                   "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        anchors["hook_needed"] = None
        fil.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks, na = [], []
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check has been built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py {} quick".format(p["id"]),
        "thorough_cmd": "python3 check.py {} thorough".format(p["id"]),
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fil:
    json.dump({"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks,
               "not_applicable": na,
               "notes": "All checks are static: they parse /repo's sources and never import or "
                        "run them. DESIGN.md explains the analyses."}, fil, indent=1)
    fil.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
