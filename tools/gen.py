#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one list of properties below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = ["xcache.go", "v2/xcache.go"]
DS = ["xdataset.go", "v2/xdataset.go", "v2/interfaces.go"]
COL = ["xdataset.go", "v2/xdatasetcollection.go", "v2/xdatasetcollectionts.go"]
TPL = ["xtemplate.go", "v2/xtemplate.go"]
LANG = ["xlanguage.go", "v2/xlanguage.go"]

P = []  # id, title, statement, over, over_text, why, files, mechanism, built, technique, note


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

for p in P:
    if p["id"] not in BUILT:
        p["technique"] = None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks only read the source of /repo", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s" % p["id"],
        "thorough_cmd": "bash check.sh %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    } for p in P if p["technique"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check registered yet"} for p in P if not p["technique"]],
    "notes": "All checks are one static analyser (checker/) over the go/ssa form of the current source in /repo; nothing of /repo is executed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
