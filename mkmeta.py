#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.json (one file per property)."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p in sorted(glob.glob(os.path.join(here, "meta", "*.json"))):
    d = json.load(open(p))
    q = dict(id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["forall"]),
             why_tests_cant=d["why"], anchors=dict(files=d["files"], mechanism=[dict(name=a, where=b) for a, b in d["mechanism"]]))
    assert len(d["title"]) <= 80, d["id"]
    props.append(q)
    if "na" in d:
        na.append(dict(property=d["id"], reason=d["na"]))
    else:
        checks.append(dict(property=d["id"], quick_cmd="./check.sh %s quick" % d["id"], thorough_cmd="./check.sh %s thorough" % d["id"],
                           technique=d["technique"], level="other", level_note=d["level_note"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="All checks are static analyses of /repo's current source (see DESIGN.md); /repo contains no hooks."), f, indent=1)
    f.write("\n")
print(len(props), "properties;", len(checks), "claimed;", len(na), "not applicable")
