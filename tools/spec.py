#!/usr/bin/env python3
"""Single source of the property list and the manifest.

Run by hand after editing: writes /verif/properties.jsonl and
/verif/MANIFEST.json next to this directory. No check runs it.
"""
import json
import os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note,
         technique=None, observe=None, level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, note=note, observe=observe,
        technique=technique, level=level,
    ))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())


def main():
    with open(os.path.join(BASE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            }
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": a,
            }) + "\n")
    checks = []
    for p in PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick ./run.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
            "evidence_file": "evidence/" + p["id"] + ".json",
            "technique": p["technique"] or
            "bounded exhaustive model checking of the real code against an executable reference model",
            "level": p["level"],
            "level_note": p["note"],
        })
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {
            "guard": "none",
            "enable": "no hooks: all checks use the public API of the crates",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": NOTES,
    }
    with open(os.path.join(BASE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
