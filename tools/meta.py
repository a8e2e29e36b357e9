#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, quant, tests, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()),
                      tests=" ".join(tests.split()), files=files, mech=mech, technique=technique,
                      note=" ".join(note.split()) if note else None, na=" ".join(na.split()) if na else None))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        } for p in PROPS if p["technique"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["technique"]],
        "notes": "Static analysis only: a rustc driver extracts the type-checked MIR of /repo's current source; the rules "
                 "in rules/ decide each property from it. No hooks in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["technique"] or p["na"], p["id"]
    print(len(PROPS), "properties,", sum(1 for p in PROPS if p["technique"]), "claimed")


main()
