#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TESTS = "The test suite compares a few dozen hand-picked objects and fixture files; "


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[{"name": n, "where": w} for n, w in mechanism], technique=technique, note=note, level=level))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --selfcheck",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in P if p["technique"]],
        "not_applicable": NA,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
