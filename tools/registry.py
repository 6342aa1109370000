"""Single source of properties.jsonl and MANIFEST.json: python3 tools/registry.py rewrites both."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYLIB = "flatdata-py/flatdata/lib/"
GEN = "flatdata-generator/flatdata/generator/"
CPP = "flatdata-cpp/include/flatdata/"
SRC = "flatdata-cpp/src/"
RS = "flatdata-rs/lib/src/"
GO = "flatdata-go/flatdata/"

PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, level, technique, note,
         observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mechanism=mechanism, level=level, technique=technique, note=note,
                      observe=observe))


exec(open(os.path.join(V, "tools", "props.py")).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": p["files"],
                       "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            print("no check yet:", p["id"])
            continue
        checks.append({
            "property": p["id"], "quick_cmd": "./run.sh %s" % p["id"],
            "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                "not_applicable": NOT_APPLICABLE,
                "notes": "No hooks in /repo: every check drives the unmodified public API. "
                         "See DESIGN.md."}
    claimed = {c["property"] for c in checks}
    for p in PROPS:
        if p["id"] not in claimed:
            manifest["not_applicable"].append(
                {"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
