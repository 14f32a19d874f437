#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from one table."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, design):
    P.append(locals())


exec(open(os.path.join(HERE, "tools", "properties.py")).read())


def main():
    assert len({p["id"] for p in P}) == len(P)
    done, todo = [], []
    for p in P:
        (done if glob.glob(f"{HERE}/props/{p['id'].lower()}_*.py") else todo).append(p)
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
            assert n <= 3, (p["id"], n)
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["qtext"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["return values of the public API (pvgridder.*)"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    man = {
        "version": 1,
        "setup_cmd": f"{PY} /verif/tools/setup.py",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"{PY} /verif/run.py {p['id']} --tier quick",
                "thorough_cmd": f"{PY} /verif/run.py {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
            for p in done
        ],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in todo],
        "notes": "No hooks: everything is observed through the public API of /repo's working tree, imported fresh by every check. Generators and shrinking: hypothesis, vendored in /verif/vendor.",
    }
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    path = f"{HERE}/DESIGN.md"
    if os.path.exists(path):
        text = open(path).read()
        a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
        body = "\n".join(
            f"### {p['id']} - {p['title']}\n\n{p['statement']}\n\n*Decided by:* {p['design']}\n" for p in P
        )
        text = text[: text.index(a) + len(a)] + "\n\n" + body + "\n" + text[text.index(b) :]
        a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
        rows = ["| id | needs | caught by | remark |", "|---|---|---|---|"]
        notes = json.load(open(f"{HERE}/tools/seeded_notes.json"))
        for m in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
            d, k = json.load(open(m)), os.path.basename(os.path.dirname(m))
            note = notes.get(k.split("-")[0], {})
            rows.append(f"| {k} | {d['needs']} | {note.get('by', d['property'])} | {note.get('note', '')} |")
        text = text[: text.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + text[text.index(b) :]
        open(path, "w").write(text)
    print(len(done), "claimed,", len(todo), "pending")


main()
