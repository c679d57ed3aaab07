"""Regenerate properties.jsonl and MANIFEST.json from one table.

Run by hand after editing; nothing runs it at check time.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique,
         level="exploration", observe=None):
    anchors = dict(
        files=files, mechanism=[dict(name=n, where=w) for n, w in mech]
    )
    P.append(
        dict(
            line=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=anchors,
            ),
            level=level,
            level_note=level_note,
            technique=technique,
        )
    )


exec(open(os.path.join(VERIF, "tools", "proptable.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["line"]) + "\n")

checks, na = [], []
for p in P:
    pid = p["line"]["id"]
    script = "checks/%s.py" % pid.lower()
    if os.path.exists(os.path.join(VERIF, script)):
        cmd = "/opt/venv/bin/python /verif/%s --tier " % script
        checks.append(
            dict(
                property=pid,
                quick_cmd=cmd + "quick",
                thorough_cmd=cmd + "thorough",
                evidence_file="evidence/%s.json" % pid,
                technique=p["technique"],
                level=p["level"],
                level_note=p["level_note"],
            )
        )
    else:
        na.append(dict(property=pid, reason="monitor not built"))
manifest = dict(
    version=1,
    setup_cmd="bash /verif/setup.sh",
    hooks=dict(guard="VERIF_HOOKS", enable="VERIF_HOOKS=1", source_commits=[]),
    checks=checks,
    not_applicable=na,
    notes="Monitors observe the public API of the real code; no source hooks "
    "were needed, so the guard variable guards nothing.",
)
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
