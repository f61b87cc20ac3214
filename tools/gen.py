#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

IN, HI, CF = "inputs", "histories", "configurations"
B = "ssspy/bss/"
U = B + "_update_spatial_model.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, tech=tech))


SAMPLE = ("Tests run one random input per configuration and assert shapes, dtypes or that two code paths are "
          "close on that input; ")

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")

checks, na = [], []
for p in P:
    mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if p.get("tech") == "NA":
        na.append({"property": p["id"], "reason": p["note"]})
    elif os.path.exists(mod):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": p["tech"] or "symbolic execution of the real Python code, obligations decided by z3",
            "level": "model_checking",
            "level_note": p["note"] or "Bounded: holds for all real/complex values at the stated array sizes, exact arithmetic.",
        })
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the checks import the real modules with numpy operations "
             "overloaded for symbolic arrays. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(na), "n/a")


# ------------------------------------------------------------------ DESIGN.md
def design():
    import glob
    import importlib
    import sys

    sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
    t = open(os.path.join(HERE, "tools", "design_head.md")).read()
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    t = t.replace("FIXES", "\n".join("* " + e["what"][len("fixed: "):] for e in k if e["kind"] == "fixed"))
    rows = ["| change | property | needs |", "|---|---|---|"]
    ds = sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
    if not ds:  # checks run on trees without seeded/
        return
    for d in ds:
        m = json.load(open(d))
        rows.append(f"| {os.path.basename(os.path.dirname(d))}{' (+)' if m.get('strengthened') else ''} | {m['property']} | {' '.join(m['needs'].split()).replace('|', '/')} |")
    t = t.replace("CATCHES", "\n".join(rows)).replace("PLANTS", str(len(ds)))
    out = [t]
    for p in P:
        try:
            m = importlib.import_module("checks." + p["id"].lower())
        except ModuleNotFoundError:
            continue
        q, th = len(m.harnesses("quick")), len(m.harnesses("thorough"))
        out.append(f"### {p['id']} {p['title']}\n\n{q} harnesses (thorough: {th}). Bounds: {' '.join(m.BOUNDS.split())}\n")
        out += [f"* {a}" for a in m.ASSUMPTIONS] + [""]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")


design()
