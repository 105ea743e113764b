#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, observe=list(observe)))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in sorted(P, key=lambda p: p["id"]):
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"],
                        "hook_needed": None if p["id"] in [x["property"] for x in NA] else
                        "cfg(kani)/cfg(rav1e_verif) include at the end of the anchored modules"}}) + "\n")
nas = {x["property"] for x in NA}
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in nas:
        continue
    m = json.load(open(os.path.join(V, "contracts", p["id"], "meta.json")))
    note = p["note"] or ""
    if m.get("assumptions"):
        note += " Assumes: " + "; ".join(m["assumptions"]) + "."
    if m.get("bounded"):
        note += " Bounded (not counted as proved for all sizes): " + "; ".join(m["bounded"]) + "."
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 tools/check.py " + p["id"],
                   "thorough_cmd": "python3 tools/check.py " + p["id"] + " --thorough",
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "contract-based deductive verification (Kani contracts on the real functions, all inputs, discharged by CBMC/SAT)",
                   "level": m["level"], "level_note": note.strip()})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
json.dump({"version": 1,
  "setup_cmd": "bash tools/setup.sh",
  "hooks": {"guard": "cfg(kani) / cfg(rav1e_verif)",
            "enable": "cargo kani sets cfg(kani); the native replay sets RUSTFLAGS='--cfg rav1e_verif'; both need RAV1E_VERIF_DIR=/verif/build/stage/<id> (written by tools/check.py)",
            "source_commits": commits},
  "checks": checks, "not_applicable": NA,
  "notes": "See DESIGN.md. properties.jsonl and this file are written by tools/props.py."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(NA), "not applicable")
