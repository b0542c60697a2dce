#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 props.py rewrites both)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech=None, level=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or ["the return value and output parameters of the public functions"]}, _t=tech, _l=level, _n=note, _na=na))
G = "libm/src/math/generic/"
M = "libm/src/math/"
exec(open(os.path.join(HERE, "props_table.py")).read())
def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "./build_absint.sh", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the checks read the unmodified sources. Everything is decided on the LLVM IR, the type-checked program or the tables of the current tree; see DESIGN.md."}
    for p in P:
        if p["_na"]: m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        else: m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}", "technique": p["_t"], "level": p["_l"], "level_note": p["_n"]})
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
if __name__ == "__main__": main()
