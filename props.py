#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json:  ./props.py  rewrites both."""
import json
import os

import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
from props_data import P, NA  # noqa: E402


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps(d) + "\n")
    na = {i for i, _ in NA}
    checks = []
    for p in P:
        if p["id"] in na:
            continue
        c = {"property": p["id"],
             "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
             "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
             "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
        if not p["thorough"]:
            del c["thorough_cmd"]
        checks.append(c)
    m = {"version": 1, "setup_cmd": "true", "checks": checks,
         "not_applicable": [{"property": i, "reason": r} for i, r in NA],
         "notes": "Symbolic execution of the elaborated FHDL of /repo into SMT (fv/), decided by z3; see DESIGN.md. "
                  "No hooks in /repo are needed. properties.jsonl and this file are generated by props.py."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
