"""Write properties.jsonl and MANIFEST.json from claims.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from claims import PROPS, NA, mech  # noqa: E402

PY = "/opt/venv/bin/python -B"


def line(p):
    a = {"files": p["files"], "mechanism": mech(*p["mech"])}
    if p.get("state"):
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
    if p.get("observe"):
        a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    assert len(p["title"]) <= 80, p["title"]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS + NA:
            fh.write(json.dumps(line(p)) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "gsim/props", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
                "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p.get("technique", "deterministic simulation with seeded interleavings and fault injection, against a reference model"),
                "level": "exploration",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": "not built yet"})
    na += [{"property": p["id"], "reason": p["reason"]} for p in NA]
    m = {"version": 1, "setup_cmd": f"{PY} -c \"import numpy, numba, attrs\"", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the seams are the interpreter's own (line events, thread contexts, lock constructors, import system, process start). See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
