#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from checks import L, NOT_APPLICABLE
def prop(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]}}
NOTE = "Holds on every case of the listed finite families, each executed on the real program and compared with an independent exact reference; says nothing beyond the bounds. Trusts the reference model, the compiler and the harness."
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for p in L: assert len(p["title"]) <= 80, p["id"]; o.write(json.dumps(prop(p)) + "\n")
        for n in NOT_APPLICABLE: o.write(json.dumps(prop(n)) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --self-test",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"] or NOTE} for p in L],
         "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as o: json.dump(m, o, indent=1); o.write("\n")
main()
