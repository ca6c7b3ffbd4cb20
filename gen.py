#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json-like entries below."""
import json, os
from props import PROPS, NA, NOTES

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                     "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
         "notes": NOTES}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
