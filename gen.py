#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in props/*.txt (run by hand after editing them)."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def read(path):
    """blocks 'ID title' followed by 'key: text' lines (continuation lines are indented)"""
    out, cur, key = [], None, None
    for line in open(path):
        line = line.rstrip("\n")
        if not line.strip() or line.startswith("#"):
            continue
        m = re.match(r"^([A-Z]\d{2,3}) (.*)$", line)
        if m:
            cur = {"id": m.group(1), "title": m.group(2)}
            out.append(cur)
            continue
        m = re.match(r"^(\w+): (.*)$", line)
        if m:
            key = m.group(1)
            cur[key] = m.group(2)
        else:
            cur[key] += " " + line.strip()
    return out


def main():
    props, checks = [], []
    for b in read(os.path.join(HERE, "props.txt")):
        assert len(b["title"]) <= 80, b["title"]
        mech = []
        for x in b["mechanism"].split(";"):
            n, w = x.split("@")
            mech.append({"name": n.strip(), "where": w.strip()})
        props.append({"id": b["id"], "title": b["title"], "statement": b["statement"],
                      "quantifier": {"over": b["over"].split(), "text": b["quantifier"]},
                      "why_tests_cant": b["why"], "anchors": {"files": sorted({m["where"].split(":")[0] for m in mech}), "mechanism": mech,
                                                             "observe_at": [x.strip() for x in b["observe"].split(";")]}})
        checks.append({"property": b["id"], "quick_cmd": "python3-vt check.py --property %s --tier quick" % b["id"],
                       "thorough_cmd": "python3-vt check.py --property %s --tier thorough" % b["id"],
                       "technique": b.get("technique", "deductive verification: contracts on the real Python functions, obligations generated from the "
                                    "current source by symbolic execution with inferred loop invariants, discharged by a normal-form prover, z3 and cvc5"),
                       "level": b.get("level", "proof"), "level_note": b["note"]})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": []},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(props), "properties")


if __name__ == "__main__":
    main()
