"""development helper: the per-property section of DESIGN.md from the contracts themselves (run by hand: python3-vt mkdesign.py)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("AMAT_REPO", "/repo")
from engine import base  # noqa
base.load_all()
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
seconds = {}
try:
    seconds = json.load(open(os.path.join(HERE, "cost.json")))
except OSError:
    pass
out = []
for p in props:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["id"] in seconds:
        out.append("Cost of the quick check: about %s s, %s obligations.\n" % tuple(seconds[p["id"]]))
    for n, c in sorted(base.REG.items()):
        if p["id"] in c.props:
            doc = " ".join((c.fn.__doc__ or "").split())
            out.append("- `%s`%s — %s. Functions under contract: %s.\n" % (n, " **(bounded)**" if c.bounded else "", doc.rstrip("."),
                                                                            ", ".join("`%s`" % t for t in c.targets)))
    out.append("\n")
s = open(os.path.join(HERE, "DESIGN.md")).read()
a, b = "<!-- contracts:begin -->", "<!-- contracts:end -->"
s = s[:s.index(a) + len(a)] + "\n" + "".join(out) + s[s.index(b):]
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
