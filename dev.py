import sys; sys.path.insert(0,'.')
from engine import base, api
import json
base.load_all()
V="-v" in sys.argv
names=[a for a in sys.argv[1:] if a[0]!="-"] or list(base.REG)
for n in names:
    r=api.run_contract(n)
    print(n, "paths",r["paths"],"restarts",r["restarts"],"err",r["error"],"wall %.1f"%r["wall"], {k:(round(v,2)) for k,v in r["stats"].items()})
    import collections
    cnt=collections.Counter(o["name"] for o in r["obligations"] if o["status"]!="proved")
    for k,q in cnt.most_common(25): print("     open",q,k)
    for h in r["hints"][:6]: print("     hint",h["obligation"],h["verdict"],h["goal"][:300] if V else "")
    for o in r["obligations"]:
        if V and o["status"]!="proved" or o["secs"]>2 or len(r["obligations"])<12: print("   ",o)
    if V:
        for h in r["hints"]: print("   hint",h)
    if r.get("trace"): print(r["trace"])
    print("   ", sum(o["status"]=="proved" for o in r["obligations"]),"/",len(r["obligations"]))
