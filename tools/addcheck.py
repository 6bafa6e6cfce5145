#!/usr/bin/env python3
"""addcheck.py ID harness[:quick:thorough[:key=val...]] ...   (re)defines the harness list of a property in checks.json"""
import json, sys, os
p = os.path.dirname(os.path.abspath(__file__)) + "/../checks.json"
d = json.load(open(p)); hs = []
for a in sys.argv[2:]:
    f = a.split(":"); h = {"harness": f[0], "budget": {"quick": int(f[1]) if len(f) > 1 and f[1] else 60, "thorough": int(f[2]) if len(f) > 2 and f[2] else 800}}
    for kv in f[3:]:
        k, v = kv.split("=", 1); h[k] = json.loads(v) if v[0] in '[{tf0123456789"' else v
    hs.append(h)
e = d.get(sys.argv[1], {}); e["harnesses"] = hs; d[sys.argv[1]] = e
json.dump({k: d[k] for k in sorted(d)}, open(p, "w"), indent=1); open(p, "a").write("\n")
