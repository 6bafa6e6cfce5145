#!/usr/bin/env python3
"""cov.py ID: undecided / unsupported / unconfirmed / limits of the last run (development aid)"""
import json, sys
d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
def f(o):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ("undecided", "unsupported", "unconfirmed", "limits", "encoder_mismatches", "unreached_assertions") and isinstance(v, list):
                for x in v[:6]: print(k, json.dumps(x)[:400])
            else: f(v)
f(d)
for h, e in d["coverage"]["engines"].items(): print(h, {k: v for k, v in e.items() if k in ("seconds", "paths", "instructions", "z3_s", "ext_s", "q_z3", "limit", "stop")})
