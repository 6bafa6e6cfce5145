#!/usr/bin/env python3
"""Run checks against planted changes: caught.py [seed ids...] [--jobs N] [--all-checks]
Each change is applied to a scratch copy of /repo; prints which check caught it."""
import json, os, subprocess, sys, shutil, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
seeds = [s for a in args for s in sorted(os.listdir(V + "/seeded")) if s.startswith(a)] if args else sorted(os.listdir(V + "/seeded"))
root = "/tmp/x/caught"; os.makedirs(root, exist_ok=True)
out = {}
for s in seeds:
    d = f"{V}/seeded/{s}"; meta = json.load(open(d + "/meta.json"))
    props = [meta["property"]]
    for a in sys.argv[1:]:
        if a.startswith("--prop="): props = a[7:].split(",")
    if "--all-checks" in sys.argv: props = sorted(json.load(open(V + "/checks.json")).keys() - {"_na"})
    w = f"{root}/{s}"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if r.returncode: print(s, "DOES NOT APPLY", r.stderr); continue
    for p in props:
        t = time.time()
        r = subprocess.run([V + "/check.py", p, "--repo", w], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = r.returncode == 1 and any(f"property={p} " in l for l in v)
        print(f"{s:28} {p} {'CAUGHT' if ok else 'missed (exit %d)' % r.returncode} {time.time()-t:.1f}s", flush=True)
        if p == meta["property"]:
            try: book = json.load(open(V + "/tools/caught.json"))
            except Exception: book = {}
            book[s] = "caught" if ok else "missed"; json.dump(book, open(V + "/tools/caught.json", "w"), indent=0, sort_keys=True); open(V + "/tools/caught.json", "a").write("\n")
        if not ok:
            print("   ", r.stdout.strip().splitlines()[-1][:300] if r.stdout.strip() else r.stderr[-500:])
    shutil.rmtree(w, ignore_errors=True)
