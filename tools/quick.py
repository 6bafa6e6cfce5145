#!/usr/bin/env python3
"""quick.py SPEC.py [names]: textual changes (name, property, file, old, new[, more edits]) tried against the property's check, without demonstration.
A sieve for ideas: what a check misses becomes a seed (mkseeds.py) or is explained."""
import sys, os, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
for b in ns["B"]:
    name, prop, *ed = b
    if only and not any(name.startswith(o) for o in only): continue
    w = f"/tmp/x/quick_{name}"; shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo/include", w + "/include"); shutil.copytree("/repo/dependencies", w + "/dependencies")
    bad = False
    for i in range(0, len(ed), 3):
        p = w + "/include/" + ed[i]; s = open(p).read()
        if s.count(ed[i + 1]) < 1: print(name, "TEXT NOT FOUND", ed[i + 1][:80]); bad = True; break
        open(p, "w").write(s.replace(ed[i + 1], ed[i + 2]) if ed[i + 1].startswith("\0") else s.replace(ed[i + 1], ed[i + 2], 1))
    if bad: continue
    for pr in prop.split(","):
        t = time.time(); r = subprocess.run([V + "/check.py", pr, "--repo", w], capture_output=True, text=True)
        ok = r.returncode == 1 and f"VIOLATION property={pr} " in r.stdout
        print(f"{name:30} {pr} {'CAUGHT' if ok else 'missed (exit %d)' % r.returncode} {time.time()-t:.0f}s", flush=True)
        if not ok: print("    ", (r.stdout.strip().splitlines() or ["?"])[-1][:260], r.stderr[-300:], flush=True)
    shutil.rmtree(w)
