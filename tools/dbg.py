#!/usr/bin/env python3
"""dbg.py harness [hse options]: runs one harness in the engine with -v (development aid)"""
import json, sys, tempfile, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/..")
import check
from check import *
d = tempfile.mkdtemp(dir="/tmp/x"); spec = next((x for c in json.load(open(ROOT + "/checks.json")).values() if isinstance(c, dict) for x in c.get("harnesses", []) if x["harness"] == sys.argv[1]), {"harness": sys.argv[1]})
h = Harness(spec, os.environ.get("TIER", "quick"), d)
rc, o, e = h.build_bc()
if rc: print(e); sys.exit(1)
base = [CLANG + "++", "-std=c++11"] + BCF + ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]
incs = ["-I" + ROOT + "/rt/include", "-include", ROOT + "/rt/include/hse_prelude.hpp", "-I" + ROOT + "/harness"]
k = d
for c in (base + incs + [ROOT + "/rt/rt.cpp", "-o", k + "/rt.bc"], base + incs + [ROOT + "/rt/text_sym.cpp", "-o", k + "/text.bc"], base + incs + [f"-I{REPO}/dependencies/dr_libs", ROOT + "/rt/drwav.cpp", "-o", k + "/drwav.bc"], [CLANG] + BCF + [ROOT + "/rt/rt_c.c", "-o", k + "/rt_c.bc"]): sh(c, timeout=200)
os.makedirs(d + "/t", exist_ok=True)
subprocess.call([HSE, "-o", d + "/out.jsonl", "-v", "--tmp", d + "/t"] + sys.argv[2:] + [h.dir + "/h.bc"] + [k + x for x in ("/rt.bc", "/rt_c.bc", "/text.bc", "/drwav.bc")])
for l in open(d + "/out.jsonl"):
    if '"summary"' in l: print(l[:800])
    elif '"cand' in l or '"type":"unsup' in l or '"type":"undec' in l: print(l[:int(os.environ.get("CAND", "0"))])
shutil.rmtree(d)
