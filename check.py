#!/usr/bin/env python3
"""Decides one property of HART by symbolic execution of the real code (see DESIGN.md).

  check.py <ID> [--tier quick|thorough] [--jobs N] [--keep] [--repo DIR]
  check.py --replay FILE       replays a recorded counterexample against the real code

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken, and the
counterexample reproduced against the natively compiled real code.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HSE_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
HSE = ROOT + "/build/hse"
BCF = ("-O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off "
       "-fno-builtin -emit-llvm -c -Wno-everything").split()
NATF = "-std=c++11 -g1 -O0 -w -ffp-contract=off -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr -fno-sanitize-recover=all".split()

def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return "timeout", o, e

def load_checks():
    with open(ROOT + "/checks.json") as f:
        return json.load(f)

class Harness:
    def __init__(self, spec, tier, scratch):
        self.name = spec["harness"]; self.src = f"{ROOT}/harness/{self.name}.cpp"
        self.defs = ["-D" + d for d in spec.get("defs", [])] + [f"-DHSE_TIER={1 if tier == 'quick' else 2}"]
        self.tier, self.spec = tier, spec
        tag = self.name + "_" + hashlib.sha1(" ".join(self.defs).encode()).hexdigest()[:6]
        self.dir = f"{scratch}/{tag}"; os.makedirs(self.dir, exist_ok=True)
        self.cli = spec.get("cli", False)   # replays use the real CLI11 (slow to compile) only where the option parsing is the subject
        self.native_ok = {}

    def inc(self, symbolic):
        r = ["-I" + ROOT + "/harness"]
        if symbolic: r += ["-I" + ROOT + "/rt/include", "-I" + ROOT + "/rt/include/cli", "-include", ROOT + "/rt/include/hse_prelude.hpp"]
        else: r += ["-DSIGNALSMITH_PLOT_H", "-include", ROOT + "/rt/include/hse_plot.hpp"] + ([f"-I{REPO}/dependencies/CLI11"] if self.cli else ["-I" + ROOT + "/rt/include/cli"])
        return r + [f"-I{REPO}/include", f"-I{REPO}/dependencies/dr_libs"]

    def build_bc(self):
        return sh([CLANG + "++", "-std=c++11"] + BCF + ["-D_GLIBCXX_EXTERN_TEMPLATE=0"] + self.defs + self.inc(True) + [self.src, "-o", self.dir + "/h.bc"], timeout=300)

    def build_native(self, kind="asan"):
        if kind in self.native_ok: return self.native_ok[kind]
        fl = NATF if kind == "asan" else "-std=c++11 -g -O0 -w -ffp-contract=off".split()
        obj = []
        def one(a):
            i, s = a; o = f"{self.dir}/{kind}{i}.o"
            rc, out, err = sh(["g++"] + fl + self.defs + self.inc(False) + ["-c", s, "-o", o], timeout=600)
            return rc, err, o
        with cf.ThreadPoolExecutor(3) as ex: res = list(ex.map(one, enumerate([self.src, ROOT + "/rt/native.cpp", ROOT + "/rt/drwav.cpp"])))
        for rc, err, o in res:
            if rc != 0: self.native_ok[kind] = (False, err); return self.native_ok[kind]
            obj.append(o)
        rc, out, err = sh(["g++"] + fl + obj + ["-o", f"{self.dir}/{kind}.exe"], timeout=300)
        self.native_ok[kind] = (rc == 0, err)
        return self.native_ok[kind]

    def run_native(self, inputs, kind="asan", timeout=20):
        d = tempfile.mkdtemp(dir=self.dir); f = d + "/inputs.txt"
        with open(f, "w") as h:
            for i in inputs: h.write(f"{i['name']} {i['v']}\n")
        os.makedirs(d + "/cwd")
        env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        cmd = [f"{self.dir}/{kind}.exe", f, d + "/obs.txt"]
        if kind == "vg": cmd = ["valgrind", "-q", "--error-exitcode=98", "--track-origins=no"] + cmd
        rc, out, err = sh(cmd, timeout=timeout, cwd=d + "/cwd", env=env)
        obs = open(d + "/obs.txt").read().split("\n")[:-1] if os.path.exists(d + "/obs.txt") else []
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err, obs

def f_of(kind, v):
    import struct
    n = int(v, 16)
    if kind == "f32": return repr(struct.unpack("<f", struct.pack("<I", n & 0xffffffff))[0])
    if kind == "f64": return repr(struct.unpack("<d", struct.pack("<Q", n))[0])
    return str(n)

def show(inputs): return {f"{k}:{i['name']}": f_of(i["kind"], i["v"]) for k, i in enumerate(inputs)}

def obs_mismatch(exp, got):
    import struct
    g = []
    for l in got:
        t, rest = l.split(" ", 1); n, v = rest.rsplit(" ", 1); g.append((n, t, int(v, 16)))
    e = [(n, t, int(v, 16)) for n, t, v in exp]
    if len(e) != len(g): return f"{len(e)} observations predicted, {len(g)} made"
    for (n, t, v), (n2, t2, v2) in zip(e, g):
        if (n, t) != (n2, t2): return f"{n} vs {n2}"
        if v != v2:
            nan = lambda x: (x & 0x7fffffff) > 0x7f800000 if t == "f32" else (x & (2**63 - 1)) > 0x7ff0000000000000
            if t != "u64" and nan(v) and nan(v2): continue
            return f"{n}: predicted {f_of(t, hex(v))}, real {f_of(t, hex(v2))}"
    return None

def native_verdict(kind, rc, err):
    """None: real code behaves. otherwise a description of what the real code did wrong"""
    if rc == 0: return None
    if rc == 78 or rc == 2: return None
    if rc == "timeout": return "does not terminate (native run over 20 s, against a fraction of a second for any run that ends)"
    if rc == 77:
        m = re.search(r"HSE-FAIL: (.*)", err); return "check failed: " + (m.group(1) if m else "?")
    if rc == 99 or "ERROR: AddressSanitizer" in err or "runtime error:" in err:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", err)
        return "sanitizer: " + (re.sub(r"0x[0-9a-f]+", "ADDR", re.sub(r"==\d+==", "", m.group(1))) if m else err[-300:])
    if rc == 98: return "valgrind: use of uninitialised value"
    if rc == -6: return "aborted (uncaught exception / terminate): " + err[-200:].strip()
    return f"crashed (exit {rc}): " + err[-200:].strip()

def known_findings(pid):
    r = []
    try:
        for l in open(ROOT + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    except OSError: pass
    return r

def run(pid, tier, jobs, keep):
    t0 = time.time(); checks = load_checks(); spec = checks[pid]
    scratch = tempfile.mkdtemp(prefix=f"hse_{pid}_")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not os.path.exists(HSE):
        sh(["make", "-C", ROOT + "/engine"], timeout=1500)
    hs = [Harness(s, tier, scratch) for s in spec["harnesses"] if tier == "thorough" or not s.get("thorough_only")]
    replay_dir = f"{ROOT}/replays/{pid}"; shutil.rmtree(replay_dir, ignore_errors=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], bounds=[], functions_encoded=[], assertions=[], engines={},
               solver=dict(queries=0, discharged_by_simplifier=0, by_interval=0, by_model_reuse=0, by_unsat_cache=0, z3=0, external_portfolio=0, sat=0, unsat=0, unknown=0, uf_refinements=0, z3_seconds=0.0, external_seconds=0.0),
               undecided=[], unconfirmed=[], unsupported=[], limits=[], encoder_mismatches=[], unreached_assertions=[], exhaustive=True)
    violations = []; known_hit = {}
    pool = cf.ThreadPoolExecutor(16)
    try:
        rt = [(["clang"], None)]
        def crt(args): return sh(args, timeout=300)
        base = [CLANG + "++", "-std=c++11"] + BCF + ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]
        incs = ["-I" + ROOT + "/rt/include", "-include", ROOT + "/rt/include/hse_prelude.hpp", "-I" + ROOT + "/harness"]
        jobsl = [pool.submit(crt, base + incs + [ROOT + "/rt/rt.cpp", "-o", scratch + "/rt.bc"]),
                 pool.submit(crt, base + incs + [ROOT + "/rt/text_sym.cpp", "-o", scratch + "/text.bc"]),
                 pool.submit(crt, base + incs + [f"-I{REPO}/dependencies/dr_libs", ROOT + "/rt/drwav.cpp", "-o", scratch + "/drwav.bc"]),
                 pool.submit(crt, [CLANG] + BCF + [ROOT + "/rt/rt_c.c", "-o", scratch + "/rt_c.bc"])]
        bcs = [pool.submit(h.build_bc) for h in hs]
        nats = [pool.submit(h.build_native) for h in hs]
        for j in jobsl + bcs:
            rc, o, e = j.result()
            if rc != 0:
                print(e[-3000:], file=sys.stderr); print(f"check.py: symbolic build failed for {pid}", file=sys.stderr); return 2
        funcs = set()
        for h, nat in zip(hs, nats):
            budget = h.spec.get("budget", {}).get(tier, 60 if tier == "quick" else 600)
            out = h.dir + "/out.jsonl"; tmp = h.dir + "/tmp"; os.makedirs(tmp, exist_ok=True)
            cmd = [HSE, "-o", out, "-t", str(budget), "-j", str(jobs), "--tmp", tmp, "--samples", str(h.spec.get("samples", 24 if tier == "quick" else 120)),
                   "--z3-secs", str(h.spec.get("z3", 2)), "--ext-secs", str(h.spec.get("ext", 10)), "--check-secs", str(h.spec.get("check", {}).get(tier, 40 if tier == "quick" else 240))]
            cmd += h.spec.get("args", []) + [h.dir + "/h.bc", scratch + "/rt.bc", scratch + "/rt_c.bc", scratch + "/text.bc", scratch + "/drwav.bc"]
            rc, o, e = sh(cmd, timeout=budget + 120)
            recs = []
            if os.path.exists(out):
                for l in open(out, errors="replace"):
                    try: recs.append(json.loads(l))
                    except ValueError: pass
            summ = next((r for r in recs if r["type"] == "summary"), None)
            if summ is None:
                print(f"check.py: engine ended without a summary ({rc}): {e[-500:]}", file=sys.stderr); cov["exhaustive"] = False
                summ = {}
            src = open(h.src).read()
            cov["bounds"] += [f"{h.name}: {m.strip()}" for m in re.findall(r"//\s*BOUNDS?:\s*(.*)", src)]
            cov.setdefault("stubs_and_assumptions", []).extend(f"{h.name}: {m.strip()}" for m in re.findall(r"//\s*ASSUME:\s*(.*)", src))
            cov["states"] += summ.get("paths", 0); cov["transitions"] += summ.get("instructions", 0)
            s = cov["solver"]
            for a, b in (("queries", "queries"), ("discharged_by_simplifier", "q_trivial"), ("by_interval", "q_interval"), ("by_model_reuse", "q_modelpool"), ("by_unsat_cache", "q_cache"), ("z3", "q_z3"), ("external_portfolio", "q_ext"), ("sat", "sat"), ("unsat", "unsat"), ("unknown", "unknown"), ("uf_refinements", "uf_lemmas"), ("z3_seconds", "z3_s"), ("external_seconds", "ext_s")):
                s[a] = round(s[a] + summ.get(b, 0), 2)
            defs = {r["slot"]: r["msg"] for r in recs if r["type"] == "checkdef"}
            for c in summ.get("checks", []):
                cov["assertions"].append(dict(harness=h.name, assertion=defs.get(c["slot"], "?"), reached=c["reached"], proven=c["proven"], by_rewriting=c["syntactic"], unknown=c["unknown"], failed=c["failed"]))
            reached = {defs.get(c["slot"]) for c in summ.get("checks", [])}
            lits = re.findall(r'hse_check \([^\n]*?,\s*"((?:[^"\\]|\\.)*)"\);', src)
            cov["unreached_assertions"] += [f"{h.name}: {m}" for m in sorted(set(lits)) if m not in reached]
            funcs |= set(summ.get("functions", []))
            cov["engines"][h.name] = {k: v for k, v in summ.items() if k not in ("checks", "functions", "type")}
            if summ.get("stop", 0) or summ.get("limit", 0) or summ.get("unsupported", 0) or summ.get("engine_errors", 0) or summ.get("unknown", 0): cov["exhaustive"] = False
            for r in recs:
                if r["type"] == "undecided": cov["undecided"].append({"harness": h.name, "msg": r["msg"], "at": r.get("at", "")[:160]})
                elif r["type"] == "unsupported": cov["unsupported"].append({"harness": h.name, "msg": r["msg"][:200]})
                elif r["type"] == "engine_error": cov["unsupported"].append({"harness": h.name, "msg": "engine: " + str(r.get("msg", ""))[:200]})
            nok, nerr = nat.result()
            if not nok:
                print(nerr[-3000:], file=sys.stderr); print(f"check.py: native build failed for {h.name}", file=sys.stderr); return 2
            # 1. candidates: replay against the real code
            cands = [r for r in recs if r["type"] == "candidate" or (r["type"] == "limit" and r.get("inputs") is not None)]
            seen = {}
            todo = []
            cands.sort(key=lambda c: -c.get("instructions", 1 << 62))
            for c in cands:
                c.setdefault("kind", "limit"); c.setdefault("msg", "limit")
                k = (c["kind"], c["msg"]); seen[k] = seen.get(k, 0) + 1
                if seen[k] <= (2 if c["kind"] == "limit" else 6): todo.append(c)
            def rep(c):
                if c["kind"] == "uninit":
                    ok, _ = h.build_native("vg")
                    return c, "vg", h.run_native(c["inputs"], "vg", 60)
                return c, "asan", h.run_native(c["inputs"], timeout=30 if c["kind"] == "limit" else 20)
            if any(c["kind"] == "uninit" for c in todo): h.build_native("vg")
            for c, kind, (rc, o, e, obs) in pool.map(rep, todo):
                v = native_verdict(kind, rc, e)
                if v is None or (c["kind"] == "limit" and rc != "timeout" and rc != 77):
                    if c["kind"] == "limit": cov["limits"].append({"harness": h.name, "inputs": show(c["inputs"])})
                    else: cov["unconfirmed"].append({"harness": h.name, "kind": c["kind"], "msg": c["msg"], "at": c.get("at", "")[:200], "inputs": show(c["inputs"])})
                    continue
                violations.append((h, c["kind"], c["msg"], v, c["inputs"], kind))
            # 2. sample paths: the real code must make exactly the observations the symbolic paths predict
            samples = [r for r in recs if r["type"] == "path"]
            for r, (rc, o, e, obs) in zip(samples, pool.map(lambda r: h.run_native(r["inputs"]), samples)):
                v = native_verdict("asan", rc, e)
                if v: violations.append((h, "native", "sample path", v, r["inputs"], "asan")); continue
                if rc != 0: cov["encoder_mismatches"].append({"harness": h.name, "what": f"replay ended with {rc}: {e[-160:]}"}); continue
                m = obs_mismatch(r["obs"], obs)
                if m: cov["encoder_mismatches"].append({"harness": h.name, "what": m, "inputs": show(r["inputs"])})
                else:
                    cov["traces_validated_against_impl"] += 1
                    if len(cov["samples"]) < 6: cov["samples"].append({"harness": h.name, "inputs": show(r["inputs"]), "path_condition_size": r.get("pc"), "observations": [[n, f_of(t, x)] for n, t, x in r["obs"]][:12]})
            for r in samples[:0]: pass
        cov["functions_encoded"] = sorted(f for f in funcs if "hart" in f or "drwav" in f)[:400]
        cov["functions_encoded_count"] = len(funcs)
        if cov["undecided"] or cov["unsupported"] or cov["unconfirmed"] or cov["limits"]: cov["exhaustive"] = False
        kf = known_findings(pid)
        n_viol = 0; lines = []
        os.makedirs(replay_dir, exist_ok=True)
        reported = set()
        for h, kind, msg, v, inputs, bk in violations:
            key = next((k for k in kf if k[0] in v or k[0] in msg), None)
            if key: known_hit[key[0]] = key[1]; continue
            n_viol += 1
            if (h.name, msg, v) in reported: continue
            reported.add((h.name, msg, v))
            p = f"{replay_dir}/{len(reported)}.json"
            with open(p, "w") as f:
                json.dump({"property": pid, "harness": h.name, "tier": tier, "spec": h.spec, "kind": kind, "check": msg, "native": v, "build": bk, "inputs": inputs, "readable": show(inputs)}, f, indent=1)
            lines.append(f"VIOLATION property={pid} replay={p}")
            print(f"  {h.name}: {msg}: {v}\n    inputs: {json.dumps(show(inputs))}"[:1500])
        for k, t in kf: print(f"KNOWN-FINDING: property={pid} {t}")
        for l in lines: print(l)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "violations": n_viol, "wall_s": round(time.time() - t0, 2),
              "assumptions": spec.get("assumptions", []) + ["LLVM IR of clang 18 -O1 -ffp-contract=off (x86-64) stands for the compiled code", "libm functions are uninterpreted with range/congruence axioms, refined with the true libm values of counterexample models",
                 "std::iostream, dr_wav's FILE layer, CLI11 and signalsmith/plot are replaced by stand-ins (/verif/rt); every counterexample is replayed against a native build with the real ones"]}
        cov["known_findings_seen"] = list(known_hit)
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open(f"{ROOT}/evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1)
        s = cov["solver"]
        proven = sum(a["proven"] for a in cov["assertions"]); reach = sum(a["reached"] for a in cov["assertions"])
        print(f"{pid} {tier}: {len(cov['assertions'])} assertions, {proven}/{reach} instances proven, {cov['states']} paths, {s['queries']} queries ({s['unknown']} unknown), {cov['traces_validated_against_impl']} traces validated, "
              f"{len(cov['undecided'])} undecided, {len(cov['unsupported'])} unsupported, {len(cov['limits'])} limits, {len(cov['unconfirmed'])} unconfirmed, {len(cov['encoder_mismatches'])} mismatches, {len(cov['unreached_assertions'])} unreached, {n_viol} violations, {ev['wall_s']} s")
        return 1 if n_viol else 0
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        if not keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print("kept", scratch)

def replay(path):
    r = json.load(open(path)); scratch = tempfile.mkdtemp(prefix="hse_replay_")
    try:
        h = Harness(r["spec"], r["tier"], scratch); ok, err = h.build_native(r["build"])
        if not ok: print(err); return 2
        rc, o, e, obs = h.run_native(r["inputs"], r["build"], 60)
        print(json.dumps(show(r["inputs"]), indent=1)); print(e[-4000:]); v = native_verdict(r["build"], rc, e)
        print("REPRODUCED: " + v if v else "not reproduced"); return 1 if v else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--replay"); ap.add_argument("--repo")
    a = ap.parse_args()
    if a.repo: REPO = a.repo
    sys.exit(replay(a.replay) if a.replay else run(a.id, a.tier if a.tier in ("quick", "thorough") else "quick", a.jobs, a.keep))
