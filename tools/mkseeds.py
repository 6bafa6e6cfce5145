#!/usr/bin/env python3
"""Creates and confirms planted bugs: mkseeds.py SPEC.py [ID...]   (scratch copy in /tmp/x/wt_<pid>, results in /verif/seeded)"""
import sys, os, subprocess, json, shutil, runpy, tempfile
ROOT = "/verif"
COMMON = '''#define HART_IMPLEMENTATION
%s#include "hart.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <unistd.h>
using namespace hart;
#define NEED(c) do { if (! (c)) { std::printf ("line %%d: %%s\\n", __LINE__, #c); std::exit (1); } } while (0)
inline void run (int n, const char* const* a) { CLIConfig::getInstance().initCommandLineArgs(); try { CLIConfig::getInstance().getCLIApp().parse (n, a); } catch (...) { std::exit (2); } }
// Plays back given samples
template <typename T> struct Play : public Signal<T> {
    std::vector<std::vector<T>> d; size_t p = 0;
    Play (std::vector<std::vector<T>> v) : d (v) {}
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (AudioBuffer<T>& o) override { for (size_t f = 0; f < o.getNumFrames(); ++f, ++p) for (size_t c = 0; c < o.getNumChannels(); ++c) o[c][f] = p < d[c].size() ? d[c][p] : (T) 0; }
    void reset() override { p = 0; }
    void represent (std::ostream& s) const override { s << "Play()"; }
    using SampleType = T;
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (Play);
};
// Records everything it is shown
template <typename T> struct Rec : public Matcher<T> {
    std::vector<std::vector<T>>* out; std::vector<std::string>* log; bool perBlock; bool ok; size_t fc, ff;
    Rec (std::vector<std::vector<T>>* o, bool b = true, bool k = true, size_t c = 0, size_t f = 0) : out (o), log (nullptr), perBlock (b), ok (k), fc (c), ff (f) {}
    void prepare (double r, size_t c, size_t b) override { if (log) log->push_back ("prepare " + std::to_string (c) + " " + std::to_string (b)); (void) r; }
    bool match (const AudioBuffer<T>& a) override { if (out) { out->resize (a.getNumChannels()); for (size_t c = 0; c < a.getNumChannels(); ++c) for (size_t f = 0; f < a.getNumFrames(); ++f) (*out)[c].push_back (a[c][f]); } return ok; }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { MatcherFailureDetails d; d.channel = fc; d.frame = ff; d.description = "recorded"; return d; }
    void represent (std::ostream& s) const override { s << "Rec()"; }
    using SampleType = T;
    HART_MATCHER_DEFINE_COPY_AND_MOVE (Rec);
};
inline double gone (double a, double b) { return std::abs (a - b); }
int demo();
int main() { try { return demo(); } catch (const std::exception& e) { std::printf ("unexpected: %%s\\n", e.what()); return 1; } }
'''
DEMO = '''#!/bin/bash
# Builds and runs the demonstration against the headers of the current directory; works in a scratch folder only.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++11 -w -O0 -I "$repo/include" -I "$repo/dependencies/CLI11" -I "$repo/dependencies/dr_libs" "$here/demo.cpp" -o "$d/demo" || exit 2
cd "$d" && timeout 30 ./demo
'''
def sh(c, cwd=None, timeout=900): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)

def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]; want = sys.argv[2:]
    wt = "/tmp/x/wt_%d" % os.getpid()
    bad = []
    for s in spec:
        if want and s["id"] not in want: continue
        d = f"{ROOT}/seeded/{s['id']}"
        if not want and os.path.exists(d + "/meta.json"): continue
        sh(f"rm -rf {wt}; cp -a /repo {wt}")
        for fn, old, new in s["edits"]:
            p = f"{wt}/{fn}"; t = open(p, newline="").read(); crlf = "\r\n" in t
            u = t.replace("\r\n", "\n")
            if u.count(old) < 1 or (u.count(old) > 1 and "nth" not in s): print(s["id"], "edit does not match", fn, u.count(old)); bad.append(s["id"]); break
            n = s.get("nth", 0); parts = u.split(old); u = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", newline="").write(u.replace("\n", "\r\n") if crlf else u)
        else:
            diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.cpp", "w").write(COMMON % s.get("pre", "") + s.get("top", "") + "int demo()\n{\n" + s["demo"].strip("\n") + "\n    return 0;\n}\n" if "full" not in s else COMMON % s.get("pre", "") + s["full"])
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = sh(f"bash {d}/demo.sh", cwd="/repo"); b = sh(f"bash {d}/demo.sh", cwd=wt)
            ap = sh(f"git apply --check {d}/patch.diff", cwd="/repo").returncode
            # the repository's own build and tests, in the scratch copy
            bl = sh(f"sed 's#/repo#{wt}#g' /opt/vp/build.sh > {wt}/b.sh && rm -rf {wt}/_build && bash {wt}/b.sh", cwd=wt)
            t = sh(f"mkdir -p {wt}/_build/test-run && python3 /opt/vp/run_hart.py {wt}/_build/HART_Tests {wt}/tests/data {wt}/_build/test-run; cat {wt}/_build/test-run/results.txt")
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = [l[5:] for l in t.stdout.split("\n") if l.startswith("PASS ")]
            missing = [x for x in stable if x not in passed]
            # blame: only lines of the original repository may change
            ok = a.returncode == 0 and b.returncode not in (0, 2) and ap == 0 and bl.returncode == 0 and not missing
            print(("ok   " if ok else "BAD  ") + s["id"], s["property"], "demo", a.returncode, b.returncode, "apply", ap, "build", bl.returncode, "missing", missing, (b.stdout.strip().split("\n") or [""])[-1][:100] if ok else (a.stdout + a.stderr)[-600:] + " || " + (b.stdout + b.stderr)[-600:] + bl.stdout[-300:], flush=True)
            if not ok: bad.append(s["id"]); shutil.rmtree(d)
    sh(f"rm -rf {wt}")
    print("bad:", bad)
main()
