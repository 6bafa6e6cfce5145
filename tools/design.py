#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + one section per property + design_tail.md (bounds come from the harnesses, planted changes from seeded/ and tools/caught.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = V + "/tools/"
M = dict(
C01="The host is run with a recording DSP, a table signal whose samples are all symbolic and recording matchers. Asserted: number, sizes, order and channel counts of the blocks; each input block holds exactly the table's samples; each matcher is shown exactly the DSP's output (bit-equal, NaN included), in blocks or whole. A second harness makes the duration symbolic over all doubles of a range and compares the frame count with round(duration x rate). The tests use a handful of sizes; here the last-block arithmetic is covered for all of them and the data flow for all sample values.",
C02="Event log of every call on probe DSP / signal / chained effects / matchers, checked as a grammar (reset, prepare with the run's settings, values in order, then audio). Symbolic parameter values must arrive bit-equal and in order. `rerun` runs real signals, effects and envelopes two or three times with the same objects and demands equality with the first run for all symbolic samples.",
C03="Two or three checks of symbolic kinds against limit matchers whose verdict depends on symbolic samples and symbolic limits. The oracle computes which of them fail from the table directly; the failure list, the exception and the (non-)continuation must agree for every combination of values.",
C04="One failing check with a matcher that blames the first sample above a symbolic limit; the captured report is tokenised into texts and (symbolic value, decimals) pairs and compared with label, kind, condition, channel, frame, time = absolute frame / rate, value, level.",
C05="Each setter is called with every double / every 64-bit integer; refused iff the property says so, with the right exception type. process() is called with all combinations of faults in probes and symbolic durations; the refusal has to be the right one for at least one present fault and no audio may have flowed.",
C06="All save modes x kinds of checks whose failure depends on symbolic samples. Afterwards the (in-memory) file system and the plot recorder are inspected: exists iff it should; content read back by the real WavFile / compared with the DSP output.",
C07="A small state machine: every sequence of operations on two real buffers next to plain vector-of-vector models with symbolic samples; after every step sizes, samples, channel pointers and independence are compared. Compiled with _GLIBCXX_ASSERTIONS so that indexing past a vector's end is a violation too.",
C08="Symbolic channel / start / length over all 64-bit values against a maximum computed from the symbolic samples (bit-exact); refused iff outside, with an index error.",
C09="GainLinear / GainDb with symbolic samples and symbolic gain; output sample = input x gain compared exactly (same product in the sample type; products of symbolic floats are decided structurally or by SMT) or within one rounding when evaluated in a wider type; layouts, parameters and in-place processing are symbolic choices. `env_gain` repeats it for enveloped gains on all layouts.",
C10="Symbolic samples against the definition min(max(x, -t), t), t from the effect's own decibel conversion, for a set of concrete and all symbolic thresholds; each channel separately.",
C11="User effects record the envelope values they are given; `TableEnvelope` has symbolic values, so frame n must get table entry n, bit-equal, across blocks and runs. `env_attach` explores all histories of attach / copy / move / assign / run / reset on two effects. `env_gain` covers the shipped gains' own use of the envelope.",
C12="`env_segments`: symbolic start and target values at exactly representable times; the value must equal the curve (real-valued definition, tolerance by the affine error analysis), stay inside the segment's interval, hit the end value. `env_rates`: odd durations at audio rates within 1e-7 relative.",
C13="Same symbolic envelope rendered in one block and in every split, after reset at every prefix, and as copy at every prefix; equality is structural (the same term) for most instances, SMT else.",
C14="The same signal rendered at once and in every split with one object each; equality of all samples for symbolic phases, seeds and wav samples. Buffers are pre-filled with a marker, so an unwritten sample is noticed.",
C15="As C14 with reset / copy / move at every prefix and interleaved use of the two objects.",
C16="Samples against sin(phase + 2 pi n f / rate) with the real-valued tolerance; symbolic phases in windows (the solver refutes the bound using sin's Lipschitz constant in the affine analysis, refined by true values) and concrete phases / frequencies / rates. Objects have a past (see section 2).",
C17="Samples against a phase that is accumulated from the frequency law frame by frame (tolerance 1e-6 / 1e-8), direction changes and end frame by integer arithmetic; symbolic phase and frequencies within windows. Refusals over all doubles.",
C18="Wav files are built byte by byte with symbolic sample bytes and parsed by the real dr_wav inside the engine; samples must come back exactly (float) or as the PCM value's conversion; loop position by modulo. Every 16-byte file is refused; wrong channel counts and rates too.",
C19="The standard generator is an uninterpreted function of (seed, position); the oracle draws from a generator of its own, so 'the next values of the seed's sequence, never reusing one' is an equality of terms for all seeds.",
C20="Chains of stateful user effects attached in every way, all splits, copies and moves before/after playing; the oracle applies the effects' definitions to the symbolic table in order.",
C21="Verdict of the real matcher against the definition evaluated on symbolic reference, observed samples and tolerance (NaN and infinities included) - an iff decided by SMT; details and text tokens likewise. Matchers have a past.",
C22="Verdict iff | max|x| - 10^(dB/20) | <= tolerance for symbolic samples and tolerance; reported position holds the largest sample; level printed.",
C23="Verdict iff all |x| <= 10^(dB/20) + tolerance, as C22.",
C24="The helper functions over their whole ranges of doubles and floats, against their definitions (pow / log10 shared as uninterpreted functions with monotonicity facts at the ends), remainder-based wrapping by SMT and windowed affine analysis.",
C25="Real WavWriter and real dr_wav writing to the in-memory file system, read back with real WavFile: for every float/double sample value the read-back value is within one and a half steps of the clipped value.",
C26="Registry with 0..4 tasks whose behaviours depend on symbolic data; the captured console output is parsed and compared with what happened: order, verdict per task, own messages, totals, exit code.",
C27="Every option and every pair of options with symbolic characters/digits: the getters and the number formats must change exactly for these. Symbolic build uses a CLI11 stand-in that keeps option names/defaults/bindings; replays parse with the real CLI11.",
C28="plotData and the host with a recording plot library: lines, points, values bit-equal, times within rounding of frame / rate.",
C29="Event log and identity of probe objects: copies, moves, which object processed, what is returned, state of the caller's objects (symbolic values inside them) after the run.",
C30="The harness is compiled with HART_DO_NOT_THROW_EXCEPTIONS=1: for every refused value the error is printed, nothing is thrown and the observable state afterwards is that before the call (checked by a following run / by comparing buffers).",
C31="isAbsolutePath / toAbsolutePath for all short byte strings and data roots; end-to-end reading and saving with decoy files of the same name in every other place.",
C32="Text forms as token streams with symbolic constructor arguments; after any value change, run, reset, copy or move they must still be the tokens of the constructor's values.",
C33="The literal operators called on symbolic 64-bit integers and on x87 long doubles built from them; results compared with the definition by linear forms with rounding-error bounds, one path per binade (the form is exact in the literal, so no sampling of values).",
C34="A source file using every macro, compiled as is: global constructors register the tasks, HART_RUN_ALL_TESTS runs them, symbolic numbers decide which checks fail; printed report, execution trace and result are compared with what the conditions say. Also compiled with HART_DO_NOT_THROW_EXCEPTIONS=1.",
)
def main():
    checks = json.load(open(V + "/checks.json")); props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    caught = json.load(open(T + "caught.json")) if os.path.exists(T + "caught.json") else {}
    seeds = {}
    for s in sorted(os.listdir(V + "/seeded")): seeds.setdefault(json.load(open(f"{V}/seeded/{s}/meta.json"))["property"], []).append(s)
    out = [open(T + "design_head.md").read()]
    for p in props:
        i = p["id"]
        out.append(f"### {i} {p['title']}\n\n{M.get(i, '(to be written)')}\n")
        for h in checks.get(i, {}).get("harnesses", []):
            t = open(f"{V}/harness/{h['harness']}.cpp").read().split("\n")
            b = [l[10:].strip() for l in t if l.startswith("// BOUND:")]; a = [l[11:].strip() for l in t if l.startswith("// ASSUME:")]
            out.append(f"* `{h['harness']}` - bounds: " + " ".join(b) + (". Assumes: " + "; ".join(a) if a else "") + ("" if not h.get("thorough_only") else " (thorough only)"))
        out.append("* planted: " + (", ".join(f"{s} ({caught.get(s, 'not run')})" for s in seeds.get(i, [])) or "none") + "\n")
    out.append(open(T + "design_tail.md").read())
    open(V + "/DESIGN.md", "w").write("\n".join(out))
main()
