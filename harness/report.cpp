// BOUND: block size 1..3, 1..4 (thorough 6) frames, 1..2 channels, every sample symbolic (also up to 600 frames or 12 channels with one symbolic sample), blamed sample found by the matcher over all positions, 2..4 checks failing in one test (with reports of an earlier run pending), rates 0.7 / 1.25 / 8 / 44100 Hz, conditions and descriptions of up to 160 characters, samples above a limit or below a negative one, decimals 0..9 per unit, with and without label, expect/assert x true/reversed x per-block/whole-signal; float and double
// ASSUME: the printed digits of a number are the decimal rounding of the value handed to the stream (text stand-in keeps value and precision; replays use the real stream)
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXF = 4 };
#else
enum { MAXF = 6 };
#endif
static int printed (const std::string& t, const char* label, double want, int decimals, size_t from = 0)
{
    double v = 0; int p = -1;
    if (! hse_num_after (t, label, &v, &p, from)) return 0;
    double ulp = 0.50001; for (int i = 0; i < decimals; ++i) ulp /= 10;
    const double aw = want < 0 ? -want : want;
    return hse_and (p == decimals, hse_or (hse_eqv (v, want), hse_or (v - want <= ulp + aw * 1e-12, 0) && (want - v <= ulp + aw * 1e-12)));
}
template <typename T> static void run()
{
    const size_t block = hse_pick ("block", 1, 3), frames = hse_pick ("frames", 1, MAXF), n = hse_pick ("channels", 1, 2); const int kind = (int) hse_pick ("kind", 0, 7);
    const bool label = (block + frames + kind) & 1, ass = kind & 4, reversed = kind & 2, perBlock = kind & 1; const double rate = (frames + n) & 1 ? 44100 : block == 2 ? 8 : 1.25; const bool below = (block + n + kind / 2) & 1;
    const int dec = (int) ((block * 3 + frames) % 4) * 3, sdec = (int) ((frames + n + block) % 3) * 3, ddec = (int) (frames % 4);
    hse_cli ({ "--lin-decimals", std::to_string (dec), "--sec-decimals", std::to_string (sdec), "--db-decimals", std::to_string (ddec) });
    Table<T> out (n, frames), in (1, 1); out.fill ("out");
    for (auto& x : out.v) hse_assume (hse_and (x <= (T) 1e6, x >= (T) -1e6));   // finite, so that every printed value is a number
    Log dl; TableSignal<T> sig (in); TableDsp<T> dsp (&out, &dl);
    const T limit = below ? (T) -0.5 : (T) 0.5;
    auto b = hart::processAudioWith (dsp); b.withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputChannels (1).withOutputChannels (n).withInputSignal (sig);
    const std::string name = (frames + n) & 2 ? "A" : "my \"label\"";
    if (label) b.withLabel (name);
    ProbeMatcher<T> m (nullptr, perBlock, limit, "Cond (1)"); m.below = below;
    if (! ass && ! reversed) b.expectTrue (m); else if (! ass) b.expectFalse (m); else if (! reversed) b.assertTrue (m); else b.assertFalse (m);
    std::string what; std::unique_ptr<hart::DSP<T>> back;
    const Outcome o = outcomeOf ([&] { back = b.process(); }, &what);
    auto& msgs = hart::ExpectationFailureMessages::get();
    if (ass ? o != testAssert : msgs.empty()) return;   // did not fail (that it fails exactly when it should is C03)
    const std::string t = ass ? what : msgs[0];
    const std::string head = std::string (ass ? "assert" : "expect") + (reversed ? "False() failed" : "True() failed");
    hse_check (t.compare (0, head.size(), head) == 0, "the report starts with the kind of check");
    hse_check (! hse_has (t, reversed ? "True()" : "False()") && ! hse_has (t, ass ? "expect" : "assert"), "the report names no other kind of check");
    hse_check (hse_has (t, " at \"" + name + "\"") == label, "the report names the test label if there is one");
    hse_check (hse_has (t, "Condition: Cond (1)"), "the report states the condition");
    if (! reversed)
    {
        // the sample the matcher blames: first one over the limit (frame by frame) in the first block containing one
        size_t start = 0, bf = 0, bc = 0; bool found = false;
        const size_t step = perBlock ? block : frames;
        for (start = 0; start < frames && ! found; start += step)
            for (size_t f = 0; f < step && start + f < frames && ! found; ++f)
                for (size_t c = 0; c < n && ! found; ++c)
                    if (below ? out.at (c, start + f) < limit : out.at (c, start + f) > limit) { found = true; bf = f; bc = c; }
        start -= step;
        hse_check (found, "a failed true-check has an offending sample");
        const T v = out.at (bc, start + bf);
        hse_check (printed (t, "Channel: ", (double) bc, 0), "the report states the channel of the offending sample");
        hse_check (printed (t, "Frame: ", (double) bf, 0), "the report states the frame of the offending sample within the audio the matcher saw");
        hse_check (printed (t, "Timestamp: ", (double) (start + bf) / rate, sdec), "the report states the time of the offending sample from the start of the signal");
        hse_check (printed (t, "Sample value: ", (double) v, dec), "the report states the value of the offending sample");
        const T a = std::abs (v); const T db = a < (T) 1e-6 ? (T) -120 : (T) (20 * std::log10 (a));
        const size_t sv = t.find ("Sample value: ");
        hse_check (printed (t, " (", (double) db, ddec, sv), "the report states the level of the offending sample in dB");
        hse_check (hse_has (t, "because-of-Cond (1)"), "the report ends with the matcher's description");
    }
    else
        hse_check (! hse_has (t, "because-of"), "a reversed check's report has no sample details");
    hse_obs_u64 ("len", ! reversed);
}
// longer and wider audio with one symbolic sample
template <typename T> static void large()
{
    static const size_t shapes[3][3] = { { 1, 600, 256 }, { 12, 40, 16 }, { 3, 300, 7 } }; auto& sh = shapes[hse_pick ("shape", 0, 2)]; const size_t n = sh[0], frames = sh[1], block = sh[2]; const bool perBlock = hse_pick ("perBlock", 0, 1), ass = hse_pick ("assert", 0, 1);
    const size_t points[4] = { 0, block - 1, block, frames - 1 }; const size_t at = points[hse_pick ("at", 0, 3)], c = hse_pick ("last", 0, 1) ? n - 1 : 0; const double rate = at % 2 == c % 2 ? 44100 : 0.7;
    const std::string name = "Cond (" + std::string (c ? 150 : 1, 'c') + ")";
    Table<T> out (n, frames), in (1, 1); for (size_t i = 0; i < out.v.size(); ++i) out.v[i] = (T) ((double) (i * 37 % 101) / 400 - 0.125);
    T v = H<T>::sym ("out"); hse_assume (hse_and (v > (T) 0.5, v <= (T) 1e6)); if (at % 2) v = -v; out.at (c, at) = v; hse_cli ({ "--sec-decimals", "9" });
    TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr); auto b = hart::processAudioWith (dsp); b.withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputChannels (1).withOutputChannels (n).withInputSignal (sig);
    ProbeMatcher<T> m (nullptr, perBlock, (T) (at % 2 ? -0.5 : 0.5), name.c_str()); m.below = at % 2; if (ass) b.assertTrue (m); else b.expectTrue (m);
    std::string what; const Outcome o = outcomeOf ([&] { b.process(); }, &what); auto& msgs = hart::ExpectationFailureMessages::get(); const bool failed = ass ? o == testAssert : msgs.size() == 1;
    hse_check (failed, "the failure is reported"); if (! failed) return; const std::string t = ass ? what : msgs[0];
    const std::string tail = "because-of-" + name; hse_check (hse_has (t, "Condition: " + name), "the report states the condition"); hse_check (t.size() >= tail.size() && t.compare (t.size() - tail.size(), tail.size(), tail) == 0, "the report ends with the matcher's description");
    hse_check (printed (t, "Channel: ", (double) c, 0), "the report states the channel of the offending sample");
    hse_check (printed (t, "Frame: ", (double) (perBlock ? at % block : at), 0), "the report states the frame of the offending sample within the audio the matcher saw");
    hse_check (printed (t, "Timestamp: ", (double) at / rate, 9), "the report states the time of the offending sample from the start of the signal");
    hse_check (printed (t, "Sample value: ", (double) v, 6), "the report states the value of the offending sample");
    H<T>::obs ("v", v);
}
// several checks of one test fail: every one has its own complete report
template <typename T> static void several()
{
    static const char* const names[4] = { "Cond (1)", "Cond (2)", "Cond (3)", "Cond (4)" };
    const size_t checks = hse_pick ("checks", 2, 4), reversedMask = hse_pick ("reversed", 0, 3), block = hse_pick ("block", 1, 3); const bool last = hse_pick ("assert", 0, 1), whole = hse_pick ("whole", 0, 1), old = hse_pick ("old", 0, 1);
    hse_cli ({ "--lin-decimals", "6" }); const size_t frames = 3; const double rate = 8;
    Table<T> out (1, frames), in (1, 1); out.fill ("out"); for (auto& x : out.v) hse_assume (hse_and (x <= (T) 1e6, x >= (T) -1e6));
    auto& msgs = hart::ExpectationFailureMessages::get(); if (old) msgs.emplace_back ("of an earlier run");
    TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr); auto b = hart::processAudioWith (dsp); b.withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputChannels (1).withOutputChannels (1).withInputSignal (sig).withLabel ("the label");
    for (size_t i = 0; i < checks; ++i)
    {
        ProbeMatcher<T> m (nullptr, ! (whole && i % 2), (T) (0.5 + 0.25 * (double) i), names[i]); const bool rev = reversedMask >> (i % 2) & 1;
        if (last && i + 1 == checks) { if (rev) b.assertFalse (m); else b.assertTrue (m); } else if (rev) b.expectFalse (m); else b.expectTrue (m);
    }
    std::string what; const Outcome o = outcomeOf ([&] { b.process(); }, &what);
    std::vector<std::string> reports (msgs.begin() + (old ? 1 : 0), msgs.end()); if (o == testAssert) reports.push_back (what);
    std::vector<int> seen (checks, 0);
    for (auto& t : reports)
    {
        size_t which = checks, named = 0; for (size_t i = 0; i < checks; ++i) if (hse_has (t, std::string ("Condition: ") + names[i])) { which = i; ++named; }
        hse_check (named == 1, "a report is about one check"); if (named != 1) continue;
        hse_check (++seen[which] == 1, "a check is reported once"); const bool rev = reversedMask >> (which % 2) & 1;
        const std::string head = std::string (last && which + 1 == checks ? "assert" : "expect") + (rev ? "False() failed" : "True() failed") + " at \"the label\"";
        hse_check (t.compare (0, head.size(), head) == 0, "every report starts with its kind of check and the label");
        hse_check (hse_has (t, std::string ("because-of-") + names[which]) == ! rev && hse_has (t, "Timestamp: ") == ! rev, "every report of a true-check has the details of its sample");
        if (rev) continue;
        const bool perBlock = ! (whole && which % 2); const T limit = (T) (0.5 + 0.25 * (double) which); size_t at = 0; while (at < frames && ! (out.v[at] > limit)) ++at;
        hse_check (at < frames, "a failed true-check has an offending sample"); if (at >= frames) return;
        hse_check (printed (t, "Timestamp: ", (double) at / rate, 3), "the report states the time of the offending sample from the start of the signal");
        hse_check (printed (t, "Frame: ", (double) (perBlock ? at % block : at), 0), "the report states the frame of the offending sample within the audio the matcher saw");
        hse_check (printed (t, "Sample value: ", (double) out.v[at], 6), "the report states the value of the offending sample");
    }
    hse_obs_u64 ("reports", reports.size());
}
extern "C" void hse_main (void) { if (hse_pick ("several", 0, 1)) { if (hse_pick ("type", 0, 1)) several<float>(); else several<double>(); return; } if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
