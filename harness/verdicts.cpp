// BOUND: 2 checks (thorough 3) of every kind (expect/assert x true/reversed x per-block/whole-signal), block size 1..2, 1..3 (4) frames, 1..2 channels, every sample and every limit symbolic; with and without a label and a save request; 2..3 identical expectations in one or two runs; also 9 checks of mixed kinds over 70 frames of 3 channels in blocks of 10 with one symbolic sample at 15 positions; float and double
#include "probes.hpp"
#if HSE_TIER == 1
enum { SMALL = 2, MAXF = 3 };
#else
enum { SMALL = 3, MAXF = 4 };
#endif
template <typename T> static void run (bool large)
{
    // large: many checks and blocks, one symbolic sample
    static const size_t where[5] = { 0, 9, 30, 31, 69 };
    const size_t block = large ? 10 : hse_pick ("block", 1, 2), frames = large ? 70 : hse_pick ("frames", 1, MAXF), n = large ? 3 : frames < 3 ? 2 : 1;
    const int K = large ? 9 : SMALL;
    Table<T> out (n, frames); if (! large) out.fill ("out"); else { const size_t c = hse_pick ("channel", 0, n - 1), f = where[hse_pick ("frame", 0, 4)]; out.at (c, f) = H<T>::sym ("out"); }
    const size_t turn = large ? hse_pick ("turn", 0, 7) : 0;
    Table<T> in (1, 1);
    TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr);
    Log dl; dsp.log = &dl;
    std::vector<int> kind (K); std::vector<T> limit (K);
    auto b = hart::processAudioWith (dsp); b.withSampleRate (8).withBlockSize (block).withDuration ((double) frames / 8).withInputChannels (1).withOutputChannels (n).withInputSignal (sig);
    const char* names[9] = { "alpha", "beta", "gamma", "delta", "eta", "zeta", "theta", "iota", "kappa" };
    for (int k = 0; k < K; ++k)
    {
        if (large) { kind[k] = (int) (turn & 1 ? (k * 3 + turn) % 8 : (k + turn) % 4); limit[k] = (T) ((k * 5 % 9) / 8.0); }   // (even turns: expectations only)
        else { kind[k] = (int) hse_pick ("kind", 0, 7); limit[k] = H<T>::sym ("limit"); }
        LimitMatcher<T> m ((kind[k] & 1) != 0, limit[k], names[k]);
        // odd checks are added as named objects (copied), even ones as temporaries
        switch (kind[k] >> 1)
        {
            case 0: if (k & 1) b.expectTrue (m); else b.expectTrue (LimitMatcher<T> (m)); break;
            case 1: if (k & 1) b.expectFalse (m); else b.expectFalse (LimitMatcher<T> (m)); break;
            case 2: if (k & 1) b.assertTrue (m); else b.assertTrue (LimitMatcher<T> (m)); break;
            default: if (k & 1) b.assertFalse (m); else b.assertFalse (LimitMatcher<T> (m)); break;
        }
    }
    if ((frames + block + turn) % 3 != 1) b.withLabel (large && (turn & 2) ? "A longer label" : "L");   // a label changes no verdict
    if ((frames + block) % 2) b.saveOutputTo ("x.wav", hart::Save::whenFails, hart::WavFormat::float32);
    std::string what; std::unique_ptr<hart::DSP<T>> back;
    const Outcome o = outcomeOf ([&] { back = b.process(); }, &what);
    // what should have happened
    std::vector<int> fails (K); int anyAssert = 0;
    for (int k = 0; k < K; ++k)
    {
        int rejected = 0;
        for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f) rejected = hse_or (rejected, out.at (c, f) > limit[k]);
        fails[k] = (kind[k] >> 1) & 1 ? hse_not (rejected) : rejected;
        if (kind[k] & 4) anyAssert = hse_or (anyAssert, fails[k]);
    }
    hse_check (o == okay || o == testAssert, "a run ends normally or with the test-failure exception");
    hse_check (hse_and (hse_implies (o == testAssert, anyAssert), hse_implies (anyAssert, o == testAssert)), "the run ends with a test-failure exception if and only if an assertion failed");
    auto& msgs = hart::ExpectationFailureMessages::get();
    size_t total = 0;
    for (int k = 0; k < K; ++k)
    {
        size_t cnt = 0; for (auto& m : msgs) cnt += hse_has (m, std::string ("Condition: ") + names[k]);
        const bool isExpect = ! (kind[k] & 4);
        if (isExpect)
        {
            total += cnt;
            hse_check (cnt <= 1, "a failing expectation is reported at most once");
            hse_check (hse_implies (cnt == 1, fails[k]), "an expectation is reported only if it failed");
            if (o == okay) hse_check (hse_implies (fails[k], cnt == 1), "every failing expectation leaves a message");
            // expectations whose failing block was checked before the block of the failing assertion are reported too
            if (o == testAssert && (kind[k] & 3) == 1)
            {
                int assertFull = 1;   // all failing assertions work on the whole signal, i.e. after every block
                for (int j = 0; j < K; ++j) if ((kind[j] & 4) && (kind[j] & 3) == 1) assertFull = hse_and (assertFull, hse_not (fails[j]));
                hse_check (hse_implies (hse_and (assertFull, fails[k]), cnt == 1), "a block's failing expectation is reported although a whole-signal assertion fails later");
            }
        }
        else
        {
            hse_check (cnt == 0, "assertions leave no expectation message");
            if (o == testAssert && hse_has (what, std::string ("Condition: ") + names[k])) hse_check (fails[k], "the exception reports an assertion that failed");
        }
    }
    hse_check (msgs.size() == total, "there are no other messages");
    if (o == testAssert)
    {
        size_t named = 0; for (int k = 0; k < K; ++k) named += (kind[k] & 4) && hse_has (what, std::string ("Condition: ") + names[k]);
        hse_check (named == 1, "the exception names exactly one assertion");
        // the run ended with the assertion that failed first: in the earliest block, then in the order the checks were added
        auto firstBlock = [&] (int k) { if ((kind[k] & 3) != 1) return (size_t) 1000; for (size_t s = 0; s < frames; s += block) { int r = 0; for (size_t f = s; f < s + block && f < frames; ++f) for (size_t c = 0; c < n; ++c) r = hse_or (r, out.at (c, f) > limit[k]); if (r) return s / block; } return (size_t) 2000; };
        int by = -1; for (int k = 0; k < K; ++k) if ((kind[k] & 4) && hse_has (what, std::string ("Condition: ") + names[k])) by = k;
        if (by >= 0)
        {
            const size_t mine = firstBlock (by);
            for (int k = 0; k < K; ++k) if (k != by && (kind[k] & 4) && fails[k]) { const size_t other = firstBlock (k); hse_check (mine < other || (mine == other && by < k), "the exception is about the assertion that failed first"); }
        }
    }
    hse_obs_u64 ("outcome", o); hse_obs_u64 ("messages", msgs.size());
}
// checks that say the same are still separate checks
template <typename T> static void twins()
{
    const size_t count = hse_pick ("count", 2, 3), block = hse_pick ("block", 1, 2); const bool perBlock = hse_pick ("perBlock", 0, 1), rev = hse_pick ("reversed", 0, 1), again = hse_pick ("again", 0, 1);
    Table<T> out (1, 2), in (1, 1); out.fill ("out"); TableSignal<T> sig (in); size_t want = 0; const T limit = H<T>::sym ("limit"); const T other = hse_pick ("other", 0, 1) ? H<T>::sym ("limit") : limit;
    for (int r = 0; r <= (int) again; ++r)
    {
        TableDsp<T> dsp (&out, nullptr); auto b = hart::processAudioWith (dsp); b.withSampleRate (8).withBlockSize (block).withDuration (0.25).withInputChannels (1).withOutputChannels (1).withInputSignal (sig);
        for (size_t k = 0; k < count; ++k) { const T l = k ? limit : other; LimitMatcher<T> m (perBlock, l, "twin"); if (rev) b.expectFalse (m); else b.expectTrue (m); const int rejected = hse_or (out.at (0, 0) > l, out.at (0, 1) > l); if (rev) { if (! rejected) ++want; } else if (rejected) ++want; }
        hse_check (outcomeOf ([&] { b.process(); }) == okay, "failed expectations do not end the run");
    }
    hse_check (hart::ExpectationFailureMessages::get().size() == want, "every failing expectation leaves its own message, also when another one says the same");
    hse_obs_u64 ("messages", want);
}
extern "C" void hse_main (void) { if (hse_pick ("twins", 0, 1)) { if (hse_pick ("type", 0, 1)) twins<float>(); else twins<double>(); return; } const bool large = hse_pick ("large", 0, 1); if (hse_pick ("type", 0, 1)) run<float> (large); else run<double> (large); }
