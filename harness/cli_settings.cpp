// BOUND: every option alone and every pair of options, long and short names, values of one or two symbolic digits (seeds also 429496720x) (data root: 0..3 symbolic characters), flags; numbers printed with 0..9 decimals
// ASSUME: CLI11 is a stand-in in the symbolic build (option names, defaults, bindings); replays use the real CLI11
#include "matchers.hpp"
struct Opt { const char* l; const char* s; };
static const Opt opts[9] = { { "--lin-decimals", 0 }, { "--db-decimals", 0 }, { "--sec-decimals", 0 }, { "--hz-decimals", 0 }, { "--rad-decimals", 0 }, { "--seed", "-s" }, { "--data-root-path", "-d" }, { "--run-generators", "-g" }, { "--shuffle", 0 } };
extern "C" void hse_main (void)
{
    uint64_t want[5] = { 6, 1, 3, 1, 1 }, seed = 0; std::string root = "."; bool gen = false, shuffle = false;
    const size_t first = hse_pick ("first", 0, 9), second = hse_pick ("second", 0, 9); if (second != 9 && second <= first) return;
    std::vector<std::string> args;
    for (size_t k : { first, second })
    {
        if (k == 9) continue;
        args.push_back (opts[k].s && hse_pick ("short", 0, 1) ? opts[k].s : opts[k].l);
        if (k < 5) { want[k] = hse_pick ("decimals", 0, HSE_TIER == 1 ? 3 : 9); if (want[k] == 2) want[k] = 9; args.push_back (std::to_string (want[k])); }
        else if (k == 5)
        {
            const char a = (char) ('0' + hse_u64 ("digit", 1, 9)), b = (char) ('0' + hse_u64 ("digit", 0, 9)); std::string s (1, a); seed = (uint64_t) (a - '0');
            const size_t length = hse_pick ("long", 0, 2); if (length == 2) { s = std::string ("429496720") + b; seed = 4294967200u + (uint64_t) (b - '0'); }
            else if (length) { s += b; seed = seed * 10 + (uint64_t) (b - '0'); }
            args.push_back (s);
        }
        else if (k == 6) { root.clear(); for (size_t i = 0, n = hse_pick ("length", 1, 3); i < n; ++i) { const unsigned char c = (unsigned char) hse_u64 ("char", 'a', 'z'); root += (char) c; } args.push_back (root); }
        else if (k == 7) gen = true; else shuffle = true;
    }
    hse_check (hse_cli (args) == 0, "the documented options are accepted");
    hart::CLIConfig& c = hart::CLIConfig::getInstance();
    const int got[5] = { c.getLinDecimals(), c.getDbDecimals(), c.getSecDecimals(), c.getHzDecimals(), c.getRadDecimals() };
    const char* names[5] = { "linear", "dB", "seconds", "Hz", "radians" };
    for (int i = 0; i < 5; ++i) hse_check (got[i] == (int) want[i], "each number of decimals is the given one or the default");
    hse_check (c.getRandomSeed() == seed, "the random seed is the given one or the default");
    hse_check (c.getDataRootPath() == root, "the data root is the given one or the default");
    hse_check (c.shouldRunGenerators() == gen, "generators are run exactly when asked");
    hse_check (c.shouldShuffleTasks() == shuffle, "tasks are shuffled exactly when asked");
    std::ostream& (*const manip[5]) (std::ostream&) = { hart::linPrecision, hart::dbPrecision, hart::secPrecision, hart::hzPrecision, hart::radPrecision };
    for (int i = 0; i < 5; ++i)
    {
        std::stringstream s; s << manip[i] << 0.123456789; double v = 0; int p = -1;
        hse_check (hse_num_after (s.str(), "", &v, &p) && p == (int) want[i], "numbers are printed with the decimals of their unit");
        (void) names;
    }
    if (second != 9) return;
    // every printed number of every text form
    auto decimals = [&] (const std::string& t, const char* label, int unit, const char* msg) { double v = 0; int p = -1; hse_check (hse_num_after (t, label, &v, &p) && p == (int) want[unit], msg); };
    typedef float T; typedef hart::SineSweep<T> S;
    decimals (hse_represent (hart::GainDb<T> (-2.5)), "GainDb (", 1, "levels in text forms have the decimals of dB");
    decimals (hse_represent (hart::GainLinear<T> (0.25)), "GainLinear (", 0, "linear gains in text forms have the decimals of linear values");
    decimals (hse_represent (hart::HardClip<T> (-2.5)), "HardClip (", 1, "thresholds in text forms have the decimals of dB");
    const std::string sine = hse_represent (hart::SineWave<T> (440, 0.5)); decimals (sine, "SineWave (", 3, "frequencies in text forms have the decimals of Hz"); decimals (sine, "Hz, ", 4, "phases in text forms have the decimals of radians");
    const std::string sweep = hse_represent (S (0.5, 20, 200)); decimals (sweep, "SineSweep (", 2, "durations in text forms have the decimals of seconds"); decimals (sweep, "_s, ", 3, "sweep start frequencies have the decimals of Hz"); decimals (sweep, "Hz, ", 3, "sweep end frequencies have the decimals of Hz");
    const std::string at = hse_represent (hart::PeaksAt<T> (-3, 0.25)); decimals (at, "PeaksAt (", 1, "target levels have the decimals of dB"); decimals (at, "dB, ", 0, "tolerances have the decimals of linear values");
    const std::string below = hse_represent (hart::PeaksBelow<T> (-3, 0.25)); decimals (below, "PeaksBelow (", 1, "threshold levels have the decimals of dB"); decimals (below, "dB, ", 0, "tolerances have the decimals of linear values");
    const std::string eq = hse_represent (hart::EqualsTo<T> (hart::Silence<T>(), 0.25)); decimals (eq, "(), ", 0, "tolerances have the decimals of linear values");
    // every number of a report, from a matcher that fails at the second sample
    Table<T> in (1, 4), out (1, 4); out.v[1] = (T) 0.7; TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr);
    for (int m = 0; m < 3; ++m)
    {
        hart::ExpectationFailureMessages::clear();
        auto b = hart::processAudioWith (dsp); b.withSampleRate (8).withBlockSize (4).withDuration (0.5).withInputSignal (sig);
        if (m == 0) b.expectTrue (hart::EqualsTo<T> (hart::Silence<T>(), 0.25)); else if (m == 1) b.expectTrue (hart::PeaksAt<T> (-20)); else b.expectTrue (hart::PeaksBelow<T> (-20));
        b.process();
        hse_check (hart::ExpectationFailureMessages::get().size() == 1, "the failing check is reported"); if (hart::ExpectationFailureMessages::get().size() != 1) return;
        const std::string& t = hart::ExpectationFailureMessages::get()[0];
        decimals (t, "Timestamp: ", 2, "timestamps have the decimals of seconds"); decimals (t, "Sample value: ", 0, "sample values have the decimals of linear values");
        const size_t v = t.find ("Sample value: "), p = t.find (" (", v); double x; int pr = -1;
        hse_check (p != std::string::npos && hse_num_at (t, p + 2, &x, &pr) && pr == (int) want[1], "sample levels have the decimals of dB");
        if (m == 0)
        {
            decimals (t, "Expected sample value: ", 0, "expected values have the decimals of linear values"); decimals (t, "difference: ", 0, "differences have the decimals of linear values");
            const size_t e = t.find ("Expected sample value: "), q = t.find (" (", e), d = t.find ("difference: "), r = t.find (" (", d);
            hse_check (q != std::string::npos && hse_num_at (t, q + 2, &x, &pr) && pr == (int) want[1], "expected levels have the decimals of dB");
            hse_check (r != std::string::npos && hse_num_at (t, r + 2, &x, &pr) && pr == (int) want[1], "level differences have the decimals of dB");
        }
        else decimals (t, m == 1 ? "peaks at " : "at least ", 1, "observed peaks have the decimals of dB");
    }
    const std::string noise = hse_represent (hart::WhiteNoise<T>()); double v = -1; int p = -1;
    hse_check (hse_num_after (noise, "WhiteNoise (", &v, &p) && v == (double) seed, "white noise uses the configured seed by default");
}
