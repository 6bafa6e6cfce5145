// BOUND: GainLinear and GainDb with an envelope, 1..3 (thorough 4) input x 1..4 output channels, block size 1..3, 1..4 (thorough 6) frames, also five large shapes (up to 32 channels, 2600 frames, blocks of 2600), every sample and every envelope value symbolic (dB values within [-200, 200]); a segmented envelope with symbolic start value through the same path; as the tested effect (run twice, the second time with another block size) and as an effect of the input signal (in place); float and double
#include "env_probes.hpp"
static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }
template <typename T> static void judge (Table<T>& in, Table<T>& seen, const std::vector<double>& v, bool db)
{
    for (size_t c = 0; c < seen.channels; ++c) for (size_t f = 0; f < seen.frames; ++f)
    {
        const T x = in.at (in.channels == 1 ? 0 : c, f); const double g = db ? ratio (v[f]) : v[f];
        hse_check (hse_or (hse_eqv (seen.at (c, f), x * (T) g), hse_eqv (seen.at (c, f), (T) ((double) x * g))), "every output sample is the input sample times the envelope's value for its frame");
    }
    hart::ExpectationFailureMessages::clear();
}
template <typename T> static void run (bool big)
{
    enum { NIN = HSE_TIER == 1 ? 3 : 4, FRAMES = HSE_TIER == 1 ? 4 : 6 };
    const int kind = (int) hse_pick ("kind", 0, 2); static const size_t shapes[5][4] = { { 16, 16, 40, 16 }, { 2, 2, 300, 128 }, { 1, 32, 20, 8 }, { 5, 5, 70, 1000 }, { 1, 1, 2600, 2600 } }; auto& sh = shapes[big ? hse_pick ("shape", 0, kind == 0 ? 4 : 3) : 0];
    const size_t block = big ? sh[3] : hse_pick ("block", 1, 3), frames = big ? sh[2] : hse_pick ("frames", 1, FRAMES), nin = big ? sh[0] : hse_pick ("nin", 1, NIN), nout = big ? sh[1] : nin == 1 ? hse_pick ("nout", 1, 4) : nin;
    const bool chained = nin == nout && hse_pick ("chained", 0, 1);
    Table<T> in (nin, frames); in.fill ("in"); typename ProbeMatcher<T>::Rec r (nout, frames);
    std::vector<double> v; for (size_t i = 0; i < frames; ++i) { v.push_back (hse_f64 ("g")); if (kind == 1) hse_assume (hse_and (v[i] >= (big && i > 2 ? -100 : -200), v[i] <= 200)); }
    std::unique_ptr<hart::DSP<T>> d;
    if (kind == 1) { d.reset (new hart::GainDb<T> (3)); d->withEnvelope (hart::GainDb<T>::gainDb, TableEnvelope (v)); }
    else { d.reset (new hart::GainLinear<T> (7)); if (kind == 0) d->withEnvelope (hart::GainLinear<T>::gainLinear, TableEnvelope (v)); else { hart::SegmentedEnvelope s (v[0]); s.hold (10); d->withEnvelope (hart::GainLinear<T>::gainLinear, s); for (auto& x : v) x = v[0]; } }
    if (chained)
    {
        TableSignal<T> signal (in); signal.followedBy (static_cast<const hart::DSP<T>&> (*d));
        hart::processAudioWith (TableDsp<T> (nullptr, nullptr)).withSampleRate (16).withBlockSize (block).withDuration ((double) frames / 16).withInputChannels (nin).withOutputChannels (nout).withInputSignal (signal)
            .expectTrue (ProbeMatcher<T> (&r, true, (T) INFINITY)).process();
        judge (in, r.seen, v, kind == 1);
        return;
    }
    for (int again = 0; again < 2; ++again)
    {
        d = hart::processAudioWith (std::move (d)).withSampleRate (16 << again).withBlockSize (again ? (big ? block / 2 + 3 : 1 + (block + frames) % 3) : block).withDuration ((double) frames / (16 << again)).withInputChannels (nin).withOutputChannels (nout).withInputSignal (TableSignal<T> (in)).withValue (0, 0.25)
            .expectTrue (ProbeMatcher<T> (&r, true, (T) INFINITY)).process();
        judge (in, r.seen, v, kind == 1);
        H<T>::obs ("y", r.seen.at (nout - 1, frames - 1));
        if (! again) r.seen = Table<T> (nout, frames);
    }
}
extern "C" void hse_main (void) { const bool big = hse_pick ("big", 0, 1); if (hse_pick ("type", 0, 1)) run<float> (big); else run<double> (big); }
