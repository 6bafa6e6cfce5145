// BOUND: block size 1..3, 1..4 (thorough 6) frames, 2 channels, rate 8 Hz; effect under test: stateful user effect (running sum), gain with an envelope, hard clip; input: table / looped-sweep / sine / noise / table with chained gain+envelope and running sum; all table samples, envelope start and limit symbolic; two or three runs with the same objects
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXF = 4 };
#else
enum { MAXF = 6 };
#endif
template <typename T> class RunningSum : public hart::DSP<T>
{
public:
    std::vector<T> acc; T k = 1;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        acc.resize (in.getNumChannels());
        for (size_t c = 0; c < in.getNumChannels(); ++c) for (size_t f = 0; f < in.getNumFrames(); ++f) { acc[c] = acc[c] + in[c][f]; out[c][f] = acc[c] * k; }
    }
    void reset() override { acc.clear(); }
    void setValue (int id, double v) override { if (id == 0) k = (T) v; }
    double getValue (int id) const override { return id == 0 ? (double) k : 0; }
    bool supportsChannelLayout (size_t a, size_t b) const override { return a == b; }
    void represent (std::ostream& s) const override { s << "RunningSum()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<RunningSum<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<RunningSum<T>> (std::move (*this)); }
};
template <typename T> static void run()
{
    const size_t block = hse_pick ("block", 1, 3), frames = hse_pick ("frames", 2, MAXF), n = 2; const int dk = (int) hse_pick ("dsp", 0, 2), sk = (int) hse_pick ("signal", 0, 4);
    Table<T> in (n, frames); in.fill ("in");
    const T limit = dk == 2 && (sk == 0 || sk == 3) ? H<T>::sym ("limit") : (T) INFINITY; const double start = hse_f64 ("start");
    hart::SegmentedEnvelope env (start); env.rampTo (start + 1, 0.25).hold (0.125).rampTo (0, 0.25, hart::SegmentedEnvelope::Shape::sCurve);
    std::unique_ptr<hart::DSP<T>> dsp;
    if (dk == 0) dsp.reset (new RunningSum<T>()); else if (dk == 1) { dsp.reset (new hart::GainLinear<T>()); dsp->withEnvelope (hart::GainLinear<T>::gainLinear, env); } else dsp.reset (new hart::HardClip<T> (-6));
    std::unique_ptr<hart::Signal<T>> sig;
    if (sk == 0 || sk == 4) sig.reset (new TableSignal<T> (in)); else if (sk == 1) sig.reset (new hart::SineWave<T> (1.25, 0.3)); else if (sk == 2) sig.reset (new hart::SineSweep<T> (0.4, 0.5, 2.5, hart::SineSweep<T>::SweepType::linear, hart::SineSweep<T>::Loop::yes, 0.1));
    else sig.reset (new hart::WhiteNoise<T> (7));
    if (sk == 4) { hart::GainLinear<T> g; g.withEnvelope (hart::GainLinear<T>::gainLinear, env); sig->followedBy (g); sig->followedBy (RunningSum<T>()); }
    typename ProbeMatcher<T>::Rec r[2] = { { n, frames }, { n, frames } }; size_t fails[2];
    for (int pass = 0; pass < 2; ++pass)
    {
        hart::ExpectationFailureMessages::clear();
        dsp = hart::processAudioWith (std::move (dsp)).withSampleRate (8).withBlockSize (block).withDuration ((double) frames / 8).inStereo().withInputSignal (*sig).withValue (0, 0.5)
              .expectTrue (ProbeMatcher<T> (&r[pass], true, (T) INFINITY)).expectTrue (LimitMatcher<T> (false, limit, "L")).process();
        fails[pass] = hart::ExpectationFailureMessages::get().size();
    }
    for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f) hse_check (hse_same_f64 ((double) r[0].seen.at (c, f), (double) r[1].seen.at (c, f)), "running again reproduces the output exactly");
    hse_check (fails[0] == fails[1], "running again reproduces the verdicts");
    H<T>::obs ("last", r[0].seen.at (1, frames - 1)); hse_obs_u64 ("fails", fails[0]);
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
