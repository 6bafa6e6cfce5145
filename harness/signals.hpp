// Every signal HART ships, with symbolic parameters where rendering stays branch-free in them.
#pragma once
#include "probes.hpp"
enum { KINDS = 14 };
inline double rateOf (size_t kind) { return kind == 12 ? 44100 : 8; }   // kind 12: a sweep of a tenth of a millisecond
struct SigParams { double phase; uint32_t seed; std::vector<float> wav; };
static const size_t WAVF = 3;
inline void writeWav (const char* name, size_t ch, const std::vector<float>& v, double rate = 8)
{
    hart::AudioBuffer<float> b (ch, v.size() / ch);
    for (size_t c = 0; c < ch; ++c) for (size_t f = 0; f < v.size() / ch; ++f) b[c][f] = v[f * ch + c];
    hart::WavWriter<float>::writeBuffer (b, name, rate, hart::WavFormat::float32);
}
inline SigParams symParams (size_t kind, size_t ch, bool big = false)
{
    SigParams p; p.phase = 0.25; p.seed = 1;
    if (! big && (kind == 1 || kind == 3 || kind == 5))
    {   // any phase in one of four windows
        const double windows[4] = { -6.8222, -0.7354, 1.2281, 25.3791 }, lo = windows[hse_pick ("window", 0, 3)];
        p.phase = hse_f64 ("phase"); hse_assume (hse_and (p.phase >= lo, p.phase <= lo + 0.0625));
    }
    if (kind == 7) p.seed = hse_u32 ("seed");
    if (kind == 8 || kind == 9) { for (size_t i = 0; i < ch * (big ? 37 : WAVF); ++i) p.wav.push_back (hse_f32 ("w")); writeWav ("in.wav", ch, p.wav); }
    return p;
}
// an effect with a memory
template <typename T> class Leak : public hart::DSP<T>
{
    std::vector<T> last;
public:
    void prepare (double, size_t, size_t out, size_t) override { if (last.size() != out) last.assign (out, (T) 0); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) { const T y = in[in.getNumChannels() == 1 ? 0 : c][f] + last[c] * (T) 0.5; out[c][f] = y; last[c] = y; }
    }
    void reset() override { for (auto& x : last) x = (T) 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "Leak()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<Leak<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<Leak<T>> (std::move (*this)); }
};
template <typename T> std::unique_ptr<hart::Signal<T>> makeSignal (size_t kind, const SigParams& p)
{
    typedef hart::SineSweep<T> S; typedef hart::Signal<T> B; std::unique_ptr<B> r;
    switch (kind)
    {
        case 0: r.reset (new hart::Silence<T>()); break;
        case 1: r.reset (new hart::SineWave<T> (1.25, p.phase)); break;
        case 2: r.reset (new hart::SineWave<T> (3.9, p.phase)); break;
        case 3: r.reset (new S (0.5, 0.5, 2.5, S::SweepType::linear, S::Loop::no, p.phase)); break;
        case 4: r.reset (new S (0.4, 0.5, 2.5, S::SweepType::log, S::Loop::yes, p.phase)); break;
        case 5: r.reset (new S (0.25, 3, 1, S::SweepType::linear, S::Loop::yes, p.phase)); break;
        case 6: r.reset (new S (0.05, 0.5, 2.5, S::SweepType::log, S::Loop::yes, p.phase)); break;
        case 7: r.reset (new hart::WhiteNoise<T> (p.seed)); break;
        case 8: r.reset (new hart::WavFile<T> ("in.wav")); break;
        case 9: r.reset (new hart::WavFile<T> ("in.wav", hart::WavFile<T>::Loop::yes)); break;
        case 10: r.reset (new S (0.375, 2, 2, S::SweepType::log, S::Loop::no, p.phase)); break;
        case 12: r.reset (new S (0.0001, 500, 2500, S::SweepType::linear, S::Loop::no, p.phase)); break;
        case 13: r.reset (new hart::SineWave<T> (1.25, p.phase)); r->followedBy (Leak<T>()); r->followedBy (hart::GainDb<T> (-3)); r->followedBy (Leak<T>()); break;
        default: r.reset (new hart::SineWave<T> (2, p.phase)); r->followedBy (hart::GainDb<T> (3)); r->followedBy (hart::HardClip<T> (-1)); break;
    }
    return r;
}
template <typename T> void renderInto (hart::Signal<T>& s, size_t ch, size_t frames, std::vector<T>& to, T sentinel)
{
    hart::AudioBuffer<T> b (ch, frames); for (size_t c = 0; c < ch; ++c) for (size_t f = 0; f < frames; ++f) b[c][f] = sentinel;
    s.renderNextBlockWithDSPChain (b);
    for (size_t f = 0; f < frames; ++f) for (size_t c = 0; c < ch; ++c) to.push_back (b[c][f]);
}
template <typename T> void sameFrom (const std::vector<T>& ref, const std::vector<T>& got, size_t at, const char* m) { for (size_t i = 0; i < got.size() && at + i < ref.size(); ++i) hse_check (hse_same_f64 ((double) ref[at + i], (double) got[i]), m); }
