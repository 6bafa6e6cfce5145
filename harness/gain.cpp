// BOUND: linear gain: every double; dB gain: 15 levels from -300 to +333 dB and every symbolic level in [-200, 200]; 1..3 input x 1..4 output channels, 1..2 (thorough 4) frames per block, 2 blocks, every sample symbolic; in place and out of place; all parameter ids; also five large shapes (up to 128 channels, up to 600 frames); float and double
// ASSUME: pow/log10 uninterpreted (refined by their true values); a read-back dB value is checked for the 15 concrete levels
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXF = 2, MAXO = 3 };
#else
enum { MAXF = 4, MAXO = 4 };
#endif
static const double levels[15] = { -300, -120.001, -120, -119.5, -60, -6, -1e-3, 0, 3, 6.02, 20, 40, 100, 120, 333 };
template <typename T> static void fillBuf (hart::AudioBuffer<T>& b, const char* n) { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = H<T>::sym (n); }
template <typename T, typename D> static void block (D& d, size_t nin, size_t nout, double g, size_t frames, bool inPlace, const hart::EnvelopeBuffers* none)
{
    hart::AudioBuffer<T> in (nin, frames), out (nout, frames); fillBuf (in, "in");
    for (size_t c = 0; c < nout; ++c) for (size_t f = 0; f < frames; ++f) out[c][f] = (T) 99;
    hart::AudioBuffer<T> orig (in);
    const bool ok = nin == nout || nin == 1;
    hse_check (d.supportsChannelLayout (nin, nout) == ok, "equal channel counts and mono input are accepted layouts, all others are not");
    const Outcome o = outcomeOf ([&] { if (none) d.process (in, inPlace ? in : out, *none); else d.processWithEnvelopes (in, inPlace ? in : out); });
    hse_check (o == (ok ? okay : channelLayoutError), "a layout is refused with a channel layout error if and only if it is not supported");
    if (! ok) return;
    const hart::AudioBuffer<T>& res = inPlace ? in : out;
    for (size_t c = 0; c < nout; ++c) for (size_t f = 0; f < frames; ++f)
    {
        const T x = orig[nin == 1 ? 0 : c][f], want = x * (T) g;
        hse_check (hse_or (hse_eqv (res[c][f], want), hse_eqv (res[c][f], (T) ((double) x * g))), "every output sample is the input sample times the gain");
    }
    H<T>::obs ("y", res[0][0]);
}
static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }
template <typename T> static void run()
{
    const int kind = (int) hse_pick ("kind", 0, 2); const size_t nin = hse_pick ("nin", 1, 3), nout = hse_pick ("nout", 1, MAXO), frames = 1 + (nin + nout) % MAXF;
    const bool inPlace = nin == nout && hse_pick ("inPlace", 0, 1); const bool viaHost = (nin + nout + kind) & 1;
    const hart::EnvelopeBuffers none; const hart::EnvelopeBuffers* e = viaHost ? nullptr : &none;
    if (kind == 0)
    {
        const double g = hse_f64 ("gain"), g2 = hse_f64 ("gain2"); const int other = (int) hse_u32 ("id"); const double junk = hse_f64 ("junk");
        hart::GainLinear<T> d (g);
        d.reset(); d.prepareWithEnvelopes (44100, nin, nout, frames);
        hse_check (hse_same_f64 (d.getValue (0), g), "the initial linear gain is read back");
        block<T> (d, nin, nout, g, frames, inPlace, e);
        if (other != 0) { d.setValue (other, junk); hse_check (hse_same_f64 (d.getValue (0), g), "setting an unknown parameter changes nothing"); }
        block<T> (d, nin, nout, g, 1, inPlace, e);
        d.setValue (hart::GainLinear<T>::gainLinear, g2);
        hse_check (hse_same_f64 (d.getValue (0), g2), "a linear gain that was set is read back");
        block<T> (d, nin, nout, g2, frames, inPlace, e);
        hse_check (d.supportsEnvelopeFor (0), "the gain supports an envelope");
    }
    else
    {
        const bool sym = kind == 2; const double g = sym ? hse_f64 ("gain") : levels[hse_pick ("level", 0, 14)], g2 = sym ? hse_f64 ("gain2") : levels[(nin * 5 + nout * 3 + (inPlace ? 1 : 0)) % 15];
        if (sym) hse_assume (hse_and (hse_and (g >= -200, g <= 200), hse_and (g2 >= -200, g2 <= 200)));
        const int other = (int) hse_u32 ("id"); const double junk = hse_f64 ("junk");
        hart::GainDb<T> d (g);
        d.reset(); d.prepareWithEnvelopes (44100, nin, nout, frames);
        block<T> (d, nin, nout, ratio (g), frames, inPlace, e);
        if (other != 0) d.setValue (other, junk);
        block<T> (d, nin, nout, ratio (g), 1, inPlace, e);
        d.setValue (hart::GainDb<T>::gainDb, g2);
        if (! sym) { const double w = g2 <= -120 ? -120 : g2, r = d.getValue (0); hse_check (r - w < 1e-6 && w - r < 1e-6, "a dB gain that was set is read back"); }
        block<T> (d, nin, nout, ratio (g2), frames, inPlace, e);
    }
}
// long blocks and wide layouts
template <typename T> static void large()
{
    static const size_t shape[5][3] = { { 1, 1, 600 }, { 1, 24, 5 }, { 16, 16, 9 }, { 128, 128, 1 }, { 2, 2, 300 } };
    auto& s = shape[hse_pick ("shape", 0, 4)]; const bool db = hse_pick ("db", 0, 1), inPlace = s[0] == s[1] && hse_pick ("inPlace", 0, 1);
    const double g = db ? -6.0 : hse_f64 ("gain"); std::unique_ptr<hart::DSP<T>> d; if (db) d.reset (new hart::GainDb<T> (g)); else d.reset (new hart::GainLinear<T> (g));
    d->reset(); d->prepareWithEnvelopes (44100, s[0], s[1], s[2]);
    for (int i = 0; i < 3; ++i) block<T> (*d, s[0], s[1], db ? ratio (g) : g, i == 1 ? 1 : s[2], inPlace, nullptr);
    const double g2 = db ? 12.0 : hse_f64 ("gain2"); d->setValue (0, g2); block<T> (*d, s[0], s[1], db ? ratio (g2) : g2, s[2], inPlace, nullptr);
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
