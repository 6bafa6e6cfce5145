// BOUND: 12 threshold levels from -300 to +60 dB and every symbolic level in [-200, 200], 1..3 channels, 1..3 frames, 2 blocks, every non-NaN sample symbolic, in place and out of place, all parameter ids; also four large shapes (up to 128 channels, up to 400 frames); float and double
// ASSUME: pow uninterpreted (refined by its true values) but never negative; a NaN sample is left unspecified
#include "probes.hpp"
static const double levels[12] = { -300, -120.5, -120, -60, -20, -6, -1e-3, 0, 3, 6.02, 20, 60 };
static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }
template <typename T> static void block (hart::HardClip<T>& d, size_t n, size_t frames, double thr, bool inPlace, size_t every = 1)
{
    hart::AudioBuffer<T> in (n, frames), out (n, frames);
    for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f) { if ((c + f) % every) in[c][f] = (T) ((double) ((c * 7 + f * 3) % 41) / 10 - 2); else { in[c][f] = H<T>::sym ("in"); hse_assume (in[c][f] == in[c][f]); } out[c][f] = (T) 99; }
    hart::AudioBuffer<T> orig (in);
    d.processWithEnvelopes (in, inPlace ? in : out);
    const T t = (T) thr;
    for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f)
    {
        const T x = orig[c][f], y = (inPlace ? in : out)[c][f];
        hse_check (hse_implies (hse_and (x <= t, x >= -t), y == x), "a sample within the threshold is left alone");
        hse_check (hse_implies (x > t, y == t), "a sample above the threshold becomes the threshold");
        hse_check (hse_implies (x < -t, y == -t), "a sample below minus the threshold becomes minus the threshold");
    }
    H<T>::obs ("y", (inPlace ? in : out)[n - 1][frames - 1]);
}
template <typename T> static void run()
{
    const size_t nin = hse_pick ("nin", 1, 3), nout = hse_pick ("nout", 1, 3);
    const bool sym = nin == 1 && nout == 1 && hse_pick ("symbolic", 0, 1);
    const double a = sym ? hse_f64 ("threshold") : levels[hse_pick ("level", 0, 11)], b = sym ? hse_f64 ("threshold2") : levels[(nin * 5 + nout) % 12];
    if (sym) hse_assume (hse_and (hse_and (a >= -200, a <= 200), hse_and (b >= -200, b <= 200)));
    hart::HardClip<T> d (a); const size_t frames = sym ? 1 : 1 + nin % 3; const bool inPlace = (nin + nout) & 2;
    d.reset(); d.prepareWithEnvelopes (8, nin, nout, frames);
    hse_check (d.supportsChannelLayout (nin, nout) == (nin == nout), "only equal channel counts are accepted");
    hse_check (! d.supportsEnvelopeFor (0), "the threshold takes no envelope");
    if (nin != nout)
    {
        hart::AudioBuffer<T> in (nin, frames), out (nout, frames);
        hse_check (outcomeOf ([&] { d.processWithEnvelopes (in, out); }) == channelLayoutError, "different channel counts are refused with a channel layout error");
        return;
    }
    block (d, nin, frames, ratio (a), inPlace);
    const int other = (int) hse_u32 ("id"); const double junk = hse_f64 ("junk");
    if (other != 0) d.setValue (other, junk);
    block (d, nin, 1, ratio (a), inPlace);
    d.setValue (hart::HardClip<T>::thresholdDb, b);
    if (! sym) { const double w = b <= -120 ? -120 : b, r = d.getValue (0); hse_check (r - w < 1e-6 && w - r < 1e-6, "a threshold that was set is read back"); }
    block (d, nin, frames, ratio (b), inPlace);
}
template <typename T> static void large()
{
    static const size_t shape[4][2] = { { 1, 400 }, { 16, 9 }, { 128, 1 }, { 3, 130 } };
    auto& s = shape[hse_pick ("shape", 0, 3)]; const bool inPlace = hse_pick ("inPlace", 0, 1); const double thr = levels[3 + 2 * hse_pick ("level", 0, 3)];
    hart::HardClip<T> d (thr); d.reset(); d.prepareWithEnvelopes (44100, s[0], s[0], s[1]);
    block (d, s[0], s[1], ratio (thr), inPlace, 19); block (d, s[0], 1, ratio (thr), inPlace, 5); d.setValue (0, -6); block (d, s[0], s[1], ratio (-6), inPlace, 23);
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
