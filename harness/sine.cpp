// BOUND: new signals and ones used before at another sample rate, then copied or moved; any phase in 8 windows of 1/16 rad between -40 and 40, 6 frames (structural and within 1e-6); 14 concrete phases from -1e6 to 1e6, frequencies from 0.001 Hz to 1 MHz, sample rates 8 / 44100 / 48000.5, 16 (thorough 200) frames, and three runs of 1500 frames, within 1e-6 of the definition; 1..3 channels (also 128); every frequency <= 0 refused and every positive one accepted; float and double
// ASSUME: sin/fmod uninterpreted, refined by their true values; the rounding tolerance of the definition is 1e-6 (float samples) / 1e-8 (double samples)
#include "history.hpp"
template <typename T> static T tol() { return sizeof (T) == 4 ? (T) 1e-6 : (T) 1e-8; }
template <typename T> static void check (const hart::SineWave<T>& made, double phase, double f, double rate, size_t ch, size_t frames, bool symbolic, size_t block = 5)
{
    const size_t past = hse_pick ("past", 0, PASTS - 1); std::unique_ptr<hart::Signal<T>> sp = withPast<T> (made, past, rate * 2, 1 + ch % 2, 3); hart::Signal<T>& s = *sp; startRun<T> (s, past, rate, ch, block);
    double x = phase; const double inc = 2 * 3.14159265358979323846 * f / rate;
    size_t n = 0;
    while (n < frames)
    {
        const size_t k = frames - n < block ? frames - n : block; hart::AudioBuffer<T> b (ch, k); s.renderNextBlock (b);
        for (size_t i = 0; i < k; ++i, ++n)
        {
            if (symbolic) { if (x < 0) x = std::fmod (x, hart::twoPi) + hart::twoPi; if (x > hart::twoPi) x = std::fmod (x, hart::twoPi); }
            const T want = (T) (symbolic ? std::sin (x) : std::sin (phase + inc * (double) n));
            hse_check (hse_near (b[0][i], want, tol<T>()), "frame n is sin (phase + 2 pi n f / sample rate)");
            hse_check (hse_and (b[0][i] <= (T) 1, b[0][i] >= (T) -1), "a sine stays within -1 and 1");
            for (size_t c = 1; c < ch; ++c) hse_check (hse_same_f64 ((double) b[c][i], (double) b[0][i]), "all channels are identical");
            x += inc;
            if (n == 0) H<T>::obs ("first", b[0][0]);
        }
    }
}
template <typename T> static void run()
{
    const int what = (int) hse_pick ("what", 0, 4);
    if (what == 0)
    {
        const double windows[8] = { -6.8222, -0.68, 1.2281, 25.3791, -0.03, 6.25, -39.4, 0.02 }; const double lo = windows[hse_pick ("window", 0, 7)];
        const double phase = hse_f64 ("phase"); hse_assume (hse_and (phase >= lo, phase <= lo + 0.0625)); const double fs[3] = { 1.25, 0.3, 3.9 }; const size_t fi = hse_pick ("frequency", 0, 2);
        hart::SineWave<T> s (fs[fi], phase); check<T> (s, phase, fs[fi], 8, 1 + fi, HSE_TIER == 1 ? 5 : 8, true);
    }
    else if (what == 1)
    {
        const double phases[14] = { 0, 1, -1, 3.14159265358979323846, 2 * 3.14159265358979323846, -2 * 3.14159265358979323846, 7, -7, 100, -100, 1e6, -1e6, -1e-17, -6.283185307179587 }; const double fs[8] = { 0.001, 1, 440.3, 1000, 22050, 30000, 100001, 1e6 }, rates[3] = { 8, 44100, 48000.5 };
        const double phase = phases[hse_pick ("phase", 0, 13)], f = fs[hse_pick ("frequency", 0, 7)]; const size_t ri = hse_pick ("rate", 0, 2); if (ri == 0 && f > 500) return;
        hart::SineWave<T> s (f, phase); check<T> (s, phase, f, rates[ri], 1 + ri, HSE_TIER == 1 ? 16 : 200, false);
    }
    else if (what == 4)
    {
        const double fs[3] = { 0.37, 997, 40000 }; const size_t fi = hse_pick ("frequency", 0, 2); hart::SineWave<T> s (fs[fi], 0.3); check<T> (s, 0.3, fs[fi], 96000, fi == 1 ? 6 : 1, 1500, false, fi == 2 ? 2000 : 256);
        if (fi == 1) { hart::SineWave<T> w (440, 0.3); check<T> (w, 0.3, 440, 48000, 128, 6, false); }
    }
    else if (what == 2)
    {
        hart::SineWave<T> d; hart::SineWave<T> e (440); check<T> (d, 0, 1000, 44100, 2, 6, false); check<T> (e, 0, 440, 44100, 1, 6, false);
    }
    else
    {
        const double f = hse_f64 ("frequency"), phase = hse_f64 ("phase"); hse_assume (hse_and (f == f, hse_and (phase >= -7, phase <= 7)));
        const bool bad = f <= 0; Outcome o = outcomeOf ([&] { hart::SineWave<T> s (f, phase); (void) s; });
        hse_check (o == (bad ? valueError : okay), "non-positive frequencies are refused, all others are accepted");
    }
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
