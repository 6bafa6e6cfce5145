// BOUND: new signals and ones used before at another sample rate, then copied or moved; durations 0, 0.4, 0.5, 1, 2.4, 4, 5.5, 8 frames at 8 Hz, rising / falling / fixed / nearly fixed frequency, linear / log, looped or not, 6 concrete phases, 20 frames (also 44100 Hz, 12 frames of 10 ms; thorough 60 frames); also a pass of 30000 frames; eight looped sweeps of 600 frames (4 to 66 passes); symbolic phase, start and end frequency within windows, 2..4 frames long, looped, 6 frames; every negative duration and non-positive frequency refused, every other accepted; all with*() modifiers; 1..2 channels (also 128); float and double
// ASSUME: sin/pow/remainder uninterpreted, refined by their true values; the phase advances by the frequency law's value at each new frame (tolerance 1e-6 / 1e-8)
#include "history.hpp"
template <typename T> static T tol() { return sizeof (T) == 4 ? (T) 1e-6 : (T) 1e-8; }
static double wrap (double x) { double r = std::remainder (x, 2 * 3.14159265358979323846); if (r < 0) r += 2 * 3.14159265358979323846; return r; }
struct P { double d, f0, f1, phase; bool log, loop; };
template <typename T> static hart::SineSweep<T> make (const P& p) { typedef hart::SineSweep<T> S; return S (p.d, p.f0, p.f1, p.log ? S::SweepType::log : S::SweepType::linear, p.loop ? S::Loop::yes : S::Loop::no, p.phase); }
template <typename T> static void check (const hart::SineSweep<T>& made, const P& p, double rate, size_t ch, size_t frames, size_t block)
{
    const size_t past = hse_pick ("past", 0, PASTS - 1); std::unique_ptr<hart::Signal<T>> sp = withPast<T> (made, past, past == 3 ? rate * 1.5 : rate * 0.75, 1 + ch % 2, past + 3); hart::Signal<T>& s = *sp; startRun<T> (s, past, rate, ch, block);
    const size_t D = (size_t) (p.d * rate + 0.5); double x = wrap (p.phase); size_t n = 0, pos = 0; bool rev = false, silent = D == 0;
    while (n < frames)
    {
        const size_t k = frames - n < block ? frames - n : block; hart::AudioBuffer<T> b (ch, k); for (size_t c = 0; c < ch; ++c) for (size_t i = 0; i < k; ++i) b[c][i] = (T) 9;
        s.renderNextBlock (b);
        for (size_t i = 0; i < k; ++i, ++n)
        {
            if (silent) hse_check (b[0][i] == (T) 0, "silence where the sweep has no sound: beyond its duration, or all the time if it is shorter than half a frame");
            else
            {
                hse_check (hse_near (b[0][i], (T) std::sin (x), tol<T>()), "the sweep follows the frequency law from its initial phase, reversing after each pass when looped");
                hse_check (hse_and (b[0][i] <= (T) 1, b[0][i] >= (T) -1), "a sweep stays within -1 and 1");
                if (++pos == D) { if (p.loop) { rev = ! rev; pos = 0; } else silent = true; }
                double q = (double) pos / rate / p.d; if (rev) q = 1.0 - q;
                const double f = p.f0 == p.f1 ? p.f0 : p.log ? p.f0 * std::pow (p.f1 / p.f0, q) : p.f0 + (p.f1 - p.f0) * q;
                if (! silent) x = wrap (x + 2 * 3.14159265358979323846 * f / rate);
            }
            for (size_t c = 1; c < ch; ++c) hse_check (hse_same_f64 ((double) b[c][i], (double) b[0][i]), "all channels are identical");
            if (n == 1) H<T>::obs ("second", b[0][i]);
        }
    }
}
template <typename T> static void run()
{
    typedef hart::SineSweep<T> S;
    const int what = (int) hse_pick ("what", 0, 5); P p; p.phase = 0; p.log = p.loop = false;
    const double pairs[4][2] = { { 0.5, 2.5 }, { 3, 0.25 }, { 1.5, 1.5 }, { 1, 1.0625 } };
    if (what == 0)
    {
        const double frames[8] = { 0, 0.4, 0.5, 1, 2.4, 4, 5.5, 8 }, phases[6] = { 0, 1, -1, 7, -100, 3.14159265358979323846 };
        p.d = frames[hse_pick ("duration", 0, 7)] / 8; const size_t fi = hse_pick ("frequencies", 0, 3), v = hse_pick ("variant", 0, 3); p.log = v & 1; p.loop = v & 2; p.phase = phases[hse_pick ("phase", 0, 5)]; p.f0 = pairs[fi][0]; p.f1 = pairs[fi][1];
        S s = make<T> (p); check<T> (s, p, 8, 1 + fi % 2, HSE_TIER == 1 ? 20 : 60, 1 + (size_t) (p.d * 8) % 4);
    }
    else if (what == 1)
    {
        const double rates[3] = { 44100, 1000.5, 96000 }; const double rate = rates[hse_pick ("rate", 0, 2)]; const size_t v = hse_pick ("variant", 0, 3); p.log = v & 1; p.loop = v & 2; p.d = hse_pick ("duration", 0, 1) ? 0.01 : 5.6 / rate; p.f0 = p.d == 0.01 ? 1 : 100; p.f1 = rate / 3;
        S s = make<T> (p); check<T> (s, p, rate, 2, HSE_TIER == 1 ? 12 : 1200, 5);
    }
    else if (what == 4)
    {   // many passes, long blocks
        const size_t v = hse_pick ("variant", 0, 3), shape = hse_pick ("shape", 0, 1); p.log = v & 1; p.loop = true; p.phase = 0.7; p.d = shape ? 0.13 : 0.009; p.f0 = v & 2 ? 300 : 5; p.f1 = v & 2 ? 5 : 300;
        S s = make<T> (p); check<T> (s, p, 1000, shape ? 5 : 1, 600, shape ? 256 : 700);
    }
    else if (what == 5)
    {   // a long pass ends at the nearest frame
        const double frames[2] = { 30000.4995, 30000.5005 }; const int up = (int) hse_pick ("up", 0, 1); S s (frames[up] / 96000, 40, 40, S::SweepType::linear, S::Loop::no, 1.25); s.prepare (96000, 1, 30010);
        hart::AudioBuffer<T> b (1, 30010); s.renderNextBlock (b);
        for (int i = 29996; i < 30006; ++i)
        {
            const double x = std::sin (1.25 + 2 * 3.14159265358979323846 * 40 * i / 96000);
            if (i >= 30000 + up) hse_check (b[0][i] == (T) 0, "silence where the sweep has no sound: beyond its duration, or all the time if it is shorter than half a frame");
            else hse_check (hse_near (b[0][i], (T) x, (T) 1e-5), "the sweep follows the frequency law from its initial phase, reversing after each pass when looped");
        }
        H<T>::obs ("last", b[0][30000]); p.d = 0.004; p.f0 = 500; p.f1 = 50; S w = make<T> (p); check<T> (w, p, 1000, 128, 6, 3);
    }
    else if (what == 2)
    {
        const double windows[4] = { -6.8222, -0.7354, 1.2281, 25.3791 }; const double lo = windows[hse_pick ("window", 0, 3)]; const size_t v = hse_pick ("variant", 0, 3), len = hse_pick ("length", 2, 4); p.log = v & 1; p.loop = v & 2; p.d = (double) len / 8;
        p.phase = hse_f64 ("phase"); p.f0 = hse_f64 ("start"); p.f1 = hse_f64 ("end");
        hse_assume (hse_and (p.phase >= lo, p.phase <= lo + 0.03125)); const double b0 = v == 1 ? 1.0 : 0.5, b1 = v == 2 ? 0.3 : 2.5;
        hse_assume (hse_and (hse_and (p.f0 >= b0, p.f0 <= b0 + 0.015625), hse_and (p.f1 >= b1, p.f1 <= b1 + 0.015625)));
        S s = make<T> (p); check<T> (s, p, 8, 1, HSE_TIER == 1 ? 6 : 10, 4);
    }
    else
    {
        p.d = hse_f64 ("duration"); p.f0 = hse_f64 ("start"); p.f1 = hse_f64 ("end"); p.phase = hse_f64 ("phase"); hse_assume (hse_and (hse_and (p.d == p.d, p.f0 == p.f0), hse_and (p.f1 == p.f1, hse_and (p.phase > -100, p.phase < 100))));
        hse_assume (hse_and (p.f0 < 1e300, hse_and (p.f1 < 1e300, p.d < 1e300)));
        const int w = (int) hse_pick ("modifier", 0, 4);
        const int bad = hse_or (p.d < 0, hse_or (p.f0 <= 0, p.f1 <= 0));
        const Outcome o = outcomeOf ([&] { make<T> (p); }); hse_check (o == (bad ? valueError : okay), "negative durations and non-positive frequencies are refused, everything else is accepted");
        // modifiers give the same sweep as constructing it with that setting
        P q { 0.5, 0.5, 2.5, 1, true, true }; S base = make<T> (q);
        if (w == 0) q.d = 0.375; else if (w == 1) q.f0 = 1.5; else if (w == 2) q.f1 = 0.25; else if (w == 3) { q.log = false; q.loop = false; } else q.phase = -2;
        S m = w == 0 ? base.withDuration (q.d) : w == 1 ? base.withStartFrequency (q.f0) : w == 2 ? base.withEndFrequency (q.f1) : w == 3 ? base.withType (S::SweepType::linear).withLoop (S::Loop::no) : base.withPhase (q.phase);
        check<T> (m, q, 8, 1, 12, 5);
        const Outcome o2 = outcomeOf ([&] { if (w == 0) base.withDuration (p.d); else if (w == 1) base.withStartFrequency (p.f0); else base.withEndFrequency (p.f1); });
        hse_check (o2 == ((w == 0 ? p.d < 0 : w == 1 ? p.f0 <= 0 : p.f1 <= 0) ? valueError : okay), "the modifiers refuse the same values");
    }
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
