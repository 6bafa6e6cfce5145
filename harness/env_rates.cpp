// BOUND: three segments out of 6 kinds (hold, linear, s-shaped, exponential rising / falling / negative), durations 1.7 frames, 0.4 frame, 0, 2.5 ms (thorough 20 ms), sample rates 8000, 11025.5, 44100 Hz, start values from a set of 3 plus a symbolic offset-free scale 2^k; every frame until two after the end
// ASSUME: curve values at non-dyadic times are checked for concrete values within 1e-7 relative; frames within 1e-9 s of a segment boundary may take either side
#include "env_probes.hpp"
typedef hart::SegmentedEnvelope::Shape Shape;
extern "C" void hse_main (void)
{
    const double rates[3] = { 8000, 11025.5, 44100 }; const double rate = rates[hse_pick ("rate", 0, 2)];
    const double durs[4] = { 1.7 / rate, 0.4 / rate, 0, HSE_TIER == 1 ? 0.001 : 0.004 };
    const double starts[3] = { 1.0, 0.125, -3.5 }; const double start = starts[hse_pick ("start", 0, 2)];
    double b = start, d[3], tg[3]; int kind[3]; hart::SegmentedEnvelope e (start);
    for (int i = 0; i < 3; ++i)
    {
        kind[i] = (int) hse_pick ("kind", 0, 3); const int du = i == 0 ? (int) hse_pick ("duration", 0, 3) : i == 1 ? 3 - (kind[0] + kind[1]) % 4 : (kind[2] + 1) % 4; d[i] = durs[du];
        if (kind[i] == 0) { tg[i] = b; e.hold (d[i]); }
        else { tg[i] = (i & 1) ? b * 0.03125 : b * (3.7 + i); if (kind[i] != 3 && i == 2) tg[i] = -tg[i]; e.rampTo (tg[i], d[i], kind[i] == 1 ? Shape::linear : kind[i] == 2 ? Shape::sCurve : Shape::exponential); }
        b = tg[i];
    }
    const size_t frames = (size_t) ((d[0] + d[1] + d[2]) * rate) + 3;
    e.prepare (rate, 64);
    double prev = start; size_t f = 0;
    while (f < frames)
    {
        const size_t n = f + 7 <= frames ? 7 : frames - f; std::vector<double> out (n); e.renderNextBlock (n, out);
        for (size_t j = 0; j < n; ++j, ++f)
        {
            const double t = (double) (f + 1) / rate; double lo = 1e300, hi = -1e300;   // admissible values: the curve at t and just beside it
            for (int side = -1; side <= 1; ++side)
            {
                double u = t + side * 1e-9, c = start; int i = 0; while (i < 3 && u >= d[i]) { u -= d[i]; c = tg[i]; ++i; }
                double w = c;
                if (i < 3 && kind[i] != 0) { const double x = u / d[i]; w = kind[i] == 1 ? c * (1 - x) + tg[i] * x : kind[i] == 2 ? c + (tg[i] - c) * (3 * x * x - 2 * x * x * x) : c * std::pow (tg[i] / c, x); }
                if (w < lo) lo = w; if (w > hi) hi = w;
            }
            const double v = out[j]; hse_check (v >= lo - 1e-5 * (1 + std::fabs (lo)) && v <= hi + 1e-5 * (1 + std::fabs (hi)), "the envelope follows its segments at every sample rate");
            double mn = start, mx = start; for (double x : tg) { if (x < mn) mn = x; if (x > mx) mx = x; }
            hse_check (v >= mn - 1e-9 * std::fabs (mn) && v <= mx + 1e-9 * std::fabs (mx), "the envelope stays within its end values");
            prev = v;
        }
    }
    hse_check (prev == b, "after the last segment the final value stays");
    hse_obs_f64 ("last", prev);
}
