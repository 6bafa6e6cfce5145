// BOUND: 0..2 segments (thorough 3) of every kind (hold, linear, s-shaped, exponential) and every duration out of 0, 1/16, 1/8, 3/16, 3/8 s at 8 Hz (exact times; shorter than a frame, a whole frame, between frames), and six fixed patterns of 5..16 segments; every start and target value symbolic (|v| <= 1e6); every frame until two after the end; exponential ramps: values of equal sign, 1e-3 <= |v|
// ASSUME: exp/log uninterpreted (refined by their true values); the value of an exponential ramp between values of different sign or zero is unspecified
#include "env_probes.hpp"
enum { SEGS = HSE_TIER == 1 ? 2 : 3, KINDS = 4, DURS = 5 };
static double mag (double x) { return hse_ite_f64 (x < 0, -x, x); }
extern "C" void hse_main (void)
{
    const double durs[DURS] = { 0, 0.0625, 0.125, 0.1875, 0.375 };
    static const size_t longer[6] = { 8, 5, 12, 7, 9, 16 };   // longer envelopes: fixed patterns of kinds and durations, values symbolic
    const size_t big = hse_pick ("big", 0, 6), n = big ? longer[big - 1] : hse_pick ("segments", 0, SEGS); size_t kind[16]; double dur[16], target[16], total = 0;
    const double start = hse_f64 ("start"); hse_assume (mag (start) <= 1e6);
    hart::SegmentedEnvelope e (start);
    double prev = start;
    for (size_t i = 0; i < n; ++i)
    {
        kind[i] = big ? (i * (1 + big / 2) + big) % KINDS : hse_pick ("kind", 0, KINDS - 1); dur[i] = durs[big ? (i * (2 + big % 3) + big) % DURS : hse_pick ("duration", 0, DURS - 1)]; total += dur[i];
        if (kind[i] == 0) { e.hold (dur[i]); target[i] = prev; }
        else
        {
            target[i] = hse_f64 ("target"); hse_assume (mag (target[i]) <= 1e6);
            if (kind[i] == 3) hse_assume (hse_and (hse_and (mag (prev) >= 1e-3, mag (target[i]) >= 1e-3), (prev > 0) == (target[i] > 0)));
            e.rampTo (target[i], dur[i], kind[i] == 1 ? hart::SegmentedEnvelope::Shape::linear : kind[i] == 2 ? hart::SegmentedEnvelope::Shape::sCurve : hart::SegmentedEnvelope::Shape::exponential);
        }
        prev = target[i];
    }
    const size_t frames = (size_t) (total * 8) + 2;
    e.prepare (8, frames);
    if (frames & 1) e.reset();
    std::vector<double> out (frames); e.renderNextBlock (frames, out);
    for (size_t f = 0; f < frames; ++f)
    {
        double t = (double) (f + 1) * 0.125, b = start; size_t i = 0;
        while (i < n && t >= dur[i]) { t -= dur[i]; b = target[i]; ++i; }
        const double v = out[f];
        if (i == n) { hse_check (v == b, "after the last segment the final value stays"); continue; }
        if (kind[i] == 0) { hse_check (v == b, "a hold keeps the value"); continue; }
        const double g = target[i], x = t / dur[i];
        if (kind[i] == 1)
        {
            const double want = b + (g - b) * x;
            hse_check (hse_near (v, want, 1e-6), "a linear ramp goes straight to its target in its duration");
        }
        else if (kind[i] == 2)
        {
            const double s = x * x * (3.0 - 2.0 * x), want = b + (g - b) * s;
            hse_check (hse_near (v, want, 1e-6), "an s-shaped ramp follows the smooth step to its target in its duration");
        }
        else
        {
            const double r = g / b, k1 = std::log (r) / dur[i], k2 = std::log (1.0 / r) / dur[i];
            const double w1 = b * std::exp (k1 * t), w2 = b * std::exp (-k2 * t);
            int ok = hse_or (hse_eqv (v, w1), hse_eqv (v, w2));
            ok = hse_or (ok, hse_and (mag (r - 1.0) < 1e-8, hse_eqv (v, b)));
            ok = hse_or (ok, mag (v - w1) <= 1e-7 * mag (b) + 1e-7 * mag (g));
            hse_check (ok, "an exponential ramp goes to its target in its duration with a constant ratio per time");
        }
    }
    hse_obs_f64 ("last", out[frames - 1]);
}
