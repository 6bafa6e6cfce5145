// BOUND: integer literals over the whole 64-bit range (binade by binade), long double literals m * 2^-k and m * 2^k for every 64-bit m and k in {0, 1, 10, 52, 64, 100} (thorough also 3, 20, 30, 63, 80, 200), for all seven units; the constants
// ASSUME: literals are not negative (a minus sign is applied to the double)
#include "matchers.hpp"
static bool close (double v, double want) { return hse_and (v - want <= want * 1e-12, want - v <= want * 1e-12); }
static void whole (unsigned long long n, double d)
{
    hse_obs_f64 ("d", d);
    switch (hse_pick ("unit", 0, 6))
    {
        case 0: hse_check (operator"" _s (n) == d, "whole seconds are seconds"); break;
        case 1: hse_obs_f64 ("value", operator"" _ms (n)); hse_check (close (operator"" _ms (n), d * 1e-3), "whole milliseconds are thousandths of a second"); break;
        case 2: hse_obs_f64 ("value", operator"" _us (n)); hse_check (close (operator"" _us (n), d * 1e-6), "whole microseconds are millionths of a second"); break;
        case 3: hse_check (operator"" _dB (n) == d, "whole decibels are decibels"); hse_check (operator"" _Hz (n) == d, "whole hertz are hertz"); break;
        case 4: hse_obs_f64 ("value", operator"" _kHz (n)); hse_check (close (operator"" _kHz (n), d * 1e3), "whole kilohertz are thousands of hertz"); break;
        case 5: hse_check (operator"" _rad (n) == d, "whole radians are radians"); break;
        default: hse_obs_f64 ("value", operator"" _deg (n)); hse_check (close (operator"" _deg (n), d * 0.017453292519943295), "whole degrees are 180ths of pi radians"); break;
    }
}
static void fraction (long double x, double d)
{
    switch (hse_pick ("unit", 0, 6))
    {
        case 0: hse_check (operator"" _s (x) == d, "seconds are seconds"); break;
        case 1: hse_obs_f64 ("value", operator"" _ms (x)); hse_check (close (operator"" _ms (x), d * 1e-3), "milliseconds are thousandths of a second"); break;
        case 2: hse_obs_f64 ("value", operator"" _us (x)); hse_check (close (operator"" _us (x), d * 1e-6), "microseconds are millionths of a second"); break;
        case 3: hse_check (operator"" _dB (x) == d, "decibels are decibels"); hse_check (operator"" _Hz (x) == d, "hertz are hertz"); break;
        case 4: hse_obs_f64 ("value", operator"" _kHz (x)); hse_check (close (operator"" _kHz (x), d * 1e3), "kilohertz are thousands of hertz"); break;
        case 5: hse_check (operator"" _rad (x) == d, "radians are radians"); break;
        default: hse_obs_f64 ("value", operator"" _deg (x)); hse_check (close (operator"" _deg (x), d * 0.017453292519943295), "degrees are 180ths of pi radians"); break;
    }
}
extern "C" void hse_main (void)
{
    if (hse_pick ("kind", 0, 1) == 0 && hse_pick ("constants", 0, 1))
    {
        hse_check (inf_dB == std::numeric_limits<double>::infinity() && oo_dB == inf_dB, "the infinite level is infinite");
        hse_check (pi_rad == 3.14159265358979323846 && twoPi_rad == 2 * pi_rad && halfPi_rad * 2 == pi_rad && hart::inf == inf_dB && hart::oo == inf_dB, "the angle constants are pi and its multiples");
        hse_check (1.5_s == 1.5 && 250_ms == 0.25 && 2_kHz == 2000 && 44.1_kHz == 44100 && -6_dB == -6 && 180_deg == pi_rad && 0_us == 0 && 3_rad == 3 && 440_Hz == 440, "literals can be written in source code");
        return;
    }
    const size_t bits = hse_pick ("bits", 0, 64);
    const unsigned long long n = bits == 0 ? 0 : hse_u64 ("n", 1ull << (bits - 1), bits == 64 ? ~0ull : (1ull << (bits % 64)) - 1);
    if (hse_pick ("whole", 0, 1)) { whole (n, (double) n); return; }
#if HSE_TIER == 1
    static const int ks[] = { 0, 1, 10, 52, 64, 100 };
#else
    static const int ks[] = { 0, 1, 10, 52, 64, 100, 3, 20, 30, 63, 80, 200 };
#endif
    const int k = ks[hse_pick ("scale", 0, sizeof (ks) / sizeof (ks[0]) - 1)]; const bool up = hse_pick ("up", 0, 1);
    long double s = 1; for (int i = 0; i < k; ++i) s = up ? s * 2 : s / 2;
    const long double x = (long double) n * s;
    fraction (x, (double) x);
}
