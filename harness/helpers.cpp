// BOUND: dB values, ratios and comparison operands over every finite float and double (and infinities where said), epsilons over all values; rounding over [0, 2^40] ([0, 2^22] for float); phases over all of [-32, 32] rad and in windows of 2 rad up to +-1000 turns; clamp over float, double and int
// ASSUME: no NaN arguments; clamp intervals with low <= high
#include "matchers.hpp"
template <typename T> static void levels()
{
    const T db = H<T>::sym ("db"); hse_assume (db == db);
    const T r = hart::decibelsToRatio (db);
    if (db < -120) hse_check (r == 0, "levels below -120 dB convert to zero");
    else
    {
        const T want = std::pow ((T) 10, db / (T) 20);
        hse_check (hse_or (r == want, hse_near (r, want, want * (T) 1e-6)), "decibels convert to 10^(dB/20)");
        hse_check (r >= 0, "a ratio is never negative");
    }
    H<T>::obs ("ratio", r);
}
template <typename T> static void ratios()
{
    const T x = H<T>::sym ("ratio"); hse_assume (x == x);
    const T d = hart::ratioToDecibels (x);
    if (x < (T) 1e-6 && x < 1e-6) hse_check (d == -120, "ratios below 1e-6 are -120 dB");
    else { const T want = (T) (20 * std::log10 (x)); hse_check (hse_or (d == want, hse_near (d, want, (T) 1e-4)), "ratios convert to 20 log10"); }
    H<T>::obs ("db", d);
}
template <typename T> static void points()
{
    const struct { double db, r; } p[] = { { -120, 1e-6 }, { -119.5, 1.0592537e-6 }, { -100, 1e-5 }, { -20, 0.1 }, { -6, 0.50118723 }, { 0, 1 }, { 6, 1.9952623 }, { 20, 10 }, { 60, 1000 } };
    const size_t i = hse_pick ("point", 0, 8);
    const T r = hart::decibelsToRatio ((T) p[i].db);
    hse_check (hse_near (r, (T) p[i].r, (T) (p[i].r * 1e-5)), "known levels convert to their ratios");
    const T d = hart::ratioToDecibels ((T) (p[i].r * 1.00001));
    hse_check (hse_near (d, (T) p[i].db, (T) 1e-3), "known ratios convert to their levels");
    hse_check (hart::decibelsToRatio (-std::numeric_limits<T>::infinity()) == 0, "minus infinity dB is silence");
    hse_check (hart::decibelsToRatio ((T) -120.5) == 0, "below the floor is silence");
    hse_check (hart::ratioToDecibels ((T) 0) == -120, "silence is at the floor");
    hse_check (hart::ratioToDecibels ((T) -1) == -120, "a negative ratio is at the floor");
    H<T>::obs ("r", r); H<T>::obs ("d", d);
}
template <typename T> static void clamping (T v, T lo, T hi)
{
    hse_assume (hse_and (v == v, lo <= hi));
    const T c = hart::clamp (v, lo, hi);
    hse_check (hse_and (c >= lo, c <= hi), "a clamped value is inside the interval");
    hse_check (hse_implies (hse_and (v >= lo, v <= hi), c == v), "a value inside the interval is unchanged");
    hse_check (hse_implies (v < lo, c == lo), "a value below the interval becomes its low end");
    hse_check (hse_implies (v > hi, c == hi), "a value above the interval becomes its high end");
    hse_obs_f64 ("clamped", (double) c);
}
template <typename T> static void rounding()
{
    const T x = H<T>::sym ("frames"); hse_assume (hse_and (x >= 0, x <= (T) (sizeof (T) == 8 ? 1099511627776.0 : 4194304.0)));
    const size_t n = hart::roundToSizeT (x);
    const double d = (double) n - (double) x;
    hse_check (hse_and (d <= 0.500001, d >= -0.500001), "rounding gives the nearest whole number of frames");
    hse_obs_u64 ("rounded", n);
}
template <typename T> static void comparing()
{
    const T a = H<T>::sym ("a"), b = H<T>::sym ("b"), e = hse_pick ("default", 0, 1) ? (T) 1e-8 : H<T>::sym ("eps");
    const T diff = std::abs (a - b); hse_assume (hse_and (diff == diff, e == e));
    const int eq = hart::floatsEqual (a, b, e) != 0, ne = hart::floatsNotEqual (a, b, e) != 0;
    hse_check (eq == (diff < e), "values are equal when they differ by less than the tolerance");
    hse_check (ne == ! (diff < e), "values are different when they are not equal");
    if (e == (T) 1e-8) { hse_check ((hart::floatsEqual (a, b) != 0) == eq, "the default tolerance is 1e-8"); hse_check ((hart::floatsNotEqual (a, b) != 0) == ne, "the default tolerance is 1e-8 for inequality"); }
}
template <typename T> static void wrapping()
{
    // adjoining windows of 2 rad over five turns either way, and far away
    const double pi2 = (double) (T) 6.283185307179586;   // one turn as the type can hold it
    const size_t w = hse_pick ("window", 0, HSE_TIER == 1 ? 34 : 38); const double far[] = { 6283.0, -6280.0, 628.0, -3141.0, 62.0 };
    const double lo = w < 32 ? -32.0 + 2.0 * (double) w : w == 32 ? 499.0 : w == 33 ? -500.0 : far[w - 34]; const T p = H<T>::sym ("phase"), from = (T) lo, to = (T) (lo + 2); hse_assume (hse_and (p >= from, p <= to));
    const T r = hart::wrapPhase (p);
    const double turns = std::floor ((lo + 1) / pi2), tol = sizeof (T) == 8 ? 1e-9 : 1e-4 * (1 + std::abs (turns));
    hse_check (hse_and (r >= 0, r <= (T) pi2), "a wrapped phase lies in one turn");
    // the angle without its whole turns, and how far the result is from it in turns
    const T base = p - (T) (turns * pi2), gap = r - base;
    const T want = gap > (T) 3 ? base + (T) pi2 : gap < (T) -3 ? base - (T) pi2 : base;
    const int ok = hse_near (r, want, (T) tol);
    hse_check (ok, "a wrapped phase differs by whole turns");
    H<T>::obs ("wrapped", r);
}
template <typename T> static void all()
{
    switch (hse_pick ("helper", 0, 6))
    {
        case 0: levels<T>(); break;
        case 1: ratios<T>(); break;
        case 2: points<T>(); break;
        case 3: { const T v = H<T>::sym ("v"), lo = H<T>::sym ("lo"), hi = H<T>::sym ("hi"); clamping<T> (v, lo, hi); break; }
        case 4: rounding<T>(); break;
        case 5: comparing<T>(); break;
        default: wrapping<T>(); break;
    }
}
extern "C" void hse_main (void)
{
    switch (hse_pick ("type", 0, 2)) { case 0: all<float>(); break; case 1: all<double>(); break; default: { const int v = (int) hse_u32 ("v"), lo = (int) hse_u32 ("lo"), hi = (int) hse_u32 ("hi"); clamping<int> (v, lo, hi); } }
}
