// shared by peaks_at.cpp and peaks_below.cpp
#pragma once
#include "matchers.hpp"
enum { F = HSE_TIER == 1 ? 2 : 3 };
static double pickDb() { static const double table[] = { -INFINITY, -120.5, -120, -6, 0, 12, -200, -119.5, -0.25, 20, 60 }; return table[hse_pick ("level", 0, HSE_TIER == 1 ? 5 : 10)]; }
// the largest absolute sample (NaN if there is one), as one term
template <typename T> static T peakOf (Table<T>& t) { T p = 0; for (auto x : t.v) { const T a = std::abs (x); p = H<T>::ite (hse_or (a > p, a != a), a, p); } return p; }
// the peak lies within tol of the target; false with a NaN. slack: how the border is read (-1 strict, +1 lenient, 0 as computed in T)
template <typename T> static int atTarget (T p, T target, T tol, int slack)
{
    if (slack == 0) return hse_or (p == target, std::abs (p - target) <= tol);
    const double d = std::fabs ((double) p - (double) target), e = slack * 1e-6 * (1 + (double) p);
    return hse_or (slack > 0 ? p == target : 0, d <= (double) tol + e);
}
template <typename T> static int below (Table<T>& t, T limit) { int ok = 1; for (auto x : t.v) ok = hse_and (ok, std::abs (x) <= limit); return ok; }
template <typename T> static void judgeAt (bool ok, Table<T>& t, T target, T tol, const char* m)
{   // as computed in T; otherwise (only then) both readings of the border
    const T p = peakOf<T> (t); int isPeak = 0, nan = 0, covers = 1;   // the oracle's own peak is what it claims to be
    for (auto x : t.v) { const T a = std::abs (x); nan = hse_or (nan, a != a); isPeak = hse_or (isPeak, a == p); covers = hse_and (covers, a <= p); }
    hse_check (hse_or (hse_and (nan, p != p), hse_and (hse_not (nan), hse_and (isPeak, covers))), "oracle");
    const int exact = hse_not (ok ^ atTarget<T> (p, target, tol, 0));
    hse_check (exact || (ok ? atTarget<T> (p, target, tol, 1) : hse_not (atTarget<T> (p, target, tol, -1))), m);
}
template <typename T> static int belowD (Table<T>& t, double limit) { int ok = 1; for (auto x : t.v) ok = hse_and (ok, (double) std::abs (x) <= limit); return ok; }
template <typename T> static void judgeBelow (bool ok, Table<T>& t, T limit, double exactLimit, const char* m)
{
    const int exact = hse_not (ok ^ below<T> (t, limit));
    hse_check (exact || (ok ? belowD<T> (t, exactLimit * (1 + 1e-6)) : hse_not (belowD<T> (t, exactLimit * (1 - 1e-6)))), m);
}
template <typename T> static void direct (bool at)
{
    const double db = pickDb();
    const size_t ch = hse_pick ("channels", 1, 2), frames = hse_pick ("frames", 1, F), how = (ch + frames) % 3; const bool big = ch * frames > 2 && HSE_TIER == 1 && PEAKS_AT;
    if (big && db != -6 && db != -120) return;
    const bool own = (big ? db == -6 : hse_pick ("tolerance", 0, 1));
    const double tol = own ? hse_f64 ("tol") : 1e-3; if (own) hse_assume (hse_and (tol >= 0, tol <= 1e6));
    const int ddec = (int) ((ch + frames * 3 + how) % 10); hse_cli ({ "--db-decimals", std::to_string (ddec) });
    std::unique_ptr<hart::Matcher<T>> m, other;
    if (at) m.reset (own ? new hart::PeaksAt<T> (db, tol) : new hart::PeaksAt<T> (db)); else m.reset (own ? new hart::PeaksBelow<T> (db, tol) : new hart::PeaksBelow<T> (db));
    if (how == 1) { other = m->copy(); m = std::move (other); } else if (how == 2) { other = m->move(); m = std::move (other); }
    hse_check (m->canOperatePerBlock() == ! at, "a peak can be judged on the whole signal only, a ceiling block by block");
    m->prepare (44100, ch, frames); m->reset();
    const T target = (T) ratioOf (db), limit = (T) (ratioOf (db) + tol);
    for (int k = 0; k < (ch * frames <= 2 && ! (PEAKS_AT && own) ? 2 : 1); ++k)
    {
        Table<T> t (ch, frames); t.fill ("x"); hart::AudioBuffer<T> b (ch, frames); fillBuffer (b, t, 0);
        const bool ok = m->match (b);
        if (at) judgeAt<T> (ok, t, target, (T) tol, "audio is accepted exactly when its largest absolute sample is within the tolerance of the target, and never with a NaN");
        else judgeBelow<T> (ok, t, limit, ratioOf (db) + tol, "audio is accepted exactly when no sample exceeds the threshold plus tolerance in magnitude, and never with a NaN");
        if (ok) continue;
        const hart::MatcherFailureDetails d = m->getFailureDetails(); const size_t df = hse_concretize (d.frame), dc = hse_concretize (d.channel);
        hse_check (df < frames && dc < ch, "the reported position lies in the audio");
        if (df >= frames || dc >= ch) continue;
        const T v = std::abs (t.at (dc, df));
        if (at)
        {
            int nan = 0, largest = 1; for (auto x : t.v) { nan = hse_or (nan, x != x); largest = hse_and (largest, std::abs (x) <= v); }
            const T peak = peakOf<T> (t);
            hse_check (hse_or (largest, nan), "the reported sample is the largest");
            if (hse_finite (v)) { hse_check (v == peak, "the reported sample is the largest"); hse_check (printedAs<T> (d.description, "peaks at ", levelDb<T> (peak), ddec), "the report gives the level of that sample in dB"); }
            hse_check (hse_implies (nan, v != v), "a NaN is reported as the reason");
        }
        else
        {
            hse_check (! (v <= limit) || ! ((double) v <= (ratioOf (db) + tol) * (1 - 1e-6)), "the reported sample exceeds the threshold");
            if (hse_finite (v)) hse_check (printedAs<T> (d.description, "peaks at at least ", levelDb<T> (v), ddec), "the report gives the level of that sample in dB");
        }
    }
    hse_obs_u64 ("n", ch * frames);
}
// longer and wider audio: fixed samples but for one symbolic sample at one of several positions
template <typename T> static void large (bool at)
{
    static const size_t shapes[4][2] = { { 1, 700 }, { 16, 20 }, { 3, 129 }, { 70, 3 } }; auto& sh = shapes[hse_pick ("shape", 0, 3)]; const size_t ch = sh[0], fr = sh[1];
    const size_t points[4] = { 0, fr / 2, 128 % fr, fr - 1 }; const size_t p = points[hse_pick ("at", 0, 3)], c0 = hse_pick ("last", 0, 1) ? ch - 1 : 0;
    Table<T> t (ch, fr); for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = (T) ((double) (i * 37 % 101) / 400 - 0.125);
    t.at (c0, p) = 0; T rest = 0; for (auto y : t.v) { const T a = std::abs (y); if (a > rest) rest = a; }
    const T x = H<T>::sym ("x"); t.at (c0, p) = x; const double db = -6, tol = 0.0625; const T target = (T) ratioOf (db); hart::AudioBuffer<T> b (ch, fr); fillBuffer (b, t, 0);
    std::unique_ptr<hart::Matcher<T>> m; if (at) m.reset (new hart::PeaksAt<T> (db, tol)); else m.reset (new hart::PeaksBelow<T> (db, tol));
    m->prepare (44100, ch, fr); m->reset(); const bool ok = m->match (b);
    const T a = std::abs (x), peak = H<T>::ite (hse_or (a > rest, a != a), a, rest);
    if (at) { const int exact = hse_not (ok ^ atTarget<T> (peak, target, (T) tol, 0)); hse_check (exact || (ok ? atTarget<T> (peak, target, (T) tol, 1) : hse_not (atTarget<T> (peak, target, (T) tol, -1))), "audio is accepted exactly when its largest absolute sample is within the tolerance of the target, and never with a NaN"); }
    else { const double lim = ratioOf (db) + tol; const int exact = hse_not (ok ^ (a <= (T) lim)); hse_check (exact || (ok ? (double) a <= lim * (1 + 1e-6) : ! ((double) a <= lim * (1 - 1e-6))), "audio is accepted exactly when no sample exceeds the threshold plus tolerance in magnitude, and never with a NaN"); }
    if (! ok) { const hart::MatcherFailureDetails d = m->getFailureDetails(); const size_t df = hse_concretize (d.frame), dc = hse_concretize (d.channel); hse_check (df < fr && dc < ch, "the reported position lies in the audio"); if (df < fr && dc < ch) { const T v = std::abs (t.at (dc, df)); hse_check (at ? hse_or (v == peak, v != v) : hse_not (v <= (T) ((ratioOf (db) + tol) * (1 - 1e-6))), at ? "the reported sample is the largest" : "the reported sample exceeds the threshold"); } }
    H<T>::obs ("x", x);
}
// the host's verdict on a whole signal
template <typename T> static void hosted (bool at)
{
    const size_t block = hse_pick ("block", 1, 2), frames = 2; Table<T> out (1, frames), in (1, 1); out.fill ("x"); TableSignal<T> s (in); TableDsp<T> d (&out, nullptr);
    const double db = -6, tol = 0.125; const T target = (T) ratioOf (db);
    auto b = hart::processAudioWith (d); b.withSampleRate (8).withDuration (0.25).withBlockSize (block).withInputSignal (s);
    if (at) b.expectTrue (hart::PeaksAt<T> (db, tol)); else b.expectTrue (hart::PeaksBelow<T> (db, tol));
    b.process();
    const bool ok = hart::ExpectationFailureMessages::get().empty();
    if (at) judgeAt<T> (ok, out, target, (T) tol, "an expectation on the peak holds exactly when the whole signal's peak is at the target");
    else judgeBelow<T> (ok, out, (T) (ratioOf (db) + tol), ratioOf (db) + tol, "an expectation on the ceiling holds exactly when no sample of the whole signal exceeds it");
    hse_obs_u64 ("ok", ok);
}
static void main_ (bool at) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float> (at); else large<double> (at); return; } const bool host = hse_pick ("host", 0, 1); if (hse_pick ("type", 0, 1)) host ? hosted<float> (at) : direct<float> (at); else host ? hosted<double> (at) : direct<double> (at); }
extern "C" void hse_main (void) { main_ (PEAKS_AT); }
