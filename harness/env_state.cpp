// BOUND: 0..3 segments (one of 8 shape/duration patterns, thorough 16) at 8 Hz or 44100 Hz, all start and target values symbolic; 6 (thorough 8) frames; also 4..12 segments over 96 frames (values 1e-3..1e6); every split into blocks; reset after every prefix; copies (copy-constructed, copied through the base class) after every prefix, with segments added to the copy, the original, or neither, and interleaved rendering
// ASSUME: exp/log uninterpreted (equal arguments give equal values)
#include "env_probes.hpp"
enum { N = HSE_TIER == 1 ? 6 : 8, PAT = HSE_TIER == 1 ? 8 : 16 };
typedef hart::SegmentedEnvelope Env; typedef Env::Shape Shape;
static double v[4];
static double total;
static void build (Env& e, size_t pat)
{
    total = 0;
    const size_t n = pat == 0 ? 0 : pat < 4 ? 2 : 3; const double dur[5] = { 0.1875, 0.25, 0.0625, 0, 0.3 };
    for (size_t i = 0; i < n; ++i)
    {
        const double d = dur[(pat * 2 + i * 3) % 5]; const size_t k = (pat + i * (1 + pat / 3)) % 4;
        total += d; if (k == 0) e.hold (d); else e.rampTo (v[i + 1], d, k == 1 ? Shape::linear : k == 2 ? Shape::sCurve : Shape::exponential);
    }
}
static void prep (hart::Envelope& e, double rate) { e.prepare (rate, N); }
static void one (hart::Envelope& e, std::vector<double>& to) { std::vector<double> o (1); e.renderNextBlock (1, o); to.push_back (o[0]); }
static void eq (const std::vector<double>& a, const std::vector<double>& b, size_t from, const char* m) { for (size_t i = 0; i < b.size() && from + i < a.size(); ++i) hse_check (hse_same_f64 (a[from + i], b[i]), m); }
// longer envelopes: up to 12 segments and 96 frames
static void longer()
{
    enum { M = 96 }; static const size_t blocks[4] = { 1, 5, 33, 96 }, points[4] = { 0, 13, 64, 96 };
    const size_t n = hse_pick ("segments", 1, 3) * 4, block = blocks[hse_pick ("block", 0, 3)], at = points[hse_pick ("at", 0, 3)]; const int what = (int) hse_pick ("what", 0, 2); double w[13];
    for (size_t i = 0; i <= n; ++i) { w[i] = hse_f64 ("v"); hse_assume (hse_and (w[i] >= 1e-3, w[i] <= 1e6)); }
    auto make = [&] (Env& e) { for (size_t i = 0; i < n; ++i) { const double d = 0.125 * (double) (1 + (i * 5 + n) % 14); const size_t k = (i + n / 4) % 4; if (k == 0) e.hold (d); else e.rampTo (w[i + 1], d, k == 1 ? Shape::linear : k == 2 ? Shape::sCurve : Shape::exponential); } };
    auto play = [&] (hart::Envelope& e, size_t frames, std::vector<double>& to) { for (size_t i = 0; i < frames; i += block) { const size_t k = i + block > frames ? frames - i : block; std::vector<double> o (k); e.renderNextBlock (k, o); to.insert (to.end(), o.begin(), o.end()); } };
    std::vector<double> ref (M); { Env e (w[0]); make (e); e.prepare (8, M); e.renderNextBlock (M, ref); }
    Env e (w[0]); make (e); e.prepare (8, M); std::vector<double> a, b; play (e, at, a); eq (ref, a, 0, "any split into blocks gives the same values");
    if (what == 0) { b.clear(); play (e, M - at, b); eq (ref, b, at, "any split into blocks gives the same values"); }
    else if (what == 1) { e.reset(); play (e, M, b); eq (ref, b, 0, "after a reset an envelope gives the values it gave when new"); }
    else
    {
        std::unique_ptr<hart::Envelope> c = e.copy(); a.clear(); play (*c, M - at, b); eq (ref, b, at, "a copy continues exactly like the original"); play (e, M - at, a); eq (ref, a, at, "the original is not affected by its copy");
        e.reset(); b.clear(); play (*c, 3, b); hse_check (b.size() == 3 && hse_same_f64 (b[0], b[2]), "resetting the original does not disturb a copy that has ended");
    }
    hse_obs_f64 ("ref", ref[M - 1]);
}
extern "C" void hse_main (void)
{
    if (hse_pick ("longer", 0, 1)) { longer(); return; }
    const size_t pat = hse_pick ("pattern", 0, PAT - 1); const double rate = (pat & 1) ? 8 : 6.4; const int what = (int) hse_pick ("what", 0, 2);
    for (int i = 0; i < 4; ++i) { v[i] = hse_f64 ("v"); hse_assume (hse_finite (v[i])); }
    Env e (v[0]); build (e, pat); prep (e, rate);
    std::vector<double> ref (N); { Env w (v[0]); build (w, pat); prep (w, rate); w.renderNextBlock (N, ref); }
    if (what == 0)
    {
        const size_t mask = hse_pick ("split", 0, (1u << (N - 1)) - 1); std::vector<double> got;
        size_t start = 0;
        for (size_t i = 1; i <= N; ++i) if (i == N || ((mask >> (i - 1)) & 1)) { std::vector<double> o (i - start); if (i & 1) e.renderNextBlock (i - start, o); else o = static_cast<hart::Envelope&> (e).renderNextBlock (i - start); hse_check (o.size() == i - start, "a block holds one value per frame"); got.insert (got.end(), o.begin(), o.end()); start = i; }
        eq (ref, got, 0, "any split into blocks gives the same values");
    }
    else if (what == 1)
    {
        const size_t at = hse_pick ("at", 0, N), again = hse_pick ("again", 0, 1); std::vector<double> got;
        for (size_t i = 0; i < at; ++i) one (e, got);
        if (again) { e.reset(); got.clear(); one (e, got); }
        e.reset(); if (at & 1) prep (e, rate);
        got.assign (N, 0); e.renderNextBlock (N, got);
        eq (ref, got, 0, "after a reset an envelope gives the values it gave when new");
    }
    else
    {
        const size_t at = hse_pick ("at", 0, N - 1), add = hse_pick ("add", 0, 4); std::vector<double> a, b;
        for (size_t i = 0; i < at; ++i) one (e, a);
        std::unique_ptr<hart::Envelope> c; if (add & 1) c = e.copy(); else c.reset (new Env (e));
        Env& ce = static_cast<Env&> (*c);
        // segments appended to one side extend only that side
        Env ext (v[0]); build (ext, pat); prep (ext, rate); if (add == 1 || add == 3) ext.rampTo (v[1] + 7, 0.25); else if (add) ext.hold (0.25).rampTo (3, 0); 
        std::vector<double> extRef (N); { ext.renderNextBlock (N, extRef); }
        if (add == 1 || add == 2) { if (add == 1) ce.rampTo (v[1] + 7, 0.25); else ce.hold (0.25).rampTo (3, 0); }
        if (add == 3 || add == 4) { if (add == 3) e.rampTo (v[1] + 7, 0.25); else e.hold (0.25).rampTo (3, 0); }
        for (size_t i = at; i < N; ++i) { if (i & 1) one (e, a); one (*c, b); if (! (i & 1)) one (e, a); }
        const bool running = (double) at / rate < total;   // what an extension of an envelope that has already ended does is unspecified
        { std::vector<double> before (a.begin(), a.begin() + at); eq (ref, before, 0, "nothing changes before the copy is taken"); a.erase (a.begin(), a.begin() + at); }
        if (running || add < 3) eq (add == 3 || add == 4 ? extRef : ref, a, at, "the original is not affected by its copy");
        if (running || add == 0 || add > 2) eq (add == 1 || add == 2 ? extRef : ref, b, at, "a copy continues exactly like the original");
        // resetting one side leaves the other alone, and restarts the reset side from its own beginning
        c->reset(); b.clear(); for (size_t i = 0; i < 2; ++i) one (*c, b);
        eq (add == 1 || add == 2 ? extRef : ref, b, 0, "a reset copy starts over like a new envelope");
        std::vector<double> more; one (e, more); Env w2 (v[0]); build (w2, pat); prep (w2, rate); if (add == 3) w2.rampTo (v[1] + 7, 0.25); else if (add == 4) w2.hold (0.25).rampTo (3, 0);
        std::vector<double> wref (N + 1); w2.renderNextBlock (N + 1, wref);
        if (running || add < 3) hse_check (hse_same_f64 (more[0], wref[N]), "resetting a copy does not disturb the original");
    }
    hse_obs_f64 ("ref", ref[N - 1]);
}
