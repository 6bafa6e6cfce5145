// BOUND: all 11 classes with every constructor value within 1e6 (seeds: all 32-bit values; frequencies and durations positive, up to 1e9) symbolic and 7 histories: new; after a value change of any parameter id; after a run; after reset; copied; moved; a copy of a used one. Chains of 0..3 effects on every signal, through all the ways of attaching them; matchers against such signals; 3 file paths; sweep modifiers; float and double
// ASSUME: a printed number is compared by its value (rounded to the configured decimals in replays) and its number of decimals
#include "matchers.hpp"
#include "wav_bytes.hpp"
struct Form
{
    std::string t; size_t p; bool bad;
    explicit Form (const std::string& text) : t (text), p (0), bad (false) {}
    Form& lit (const std::string& s) { if (t.compare (p, s.size(), s) != 0) bad = true; else p += s.size(); return *this; }
    Form& num (double want, int decimals)
    {
        double v = 0; int prec = -1; if (bad) return *this; const size_t n = hse_num_at (t, p, &v, &prec); if (! n) { bad = true; return *this; }
        p += n; double ulp = 0.50001; for (int i = 0; i < decimals; ++i) ulp /= 10;
        const double aw = hse_ite_f64 (want < 0, -want, want);
        hse_check (hse_or (hse_or (v == want, v == (double) (float) want), hse_and (v - want <= ulp + aw * 1e-7, want - v <= ulp + aw * 1e-7)), "the text form gives the value the object was made with");
        hse_check (prec == decimals, "the text form gives its numbers with the decimals of their unit");
        return *this;
    }
    void end() { hse_check (! bad && p == t.size(), "the text form is the class name and its settings in order"); }
};
static double val (const char* n) { const double v = hse_f64 (n); hse_assume (hse_and (v >= -1e6, v <= 1e6)); return v; }
static double pos (const char* n) { const double v = hse_f64 (n); hse_assume (hse_and (v >= 1e-3, v <= 1e9)); return v; }
enum { PAST = 7 };
template <typename T> static std::unique_ptr<hart::DSP<T>> aged (std::unique_ptr<hart::DSP<T>> d, size_t past)
{
    const int id = (int) hse_u32 ("id"); const double v = val ("set");
    if (past == 1 || past == 6) { d->setValue (0, v); d->setValue (id, v); }
    if (past == 2 || past == 3 || past == 6) { d->resetWithEnvelopes(); d->prepareWithEnvelopes (8, 1, 1, 2); hart::AudioBuffer<T> in (1, 2), out (1, 2); d->processWithEnvelopes (in, out); }
    if (past == 3) d->reset();
    if (past == 4 || past == 6) return d->copy();
    if (past == 5) return d->move();
    return d;
}
template <typename T> static void effects (size_t kind)
{
    const double x = val ("x"); std::unique_ptr<hart::DSP<T>> d; const size_t past = hse_pick ("past", 0, PAST - 1);
    if (kind == 0) d.reset (new hart::GainDb<T> (x)); else if (kind == 1) d.reset (new hart::GainLinear<T> (x)); else d.reset (new hart::HardClip<T> (x));
    d = aged<T> (std::move (d), past);
    std::stringstream s; s << *d; Form f (s.str());
    if (kind == 0) f.lit ("GainDb (").num (x, 1).lit ("_dB)").end(); else if (kind == 1) f.lit ("GainLinear (").num (x, 6).lit (")").end(); else f.lit ("HardClip (").num (x, 1).lit ("_dB)").end();
    hse_check (hse_represent (*d).size() == s.str().size(), "streaming an effect gives its text form");
}
struct Want { double a, b, c; uint32_t seed; int v; std::string path; };
template <typename T> static std::unique_ptr<hart::Signal<T>> makeOne (size_t kind, Want& w)
{
    typedef hart::SineSweep<T> S; std::unique_ptr<hart::Signal<T>> r; w.v = 0;
    if (kind == 0) r.reset (new hart::Silence<T>());
    else if (kind == 1) { w.a = pos ("f"); w.b = val ("phase"); hse_assume (hse_and (w.b >= 0, w.b <= 6)); r.reset (new hart::SineWave<T> (w.a, w.b)); }
    else if (kind == 2)
    {
        w.v = (int) hse_pick ("variant", 0, 3); const int mod = (int) hse_pick ("modified", 0, 2); w.a = 0.375; w.b = pos ("start"); w.c = pos ("end");
        const typename S::SweepType ty = w.v & 1 ? S::SweepType::linear : S::SweepType::log; const typename S::Loop lo = w.v & 2 ? S::Loop::yes : S::Loop::no;
        if (mod == 0) r.reset (new S (w.a, w.b, w.c, ty, lo, 1));
        else if (mod == 1) r.reset (new S (S (1, 20, 30).withDuration (w.a).withStartFrequency (w.b).withEndFrequency (w.c).withType (ty).withLoop (lo).withPhase (1)));
        else { S other = S (w.a, w.b, w.c, ty, lo, 1); S changed = other.withDuration (2).withStartFrequency (5).withEndFrequency (6).withType (S::SweepType::log).withLoop (S::Loop::yes).withPhase (2); (void) changed; r.reset (new S (other)); }
    }
    else if (kind == 3) { w.seed = hse_u32 ("seed"); r.reset (new hart::WhiteNoise<T> (w.seed)); }
    else
    {
        const char* const paths[3] = { "a.wav", "./b.wav", "\\c.wav" }; w.path = paths[hse_pick ("path", 0, 2)]; w.v = (int) hse_pick ("loop", 0, 1); WavBytes f (1, 8, 32, true, 4); f.u32 (0); f.save (w.path.c_str());
        typedef hart::WavFile<T> W; r.reset (new W (w.path, w.v ? W::Loop::yes : W::Loop::no));
    }
    return r;
}
static void formOf (Form& f, size_t kind, const Want& w)
{
    if (kind == 0) f.lit ("Silence()");
    else if (kind == 1) f.lit ("SineWave (").num (w.a, 1).lit ("_Hz, ").num (w.b, 1).lit ("_rad)");
    else if (kind == 2) f.lit ("SineSweep (").num (w.a, 3).lit ("_s, ").num (w.b, 1).lit ("_Hz, ").num (w.c, 1).lit ("_Hz, ").lit (w.v & 1 ? "SweepType::linear, " : "SweepType::log, ").lit (w.v & 2 ? "Loop::yes)" : "Loop::no)");
    else if (kind == 3) f.lit ("WhiteNoise (").num ((double) w.seed, 0).lit (")");
    else f.lit ("WavFile (\"" + w.path + "\", ").lit (w.v ? "Loop::yes)" : "Loop::no)");
}
template <typename T> static std::unique_ptr<hart::Signal<T>> used (std::unique_ptr<hart::Signal<T>> s, size_t past)
{
    if (past == 2 || past == 3 || past == 6) { s->resetWithDSPChain(); s->prepareWithDSPChain (8, 1, 2); hart::AudioBuffer<T> b (1, 2); s->renderNextBlockWithDSPChain (b); }
    if (past == 3) s->resetWithDSPChain();
    if (past == 4 || past == 6) return s->copy();
    if (past == 5) return s->move();
    return s;
}
template <typename T> static size_t attach (hart::Signal<T>& s, size_t n, double g, size_t how)
{
    for (size_t i = 0; i < n; ++i)
    {
        const size_t what = (i + how) % 3; hart::GainDb<T> db (g); hart::GainLinear<T> lin (g + 1); hart::HardClip<T> clip (g - 1);
        switch (how % 3)
        {
            case 0: if (what == 0) s.followedBy (static_cast<const hart::DSP<T>&> (db)); else if (what == 1) s.followedBy (static_cast<const hart::DSP<T>&> (lin)); else s.followedBy (static_cast<const hart::DSP<T>&> (clip)); break;
            case 1: if (what == 0) s.followedBy (std::move (db)); else if (what == 1) s.followedBy (std::move (lin)); else s.followedBy (std::move (clip)); break;
            default: if (what == 0) s.followedBy (db.copy()); else if (what == 1) s.followedBy (lin.copy()); else s.followedBy (clip.copy()); break;
        }
    }
    return n;
}
static void chainOf (Form& f, size_t n, double g, size_t how)
{
    for (size_t i = 0; i < n; ++i)
    {
        f.lit (" >> "); const size_t what = (i + how) % 3;
        if (what == 0) f.lit ("GainDb (").num (g, 1).lit ("_dB)"); else if (what == 1) f.lit ("GainLinear (").num (g + 1, 6).lit (")"); else f.lit ("HardClip (").num (g - 1, 1).lit ("_dB)");
    }
}
template <typename T> static void signals (size_t kind)
{
    const size_t n = hse_pick ("effects", 0, kind == 2 ? 1 : 3), past = n % 2 ? 1 + hse_pick ("past", 0, PAST - 2) : hse_pick ("past", 0, PAST - 1), how = (n + past + kind) % 3;
    Want w; std::unique_ptr<hart::Signal<T>> s = makeOne<T> (kind, w); const double g = hse_f64 ("g"); hse_assume (hse_and (g >= -90, g <= 90));
    attach<T> (*s, n, g, how); s = used<T> (std::move (s), past);
    std::stringstream st; st << *s; Form f (st.str()); formOf (f, kind, w); chainOf (f, n, g, how); f.end();
    Form alone (hse_represent (*s)); formOf (alone, kind, w); alone.end();
}
template <typename T> static std::unique_ptr<hart::Matcher<T>> matched (std::unique_ptr<hart::Matcher<T>> m, size_t past)
{
    if (past == 2 || past == 3 || past == 6) { m->prepare (8, 1, 2); m->reset(); hart::AudioBuffer<T> b (1, 2); b[0][0] = (T) 1e30; m->match (b); }
    if (past == 3) m->reset();
    if (past == 4 || past == 6) return m->copy();
    if (past == 5) return m->move();
    return m;
}
template <typename T> static void matchers (size_t kind)
{
    const size_t past = hse_pick ("past", 0, PAST - 1); const double tol = hse_f64 ("tolerance"); hse_assume (hse_and (tol >= 0, tol <= 10)); const int def = (int) hse_pick ("default", 0, 1);
    std::unique_ptr<hart::Matcher<T>> m;
    if (kind < 2)
    {
        const double db = hse_f64 ("level"); hse_assume (hse_and (db >= -200, db <= 200)); 
        if (kind == 0) m.reset (def ? new hart::PeaksAt<T> (db) : new hart::PeaksAt<T> (db, tol)); else m.reset (def ? new hart::PeaksBelow<T> (db) : new hart::PeaksBelow<T> (db, tol));
        m = matched<T> (std::move (m), past);
        std::stringstream st; st << *m; Form f (st.str()); f.lit (kind ? "PeaksBelow (" : "PeaksAt (").num (db, 1).lit ("_dB, ").num (def ? 1e-3 : tol, 6).lit (")").end();
        return;
    }
    const size_t n = hse_pick ("effects", 0, 2), how = n + past; const double g = hse_f64 ("g"), phase = hse_f64 ("phase"); hse_assume (hse_and (hse_and (g >= -90, g <= 90), hse_and (phase >= 0, phase <= 6)));
    hart::SineWave<T> s (440, phase); attach<T> (s, n, g, how);
    if (def) m.reset (new hart::EqualsTo<T> (s)); else m.reset (new hart::EqualsTo<T> (s, tol));
    m = matched<T> (std::move (m), past);
    s.followedBy (hart::GainDb<T> (1));   // the matcher has its own copy
    std::stringstream st; st << *m; Form f (st.str()); f.lit ("EqualsTo (SineWave (").num (440, 1).lit ("_Hz, ").num (phase, 1).lit ("_rad)"); chainOf (f, n, g, how); f.lit (", ").num (def ? 1e-5 : tol, 6).lit (")").end();
}
template <typename T> static void run (size_t kind) { if (kind < 3) effects<T> (kind); else if (kind < 8) signals<T> (kind - 3); else matchers<T> (kind - 8); }
extern "C" void hse_main (void) { hse_cli ({}); const size_t kind = hse_pick ("class", 0, 10); if (hse_pick ("type", 0, 1)) run<float> (kind); else run<double> (kind); }
