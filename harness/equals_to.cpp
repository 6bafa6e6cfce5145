// BOUND: audio of 3 (thorough 4) frames x 1..2 channels in every split into blocks (and up to 700 frames or 70 channels with one symbolic sample), against a reference of symbolic samples (played directly, or through an attached effect with a position of its own); all reference samples, two (three) observed samples at any position and the tolerance symbolic (NaN and infinities included), the other observed samples equal to the reference; default and explicit tolerance; original, copied and moved matcher; second pass after reset; decimals 0..9; float and double
// ASSUME: the printed digits of a number are the decimal rounding of the value handed to the stream (text stand-in keeps value and precision; replays use the real stream)
#include "matchers.hpp"
enum { F = HSE_TIER == 1 ? 3 : 4 };
template <typename T> static int within (T x, T y, T tol) { const T d = x - y; return hse_or (x == y, hse_and (d <= tol, -d <= tol)); }
// turns every other frame around, from its first on: an effect with a position of its own
template <typename T> class Alternate : public hart::DSP<T>
{
public:
    size_t pos = 0;
    static T of (T x, size_t f) { return f % 2 ? x : x * (T) -1; }
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override { for (size_t f = 0; f < in.getNumFrames(); ++f, ++pos) for (size_t c = 0; c < in.getNumChannels(); ++c) out[c][f] = of (in[c][f], pos); }
    void reset() override { pos = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o; }
    void represent (std::ostream& s) const override { s << "Alternate()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<Alternate<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<Alternate<T>> (std::move (*this)); }
};
template <typename T> static void run()
{
    const size_t ch = hse_pick ("channels", 1, 2), mask = hse_pick ("split", 0, (1u << (F - 1)) - 1), how = (mask + ch) % 4; const bool own = hse_pick ("tolerance", 0, 1), gain = how == 3;
    const double tol = own ? hse_f64 ("tol") : 1e-5; const T tolerance = own ? (T) tol : (T) 1e-5;
    if (own) hse_assume (tol >= 0);
    Table<T> ref (ch, F), obs (ch, F); ref.fill ("ref");
    const size_t n = ch * F, k = hse_pick ("free", 0, n - 1);   // two free samples (thorough: three)
    if (HSE_TIER == 1 && ch == 2 && (k + mask + own + (sizeof (T) == 4)) % 2) return;   // two free samples (thorough: three); the others equal the reference; the other half of the places in the other sample type
    for (size_t i = 0; i < n; ++i) { if (i == k || i == (k + 1 + mask % (n - 1)) % n || (HSE_TIER > 1 && i == (k + 2) % n)) obs.v[i] = H<T>::sym ("obs"); else { hse_assume (hse_not (hse_nan (ref.v[i]))); obs.v[i] = gain ? Alternate<T>::of (ref.v[i], i % F) : ref.v[i]; } }
    TableSignal<T> s (ref);
    const int dec = (int) ((mask * 3 + ch) % 10), ddec = (int) ((mask + ch) % 4);
    hse_cli ({ "--lin-decimals", std::to_string (dec), "--db-decimals", std::to_string (ddec) });
    if (gain) s.followedBy (Alternate<T>());
    std::unique_ptr<hart::EqualsTo<T>> made (own ? new hart::EqualsTo<T> (s, tol) : new hart::EqualsTo<T> (s)); std::unique_ptr<hart::Matcher<T>> held;
    hart::Matcher<T>* m = made.get();
    if (how == 1) { held = m->copy(); m = held.get(); } else if (how == 2) { held = m->move(); m = held.get(); }
    { hart::AudioBuffer<T> scratch (ch, F); s.renderNextBlock (scratch); s.followedBy (hart::GainLinear<T> (3)); }   // the original reference is the caller's to use and change
    hse_check (m->canOperatePerBlock(), "the equality matcher can judge block by block");
    m->prepare (8, ch, F); m->reset();
    for (size_t pass = 0; pass < 2; ++pass)
    {
        size_t start = 0; bool failed = false;
        for (size_t i = 1; i <= F && ! failed; ++i) if (i == F || ((mask >> (i - 1)) & 1))
        {
            hart::AudioBuffer<T> b (ch, i - start); fillBuffer (b, obs, start);
            const bool ok = m->match (b); int want = 1;
            for (size_t c = 0; c < ch; ++c) for (size_t f = start; f < i; ++f) want = hse_and (want, within<T> (obs.at (c, f), gain ? Alternate<T>::of (ref.at (c, f), f) : ref.at (c, f), tolerance));
            if (ok) hse_check (want, "audio is accepted only if every sample is within the tolerance of the reference at its position in the stream");
            else
            {
                hse_check (hse_not (want), "audio is rejected only if some sample is out of tolerance");
                const hart::MatcherFailureDetails d = m->getFailureDetails(); const size_t df = hse_concretize (d.frame), dc = hse_concretize (d.channel);
                hse_check (df < i - start && dc < ch, "the reported position lies in the block that was rejected");
                if (df < i - start && dc < ch && pass == 0)
                {
                    const T x = obs.at (dc, start + df), y = gain ? Alternate<T>::of (ref.at (dc, start + df), start + df) : ref.at (dc, start + df); const T diff = std::abs (x - y), ay = std::abs (y);
                    hse_check (hse_not (within<T> (x, y, tolerance)), "the reported sample is out of tolerance");
                    if (hse_and (hse_finite (x), hse_finite (y)))
                    {
                        hse_check (printedAs<T> (d.description, "Expected sample value: ", y, dec), "the report gives the expected value at that position");
                        hse_check (printedAs<T> (d.description, ", difference: ", diff, dec), "the report gives the difference at that position");
                        const size_t p1 = d.description.find (" ("), p2 = d.description.rfind (" (");
                        hse_check (p1 != std::string::npos && p2 != p1 && printedAs<T> (d.description.substr (p1), " (", levelDb<T> (ay), ddec) , "the report gives the expected level");
                        hse_check (p2 != std::string::npos && printedAs<T> (d.description.substr (p2), " (", levelDb<T> (diff), ddec), "the report gives the difference in dB");
                    }
                }
                failed = true;
            }
            start = i;
        }
        H<T>::obs ("verdict", failed);
        if (failed && pass == 0 && mask == 0) break;
        m->reset();
    }
}
// longer and wider audio: fixed samples but for one symbolic sample at one of several positions
template <typename T> static void large()
{
    static const size_t shapes[4][3] = { { 1, 300, 128 }, { 70, 8, 3 }, { 3, 130, 130 }, { 2, 700, 600 } }; auto& sh = shapes[hse_pick ("shape", 0, 3)]; const size_t ch = sh[0], fr = sh[1], block = sh[2];
    const size_t points[4] = { 0, block - 1, block % fr, fr - 1 }; const size_t at = points[hse_pick ("at", 0, 3)], c0 = hse_pick ("last", 0, 1) ? ch - 1 : 0; const T tol = (T) 1e-5;
    Table<T> ref (ch, fr), obs (ch, fr); for (size_t i = 0; i < ref.v.size(); ++i) ref.v[i] = obs.v[i] = (T) ((double) (i * 37 % 101) / 50 - 1);
    const T x = H<T>::sym ("obs"), y = ref.at (c0, at); obs.at (c0, at) = x;
    hart::EqualsTo<T> made ((TableSignal<T> (ref))); std::unique_ptr<hart::Matcher<T>> m = made.copy(); m->prepare (8, ch, block);
    for (int pass = 0; pass < 2; ++pass)
    {
        m->reset();
        for (size_t start = 0; start < fr; start += block)
        {
            const size_t k = start + block > fr ? fr - start : block; hart::AudioBuffer<T> b (ch, k); fillBuffer (b, obs, start); const bool here = at >= start && at < start + k;
            const bool ok = m->match (b);
            hse_check (ok ? (here ? within<T> (x, y, tol) : 1) : (here ? hse_not (within<T> (x, y, tol)) : 0), "audio is accepted exactly when every sample is within the tolerance of the reference at its position in the stream");
            if (ok) continue;
            const hart::MatcherFailureDetails d = m->getFailureDetails(); hse_check (hse_and (d.frame == at - start, d.channel == c0), "the report names the sample that is out of tolerance");
            break;
        }
    }
    H<T>::obs ("x", x);
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
