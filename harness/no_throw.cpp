// BOUND: builder: every sequence of 2 (thorough 3) settings out of rate, block size, input and output channels, duration and a rate the effect does not support, each either refused (every refused value) or accepted (two values each), then a run of a symbolic table, and the four refused runs; buffers up to 2 channels x 3 frames with symbolic samples and symbolic refused ranges; segmented envelope with every refused rate; envelopes for every unsupported parameter id; the three effects with refused layouts; test registry; float and double
// ASSUME: the tested build is the one with HART_DO_NOT_THROW_EXCEPTIONS set to 1
#include "probes.hpp"
static int calls;
template <typename F> static std::string quiet (F f)
{
    hse_cout_clear(); const Outcome o = outcomeOf (f);
    hse_check (o == okay, "nothing is thrown");
    ++calls; return hse_cout_text();
}
static void said (const std::string& text, bool refused, const char* error)
{
    if (refused) hse_check (hse_has (text, error), "a refused call prints its error");
    else hse_check (text.empty(), "nothing is printed when a call is not refused");
}
template <typename T> static void builder()
{
    enum { OPS = HSE_TIER == 1 ? 2 : 3 };
    double rate = 8, dur = 0.5; size_t block = 2, nin = 1, nout = 1;
    Log dl, sl; Table<T> in (2, 8), seen (2, 8); in.fill ("in"); typename ProbeMatcher<T>::Rec rec (2, 8);
    class Picky : public TableDsp<T>
    {
    public:
        Picky (Log* l, Table<T>* s) : TableDsp<T> (nullptr, l, s) {}
        bool supportsSampleRate (double r) const override { return r == 8 || r == 16; }
        std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<Picky> (*this); }
        std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<Picky> (std::move (*this)); }
    };
    auto b = hart::processAudioWith (Picky (&dl, &seen));
    b.withSampleRate (8).withDuration (0.5).withBlockSize (2).withInputSignal (TableSignal<T> (in, &sl)).expectTrue (ProbeMatcher<T> (&rec, true, (T) INFINITY));
    for (int i = 0; i < OPS; ++i)
    {
        const int op = (int) hse_pick ("op", 0, 5), how = (int) hse_pick ("how", 0, op == 5 ? 0 : 2);
        std::string t; const char* err = "SizeError";
        switch (op)
        {
            case 0: { double r = how == 1 ? 16 : 8; if (! how) { r = hse_f64 ("rate"); hse_assume (hse_not (hse_and (r > 0, r <= 1.7976931348623157e308))); } err = "ValueError"; t = quiet ([&] { b.withSampleRate (r); }); if (how) rate = r; break; }
            case 1: { const size_t n = how; t = quiet ([&] { b.withBlockSize (n); }); if (how) block = n; break; }
            case 2: { size_t n = how; if (! how) { n = hse_u64 ("channels", 0, UINT64_MAX); hse_assume (hse_or (n == 0, n > 128)); } t = quiet ([&] { b.withInputChannels (n); }); if (how) nin = n; break; }
            case 3: { size_t n = how; if (! how) { n = hse_u64 ("channels", 0, UINT64_MAX); hse_assume (hse_or (n == 0, n > 128)); } t = quiet ([&] { b.withOutputChannels (n); }); if (how) nout = n; break; }
            case 4: { double d = how / 4.0; if (! how) { d = hse_f64 ("duration"); hse_assume (hse_not (hse_and (d >= 0, d <= 1.7976931348623157e308))); } err = "ValueError"; t = quiet ([&] { b.withDuration (d); }); if (how) dur = d; break; }
            default: { const double r = 8.5; err = "SampleRateError"; t = quiet ([&] { b.withSampleRate (r); }); break; }
        }
        said (t, ! how, err);
    }
    std::unique_ptr<hart::DSP<T>> back; const std::string t = quiet ([&] { back = b.process(); });
    said (t, false, ""); hse_check (back != nullptr, "the run returns the effect");
    const size_t frames = (size_t) (rate * dur + 0.5);
    const Event* p = dl.find (Event::prepare); hse_check (p != nullptr, "the effect is prepared"); if (! p) return;
    hse_check (p->rate == rate && p->a == nin && p->b == nout && p->c == block, "a refused setting leaves the setting before it in force");
    hse_check (rec.log.find (Event::prepare) && rec.log.find (Event::prepare)->rate == rate && rec.log.find (Event::prepare)->a == nout, "matchers are prepared with the accepted settings");
    size_t n = 0; for (auto& e : dl.ev) if (e.kind == Event::process) { hse_check (e.c <= block && e.a == nin && e.b == nout, "blocks have the accepted size and layout"); n += e.c; }
    hse_check (n == frames, "the run has the accepted length");
    for (size_t c = 0; c < nin; ++c) for (size_t f = 0; f < frames && f < 8; ++f) hse_check (hse_eqv (seen.at (c, f), in.at (c, f)), "the audio is the same as in the default configuration");
    for (size_t c = 0; c < nout; ++c) for (size_t f = 0; f < frames && f < 8; ++f) hse_check (hse_eqv (rec.seen.at (c, f), in.at (c < nin ? c : 0, f)), "matchers see the same audio as in the default configuration");
    H<T>::obs ("y", rec.seen.at (0, 0));
}
template <typename T> static void runs()
{
    // refused runs: nothing processed, the effect comes back
    const int why = (int) hse_pick ("why", 0, 4);
    Log dl, sl; Table<T> in (1, 4); TableDsp<T> d (nullptr, &dl); typename ProbeMatcher<T>::Rec rec (1, 8);
    d.layoutOk = why != 2; d.rateOk = why != 3; d.p[1] = 7;
    auto b = hart::processAudioWith (d); b.withBlockSize (4).withDuration (4.0 / 44100).expectTrue (ProbeMatcher<T> (&rec, true, (T) INFINITY));
    if (why != 1) b.withInputSignal (TableSignal<T> (in, &sl));
    if (why == 0) { const double shortDur = hse_f64 ("duration"); hse_assume (hse_and (shortDur >= 0, shortDur <= 1e-5)); b.withDuration (shortDur); }
    static const char* const err[4] = { "SizeError", "StateError", "ChannelLayoutError", "SampleRateError" };
    std::unique_ptr<hart::DSP<T>> back; const std::string t = quiet ([&] { back = b.process(); });
    said (t, why != 4, why < 4 ? err[why] : "");
    hse_check (back && back->getValue (1) == 7, "a refused run returns the effect");
    const bool ran = dl.count (Event::process) != 0 || sl.count (Event::render) != 0 || rec.calls != 0;
    hse_check (ran == (why == 4), "a refused run processes no audio");
}
template <typename T> static void same (const hart::AudioBuffer<T>& a, const hart::AudioBuffer<T>& b)
{
    const bool shape = a.getNumChannels() == b.getNumChannels() && a.getNumFrames() == b.getNumFrames();
    hse_check (shape, "a refused buffer operation leaves its size alone"); if (! shape) return;
    for (size_t c = 0; c < a.getNumChannels(); ++c) for (size_t f = 0; f < a.getNumFrames(); ++f) hse_check (H<T>::same (a[c][f], b[c][f]), "a refused buffer operation leaves its samples alone");
}
template <typename T> static hart::AudioBuffer<T> filled (size_t c, size_t f) { hart::AudioBuffer<T> b (c, f); for (size_t i = 0; i < c; ++i) for (size_t j = 0; j < f; ++j) b[i][j] = H<T>::sym ("x"); return b; }
template <typename T> static void buffers()
{
    const size_t c1 = hse_pick ("c1", 1, 2), f1 = hse_pick ("f1", 0, 3), c2 = hse_pick ("c2", 1, 2), f2 = hse_pick ("f2", 0, 2); const int op = (int) hse_pick ("op", 0, 4);
    hart::AudioBuffer<T> a (filled<T> (c1, f1)), b (filled<T> (c2, f2)), a0 (a), b0 (b); const bool bad = c1 != c2;
    std::string t;
    if (op == 0) { t = quiet ([&] { a = b; }); same (b, b0); if (bad) same (a, a0); else same (a, b0); said (t, bad, "ChannelLayoutError"); }
    if (op == 1) { t = quiet ([&] { a = std::move (b); }); if (bad) { same (a, a0); same (b, b0); } else same (a, b0); said (t, bad, "ChannelLayoutError"); }
    if (op == 2)
    {
        t = quiet ([&] { a.appendFrom (b); }); same (b, b0); if (bad) same (a, a0); said (t, bad, "ChannelLayoutError");
        if (! bad) { hse_check (a.getNumFrames() == f1 + f2, "appending adds the frames"); for (size_t c = 0; c < c1; ++c) for (size_t f = 0; f < f1 + f2; ++f) hse_check (H<T>::same (a[c][f], f < f1 ? a0[c][f] : b0[c][f - f1]), "appending works as in the default configuration"); }
    }
    if (op >= 3)
    {
        const size_t ch = op == 3 ? hse_u64 ("channel", 0, UINT64_MAX) : 0, s = hse_u64 ("start", 0, UINT64_MAX), n = hse_u64 ("count", 0, UINT64_MAX);
        const int refuse = hse_or (hse_or (op == 3 && ch >= c1, n == 0), hse_or (n > f1, hse_and (n <= f1, s > f1 - n))); hse_assume (refuse);
        T m = 1; t = quiet ([&] { m = op == 3 ? a.getMagnitude (ch, s, n) : a.getMagnitude (s, n); });
        said (t, true, "IndexError"); hse_check (m == 0, "a refused range has no magnitude"); same (a, a0);
    }
}
template <typename T> static void effects()
{
    const int what = (int) hse_pick ("what", 0, 3);
    if (what == 0)
    {
        // a refused rate leaves the envelope at the rate it had
        hart::SegmentedEnvelope e (1.0), ref (1.0); e.rampTo (5.0, 1.0); ref.rampTo (5.0, 1.0); e.prepare (4, 4); ref.prepare (4, 4);
        const double r = hse_f64 ("rate"); hse_assume (r <= 0);
        said (quiet ([&] { e.prepare (r, 4); }), true, "ValueError");
        std::vector<double> a (4), b (4); const std::string t = quiet ([&] { e.renderNextBlock (4, a); ref.renderNextBlock (4, b); }); said (t, false, "");
        for (size_t i = 0; i < 4; ++i) hse_check (a[i] == b[i] && a[i] == 2.0 + (double) i, "a refused rate leaves the envelope as it was");
        return;
    }
    const int id = (int) hse_u32 ("id"); const size_t nin = hse_pick ("nin", 1, 3), nout = hse_pick ("nout", 1, 3);
    std::unique_ptr<hart::DSP<T>> d; if (what == 1) d.reset (new hart::GainLinear<T> (2)); else if (what == 2) d.reset (new hart::GainDb<T> (0)); else d.reset (new hart::HardClip<T> (0));
    if (hse_pick ("envelope", 0, 1))
    {
        hse_assume (what == 3 || id != 0); const bool temp = nin & 1; const hart::SegmentedEnvelope e (3.0);
        said (quiet ([&] { if (temp) d->withEnvelope (id, hart::SegmentedEnvelope (3.0)); else d->withEnvelope (id, e); }), true, "UnsupportedError");
        hse_check (! d->hasEnvelopeFor (id), "an effect has no envelope for a parameter it does not support");
    }
    hart::AudioBuffer<T> in (filled<T> (nin, 2)), out (filled<T> (nout, 2)), in0 (in), out0 (out); for (size_t c = 0; c < nin; ++c) for (size_t f = 0; f < 2; ++f) hse_assume (hse_and (in[c][f] <= 1, in[c][f] >= -1));
    d->prepareWithEnvelopes (8, nin, nout, 2);
    const bool ok = nin == nout || (what != 3 && nin == 1);
    const std::string t = quiet ([&] { d->processWithEnvelopes (in, out); }); said (t, ! ok, "ChannelLayoutError");
    same (in, in0);
    if (! ok) same (out, out0); else for (size_t c = 0; c < nout; ++c) for (size_t f = 0; f < 2; ++f) hse_check (out[c][f] == in[nin == 1 ? 0 : c][f] * (T) (what == 1 ? 2 : 1), "effects work as in the default configuration");
}
extern "C" void hse_main (void)
{
    const int t = (int) hse_pick ("type", 0, 1), part = (int) hse_pick ("part", 0, 3);
    if (t) { part == 0 ? builder<float>() : part == 1 ? runs<float>() : part == 2 ? buffers<float>() : effects<float>(); }
    else { part == 0 ? builder<double>() : part == 1 ? runs<double>() : part == 2 ? buffers<double>() : effects<double>(); }
}
