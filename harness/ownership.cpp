// BOUND: DSP given by pointer to it, by pointer to its base class, as a named, a named const object or a temporary; symbolic gain and start value; 1..2 runs with the returned object; block 2, 3 frames; signals with and without effect, given once or twice, matchers named or temporary; GainDb with an envelope; float and double
#include "probes.hpp"
struct Counts { int copies, moves; };
static Counts dspCounts, matchCounts;
// output = input + base + 1 * (frames since the last reset); keeps the number of frames it has processed in its life
template <typename T> class OwnDsp : public hart::DSP<T>
{
public:
    double base = 0; size_t since = 0, life = 0; bool gone = false;
    explicit OwnDsp (double b) : base (b) {}
    OwnDsp (const OwnDsp& o) : hart::DSP<T> (o), base (o.base), since (o.since), life (o.life) { ++dspCounts.copies; }
    OwnDsp (OwnDsp&& o) : hart::DSP<T> (std::move (o)), base (o.base), since (o.since), life (o.life) { o.gone = true; ++dspCounts.moves; }
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    { for (size_t f = 0; f < out.getNumFrames(); ++f, ++since, ++life) out[0][f] = in[0][f] + (T) base + (T) since; }
    void reset() override { since = 0; }
    void setValue (int, double v) override { base = v; }
    double getValue (int) const override { return base; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "OwnDsp()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<OwnDsp<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<OwnDsp<T>> (std::move (*this)); }
};
template <typename T> class OwnSignal : public hart::Signal<T>
{
public:
    T level; size_t pos = 0;
    explicit OwnSignal (T l) : level (l) {}
    bool supportsNumChannels (size_t) const override { return true; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& out) override { for (size_t f = 0; f < out.getNumFrames(); ++f, ++pos) out[0][f] = level; }
    void reset() override { pos = 0; }
    void represent (std::ostream& s) const override { s << "OwnSignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return hart::make_unique<OwnSignal<T>> (*this); }
    std::unique_ptr<hart::Signal<T>> move() override { return hart::make_unique<OwnSignal<T>> (std::move (*this)); }
};
// records what it sees; accepts nothing above limit
template <typename T> class OwnMatcher : public hart::Matcher<T>
{
public:
    std::vector<T>* seen; T limit; bool perBlock; size_t calls = 0; bool gone = false;
    OwnMatcher (std::vector<T>* s, T l, bool p) : seen (s), limit (l), perBlock (p) {}
    OwnMatcher (const OwnMatcher& o) : hart::Matcher<T> (o), seen (o.seen), limit (o.limit), perBlock (o.perBlock), calls (o.calls) { ++matchCounts.copies; }
    OwnMatcher (OwnMatcher&& o) : hart::Matcher<T> (std::move (o)), seen (o.seen), limit (o.limit), perBlock (o.perBlock), calls (o.calls) { o.gone = true; ++matchCounts.moves; }
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override { ++calls; bool ok = true; for (size_t f = 0; f < a.getNumFrames(); ++f) { seen->push_back (a[0][f]); if (a[0][f] > limit) ok = false; } return ok; }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = 0; d.channel = 0; return d; }
    void represent (std::ostream& s) const override { s << "OwnMatcher()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return hart::make_unique<OwnMatcher<T>> (*this); }
    std::unique_ptr<hart::Matcher<T>> move() override { return hart::make_unique<OwnMatcher<T>> (std::move (*this)); }
};
enum { NF = 3 };
template <typename B> static void setup (B& b) { b.withSampleRate (8).withBlockSize (2).withDuration ((double) NF / 8); }
template <typename T> static std::unique_ptr<hart::DSP<T>> runWith (hart::AudioTestBuilder<T>&& b, T level, std::vector<T>& seen, int set, double v)
{
    setup (b); OwnSignal<T> sig (level); b.withInputSignal (sig); sig.level = (T) 99; sig.followedBy (hart::GainLinear<T> (0.0));
    if (set) b.withValue (0, v);
    b.expectTrue (OwnMatcher<T> (&seen, (T) INFINITY, true));
    return b.process();
}
template <typename T> static void dsps()
{
    const int way = (int) hse_pick ("way", 0, 4), set = (int) hse_pick ("set", 0, 1), again = (int) hse_pick ("again", 0, 1);
    const double base = hse_f64 ("base"), v = hse_f64 ("value"); const T level = H<T>::sym ("level"); hse_assume (hse_and (hse_finite (base), hse_and (hse_finite (v), hse_finite (level))));
    std::vector<T> seen; std::unique_ptr<hart::DSP<T>> back; dspCounts.copies = dspCounts.moves = 0;
    OwnDsp<T> named (base); hart::DSP<T>* raw = nullptr;
    if (way == 0) { std::unique_ptr<OwnDsp<T>> p (new OwnDsp<T> (base)); raw = p.get(); back = runWith<T> (hart::processAudioWith (std::move (p)), level, seen, set, v); }
    else if (way == 1) { std::unique_ptr<hart::DSP<T>> p (new OwnDsp<T> (base)); raw = p.get(); back = runWith<T> (hart::processAudioWith (std::move (p)), level, seen, set, v); }
    else if (way == 2) back = runWith<T> (hart::processAudioWith (named), level, seen, set, v);
    else if (way == 3) { const OwnDsp<T>& c = named; back = runWith<T> (hart::processAudioWith (c), level, seen, set, v); }
    else back = runWith<T> (hart::processAudioWith (OwnDsp<T> (base)), level, seen, set, v);
    hse_check (back != nullptr, "the run gives an object back"); if (! back) return;
    if (way < 2) hse_check (back.get() == raw && dspCounts.copies + dspCounts.moves == 0, "a DSP given by pointer is itself processed and returned");
    else if (way < 4)
    {
        hse_check (dspCounts.copies >= 1 && ! named.gone, "a named DSP is copied");
        hse_check (back.get() != &named && named.life == 0 && named.since == 0 && hse_same_f64 (named.base, base), "a named DSP is not touched");
    }
    else hse_check (dspCounts.copies == 0 && dspCounts.moves >= 1, "a temporary DSP is moved, not copied");
    const double used = set ? v : base;
    hse_check (seen.size() == NF, "the whole run is processed by it"); if (seen.size() != NF) return;
    for (size_t f = 0; f < NF; ++f) hse_check (hse_eqv (seen[f], (T) (level + (T) used + (T) f)), "the run is processed by the DSP that was given, and by the signal as it was given");
    OwnDsp<T>* own = static_cast<OwnDsp<T>*> (back.get());
    hse_check (own->life == NF && own->since == NF && hse_same_f64 (own->getValue (0), used), "the returned DSP is in the state the run left it in");
    if (! again) return;
    std::vector<T> seen2; hart::DSP<T>* raw2 = back.get(); dspCounts.copies = dspCounts.moves = 0;
    std::unique_ptr<hart::DSP<T>> back2 = runWith<T> (hart::processAudioWith (std::move (back)), level, seen2, 0, 0);
    hse_check (back2.get() == raw2 && dspCounts.copies + dspCounts.moves == 0, "the returned DSP can be run again and comes back");
    hse_check (seen2.size() == NF, "the second run is complete"); if (seen2.size() != NF) return;
    for (size_t f = 0; f < NF; ++f) hse_check (hse_eqv (seen2[f], seen[f]), "the second run repeats the first");
    hse_check (static_cast<OwnDsp<T>*> (back2.get())->life == 2 * NF, "both runs went through the same object");
}
template <typename T> static void matchers()
{
    const int perBlock = (int) hse_pick ("perBlock", 0, 1), kind = (int) hse_pick ("kind", 0, 3), how = (int) hse_pick ("how", 0, 1);
    const T limit = H<T>::sym ("limit"), level = H<T>::sym ("level"), later = H<T>::sym ("later"); hse_assume (hse_and (limit == limit, hse_and (level == level, later == later)));
    std::vector<T> seen; hart::ExpectationFailureMessages::clear();
    OwnMatcher<T> m (&seen, limit, perBlock != 0); const OwnMatcher<T>& c = m; Table<T> nothing (1, 0);
    matchCounts.copies = matchCounts.moves = 0;
    auto b = hart::processAudioWith (TableDsp<T> (nullptr, nullptr)); setup (b); b.withInputSignal (OwnSignal<T> (level));
    switch (kind)
    {
        case 0: how ? b.expectTrue (OwnMatcher<T> (m)) : b.expectTrue (m); break;
        case 1: how ? b.expectFalse (OwnMatcher<T> (m)) : b.expectFalse (m); break;
        case 2: how ? b.assertTrue (OwnMatcher<T> (m)) : b.assertTrue (m); break;
        default: how ? b.assertFalse (OwnMatcher<T> (m)) : b.assertFalse (m); break;
    }
    (void) c; hse_check (! m.gone && m.calls == 0, "a named matcher is copied");
    m.limit = later;
    const Outcome o = outcomeOf ([&] { b.process(); });
    const int rejects = level > limit, bad = kind & 1 ? hse_not (rejects) : rejects;
    const int fails = hse_or (o == testAssert, ! hart::ExpectationFailureMessages::get().empty());
    hse_check (fails == bad, "later changes to the original matcher have no effect");
    hse_check (m.calls == 0 && hse_same_f64 ((double) m.limit, (double) later), "the original matcher is not used");
    hse_obs_u64 ("outcome", o);
}
template <typename T> static void effects()
{
    // named effects keep their envelope and value; the given copy is the one that runs
    const double db = hse_pick ("db", 0, 1) ? -20.0 : 0.0, v = hse_f64 ("value"); hse_assume (hse_and (v >= -100, v <= 20)); const T level = (T) 0.5;
    const int withEnv = (int) hse_pick ("envelope", 0, 1), times = (int) hse_pick ("times", 1, 2);
    hart::GainDb<T> g (db); if (withEnv) g.withEnvelope (hart::GainDb<T>::gainDb, hart::SegmentedEnvelope (0).rampTo (-40, (double) NF / 8));
    std::vector<T> first;
    for (int i = 0; i < times; ++i)
    {
        std::vector<T> seen; auto b = hart::processAudioWith (g); setup (b); b.withInputSignal (OwnSignal<T> (level)).expectTrue (OwnMatcher<T> (&seen, (T) INFINITY, true));
        if (! withEnv && i == 0 && times == 1) b.withValue (hart::GainDb<T>::gainDb, v);
        std::unique_ptr<hart::DSP<T>> back = b.process();
        hse_check (g.hasEnvelopeFor (hart::GainDb<T>::gainDb) == (withEnv != 0) && std::abs (g.getValue (hart::GainDb<T>::gainDb) - db) <= 1e-6, "a named effect keeps its value and envelope");
        hse_check (back && back->hasEnvelopeFor (hart::GainDb<T>::gainDb) == (withEnv != 0), "the returned effect has the envelope");
        if (! withEnv && i == 0 && times == 1) { const double got = back->getValue (hart::GainDb<T>::gainDb), want = hart::GainDb<T> (v).getValue (hart::GainDb<T>::gainDb); hse_check (hse_or (got == want, hse_near (got, want, 1e-6)), "the returned effect has the value that was set"); }
        hse_check (seen.size() == NF, "the run is complete"); if (seen.size() != NF) return;
        if (i == 0) { first = seen; if (withEnv) hse_check (seen[NF - 1] < (T) 0.25 * seen[0], "the envelope is used"); }
        else for (size_t f = 0; f < NF; ++f) hse_check (seen[f] == first[f], "every run with the named effect is the same");
    }
    // a signal and its effects are copied together, and the original is not advanced
    OwnSignal<T> s (level); s.followedBy (hart::GainLinear<T> (0.5)); std::vector<T> seen;
    auto b = hart::processAudioWith (TableDsp<T> (nullptr, nullptr)); setup (b); b.withInputSignal (s).expectTrue (OwnMatcher<T> (&seen, (T) INFINITY, true));
    s.level = (T) 0.25; s.followedBy (hart::GainLinear<T> (4.0)); b.process();
    hse_check (s.pos == 0, "the original signal is not advanced");
    for (auto x : seen) hse_check (x == (T) 0.25, "signals are copied with their effects when they are given");
    // the original is still whole: it can be changed, given again, and copied
    for (int again = 0; again < 2; ++again)
    {
        std::vector<T> more; OwnSignal<T> other (s); auto c = hart::processAudioWith (TableDsp<T> (nullptr, nullptr)); setup (c); if (again) c.withInputSignal (other); else c.withInputSignal (s);
        c.expectTrue (OwnMatcher<T> (&more, (T) INFINITY, true)); c.process();
        hse_check (more.size() == NF, "the run is complete");
        for (auto x : more) hse_check (x == (T) 0.5, "a signal that was given keeps its own settings and effects");
    }
}
extern "C" void hse_main (void)
{
    const int t = (int) hse_pick ("type", 0, 1), part = (int) hse_pick ("part", 0, 2);
    if (t) { part == 0 ? dsps<float>() : part == 1 ? matchers<float>() : effects<float>(); } else { part == 0 ? dsps<double>() : part == 1 ? matchers<double>() : effects<double>(); }
}
