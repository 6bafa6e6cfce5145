// BOUND: chains of 1..3 effects (user effects that keep a frame counter and per-channel state, plus a shipped gain with an envelope), each attached by copy of a named object, move, base reference, pointer, or >> in its forms; 1..2 channels; 3 (thorough 5) frames in every split into blocks; signal used directly, copied (constructor, copy(), assignment), moved (constructor, move(), assignment) before or after playing, with effects added to either side afterwards; rates 8 / 16 Hz; effects with envelopes copied, moved or assigned (also over effects that ran with others) after 0..2 of 4 blocks; also chains of 5, 8 and 20 effects on up to 40 channels and 40 frames; every input sample symbolic; float and double
#include "env_probes.hpp"
enum { F = HSE_TIER == 1 ? 3 : 5 };
static size_t onlyChannels = 0;   // effects that support one channel count only
// y = x * a + b + (previous y of this channel) * frame counter: neither commutative nor stateless
template <typename T> class Affine : public hart::DSP<T>
{
public:
    T a, b; int id; Log* log; std::vector<T> prev; size_t pos = 0, chans = 0;
    Affine (int i, Log* l) : a ((T) (1 + i) / 2), b ((T) i / 4), id (i), log (l) {}
    void prepare (double r, size_t i, size_t o, size_t bl) override { if (log) log->add (Event::prepare, r, i, o, bl); prev.resize (o); chans = o; }
    static T step (T x, T a, T b, T prev, size_t pos) { return x * a + b + prev * (T) pos; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        if (log) log->add (Event::process, 0, in.getNumChannels(), out.getNumChannels(), in.getNumFrames());
        for (size_t f = 0; f < in.getNumFrames(); ++f, ++pos) for (size_t c = 0; c < in.getNumChannels(); ++c) out[c][f] = prev[c] = step (in[c][f], a, b, prev[c], pos);
    }
    void reset() override { for (auto& p : prev) p = 0; pos = 0; if (log) log->add (Event::reset); }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o && (onlyChannels == 0 || i == onlyChannels); }
    void represent (std::ostream& s) const override { s << "Affine" << id; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<Affine<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<Affine<T>> (std::move (*this)); }
};
enum { WAYS = 8 };
template <typename T> static void attach (TableSignal<T>& s, int id, size_t way, Log* log)
{
    Affine<T> named (id, log); const hart::DSP<T>& base = named;
    switch (way)
    {
        case 0: s.followedBy (named); break;
        case 1: s.followedBy (Affine<T> (id, log)); break;
        case 2: s.followedBy (base); break;
        case 3: s.followedBy (std::unique_ptr<hart::DSP<T>> (new Affine<T> (id, log))); break;
        case 4: s >> named; break;
        case 5: s >> Affine<T> (id, log); break;
        case 6: s >> std::unique_ptr<hart::DSP<T>> (new Affine<T> (id, log)); break;
        default: std::move (s) >> named; break;
    }
    // whichever way it came, the original can be changed without any effect
    named.a = 100; named.b = 100; named.id = 99;
}
// what a chain of effects ids makes of the table, frames 0..F-1
template <typename T> static std::vector<T> oracle (Table<T>& in, size_t ch, const std::vector<int>& ids, size_t frames, size_t from = 0)
{
    std::vector<T> out; std::vector<T> prev (ids.size() * ch);
    for (size_t f = 0; f < frames; ++f) for (size_t c = 0; c < ch; ++c)
    {
        T x = from + f < in.frames ? in.at (c, from + f) : (T) 0;
        for (size_t k = 0; k < ids.size(); ++k) x = prev[k * ch + c] = Affine<T>::step (x, (T) (1 + ids[k]) / 2, (T) ids[k] / 4, prev[k * ch + c], f);
        out.push_back (x);
    }
    return out;
}
template <typename T> static void play (hart::Signal<T>& s, size_t ch, size_t frames, std::vector<T>& to)
{
    hart::AudioBuffer<T> b (ch, frames); s.renderNextBlockWithDSPChain (b);
    for (size_t f = 0; f < frames; ++f) for (size_t c = 0; c < ch; ++c) to.push_back (b[c][f]);
}
template <typename T> static void same (const std::vector<T>& want, const std::vector<T>& got, const char* m) { hse_check (want.size() == got.size(), m); for (size_t i = 0; i < got.size(); ++i) hse_check (H<T>::same (want[i], got[i]), m); }
template <typename T> static std::string text (const hart::Signal<T>& s) { std::stringstream t; t << s; return t.str(); }
// order, prepare, reset, feed
template <typename T> static void ways()
{
    const size_t len = hse_pick ("length", 1, 3), ch = hse_pick ("channels", 1, 2), split = hse_pick ("split", 0, (1u << (F - 1)) - 1); const double rate = (len + ch) & 1 ? 16 : 8; onlyChannels = ch;
    const size_t first = hse_pick ("way", 0, WAYS - 1); Log logs[3]; std::vector<int> ids;
    Table<T> in (ch, F); in.fill ("in"); TableSignal<T> s (in); std::string want = "TableSignal()";
    for (size_t k = 0; k < len; ++k) { const int id = (int) ((k * 2 + split) % 5); ids.push_back (id); attach<T> (s, id, (first + k * 3) % WAYS, &logs[k]); want += " >> Affine" + std::to_string (id); }
    hse_check (text<T> (s) == want, "the text form lists the signal and its effects in order");
    for (int pass = 0; pass < 2; ++pass)
    {
        for (auto& l : logs) { l.ev.clear(); l.at.clear(); }
        if (pass) s.resetWithDSPChain();
        s.prepareWithDSPChain (rate, ch, F);
        std::vector<T> got; std::vector<size_t> blocks;
        for (size_t i = 1, start = 0; i <= F; ++i) if (i == F || ((split >> (i - 1)) & 1)) { play<T> (s, ch, i - start, got); blocks.push_back (i - start); start = i; }
        same<T> (oracle<T> (in, ch, ids, F), got, "every block passes through the effects in the order they were attached, each with its own state");
        for (size_t k = 0; k < len; ++k)
        {
            Log& l = logs[k]; const Event* p = l.find (Event::prepare);
            hse_check (l.count (Event::prepare) == 1 && p && p->rate == rate && p->a == ch && p->b == ch && p->c == F, "each effect is prepared once with the signal's rate, channels and block size");
            hse_check (l.count (Event::reset) == (size_t) pass, "each effect is reset exactly when the signal is");
            hse_check (l.count (Event::process) == blocks.size(), "each effect is fed every block once");
            for (size_t b = 0; b < blocks.size() && b < l.count (Event::process); ++b) { const Event* e = l.find (Event::process, b); hse_check (e->a == ch && e->b == ch && e->c == blocks[b], "each effect is fed whole blocks"); }
            if (k) hse_check (logs[k - 1].first (Event::process) < l.first (Event::process), "effects run in the order they were attached");
        }
    }
    H<T>::obs ("in", in.at (0, 0));
}
// copies and moves own their chains
template <typename T> static void copies()
{
    const size_t how = hse_pick ("how", 0, 6), len = hse_pick ("length", 0, 2), played = hse_pick ("played", 0, 1), add = hse_pick ("add", 0, 3), ch = 2;
    Table<T> in (ch, F); in.fill ("in"); TableSignal<T> s (in), target (in); std::vector<int> ids, idsA, idsB; std::vector<T> before, a, b;
    for (size_t k = 0; k < len; ++k) { ids.push_back ((int) k + 1); attach<T> (s, (int) k + 1, k, nullptr); }
    attach<T> (target, 4, 0, nullptr);   // whatever an assignment overwrites
    if (len == 2 && add == 1) { attach<T> (target, 4, 0, nullptr); attach<T> (target, 3, 0, nullptr); }
    s.prepareWithDSPChain (8, ch, F); if (played) play<T> (s, ch, 1, before);
    std::unique_ptr<TableSignal<T>> made; std::unique_ptr<hart::Signal<T>> held; hart::Signal<T>* other = &target; bool moved = false;
    if (how == 0) { made.reset (new TableSignal<T> (s)); other = made.get(); }
    else if (how == 1) { held = s.copy(); other = held.get(); }
    else if (how == 2) target = s;
    else if (how == 3) { made.reset (new TableSignal<T> (std::move (s))); other = made.get(); moved = true; }
    else if (how == 4) { held = s.move(); other = held.get(); moved = true; }
    else if (how == 5) { target = std::move (s); moved = true; }
    else { s = *&s; other = &s; moved = true; }   // assignment to itself
    idsA = idsB = ids;
    if (add & 1) { idsB.push_back (3); other->followedBy (Affine<T> (3, nullptr)); }
    if ((add & 2) && ! moved) { idsA.push_back (2); attach<T> (s, 2, 3, nullptr); }
    if (add & 1) other->prepareWithDSPChain (8, ch, F);
    if (add & 2) s.prepareWithDSPChain (8, ch, F);
    if (played && ! add)
    {   // in the middle of playing: both continue from here, independently
        std::vector<T> whole = oracle<T> (in, ch, ids, F), tail (whole.begin() + ch, whole.end());
        play<T> (*other, ch, F - 1, b); same<T> (tail, b, "a copied or moved signal goes on where its original was");
        if (! moved) { play<T> (s, ch, F - 1, a); same<T> (tail, a, "playing a copy leaves the original's effects where they were"); }
    }
    if (how != 3 && how != 4 && how != 5)
    {
        a.clear(); s.resetWithDSPChain(); play<T> (s, ch, F, a);
        if (how != 6) same<T> (oracle<T> (in, ch, idsA, F), a, "the original keeps exactly its own effects");
    }
    b.clear(); other->resetWithDSPChain(); play<T> (*other, ch, F, b);
    same<T> (oracle<T> (in, ch, idsB, F), b, "the copy has the original's effects in order and exactly those added to it");
    std::string want = "TableSignal()"; for (int i : idsB) want += " >> Affine" + std::to_string (i);
    hse_check (text<T> (*other) == want, "the copy's text form lists its own chain");
    H<T>::obs ("in", in.at (0, 0));
}
// long chains, more channels, longer blocks
template <typename T> static void large()
{
    static const size_t shapes[3][4] = { { 8, 2, 40, 16 }, { 5, 40, 5, 2 }, { 20, 1, 20, 7 } }; auto& sh = shapes[hse_pick ("shape", 0, 2)]; const size_t len = sh[0], ch = sh[1], frames = sh[2], block = sh[3], from = hse_pick ("way", 0, WAYS - 1);
    Table<T> in (ch, frames); in.fill ("in"); TableSignal<T> s (in); std::vector<int> ids; std::string want = "TableSignal()";
    for (size_t k = 0; k < len; ++k) { const int id = (int) ((k * 2 + 1) % 5); ids.push_back (id); attach<T> (s, id, (from + k) % WAYS, nullptr); want += " >> Affine" + std::to_string (id); }
    hse_check (text<T> (s) == want, "the text form lists the signal and its effects in order");
    std::unique_ptr<hart::Signal<T>> held; hart::Signal<T>* p = &s; TableSignal<T> assigned (in); if (from & 1) { held = (from & 2) ? s.copy() : s.move(); p = held.get(); } else if (from & 2) { assigned = s; p = &assigned; }
    for (int pass = 0; pass < 2; ++pass)
    {
        if (pass) p->resetWithDSPChain();
        p->prepareWithDSPChain (8, ch, block); std::vector<T> got;
        for (size_t i = 0; i < frames; i += block) play<T> (*p, ch, i + block > frames ? frames - i : block, got);
        same<T> (oracle<T> (in, ch, ids, frames), got, "every block passes through the effects in the order they were attached, each with its own state");
    }
    H<T>::obs ("in", in.at (0, 0));
}
// in the host, with an effect that has an envelope: the chain is prepared, reset and fed in every run
template <typename T> static void hosted()
{
    const size_t block = hse_pick ("block", 1, 3), ch = hse_pick ("channels", 1, 2), order = hse_pick ("order", 0, 1); const T g = (T) 0.75;
    Table<T> in (ch, F), seen (ch, F); in.fill ("in"); std::vector<double> env; for (size_t i = 0; i < F; ++i) env.push_back (0.25 * (double) (i + 1));
    Log log; TableSignal<T> s (in); hart::GainLinear<T> gain (g); gain.withEnvelope (hart::GainLinear<T>::gainLinear, TableEnvelope (env, &log));
    if (order) { s.followedBy (gain); s.followedBy (Affine<T> (1, nullptr)); } else { s.followedBy (Affine<T> (1, nullptr)); s.followedBy (std::move (gain)); }
    for (int pass = 0; pass < 2; ++pass)
    {
        TableDsp<T> d (nullptr, nullptr, &seen);
        auto b = hart::processAudioWith (d); b.withSampleRate (8).withDuration ((double) F / 8).withBlockSize (block).withInputChannels (ch).withOutputChannels (ch).withInputSignal (s);
        if (pass == 0) s.followedBy (Affine<T> (4, nullptr));   // after it was given to the builder
        b.process();
        std::vector<T> prev (2 * ch);
        for (size_t f = 0; f < F; ++f) for (size_t c = 0; c < ch; ++c)
        {
            T x = in.at (c, f);
            if (order) x = x * (T) env[f];
            x = prev[c] = Affine<T>::step (x, (T) 1, (T) 0.25, prev[c], f);
            if (! order) x = x * (T) env[f];
            if (pass) x = prev[ch + c] = Affine<T>::step (x, (T) 2.5, (T) 1, prev[ch + c], f);
            hse_check (H<T>::same (x, seen.at (c, f)), "the host feeds the test subject the processed signal, with envelopes of chained effects applied");
        }
    }
    hse_check (log.count (Event::prepare) == 2 && log.count (Event::reset) >= 2, "the envelope of a chained effect is prepared and reset in each run");
    H<T>::obs ("in", in.at (0, 0));
}
// effects with envelopes, copied, moved or assigned while playing: both sides go on from there
template <typename T> static void midway()
{
    const size_t how = hse_pick ("how", 0, 5), blocks = hse_pick ("blocks", 0, 2), db = hse_pick ("db", 0, 1), ch = 2, B = 2, W = 4; const bool dirty = hse_pick ("dirty", 0, 1);
    Table<T> in (ch, B * W); in.fill ("in"); std::vector<double> env, other; for (size_t i = 0; i < B * W; ++i) { env.push_back (0.25 * (double) (i + 1)); other.push_back (7); }
    auto build = [&] (TableSignal<T>& s, const std::vector<double>& e) { s.followedBy (Affine<T> (1, nullptr)); if (db) { hart::GainDb<T> g (3); g.withEnvelope (hart::GainDb<T>::gainDb, TableEnvelope (e)); s.followedBy (g); } else { hart::GainLinear<T> g (3); g.withEnvelope (hart::GainLinear<T>::gainLinear, TableEnvelope (e)); s.followedBy (std::move (g)); } s.followedBy (Affine<T> (2, nullptr)); };
    TableSignal<T> ref (in), s (in), target (in); build (ref, env); build (s, env); std::vector<T> whole, b;
    if (dirty) { build (target, other); target.prepareWithDSPChain (8, ch, B + 1); play<T> (target, ch, B + 1, b); b.clear(); }   // what an assignment overwrites
    ref.prepareWithDSPChain (8, ch, B); for (size_t i = 0; i < W; ++i) play<T> (ref, ch, B, whole);
    s.prepareWithDSPChain (8, ch, B); for (size_t i = 0; i < blocks; ++i) play<T> (s, ch, B, b);
    std::unique_ptr<TableSignal<T>> made; std::unique_ptr<hart::Signal<T>> held; hart::Signal<T>* o = &target;
    if (how == 0) { made.reset (new TableSignal<T> (s)); o = made.get(); } else if (how == 1) { held = s.copy(); o = held.get(); } else if (how == 2) target = s;
    else if (how == 3) { made.reset (new TableSignal<T> (std::move (s))); o = made.get(); } else if (how == 4) { held = s.move(); o = held.get(); } else target = std::move (s);
    const std::vector<T> tail (whole.begin() + blocks * B * ch, whole.end());
    b.clear(); for (size_t i = blocks; i < W; ++i) play<T> (*o, ch, B, b); same<T> (tail, b, "a copied or moved signal goes on where its original was, with its effects' envelopes");
    if (how < 3) { b.clear(); for (size_t i = blocks; i < W; ++i) play<T> (s, ch, B, b); same<T> (tail, b, "playing a copy leaves the original's effects and envelopes where they were"); }
    o->resetWithDSPChain(); b.clear(); for (size_t i = 0; i < W; ++i) play<T> (*o, ch, B, b); same<T> (whole, b, "a copied or moved signal starts over with its effects' envelopes");
    H<T>::obs ("in", in.at (0, 0));
}
// effects by themselves: assigned over effects that ran with envelopes of their own, or without
template <typename T, typename Gain> static void assigned()
{
    const size_t what = hse_pick ("source", 0, 2), onto = hse_pick ("target", 0, 1); const bool move = hse_pick ("move", 0, 1); std::vector<double> env { 0.5, 1, 2, 3, 4, 5 }, old { 7, 7, 7, 7, 7, 7 };
    Table<T> in (1, 4); in.fill ("in"); hart::AudioBuffer<T> a (1, 2), b (1, 2), out (1, 2), want (1, 2); for (size_t i = 0; i < 2; ++i) { a[0][i] = in.at (0, i); b[0][i] = in.at (0, 2 + i); }
    auto source = [&] (Gain& g) { if (what) g.withEnvelope (0, TableEnvelope (env)); g.prepareWithEnvelopes (8, 1, 1, 2); if (what == 2) g.processWithEnvelopes (a, out); };
    Gain s (2), r (2), t (3); source (s); source (r);
    if (onto) t.withEnvelope (0, TableEnvelope (old)); t.prepareWithEnvelopes (8, 1, 1, 3);
    if (move) t = std::move (s); else t = s;
    r.processWithEnvelopes (b, want); t.processWithEnvelopes (b, out);
    for (size_t i = 0; i < 2; ++i) hse_check (H<T>::same (want[0][i], out[0][i]), "an assigned effect goes on exactly like its source");
    H<T>::obs ("out", out[0][1]);
}
template <typename T> static void run (size_t part) { if (part == 0) ways<T>(); else if (part == 1) copies<T>(); else if (part == 2) hosted<T>(); else if (part == 3) large<T>(); else if (part == 4) midway<T>(); else if (hse_pick ("db", 0, 1)) assigned<T, hart::GainDb<T>>(); else assigned<T, hart::GainLinear<T>>(); }
extern "C" void hse_main (void) { const size_t part = hse_pick ("part", 0, 5); if (hse_pick ("type", 0, 1)) run<float> (part); else run<double> (part); }
