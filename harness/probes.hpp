// User-side Signals / DSPs / Matchers that record what the framework does with them (public extension API only).
#pragma once
#include "hse.hpp"
#include "hart.hpp"

struct Event
{
    enum Kind { reset = 1, prepare, render, process, setValue, match, details };
    int kind; double rate; size_t a, b, c; double value;
};
struct Log
{
    std::vector<Event> ev; std::vector<size_t> at;
    static size_t& clock() { static size_t t = 0; return t; }   // orders the events of all logs
    void add (int k, double r = 0, size_t a = 0, size_t b = 0, size_t c = 0, double v = 0) { ev.push_back (Event { k, r, a, b, c, v }); at.push_back (clock()++); }
    const Event* find (int k, size_t n = 0) const { for (auto& e : ev) if (e.kind == k && n-- == 0) return &e; return nullptr; }
    size_t first (int k) const { for (size_t i = 0; i < ev.size(); ++i) if (ev[i].kind == k) return at[i]; return (size_t) -1; }
    size_t last (int k) const { for (size_t i = ev.size(); i-- > 0;) if (ev[i].kind == k) return at[i]; return (size_t) -1; }
    size_t count (int k) const { size_t n = 0; for (auto& e : ev) n += e.kind == k; return n; }
};

// Samples 0..frames-1 per channel come from a table (symbolic), then silence.
template <typename T> struct Table
{
    size_t channels, frames; std::vector<T> v;
    Table (size_t c, size_t f) : channels (c), frames (f), v (c * f) {}
    T& at (size_t c, size_t f) { return v[c * frames + f]; }
    void fill (const char* name) { for (auto& x : v) x = H<T>::sym (name); }
};

template <typename T> class TableSignal : public hart::Signal<T>
{
public:
    Table<T>* t; Log* log; size_t pos = 0; bool chOk = true; bool rateOk = true;
    TableSignal (Table<T>& table, Log* l = nullptr) : t (&table), log (l) {}
    bool supportsNumChannels (size_t) const override { return chOk; }
    bool supportsSampleRate (double) const override { return rateOk; }
    void prepare (double r, size_t c, size_t b) override { if (log) log->add (Event::prepare, r, c, 0, b); }
    void renderNextBlock (hart::AudioBuffer<T>& out) override
    {
        if (log) log->add (Event::render, 0, out.getNumChannels(), out.getNumFrames(), pos);
        for (size_t f = 0; f < out.getNumFrames(); ++f, ++pos)
            for (size_t c = 0; c < out.getNumChannels(); ++c)
                out[c][f] = c < t->channels && pos < t->frames ? t->at (c, pos) : (T) 0;
    }
    void reset() override { pos = 0; if (log) log->add (Event::reset); }
    void represent (std::ostream& s) const override { s << "TableSignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return hart::make_unique<TableSignal<T>> (*this); }
    std::unique_ptr<hart::Signal<T>> move() override { return hart::make_unique<TableSignal<T>> (std::move (*this)); }
};

// Replaces its input by a table (symbolic output), recording the input it saw.
template <typename T> class TableDsp : public hart::DSP<T>
{
public:
    Table<T>* t; Log* log; Table<T>* seen; size_t pos = 0; bool layoutOk = true; bool rateOk = true; bool envOk = false; double p[3] = { 0, 0, 0 };
    TableDsp (Table<T>* table, Log* l, Table<T>* seenInput = nullptr) : t (table), log (l), seen (seenInput) {}
    void prepare (double r, size_t i, size_t o, size_t b) override { if (log) log->add (Event::prepare, r, i, o, b); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers&) override
    {
        if (log) log->add (Event::process, 0, in.getNumChannels(), out.getNumChannels(), out.getNumFrames(), (double) in.getNumFrames());
        for (size_t f = 0; f < out.getNumFrames(); ++f, ++pos)
        {
            if (seen && pos < seen->frames) for (size_t c = 0; c < in.getNumChannels(); ++c) seen->at (c, pos) = in[c][f];
            for (size_t c = 0; c < out.getNumChannels(); ++c) out[c][f] = t ? (pos < t->frames ? t->at (c, pos) : (T) 0) : in[c < in.getNumChannels() ? c : 0][f];
        }
    }
    void reset() override { pos = 0; if (log) log->add (Event::reset); }
    void setValue (int id, double v) override { if (log) log->add (Event::setValue, 0, (size_t) id, 0, 0, v); if (id >= 0 && id < 3) p[id] = v; }
    double getValue (int id) const override { return id >= 0 && id < 3 ? p[id] : 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return layoutOk; }
    bool supportsSampleRate (double) const override { return rateOk; }
    bool supportsEnvelopeFor (int) const override { return envOk; }
    void represent (std::ostream& s) const override { s << "TableDsp()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<TableDsp<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<TableDsp<T>> (std::move (*this)); }
};

// Records every sample it is shown; fails at the first sample (per call) that is > limit.
template <typename T> class ProbeMatcher : public hart::Matcher<T>
{
public:
    struct Rec { Log log; Table<T> seen; size_t pos; int calls; Rec (size_t c, size_t f) : seen (c, f), pos (0), calls (0) {} };
    Rec* rec; bool perBlock; T limit; const char* name; size_t fc = 0, ff = 0; bool below = false;   // below: rejects samples < limit instead
    ProbeMatcher (Rec* r, bool pb, T lim, const char* n = "ProbeMatcher()") : rec (r), perBlock (pb), limit (lim), name (n) {}
    void prepare (double r, size_t c, size_t b) override { if (rec) rec->log.add (Event::prepare, r, c, 0, b); }
    bool match (const hart::AudioBuffer<T>& a) override
    {
        bool ok = true;
        if (rec) { rec->log.add (Event::match, 0, a.getNumChannels(), a.getNumFrames(), rec->pos); ++rec->calls; }
        for (size_t f = 0; f < a.getNumFrames(); ++f)
            for (size_t c = 0; c < a.getNumChannels(); ++c)
            {
                if (rec && rec->pos + f < rec->seen.frames && c < rec->seen.channels) rec->seen.at (c, rec->pos + f) = a[c][f];
                if (ok && (below ? a[c][f] < limit : a[c][f] > limit)) { ok = false; fc = c; ff = f; }
            }
        if (rec) rec->pos += a.getNumFrames();
        return ok;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { if (rec) { rec->log.add (Event::reset); rec->pos = 0; } }
    hart::MatcherFailureDetails getFailureDetails() const override
    { if (rec) rec->log.add (Event::details); hart::MatcherFailureDetails d; d.frame = ff; d.channel = fc; d.description = std::string ("because-of-") + name; return d; }
    void represent (std::ostream& s) const override { s << name; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return hart::make_unique<ProbeMatcher<T>> (*this); }
    std::unique_ptr<hart::Matcher<T>> move() override { return hart::make_unique<ProbeMatcher<T>> (std::move (*this)); }
};

// Rejects iff some sample of the audio it is shown is > limit; decides without branching per sample.
template <typename T> class LimitMatcher : public hart::Matcher<T>
{
public:
    bool perBlock; T limit; std::string name;
    LimitMatcher (bool pb, T lim, const std::string& n) : perBlock (pb), limit (lim), name (n) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& a) override
    {
        int bad = 0;
        for (size_t c = 0; c < a.getNumChannels(); ++c) for (size_t f = 0; f < a.getNumFrames(); ++f) bad = hse_or (bad, a[c][f] > limit);
        return ! bad;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = 0; d.channel = 0; d.description = "because-of-" + name; return d; }
    void represent (std::ostream& s) const override { s << name; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return hart::make_unique<LimitMatcher<T>> (*this); }
    std::unique_ptr<hart::Matcher<T>> move() override { return hart::make_unique<LimitMatcher<T>> (std::move (*this)); }
};

// parses a command line through HART's own option set (first use registers the options and their defaults)
inline int hse_cli (std::vector<std::string> args)
{
    static bool once = false;
    if (! once) { once = true; hart::CLIConfig::getInstance().initCommandLineArgs(); }
    std::vector<const char*> v { "test" }; for (auto& a : args) v.push_back (a.c_str());
    try { hart::CLIConfig::getInstance().getCLIApp().parse ((int) v.size(), v.data()); } catch (const CLI::ParseError&) { return 1; }
    return 0;
}

// outcome of calling something that may throw one of HART's exceptions
enum Outcome { okay = 0, valueError, sizeError, sampleRateError, channelLayoutError, stateError, unsupportedError, indexError, ioError, configurationError, hartAssert, testAssert, otherError };
template <typename F> Outcome outcomeOf (F f, std::string* msg = nullptr)
{
    try { f(); }
    catch (const hart::ValueError&) { return valueError; }
    catch (const hart::SizeError&) { return sizeError; }
    catch (const hart::SampleRateError&) { return sampleRateError; }
    catch (const hart::ChannelLayoutError&) { return channelLayoutError; }
    catch (const hart::StateError&) { return stateError; }
    catch (const hart::UnsupportedError&) { return unsupportedError; }
    catch (const hart::IndexError&) { return indexError; }
    catch (const hart::IOError&) { return ioError; }
    catch (const hart::ConfigurationError&) { return configurationError; }
    catch (const hart::HartAssertException&) { return hartAssert; }
    catch (const hart::TestAssertException& e) { if (msg) *msg = e.what(); return testAssert; }
    catch (const std::exception&) { return otherError; }
    return okay;
}
