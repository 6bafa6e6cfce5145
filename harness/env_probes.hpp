// User-side envelope and envelope-recording effect (public extension API only).
#pragma once
#include "probes.hpp"
// Gives the values of a table (symbolic), then zeros; resets restart it.
class TableEnvelope : public hart::Envelope
{
public:
    const std::vector<double>* t; Log* log; size_t pos = 0;
    TableEnvelope (const std::vector<double>& table, Log* l = nullptr) : t (&table), log (l) {}
    void renderNextBlock (size_t n, std::vector<double>& out) override { out.resize (n); for (size_t i = 0; i < n; ++i, ++pos) out[i] = pos < t->size() ? (*t)[pos] : 0; }
    void prepare (double r, size_t b) override { if (log) log->add (Event::prepare, r, 0, 0, b); }
    void reset() override { pos = 0; if (log) log->add (Event::reset); }
    std::unique_ptr<hart::Envelope> copy() const override { return hart::make_unique<TableEnvelope> (*this); }
};
// Passes audio through and records the envelope values it is given for parameters base..base + 2
struct EnvRec { std::vector<double> v[3]; bool missing[3] = { false, false, false }, extra = false, tooShort = false; size_t frames = 0; void clear() { *this = EnvRec(); } };
template <typename T> class EnvProbe : public hart::DSP<T>
{
public:
    EnvRec* rec; int mask, base;
    EnvProbe (EnvRec* r, int supported, int base_ = 0) : rec (r), mask (supported), base (base_) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& e) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = in[0][f];
        if (! rec) return;
        rec->frames += in.getNumFrames();
        for (auto& p : e) if (p.first < base || p.first > base + 2) rec->extra = true;
        for (int id = 0; id < 3; ++id)
        {
            auto it = e.find (base + id);
            if (it == e.end()) { rec->missing[id] = true; continue; }
            if (it->second.size() < in.getNumFrames()) { rec->tooShort = true; continue; }
            rec->v[id].insert (rec->v[id].end(), it->second.begin(), it->second.begin() + in.getNumFrames());
        }
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int id) const override { return 1000.0 + id; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsEnvelopeFor (int id) const override { return id >= base && id < base + 3 && ((mask >> (id - base)) & 1); }
    void represent (std::ostream& s) const override { s << "EnvProbe()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<EnvProbe<T>> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<EnvProbe<T>> (std::move (*this)); }
};
