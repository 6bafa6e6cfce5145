// BOUND: block size 1..4 (thorough 6), 1..5 (thorough 9) frames, also four long runs (up to 600 frames in blocks of up to 1000), sample rates 8 / 48000 / 0.75 Hz, envelopes on any subset of two supported parameters, attached once or twice, as named object or temporary, to the effect under test (moved or by pointer) or to an effect in the signal's chain, two consecutive runs; every envelope value symbolic; float and double
#include "env_probes.hpp"
#if HSE_TIER == 1
enum { MAXB = 4, MAXF = 5 };
#else
enum { MAXB = 6, MAXF = 9 };
#endif
template <typename T> static void run (bool big)
{
    static const size_t blocks[4] = { 64, 256, 1000, 33 }, lengths[4] = { 600, 257, 64, 130 };
    const size_t shape = big ? hse_pick ("shape", 0, 3) : 0, block = big ? blocks[shape] : hse_pick ("block", 1, MAXB), frames = big ? lengths[shape] : hse_pick ("frames", 1, MAXF); const int mask = (int) hse_pick ("mask", 0, 3), where = (int) hse_pick ("where", 0, 2); const bool twice = (block + frames + mask) & 1;
    const double rates[3] = { 8, 48000, 0.75 }; const double rate = rates[(block + frames / 2 + mask) % 3];
    std::vector<double> t[3]; for (auto& x : t) for (size_t i = 0; i < frames; ++i) x.push_back (hse_f64 ("e"));
    Log log[3]; EnvRec rec; EnvProbe<T> dsp (&rec, 3);
    for (int id = 0; id < 2; ++id)
    {
        if (! ((mask >> id) & 1)) continue;
        TableEnvelope named (t[id], &log[id]);
        if (twice) { TableEnvelope old (t[2], &log[2]); if (id) dsp.withEnvelope (id, old); else dsp.withEnvelope (id, TableEnvelope (t[2], &log[2])); }
        if (frames & 1) dsp.withEnvelope (id, named); else dsp.withEnvelope (id, TableEnvelope (t[id], &log[id]));
    }
    for (int id = 0; id < 3; ++id) hse_check (dsp.hasEnvelopeFor (id) == (((mask >> id) & 1) != 0), "an effect has envelopes for exactly the parameters they were attached to");
    std::unique_ptr<hart::DSP<T>> mine (new EnvProbe<T> (dsp));
    hart::Silence<T> sig; if (where == 2) sig.followedBy (dsp);
    for (int pass = 0; pass < 2; ++pass)
    {
        rec.clear(); for (auto& l : log) l = Log();
        std::unique_ptr<hart::DSP<T>> d; if (where == 2) d.reset (new EnvProbe<T> (nullptr, 3)); else if (where == 1) d = dsp.copy(); else d = std::move (mine);
        d = hart::processAudioWith (std::move (d)).withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputSignal (sig).process();
        if (where == 0) mine = std::move (d);
        hse_check (rec.frames == frames, "the effect processes every frame of the run");
        for (int id = 0; id < 2; ++id)
        {
            if ((mask >> id) & 1)
            {
                hse_check (rec.v[id].size() == frames && ! rec.missing[id], "the effect receives one envelope value per frame");
                for (size_t n = 0; n < frames && n < rec.v[id].size(); ++n) hse_check (hse_same_f64 (rec.v[id][n], t[id][n]), "the value for each frame is the envelope's next value, from its beginning in every run");
                const Event* e = log[id].find (Event::prepare);
                hse_check (e != nullptr && log[id].count (Event::reset) >= 1, "the envelope is prepared and reset for the run");
                for (size_t k = 0; k < log[id].count (Event::prepare); ++k) hse_check (log[id].find (Event::prepare, k)->rate == rate, "the envelope is prepared with the run's sample rate");
                for (size_t k = 0; k < log[id].count (Event::prepare); ++k) hse_check (log[id].find (Event::prepare, k)->c >= std::min (block, frames), "the envelope is prepared for blocks as long as those it is asked for");
            }
            else hse_check (rec.v[id].empty(), "no values are delivered for other parameters");
        }
        hse_check (rec.v[2].empty() && ! rec.extra, "no values are delivered for parameters without an envelope");
        hse_check (! rec.tooShort, "an envelope value is available for every frame of a block");
    }
    hse_obs_u64 ("n", rec.frames); if (mask & 1) hse_obs_f64 ("v", rec.v[0].back());
}
extern "C" void hse_main (void) { const bool big = hse_pick ("big", 0, 1); if (hse_pick ("type", 0, 1)) run<float> (big); else run<double> (big); }
