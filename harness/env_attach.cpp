// BOUND: every history of 4 (thorough 5) operations (attach one of two envelopes to parameter -1, 0 or the unsupported 1, as named object or temporary; copy- and move-construct, copy- and move-assign in both directions; run 2 frames; reset) on two effects, which at the end go on running without being prepared again if they or their source were; every envelope value symbolic
#include "env_probes.hpp"
enum { BASE = -1, OPS = HSE_TIER == 1 ? 4 : 5, FR = 2 };
struct M { int env[2] = { -1, -1 }; size_t pos[2] = { 0, 0 }; bool ready = false; };
typedef EnvProbe<double> P;
extern "C" void hse_main (void)
{
    std::vector<double> t[2]; for (auto& x : t) for (size_t i = 0; i < FR * (OPS + 2); ++i) x.push_back (hse_f64 ("e"));
    EnvRec rec[2]; std::unique_ptr<P> d[2] = { std::unique_ptr<P> (new P (&rec[0], 3, BASE)), std::unique_ptr<P> (new P (&rec[1], 3, BASE)) }; M m[2];
    auto runOn = [&] (int x, bool again)   // again: an effect that was prepared (or whose source was) just goes on
    {
        rec[x].clear(); d[x]->rec = &rec[x];
        if (! (again && m[x].ready)) d[x]->prepareWithEnvelopes (8, 1, 1, FR);
        m[x].ready = true;
        hart::AudioBuffer<double> in (1, FR), out (1, FR); d[x]->processWithEnvelopes (in, out);
        for (int id = 0; id < 2; ++id)
        {
            hse_check (d[x]->hasEnvelopeFor (BASE + id) == (m[x].env[id] >= 0), "an effect has exactly the envelopes attached to it or its source");
            if (m[x].env[id] < 0) { hse_check (rec[x].v[id].empty(), "no values without an envelope"); continue; }
            hse_check (rec[x].v[id].size() == FR, "one value per frame");
            for (size_t n = 0; n < FR && n < rec[x].v[id].size(); ++n) hse_check (hse_same_f64 (rec[x].v[id][n], t[m[x].env[id]][m[x].pos[id] + n]), "the last envelope attached wins, and copies carry independent copies");
            m[x].pos[id] += FR;
        }
        hse_check (rec[x].v[2].empty() && ! d[x]->hasEnvelopeFor (BASE + 2), "an unsupported parameter never gets an envelope");
    };
    for (int step = 0; step < OPS; ++step)
    {
        const int op = (int) hse_pick ("op", 0, 8), x = op & 1, y = 1 - x;
        switch (op)
        {
            case 0: case 1: { const int e = x; TableEnvelope te (t[e]); d[0]->withEnvelope (BASE + (step & 1), te); m[0].ready = false; m[0].env[step & 1] = e; m[0].pos[step & 1] = 0; break; }
            case 2: case 3: { d[1]->withEnvelope (BASE + x, TableEnvelope (t[(step + x) & 1])); m[1].ready = false; m[1].env[x] = (step + x) & 1; m[1].pos[x] = 0; break; }
            case 4: { const int un = (step & 1) ? BASE + 2 : -7; TableEnvelope te (t[0]); const Outcome o = outcomeOf ([&] { if (step & 2) d[0]->withEnvelope (un, te); else d[0]->withEnvelope (un, TableEnvelope (t[1])); }); hse_check (o == unsupportedError, "attaching an envelope to an unsupported parameter is refused"); break; }
            case 5: if (step & 1) *d[1] = *d[0]; else d[1].reset (new P (*d[0])); m[1] = m[0]; break;
            case 6: if (step & 1) *d[0] = std::move (*d[1]); else { std::unique_ptr<P> n (new P (std::move (*d[1]))); d[0] = std::move (n); } m[0] = m[1]; d[1].reset (new P (&rec[1], 3, BASE)); m[1] = M(); break;
            case 7: { P& self = *d[0]; *d[0] = self; d[1].reset (static_cast<P*> (d[0]->copy().release())); m[1] = m[0]; break; }
            default: if (step & 1) { d[0]->resetWithEnvelopes(); m[0].pos[0] = m[0].pos[1] = 0; } else runOn (0, false); break;
        }
        (void) y;
    }
    runOn (1, true); runOn (0, true);
    hse_obs_u64 ("m", (uint64_t) (m[0].env[0] + 2 + 10 * (m[1].env[1] + 2)));
}
