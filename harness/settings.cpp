// BOUND: every sequence of 3 (thorough 4) calls of the 14 setters of a run (sample rate, block size, duration, input and output channels and their shorthands, input signal, label), after a full set of settings; also none at all and every setter on its own over the defaults; sample values symbolic; float and double
#include "probes.hpp"
enum { OPS = 14, STEPS = HSE_TIER == 1 ? 3 : 4, W = 5, L = 12 };
struct Model { double rate, duration; size_t block, nin, nout, signal; };
template <typename B, typename T> static void apply (B& b, Model& m, size_t op, size_t step, Table<T>* tables)
{
    switch (op)
    {
        case 0: m.rate = step & 1 ? 16.5 : m.duration == 0.1 ? 40 : 4; b.withSampleRate (m.rate); break;
        case 1: m.block = step & 1 ? 3 : 2; b.withBlockSize (m.block); break;
        case 2: m.duration = step & 1 ? 0.5 : 0.375; b.withDuration (m.duration); break;
        case 3: m.nin = step & 1 ? 4 : 3; b.withInputChannels (m.nin); break;
        case 4: m.nout = step & 1 ? 5 : 3; b.withOutputChannels (m.nout); break;
        case 5: m.nin = 2; b.withStereoInput(); break;
        case 6: m.nout = 2; b.withStereoOutput(); break;
        case 7: m.nin = 1; b.withMonoInput(); break;
        case 8: m.nout = 1; b.withMonoOutput(); break;
        case 9: m.nin = m.nout = 1; b.inMono(); break;
        case 10: m.nin = m.nout = 2; b.inStereo(); break;
        case 11: case 12: m.signal = op - 11; b.withInputSignal (TableSignal<T> (tables[m.signal])); break;
        default: b.withLabel (step & 1 ? "a label" : ""); break;
    }
}
template <typename B, typename T> static void judge (B& b, const Model& m, Table<T>* tables, Log& log, Table<T>& seen)
{
    typename ProbeMatcher<T>::Rec r (m.nout, 1); const size_t frames = (size_t) (m.rate * m.duration + 0.5);
    b.expectTrue (ProbeMatcher<T> (&r, true, (T) INFINITY)); const Outcome o = outcomeOf ([&] { b.process(); });
    hse_check (o == okay, "a run with possible settings is accepted in whatever order they were given"); if (o != okay) return;
    const Event* e = log.find (Event::prepare); hse_check (e && e->rate == m.rate, "the sample rate given last counts, or 44100 Hz"); if (! e) return;
    hse_check (e->a == m.nin, "the input channels given last count, or one"); hse_check (e->b == m.nout, "the output channels given last count, or one"); hse_check (e->c == m.block, "the block size given last counts, or 1024");
    const Event* p = log.find (Event::process); size_t total = 0; for (size_t i = 0; i < log.count (Event::process); ++i) total += log.find (Event::process, i)->c;
    hse_check (total == frames, "the duration given last counts, or a tenth of a second"); if (! p) return;
    hse_check (p->a == m.nin && p->b == m.nout, "audio has the channels given last");
    e = r.log.find (Event::prepare); hse_check (e && e->a == m.nout && e->rate == m.rate && e->c == m.block, "matchers get the same settings");
    for (size_t f = 0; f < frames && f < seen.frames; ++f) for (size_t c = 0; c < m.nin && c < W; ++c) hse_check (H<T>::same (f < L ? tables[m.signal].at (c, f) : (T) 0, seen.at (c, f)), "the input signal given last is the one that is used");
}
template <typename T> static void run (bool defaults, size_t first)
{
    Table<T> tables[2] = { { W, L }, { W, L } }; for (auto& t : tables) if (defaults) for (size_t i = 0; i < 3; ++i) t.v[i] = H<T>::sym ("in"); else t.fill ("in");
    Log log; Table<T> seen (W, L); auto b = hart::processAudioWith (TableDsp<T> (nullptr, &log, &seen)); Model m { 44100, 0.1, 1024, 1, 1, 0 };
    b.withInputSignal (TableSignal<T> (tables[0]));
    if (defaults)
    {
        const size_t op = hse_pick ("op", 0, OPS); if (op < OPS) apply (b, m, op, 0, tables);
    }
    else
    {
        m = { 8, 0.25, 1, 3, 4, 0 }; b.withSampleRate (8).withDuration (0.25).withBlockSize (1).withInputChannels (3).withOutputChannels (4);
        for (size_t i = 0; i < STEPS; ++i) apply (b, m, i ? hse_pick ("op", 0, OPS - 1) : first, i, tables);
    }
    judge (b, m, tables, log, seen);
    H<T>::obs ("seen", seen.at (0, 0)); hse_obs_u64 ("channels", m.nin + 10 * m.nout);
}
extern "C" void hse_main (void) { const bool defaults = hse_pick ("defaults", 0, 1); const size_t first = defaults ? hse_pick ("type", 0, 1) : hse_pick ("first", 0, OPS - 1); if (first % 2) run<float> (defaults, first); else run<double> (defaults, first); }
