// BOUND: block size 1..3 (thorough 4), 1..4 (6) frames, 1..2 channels in/out, sample rates 8 / 44100.5 / 192000 Hz, 0..3 initial parameter values (every double symbolic), chain of 0..2 effects, per-block / whole-signal / reversed matcher, two consecutive runs; also four large shapes (up to 40 channels, 300 frames, blocks of 700, 12 parameter values, 6 effects); float and double
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXB = 3, MAXF = 4 };
#else
enum { MAXB = 4, MAXF = 6 };
#endif
template <typename T> static void run (bool big)
{
    static const size_t shapes[4][6] = { { 128, 300, 5, 7, 12, 6 }, { 700, 40, 16, 1, 9, 3 }, { 3, 20, 1, 40, 5, 5 }, { 1, 130, 2, 2, 8, 4 } }; auto& sh = shapes[big ? hse_pick ("shape", 0, 3) : 0];
    const size_t block = big ? sh[0] : hse_pick ("block", 1, MAXB), frames = big ? sh[1] : hse_pick ("frames", 1, MAXF), nin = big ? sh[2] : hse_pick ("nin", 1, 2), nout = big ? sh[3] : hse_pick ("nout", 1, 2), nv = big ? sh[4] : (block + frames + nin) % 4, chain = big ? sh[5] : (frames + nout) % 3;
    const double rates[3] = { 8, 44100.5, 192000 }; const double rate = rates[(block + nout + frames / 2) % 3];
    Table<T> in (nin, frames), out (nout, frames); if (! big) { in.fill ("in"); out.fill ("out"); }
    Log sl, dl, cl[6];
    TableSignal<T> sig (in, &sl);
    for (size_t i = 0; i < chain; ++i) sig.followedBy (TableDsp<T> (nullptr, &cl[i]));
    typename ProbeMatcher<T>::Rec m[3] = { { nout, frames }, { nout, frames }, { nout, frames } };
    double val[12]; const int id[12] = { 2, 0, 2, 1, 0, 7, -1, 2147483647, 2, 1, 0, 3 };
    for (size_t i = 0; i < nv; ++i) val[i] = hse_f64 ("value");
    std::unique_ptr<hart::DSP<T>> dsp (new TableDsp<T> (&out, &dl));
    for (int pass = 0; pass < 2; ++pass)
    {
        for (Log* l : { &sl, &dl, &cl[0], &cl[1], &cl[2], &cl[3], &cl[4], &cl[5], &m[0].log, &m[1].log, &m[2].log }) { l->ev.clear(); l->at.clear(); }
        auto b = hart::processAudioWith (std::move (dsp));
        b.withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputChannels (nin).withOutputChannels (nout).withInputSignal (sig);
        b.expectTrue (ProbeMatcher<T> (&m[0], true, (T) INFINITY)).assertTrue (ProbeMatcher<T> (&m[1], false, (T) INFINITY)).expectFalse (ProbeMatcher<T> (&m[2], true, (T) INFINITY));
        for (size_t i = 0; i < nv; ++i) b.withValue (id[i], val[i]);
        hse_check (dl.ev.empty() && sl.ev.empty(), "nothing is prepared or run before process()");
        dsp = b.process();
        hart::ExpectationFailureMessages::clear();
        const size_t firstRender = sl.first (Event::render), firstProcess = dl.first (Event::process);
        const Event* e = dl.find (Event::prepare);
        hse_check (dl.count (Event::prepare) == 1 && dl.count (Event::reset) == 1, "the DSP is reset and prepared exactly once");
        hse_check (e->rate == rate && e->a == nin && e->b == nout && e->c == block, "the DSP is prepared with the run's sample rate, channel counts and block size");
        hse_check (dl.first (Event::prepare) < firstProcess && dl.first (Event::reset) < firstProcess && dl.first (Event::prepare) < firstRender && dl.first (Event::reset) < firstRender, "the DSP is reset and prepared before audio flows");
        e = sl.find (Event::prepare);
        hse_check (sl.count (Event::prepare) == 1 && sl.count (Event::reset) == 1, "the input signal is reset and prepared exactly once");
        hse_check (e->rate == rate && e->a == nin && e->c == block, "the input signal is prepared with the run's sample rate, channel count and block size");
        hse_check (sl.first (Event::prepare) < firstRender && sl.first (Event::reset) < firstRender, "the input signal is reset and prepared before audio flows");
        for (size_t i = 0; i < chain; ++i)
        {
            e = cl[i].find (Event::prepare);
            hse_check (cl[i].count (Event::prepare) == 1 && cl[i].count (Event::reset) == 1, "every chained effect is reset and prepared exactly once");
            hse_check (e->rate == rate && e->a == nin && e->b == nin && e->c == block, "every chained effect is prepared with the signal's settings");
            hse_check (cl[i].first (Event::prepare) < firstRender && cl[i].first (Event::reset) < firstRender, "every chained effect is reset and prepared before audio flows");
        }
        for (int i = 0; i < 3; ++i)
        {
            e = m[i].log.find (Event::prepare);
            hse_check (m[i].log.count (Event::prepare) == 1 && m[i].log.count (Event::reset) == 1, "every matcher is reset and prepared exactly once");
            hse_check (e->rate == rate && e->a == nout && e->c == block, "every matcher is prepared with the run's sample rate, output channel count and block size");
            hse_check (m[i].log.first (Event::prepare) < firstRender && m[i].log.first (Event::reset) < firstRender, "every matcher is reset and prepared before audio flows");
        }
        hse_check (dl.count (Event::setValue) == nv, "every initial value is set exactly once");
        for (size_t i = 0; i < nv; ++i)
        {
            e = dl.find (Event::setValue, i);
            hse_check ((int) e->a == id[i] && hse_same_f64 (e->value, val[i]), "initial values are set in the order given");
        }
        if (nv) hse_check (dl.first (Event::setValue) > dl.first (Event::prepare) && dl.first (Event::setValue) > dl.first (Event::reset) && dl.last (Event::setValue) < firstProcess, "initial values are set after preparing, before audio flows");
        m[0].pos = m[1].pos = m[2].pos = 0;
        hse_obs_u64 ("events", dl.ev.size() + 100 * sl.ev.size());
        if (nv) hse_obs_f64 ("p", dl.find (Event::setValue, nv - 1)->value);
    }
}
extern "C" void hse_main (void) { const bool big = hse_pick ("big", 0, 1); if (hse_pick ("type", 0, 1)) run<float> (big); else run<double> (big); }
