// BOUND: block size symbolic: every value 1..2^63-1; sample rate symbolic: every double 1e-3..1e9; duration symbolic, 1..3 (quick) / 1..5 (thorough) frames; every sample and every parameter value symbolic; 1..2 input x 1..2 output channels, float and double
// ASSUME: the duration is within 0.4 frame of a whole number of frames (host_duration comes nearer to the ties); parameter values are not NaN
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXF = 3 };
#else
enum { MAXF = 5 };
#endif
template <typename T> static void run()
{
    const size_t frames = hse_pick ("frames", 1, MAXF), nin = hse_pick ("nin", 1, 2), nout = hse_pick ("nout", 1, 2);
    const size_t block = hse_u64 ("block", 1, 0x7fffffffffffffffull);
    const double rate = hse_f64 ("rate"); hse_assume (rate >= 1e-3); hse_assume (rate <= 1e9);
    const double duration = hse_f64 ("duration"); hse_assume (duration > 0); hse_assume (duration <= 6e3);
    const double product = rate * duration;
    hse_assume (product >= (double) frames - 0.4); hse_assume (product <= (double) frames + 0.4);
    const double value = hse_f64 ("value"); hse_assume (value == value);
    const double value2 = hse_f64 ("value2"); hse_assume (value2 == value2);
    Table<T> in (nin, frames), outT (nout, frames), seen (nin, frames + 2);
    in.fill ("in"); outT.fill ("out");
    for (auto& x : seen.v) x = (T) 0;
    Log sl, dl;
    typename ProbeMatcher<T>::Rec mb (nout, frames + 2), mf (nout, frames + 2);
    TableSignal<T> sig (in, &sl);
    auto b = hart::processAudioWith (TableDsp<T> (&outT, &dl, &seen));
    b.withValue (1, value).withSampleRate (rate).withBlockSize (block).withDuration (duration).withInputChannels (nin).withOutputChannels (nout).withInputSignal (sig).withValue (2, value2)
     .expectTrue (ProbeMatcher<T> (&mb, true, (T) INFINITY)).expectTrue (ProbeMatcher<T> (&mf, false, (T) INFINITY));
    const std::unique_ptr<hart::DSP<T>> back = b.process();
    hse_check (back != nullptr, "process() hands the DSP back");
    size_t total = 0, nproc = 0;
    for (auto& e : dl.ev) if (e.kind == Event::process)
    {
        ++nproc;
        hse_check (e.c <= block, "no block is larger than the block size");
        if (total + e.c < frames) hse_check (e.c == block, "every block except the last one is full");
        hse_check (e.c >= 1, "no block is empty");
        hse_check (e.a == nin && e.b == nout, "blocks have the requested channel layout");
        hse_check ((size_t) e.value == e.c, "input and output block sizes agree");
        total += e.c;
    }
    hse_check (total == frames, "DSP processed the requested number of frames");
    total = 0;
    for (auto& e : sl.ev) if (e.kind == Event::render)
    {
        hse_check (e.a == nin && e.c == total, "signal is rendered contiguously with the input channel count");
        total += e.b;
    }
    hse_check (total == frames, "signal rendered the requested number of frames");
    for (size_t c = 0; c < nin; ++c)
        for (size_t f = 0; f < frames; ++f) hse_check (hse_same_f64 ((double) seen.at (c, f), (double) in.at (c, f)), "DSP input equals the signal, sample for sample");
    hse_check (mb.pos == frames && mf.pos == frames, "matchers saw the requested number of frames");
    hse_check (mf.calls == 1 && (size_t) mb.calls == nproc, "full-signal matcher is asked once, per-block matcher once per block");
    for (size_t c = 0; c < nout; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            hse_check (hse_same_f64 ((double) mb.seen.at (c, f), (double) outT.at (c, f)), "per-block matcher saw the DSP output, sample for sample");
            hse_check (hse_same_f64 ((double) mf.seen.at (c, f), (double) outT.at (c, f)), "full-signal matcher saw the DSP output, sample for sample");
        }
    // what everybody was told before the first frame
    auto told = [&] (const Log& log, bool dsp, const char* text) {
        const Event* p = log.find (Event::prepare);
        hse_check (p != nullptr, text); if (! p) return;
        hse_check (hse_same_f64 (p->rate, rate), text);
        if (dsp) { hse_check (p->a == nin && p->b == nout, text); hse_check (p->c == block, text); }
    };
    told (dl, true, "DSP is prepared with the test's sample rate, channel counts and block size");
    told (sl, false, "signal is prepared with the test's sample rate");
    told (mb.log, false, "per-block matcher is prepared with the test's sample rate");
    told (mf.log, false, "full-signal matcher is prepared with the test's sample rate");
    if (auto p = sl.find (Event::prepare)) hse_check (p->a == nin, "signal is prepared with the input channel count");
    if (auto p = mb.log.find (Event::prepare)) hse_check (p->a == nout, "per-block matcher is prepared with the output channel count");
    if (auto p = mf.log.find (Event::prepare)) hse_check (p->a == nout, "full-signal matcher is prepared with the output channel count");
    if (auto p = sl.find (Event::prepare)) hse_check (p->c == block, "signal is prepared with the block size");
    if (auto p = mb.log.find (Event::prepare)) hse_check (p->c == block, "per-block matcher is prepared with the block size");
    const Event* s1 = dl.find (Event::setValue, 0); const Event* s2 = dl.find (Event::setValue, 1);
    hse_check (dl.count (Event::setValue) == 2, "each value is set once");
    if (s1 && s2)
    {
        hse_check (s1->a == 1 && hse_same_f64 (s1->value, value), "first value is set as given");
        hse_check (s2->a == 2 && hse_same_f64 (s2->value, value2), "second value is set as given");
    }
    hse_check (dl.first (Event::prepare) < dl.first (Event::process) && dl.last (Event::setValue) < dl.first (Event::process) && dl.first (Event::prepare) < dl.first (Event::setValue), "prepared, then set, then processed");
    hse_obs_u64 ("blocks", nproc);
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
