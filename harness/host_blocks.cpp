// BOUND: block size 1..4 (quick) / 1..6 (thorough), 1..7 / 1..11 frames, 1..3 input x 1..3 output channels, one sample rate per instance out of {8 Hz, 44100, 48000}, every sample value (all bit patterns) symbolic, float and double; also 12 fixed sizes of up to 4410 frames, blocks of up to 100000 and up to 128 channels, every sample symbolic
// ASSUME: duration = (frames + d) / rate with d one of -0.3, 0, 0.3 (host_duration has the symbolic duration)
#include "probes.hpp"

#if HSE_TIER == 1
enum { MAXB = 4, MAXF = 7, MAXC = 2 };
#else
enum { MAXB = 6, MAXF = 11, MAXC = 3 };
#endif

template <typename T> static void run (size_t block, size_t frames, size_t nin, size_t nout)
{
    const int rk = (int) ((block + frames + nin + nout) % 3);
    const double rate = rk == 0 ? 8 : rk == 1 ? 44100 : 48000;
    const int how = (int) ((block + nin + 2 * nout) % 3);
    const double d = 0.3 * ((int) ((block + 2 * frames + (size_t) rk) % 3) - 1);
    Table<T> in (nin, frames), outT (nout, frames), seen (nin, frames + 8);
    in.fill ("in"); outT.fill ("out");
    for (auto& x : seen.v) x = (T) 0;
    Log sl, dl;
    typename ProbeMatcher<T>::Rec mb (nout, frames + 8), mf (nout, frames + 8), mr (nout, frames + 8);
    TableSignal<T> sig (in, &sl);
    TableDsp<T> dsp (&outT, &dl, &seen);
    const double duration = ((double) frames + d) / rate;
    auto setup = [&] (hart::AudioTestBuilder<T>&& b) {
        b.withSampleRate (rate).withBlockSize (block).withDuration (duration).withInputChannels (nin).withOutputChannels (nout).withInputSignal (sig)
         .expectTrue (ProbeMatcher<T> (&mb, true, (T) INFINITY)).expectTrue (ProbeMatcher<T> (&mf, false, (T) INFINITY)).expectFalse (ProbeMatcher<T> (&mr, (frames & 1) != 0, (T) INFINITY));
        return b.process();
    };
    std::unique_ptr<hart::DSP<T>> back;
    if (how == 0) back = setup (hart::processAudioWith (dsp));
    else if (how == 1) back = setup (hart::processAudioWith (TableDsp<T> (&outT, &dl, &seen)));
    else back = setup (hart::processAudioWith (std::unique_ptr<TableDsp<T>> (new TableDsp<T> (&outT, &dl, &seen))));
    hse_check (back != nullptr, "process() hands the DSP back");

    // the DSP saw every frame of the signal exactly once and in order, in blocks that respect the block size
    size_t total = 0; bool inBlocks = true, channels = true, sizes = true; size_t nproc = 0;
    for (auto& e : dl.ev) if (e.kind == Event::process)
    {
        ++nproc; inBlocks = inBlocks && e.c >= 1 && e.c <= block; channels = channels && e.a == nin && e.b == nout; sizes = sizes && (size_t) e.value == e.c;
        if (total + e.c < frames) inBlocks = inBlocks && e.c == block;   // only the last block may be shorter
        total += e.c;
    }
    hse_check (total == frames, "DSP processed the requested number of frames");
    hse_check (inBlocks, "every block is full except possibly the last one");
    hse_check (channels, "blocks have the requested channel layout");
    hse_check (sizes, "input and output block sizes agree");
    total = 0; bool sok = true;
    for (auto& e : sl.ev) if (e.kind == Event::render) { sok = sok && e.a == nin && e.c == total && e.b <= block; total += e.b; }
    hse_check (sok, "signal is rendered contiguously with the input channel count");
    hse_check (total == frames, "signal rendered the requested number of frames");
    for (size_t c = 0; c < nin; ++c)
        for (size_t f = 0; f < frames; ++f) hse_check (hse_same_f64 ((double) seen.at (c, f), (double) in.at (c, f)), "DSP input equals the signal, sample for sample");
    hse_check (mb.pos == frames && mf.pos == frames && mr.pos == frames, "matchers saw the requested number of frames");
    hse_check (mf.calls == 1, "full-signal matcher is asked exactly once");
    hse_check (mr.calls == 1, "a reversed check is asked exactly once, about the whole signal");
    hse_check ((size_t) mb.calls == nproc, "per-block matcher is asked once per block");
    for (size_t c = 0; c < nout; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            hse_check (hse_same_f64 ((double) mb.seen.at (c, f), (double) outT.at (c, f)), "per-block matcher saw the DSP output, sample for sample");
            hse_check (hse_same_f64 ((double) mf.seen.at (c, f), (double) outT.at (c, f)), "full-signal matcher saw the DSP output, sample for sample");
            hse_check (hse_same_f64 ((double) mr.seen.at (c, f), (double) outT.at (c, f)), "reversed check saw the DSP output, sample for sample");
        }
    hse_check (hart::ExpectationFailureMessages::get().size() == 1, "only the reversed check is reported when every matcher matches");
    hse_obs_u64 ("blocks", nproc);
    H<T>::obs ("first", mb.seen.at (0, 0));
    H<T>::obs ("last", mf.seen.at (nout - 1, frames - 1));
}
// long runs, wide layouts and large blocks
static const size_t big[][4] = { { 1024, 4410, 1, 1 }, { 256, 700, 2, 2 }, { 1, 40, 1, 2 }, { 7, 100, 2, 1 }, { 3, 4, 1, 128 }, { 3, 4, 128, 1 }, { 2, 5, 9, 17 }, { 100000, 30, 5, 7 }, { 64, 640, 1, 1 }, { 512, 513, 1, 1 }, { 4096, 3000, 1, 1 }, { 1025, 2050, 1, 1 } };
template <typename T> static void any()
{
    if (hse_pick ("large", 0, 1)) { auto& b = big[hse_pick ("case", 0, sizeof big / sizeof big[0] - 1)]; run<T> (b[0], b[1], b[2], b[3]); return; }
    const size_t block = hse_pick ("block", 1, MAXB), frames = hse_pick ("frames", 1, MAXF), nin = hse_pick ("nin", 1, MAXC), nout = hse_pick ("nout", 1, MAXC);
    run<T> (block, frames, nin, nout);
}
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) any<float>(); else any<double>(); }
