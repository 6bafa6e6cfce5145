// BOUND: 3 x 3 save modes, one check of every kind (expect/assert x true/reversed x per-block/whole) or two checks, block size 1..2, 3 (thorough 4) frames, 1..2 channels (3..4 in the integer formats), every sample symbolic (also outputs of up to 2500 frames or 100 channels with three symbolic samples), formats by kind, rates 8 / 44100 Hz; float and double
// ASSUME: signalsmith/plot is a recording stand-in; files live in an in-memory file system (replays: real files in a scratch directory)
#include "probes.hpp"
#if HSE_TIER == 1
enum { NF = 3 };
#else
enum { NF = 4 };
#endif
static unsigned long le (const char* f, size_t at, int n) { unsigned long v = 0; for (int i = 0; i < n; ++i) v |= (unsigned long) (hse_file_byte (f, at + (size_t) i) & 255) << (8 * i); return v; }
static size_t hart_plots() { return signalsmith::plot::HsePlotLog::get().size(); }
template <typename T> static void run()
{
    const size_t frames = NF; const int wav = (int) hse_pick ("wavMode", 0, 3), plot = (int) hse_pick ("plotMode", 0, 3), kind = (int) hse_pick ("kind", 0, 7);   // mode 3: not requested
    const size_t block = 1 + (size_t) (wav + plot + kind) % 2, n0 = 1 + (size_t) (plot + kind / 2) % 2; const double rate = kind % 3 ? 44100 : 8; const bool second = (kind + wav) % 2;
    const hart::WavFormat fmt[4] = { hart::WavFormat::float32, hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32 }; const int bytes[4] = { 4, 2, 3, 4 };
    const int fk = (wav + plot + 2 * kind) % 3 ? 0 : 1 + (kind + plot) % 3;
    const size_t n = fk && kind % 3 == 0 ? n0 + 2 : n0;
    const hart::Save mode[3] = { hart::Save::always, hart::Save::whenFails, hart::Save::never };
    Table<T> out (n, frames), in (1, frames); 
    const T limit = (T) 0.5;
    if (fk == 0) out.fill ("out"); else { for (auto& x : out.v) x = (T) 0.25; const int over = (int) hse_pick ("over", 0, 1); if (over) out.v[frames - 1] = (T) 0.75; }
    in.fill ("in");
    Log dl; TableSignal<T> sig (in); TableDsp<T> dsp (&out, &dl);
    auto b = hart::processAudioWith (dsp); b.withSampleRate (rate).withBlockSize (block).withDuration ((double) frames / rate).withInputChannels (1).withOutputChannels (n).withInputSignal (sig);
    LimitMatcher<T> m ((kind & 1) != 0, limit, "M");
    if (second) b.expectTrue (LimitMatcher<T> (true, (T) INFINITY, "N"));
    switch (kind >> 1) { case 0: b.expectTrue (m); break; case 1: b.expectFalse (m); break; case 2: b.assertTrue (m); break; default: b.assertFalse (m); break; }
    if (second) b.expectTrue (LimitMatcher<T> (false, (T) INFINITY, "O"));
    if (wav < 3) b.saveOutputTo ("out.wav", mode[wav], fmt[fk]);
    if (plot < 3) b.savePlotTo ("plot.svg", mode[plot]);
    b.saveOutputTo ("", hart::Save::always); b.savePlotTo ("", hart::Save::always);   // empty paths ask for nothing and change nothing
    std::unique_ptr<hart::DSP<T>> back; const Outcome o = outcomeOf ([&] { back = b.process(); });
    int rejected = 0; for (auto& x : out.v) rejected = hse_or (rejected, x > limit);
    const int failed = (kind >> 1) & 1 ? hse_not (rejected) : rejected;
    const int isSaved = hse_file_exists ("./out.wav"), isPlotted = hart_plots() != 0;
    if (wav == 0) hse_check (isSaved, "with mode always the audio is saved");
    else if (wav >= 2) hse_check (! isSaved, "with mode never the audio is not saved");
    else { hse_check (hse_implies (failed, isSaved), "with mode when-fails the audio of a failed run is saved"); hse_check (hse_implies (hse_not (failed), ! isSaved), "with mode when-fails the audio of a passed run is not saved"); }
    if (plot == 0) hse_check (isPlotted, "with mode always the plot is saved");
    else if (plot >= 2) hse_check (! isPlotted, "with mode never the plot is not saved");
    else { hse_check (hse_implies (failed, isPlotted), "with mode when-fails the plot of a failed run is saved"); hse_check (hse_implies (hse_not (failed), ! isPlotted), "with mode when-fails the plot of a passed run is not saved"); }
    hse_check (hse_and (hse_implies (failed, o == (kind & 4 ? testAssert : okay)), hse_implies (hse_not (failed), o == okay)), "saving does not change the verdict");
    if (isSaved)
    {
        const char* f = "./out.wav"; const size_t data = fk ? 44 : 44;
        const size_t size = hse_file_size (f), bytesOfData = frames * n * (size_t) bytes[fk];
        hse_check (size >= bytesOfData + 44, "the whole output is saved");
        hse_check (le (f, 20, 2) == (fk ? 1u : 3u) && le (f, 22, 2) == n && le (f, 24, 4) == (unsigned long) rate && le (f, 34, 2) == (unsigned long) bytes[fk] * 8, "the audio is saved in the requested format, sample rate and channel count");
        size_t at = 12; while (at + 8 <= size && ! (le (f, at, 4) == 0x61746164ul)) at += 8 + le (f, at + 4, 4);
        hse_check (le (f, at + 4, 4) == bytesOfData, "the saved audio has the length of the run");
        if (fk == 0)
            for (size_t i = 0; i < frames; ++i) for (size_t c = 0; c < n; ++c)
            {
                uint32_t u = (uint32_t) le (f, at + 8 + 4 * (i * n + c), 4); float v; __builtin_memcpy (&v, &u, 4);
                hse_check (hse_same_f32 (v, (float) out.at (c, i)), "the saved audio is the output of the run");
            }
        (void) data;
    }
    if (isPlotted) hse_check (hart_plots() == 1 && signalsmith::plot::HsePlotLog::get()[0].path == "./plot.svg", "the plot is saved once, at the requested path");
    hse_obs_u64 ("saved", (uint64_t) (isSaved + 2 * isPlotted)); hse_obs_u64 ("outcome", o);
}
// longer and wider outputs; some samples symbolic
template <typename T> static void large()
{
    static const size_t shapes[3][3] = { { 1, 2500, 512 }, { 100, 20, 7 }, { 2, 1030, 1024 } }; auto& sh = shapes[hse_pick ("shape", 0, 2)]; const size_t n = sh[0], frames = sh[1]; const int fails = (int) hse_pick ("fails", 0, 1);
    Table<T> out (n, frames), in (1, 1); for (size_t i = 0; i < out.v.size(); ++i) out.v[i] = (T) ((double) (i * 37 % 101) / 400 - 0.125);
    const size_t points[3] = { 0, out.v.size() / 2, out.v.size() - 1 }; for (size_t p : points) { out.v[p] = H<T>::sym ("out"); hse_assume (fails ? hse_and (out.v[p] >= 1, out.v[p] <= 2) : hse_and (out.v[p] >= (T) -0.25, out.v[p] <= (T) 0.25)); }
    TableSignal<T> sig (in); TableDsp<T> dsp (&out, nullptr);
    auto b = hart::processAudioWith (dsp); b.withSampleRate (1000).withBlockSize (sh[2]).withDuration ((double) frames / 1000).withInputChannels (1).withOutputChannels (n).withInputSignal (sig);
    b.expectTrue (LimitMatcher<T> (fails != 0, (T) 0.5, "M")).saveOutputTo ("out.wav", hart::Save::whenFails, hart::WavFormat::float32).savePlotTo ("plot.svg", hart::Save::whenFails).process();
    const char* f = "./out.wav"; hse_check (hse_file_exists (f) == (fails != 0), "with mode when-fails the audio of exactly the failed runs is saved"); hse_check (hart_plots() == (size_t) fails, "with mode when-fails the plot of exactly the failed runs is saved");
    if (! fails || ! hse_file_exists (f)) return;
    const size_t size = hse_file_size (f); size_t at = 12; while (at + 8 <= size && ! (le (f, at, 4) == 0x61746164ul)) at += 8 + le (f, at + 4, 4);
    hse_check (le (f, at + 4, 4) == frames * n * 4 && size >= at + 8 + frames * n * 4, "the saved audio has the length of the run");
    if (size < at + 8 + frames * n * 4) return;
    for (size_t i = 0; i < frames; ++i) for (size_t c = 0; c < n; ++c) { uint32_t u = (uint32_t) le (f, at + 8 + 4 * (i * n + c), 4); float v; __builtin_memcpy (&v, &u, 4); hse_check (hse_same_f32 (v, (float) out.at (c, i)), "the saved audio is the output of the run"); }
    H<T>::obs ("first", out.v[0]);
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
