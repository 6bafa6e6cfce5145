// BOUND: all four formats, 1..2 (thorough 3) channels x 1..2 (thorough 3) frames, every sample symbolic over all floats (doubles) including infinities and NaN, also files of up to 66000 frames or 256 channels with three symbolic samples (within 0.25..0.5 in integer formats); sample rates 8 / 8000 / 44100 / 192000 Hz; float and double; impossible paths in a folder that does not exist
// ASSUME: files live in an in-memory file system (replays: real files in a scratch directory); whole-numbered sample rates up to 384 kHz (the bundled wav reader refuses files above)
#include "probes.hpp"
extern "C" void hse_file_deny (const char* prefix);
#if HSE_TIER == 1
enum { MAXC = 2, MAXF = 2 };
#else
enum { MAXC = 3, MAXF = 3 };
#endif
static const hart::WavFormat formats[4] = { hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 };
static const double steps[4] = { 1.0 / 32767, 1.0 / 8388607, 1.0 / 8388607, 0 };   // 32-bit samples are read through float: 24 bits
template <typename T> static void run()
{
    const int k = (int) hse_pick ("format", 0, 3); const size_t n = hse_pick ("channels", 1, MAXC), frames = hse_pick ("frames", 1, MAXF);
    const double rates[4] = { 8, 384000, 44100, 192000 }, rate = rates[(k + n + 2 * frames) % 4];
    Table<T> t (n, frames); t.fill ("x");
    hart::AudioBuffer<T> b (n, frames); for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f) b[c][f] = t.at (c, f);
    if (hse_pick ("impossible", 0, 1))
    {
        hse_file_deny ("/no-such-folder-hse");
        const Outcome o = outcomeOf ([&] { hart::WavWriter<T>::writeBuffer (b, "/no-such-folder-hse/deeper/out.wav", rate, formats[k]); });
        hse_check (o == ioError, "writing to an impossible path is refused with an I/O error");
        const Outcome r = outcomeOf ([&] { hart::WavFile<T> w ("/no-such-folder-hse/deeper/out.wav"); });
        hse_check (r == ioError, "reading an impossible path is refused with an I/O error");
        return;
    }
    const Outcome o = outcomeOf ([&] { hart::WavWriter<T>::writeBuffer (b, "out.wav", rate, formats[k]); });
    hse_check (o == okay, "writing succeeds whatever the samples are");
    if (o != okay) return;
    hart::WavFile<T> w ("out.wav");
    hse_check (outcomeOf ([&] { w.prepareWithDSPChain (rate, n, 4); }) == okay, "the file has the sample rate and channel count that were written");
    hse_check (outcomeOf ([&] { w.prepareWithDSPChain (rate * 2, n, 4); }) != okay, "the file has no other sample rate");
    hse_check (outcomeOf ([&] { w.prepareWithDSPChain (rate, n + 1, 4); }) != okay, "the file has no other channel count");
    w.reset();
    hart::AudioBuffer<T> got (n, frames + 1); for (size_t c = 0; c < n; ++c) for (size_t f = 0; f <= frames; ++f) got[c][f] = (T) 7;
    w.renderNextBlock (got);
    for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f)
    {
        const T x = t.at (c, f), y = got[c][f];
        if (k == 3) hse_check (hse_same_f32 ((float) y, (float) x), "32-bit float files hold the samples exactly");
        else
        {
            const int nan = x != x;
            hse_check (hse_and (y >= (T) -1.0001, y <= (T) 1.0001), "integer files hold values between -1 and 1");
            hse_check (hse_implies (x >= (T) 1, hse_near (y, (T) 1, (T) (steps[k] * 1.51))), "samples above full scale are clipped to it");
            hse_check (hse_implies (x <= (T) -1, hse_near (y, (T) -1, (T) (steps[k] * 1.51))), "samples below negative full scale are clipped to it");
            const T d = y - x, tol = (T) (steps[k] * 1.51);
            hse_check (hse_or (nan, hse_or (hse_or (x > (T) 1, x < (T) -1), hse_and (d <= tol, -d <= tol))), "samples read back within a step and a half");
        }
    }
    for (size_t c = 0; c < n; ++c) hse_check (got[c][frames] == 0, "the file has exactly the frames that were written");
    H<T>::obs ("first", got[0][0]);
}
// longer and wider files; three symbolic samples
template <typename T> static void large()
{
    static const size_t shapes[5][2] = { { 1, 5000 }, { 16, 40 }, { 2, 1025 }, { 256, 3 }, { 1, 66000 } }; const size_t shape = hse_pick ("shape", 0, sizeof (T) == 4 ? 4 : 3); auto& sh = shapes[shape]; const size_t n = sh[0], frames = sh[1]; const int k = (int) hse_pick ("format", 0, 3);
    Table<T> t (n, frames); for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = (T) ((double) (i * 37 % 101) / 50 - 1); const size_t points[3] = { 0, t.v.size() / 2, t.v.size() - 1 };
    for (size_t p : points) { const T x = H<T>::sym ("x"); if (k != 3) hse_assume (hse_and (x >= (T) 0.25, x <= (T) 0.5)); t.v[p] = x; }
    hart::AudioBuffer<T> b (n, frames); for (size_t c = 0; c < n; ++c) for (size_t f = 0; f < frames; ++f) b[c][f] = t.at (c, f);
    hart::WavWriter<T>::writeBuffer (b, "out.wav", 48000, formats[k]); hart::WavFile<T> w ("out.wav"); w.prepareWithDSPChain (48000, n, frames + 1); w.reset();
    hart::AudioBuffer<T> got (n, frames + 1); for (size_t c = 0; c < n; ++c) got[c][frames] = (T) 7; w.renderNextBlock (got); const T tol = (T) (steps[k] * 1.51);
    for (size_t c = 0; c < n; ++c)
    {
        for (size_t f = 0; f < frames; ++f) { const T x = t.at (c, f), y = got[c][f]; if (shape == 4 && f > 600 && f != frames / 2 && f + 600 < frames) continue; if (k == 3) hse_check (hse_same_f32 ((float) y, (float) x), "32-bit float files hold the samples exactly"); else hse_check (hse_near (y, x, tol), "samples read back within a step and a half"); }
        hse_check (got[c][frames] == 0, "the file has exactly the frames that were written");
    }
    H<T>::obs ("first", got[0][0]);
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
