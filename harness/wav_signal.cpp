// BOUND: new signals and ones played before, then copied or moved; wav files built byte by byte: 32-bit float, 16- and 24-bit PCM, 1..3 channels, 1..4 frames, every sample byte symbolic; also files of up to 300 frames and 64 channels in blocks of up to 1000 (every seventh sample symbolic) and one of 66000 frames in a loop; played once or in a loop for 9 (thorough 14) frames in blocks of 1..5; every file of 16 bytes (all bytes symbolic) and 4 other unreadable files; channel counts 1..4 against the file's; sample rates equal and different (any rate that is 1 mHz or more away from the file's), through the host and directly; float and double
#include "history.hpp"
#include "wav_bytes.hpp"
template <typename T> static void play()
{
    typedef hart::WavFile<T> W;
    const int fmt = (int) hse_pick ("format", 0, 2); const size_t ch = hse_pick ("channels", 1, 3), fr = hse_pick ("frames", 1, 4), block = hse_pick ("block", 1, 5); const bool loop = hse_pick ("loop", 0, 1); const size_t N = HSE_TIER == 1 ? 9 : 14;
    const unsigned bits = fmt == 0 ? 32 : fmt == 1 ? 16 : 24;
    WavBytes w ((unsigned) ch, 48000, bits, fmt == 0, (uint32_t) (ch * fr * bits / 8)); std::vector<float> v;
    for (size_t i = 0; i < ch * fr; ++i)
    {
        if (fmt == 0) { union { float f; uint32_t u; } x; x.f = hse_f32 ("sample"); w.u32 (x.u); v.push_back (x.f); }
        else if (fmt == 1) { const unsigned lo = hse_u8 ("lo"), hi = hse_u8 ("hi"); w.u8 (lo); w.u8 (hi); v.push_back ((float) (int16_t) (lo | hi << 8) * (1.0f / 32768.0f)); }
        else { const unsigned a = hse_u8 ("a"), b = hse_u8 ("b"), c = hse_u8 ("c"); w.u8 (a); w.u8 (b); w.u8 (c); v.push_back ((float) ((double) ((int32_t) (a << 8 | b << 16 | c << 24) >> 8) * (1.0 / 8388608.0))); }
    }
    w.save ("in.wav");
    const W made ("in.wav", loop ? W::Loop::yes : W::Loop::no);
    hse_file_write ("in.wav", "", 0, 1);   // the file is read when the signal is made
    const size_t past = hse_pick ("past", 0, PASTS - 1); std::unique_ptr<hart::Signal<T>> sp = withPast<T> (made, past, 48000, ch, 2 * block - 1); hart::Signal<T>& s = *sp; startRun<T> (s, past, 48000, ch, block);
    size_t n = 0;
    while (n < N)
    {
        const size_t k = N - n < block ? N - n : block; hart::AudioBuffer<T> b (ch, k); for (size_t c = 0; c < ch; ++c) for (size_t i = 0; i < k; ++i) b[c][i] = (T) 5;
        s.renderNextBlock (b);
        for (size_t i = 0; i < k; ++i, ++n) for (size_t c = 0; c < ch; ++c)
        {
            if (! loop && n >= fr) hse_check (b[c][i] == (T) 0, "silence follows the file when it is not looped");
            else { const T want = (T) v[n % fr * ch + c]; if (fmt == 0) hse_check (hse_same_f64 ((double) b[c][i], (double) want), "float samples are replayed exactly, on their channel and frame"); else hse_check (hse_near (b[c][i], want, (T) 1e-9), "PCM samples are replayed exactly, on their channel and frame"); }
        }
    }
    H<T>::obs ("v", (T) v[0]);
}
// longer files, more channels, longer blocks; every seventh sample symbolic
template <typename T> static void large()
{
    typedef hart::WavFile<T> W; static const size_t shapes[4][4] = { { 1, 300, 128, 700 }, { 64, 9, 4, 22 }, { 2, 129, 1000, 400 }, { 1, 66000, 6000, 66050 } };
    const size_t shape = hse_pick ("shape", 0, sizeof (T) == 4 ? 3 : 2); auto& sh = shapes[shape]; const size_t ch = sh[0], fr = sh[1], block = sh[2], N = sh[3], at = shape < 3 && hse_pick ("at", 0, 1) ? fr + 3 : 0; const bool loop = shape == 3 || hse_pick ("loop", 0, 1), pcm = shape < 3 && hse_pick ("pcm", 0, 1);
    WavBytes w ((unsigned) ch, 48000, pcm ? 16 : 32, ! pcm, (uint32_t) (ch * fr * (pcm ? 2 : 4))); std::vector<float> v;
    for (size_t i = 0; i < ch * fr; ++i)
    {
        if (pcm) { const unsigned lo = i % 7 ? (unsigned) (i * 37 & 255) : (unsigned) hse_u8 ("lo"), hi = i % 7 ? (unsigned) (i * 91 & 255) : (unsigned) hse_u8 ("hi"); w.u8 (lo); w.u8 (hi); v.push_back ((float) (int16_t) (lo | hi << 8) * (1.0f / 32768.0f)); }
        else { union { float f; uint32_t u; } x; if (i % 7 || (i > 400 && i + 100 < fr)) x.f = (float) i * 0.125f - 3; else x.f = hse_f32 ("sample"); w.u32 (x.u); v.push_back (x.f); }
    }
    w.save ("in.wav");
    W s ("in.wav", loop ? W::Loop::yes : W::Loop::no); s.prepareWithDSPChain (48000, ch, block);
    if (at) { for (size_t i = 0; i < at; i += block) { hart::AudioBuffer<T> b (ch, at - i < block ? at - i : block); s.renderNextBlock (b); } if (at & 1) s.resetWithDSPChain(); }
    size_t n = at & 1 ? 0 : at; const size_t end = n + N;
    while (n < end)
    {
        const size_t k = end - n < block ? end - n : block; hart::AudioBuffer<T> b (ch, k); for (size_t c = 0; c < ch; ++c) for (size_t i = 0; i < k; ++i) b[c][i] = (T) 5;
        s.renderNextBlock (b);
        for (size_t i = 0; i < k; ++i, ++n) for (size_t c = 0; c < ch; ++c)
        {
            if (n > 1000 && n + 600 < fr) { if (! (b[c][i] == (T) v[n])) hse_check (0, "float samples are replayed exactly, on their channel and frame"); continue; }
            if (! loop && n >= fr) hse_check (b[c][i] == (T) 0, "silence follows the file when it is not looped");
            else { const T want = (T) v[n % fr * ch + c]; if (! pcm) hse_check (hse_same_f64 ((double) b[c][i], (double) want), "float samples are replayed exactly, on their channel and frame"); else hse_check (hse_near (b[c][i], want, (T) 1e-9), "PCM samples are replayed exactly, on their channel and frame"); }
        }
    }
    H<T>::obs ("v", (T) v[0]);
}
template <typename T> static void refuse()
{
    typedef hart::WavFile<T> W;
    const int what = (int) hse_pick ("file", 0, 5);
    if (what == 0) hse_check (outcomeOf ([&] { W s ("not-there.wav"); (void) s; }) == ioError, "a missing file is refused with an I/O error");
    else if (what < 4)
    {
        WavBytes w (1, 8, 32, true, 8); w.u32 (0); w.u32 (0);
        if (what == 1) w.b.clear(); else if (what == 2) w.b.resize (20); else w.b[0] = w.b[1] = 'x';
        w.save ("bad.wav"); hse_check (outcomeOf ([&] { W s ("bad.wav"); (void) s; }) == ioError, "an unreadable file is refused with an I/O error");
    }
    else
    {
        WavBytes w (1, 8, 32, true, 8); w.b.clear(); for (int i = 0; i < (what == 4 ? 16 : 7); ++i) w.u8 (hse_u8 ("byte"));
        w.save ("bad.wav"); hse_check (outcomeOf ([&] { W s ("bad.wav"); (void) s; }) == ioError, "an unreadable file is refused with an I/O error");
    }
}
template <typename T> static void mismatch()
{
    typedef hart::WavFile<T> W;
    const size_t ch = hse_pick ("fileChannels", 1, 3), use = hse_pick ("channels", 1, 4); const double rates[5] = { 44100, 48000, 44101, 22050, 0 }; double rate = rates[hse_pick ("rate", 0, 4)]; const bool any = rate == 0, host = any ? false : hse_pick ("host", 0, 1);
    if (any) { rate = hse_f64 ("anyRate"); hse_assume (rate > 0); hse_assume (rate < 1e9); hse_assume (hse_or (rate <= 44099.999, rate >= 44100.001)); }
    WavBytes w ((unsigned) ch, 44100, 32, true, (uint32_t) (8 * ch)); for (size_t i = 0; i < 2 * ch; ++i) w.u32 (0x3f000000); w.save ("in.wav");
    W s ("in.wav"); if (use < ch) return;   // fewer channels than the file: unspecified (refused at present)
    Log l; Table<T> t (use, 2); Outcome o;
    if (host) o = outcomeOf ([&] { hart::processAudioWith (TableDsp<T> (&t, &l)).withSampleRate (rate).withBlockSize (2).withDuration (2 / rate).withInputChannels (use).withOutputChannels (use).withInputSignal (s).process(); });
    else o = outcomeOf ([&] { s.prepareWithDSPChain (rate, use, 2); });
    if (use > ch) hse_check (o == channelLayoutError, "a channel count above the file's is refused with a channel layout error");
    else if (any || rate != 44100) hse_check (o != okay, "a sample rate different from the file's is refused");
    else hse_check (o == okay, "matching settings are accepted");
    if (o != okay) hse_check (l.count (Event::process) == 0, "no audio is processed after a refusal");
}
template <typename T> static void run() { const int k = (int) hse_pick ("what", 0, 3); if (k == 3) large<T>(); else if (k == 0) play<T>(); else if (k == 1) refuse<T>(); else mismatch<T>(); }
extern "C" void hse_main (void) { if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
