// BOUND: any 32-bit seed; 1..2 (thorough 3) channels; 4 (6) frames in every split into blocks; 450 frames on 2 and 5 channels in blocks of 5, 128 and 450; 10 frames on 100 channels; reset, copy, move and assignment after any number of frames; global seed from --seed with any seed of 0..99 and from none; float and double
// ASSUME: the random generator's sequence is an uninterpreted function of seed and position (the oracle draws from a std::mt19937 of its own); outputs above 0xfffffeff, where the standard library itself clamps, are excluded
#include "signals.hpp"
enum { N = HSE_TIER == 1 ? 4 : 6, CH = HSE_TIER == 1 ? 2 : 3 };
template <typename T> struct Ref
{
    std::mt19937 g; std::uniform_real_distribution<T> d;
    explicit Ref (uint32_t seed) : g (seed), d ((T) -1, (T) 1) {}
    T next() { return d (g); }
};
template <typename T> static void expectSequence (uint32_t seed, const std::vector<T>& got, const char* m, size_t rangeEvery = 1)
{
    Ref<T> r (seed); size_t i = 0;
    for (T x : got)
    {
        hse_check (H<T>::same (x, r.next()), m);
        if (i++ % rangeEvery == 0) hse_check (hse_and (x >= (T) -1, x <= (T) 1), "every sample is between -1 and 1");
    }
}
template <typename T> static void splits()
{
    const uint32_t seed = hse_u32 ("seed"); const size_t ch = hse_pick ("channels", 1, CH), mask = hse_pick ("split", 0, (1u << (N - 1)) - 1);
    hart::WhiteNoise<T> w (seed); std::vector<T> got;
    w.prepareWithDSPChain (hse_pick ("rate", 0, 1) ? 44100 : 8, ch, N);
    if (hse_pick ("hostReset", 0, 1)) w.resetWithDSPChain();
    for (size_t i = 1, start = 0; i <= N; ++i) if (i == N || ((mask >> (i - 1)) & 1)) { renderInto<T> (w, ch, i - start, got, 9); start = i; }
    expectSequence (seed, got, "each frame of each channel takes the next value of the seed's sequence");
    H<T>::obs ("last", got.back());
}
template <typename T> static void lifecycle()
{
    const uint32_t seed = hse_u32 ("seed"); const size_t ch = hse_pick ("channels", 1, 2), k = hse_pick ("played", 0, 2), how = hse_pick ("how", 0, 4), n = 2;
    std::vector<T> whole, got;
    hart::WhiteNoise<T> w (seed), twin (seed);
    twin.prepareWithDSPChain (8, ch, N); renderInto<T> (twin, ch, k + n, whole, 9);
    expectSequence (seed, whole, "noise follows its seed's sequence");
    w.prepareWithDSPChain (8, ch, N); if (k) renderInto<T> (w, ch, k, got, 9);
    got.clear();
    if (how == 0) { w.resetWithDSPChain(); renderInto<T> (w, ch, n, got, 9); expectSequence (seed, got, "a reset restarts the sequence"); }
    else if (how == 1)
    {
        hart::WhiteNoise<T> c (w); std::vector<T> other; renderInto<T> (c, ch, n, got, 9); renderInto<T> (w, ch, n, other, 9);
        sameFrom (whole, got, k * ch, "a copy continues with the values its original would have produced");
        sameFrom (whole, other, k * ch, "playing a copy does not advance its original");
        c.resetWithDSPChain(); got.clear(); renderInto<T> (c, ch, n, got, 9); expectSequence (seed, got, "a reset copy restarts the sequence of the same seed");
    }
    else if (how == 2)
    {
        std::unique_ptr<hart::Signal<T>> c = w.copy(); renderInto<T> (*c, ch, n, got, 9);
        sameFrom (whole, got, k * ch, "copy() continues with the values its original would have produced");
    }
    else if (how == 3)
    {
        std::unique_ptr<hart::Signal<T>> c = w.move(); renderInto<T> (*c, ch, n, got, 9);
        sameFrom (whole, got, k * ch, "a moved signal continues where it was");
    }
    else
    {   // prepared again (another run): keeps its place unless reset, then starts over
        w.prepareWithDSPChain (16, ch, N); w.resetWithDSPChain(); renderInto<T> (w, ch, n, got, 9); expectSequence (seed, got, "the next run repeats the sequence");
    }
}
template <typename T> static void twoSeeds()
{   // two objects do not share a generator
    const uint32_t s1 = hse_u32 ("seed1"), s2 = hse_u32 ("seed2"); hart::WhiteNoise<T> a (s1), b (s2); std::vector<T> x, y;
    a.prepareWithDSPChain (8, 1, N); b.prepareWithDSPChain (8, 1, N);
    for (int i = 0; i < 3; ++i) { renderInto<T> (a, 1, 1, x, 9); renderInto<T> (b, 1, 1, y, 9); }
    expectSequence (s1, x, "two noise signals are independent"); expectSequence (s2, y, "two noise signals are independent");
    hse_check (hse_has (hse_represent (hart::WhiteNoise<T> (17)), "17"), "the text form names the seed");
}
template <typename T> static void globalSeed()
{
    const size_t mode = hse_pick ("mode", 0, 3); uint32_t expected = 0; std::vector<T> got, run;
    if (mode == 1) { const size_t seed = hse_pick ("seed", 0, HSE_TIER == 1 ? 12 : 99); expected = (uint32_t) seed; hse_check (hse_cli ({ "--seed", std::to_string (seed) }) == 0, "--seed is accepted"); }
    if (mode == 2) { expected = 4294967295u; hse_check (hse_cli ({ "-s", "4294967295" }) == 0, "-s is accepted"); }
    if (mode == 3) hse_cli ({});
    hart::WhiteNoise<T> w; w.prepareWithDSPChain (8, 2, N); renderInto<T> (w, 2, 2, got, 9);
    expectSequence (expected, got, "without a seed of its own, noise follows the configured global seed");
    const uint32_t ownSeed = hse_u32 ("own");
    hart::WhiteNoise<T> own (ownSeed); got.clear(); own.prepareWithDSPChain (8, 2, N); renderInto<T> (own, 2, 2, got, 9);
    expectSequence (ownSeed, got, "an explicit seed wins over the global one");
}
template <typename T> static void throughHost()
{   // as input of two runs of the host, with any block size
    const uint32_t seed = hse_u32 ("seed"); const size_t ch = hse_pick ("channels", 1, 2), block = hse_pick ("block", 1, 4);
    Table<T> seen (ch, 3); hart::WhiteNoise<T> w (seed);
    for (int r = 0; r < 2; ++r)
    {
        TableDsp<T> d (nullptr, nullptr, &seen);
        hart::processAudioWith (d).withSampleRate (8).withDuration (0.375).withBlockSize (block).withInputChannels (ch).withOutputChannels (ch).withInputSignal (w).process();
        Ref<T> ref (seed);
        for (size_t f = 0; f < 3; ++f) for (size_t c = 0; c < ch; ++c) hse_check (H<T>::same (seen.at (c, f), ref.next()), "every run feeds the same noise");
    }
}
template <typename T> static void longRun()
{   // past the 624 words of the generator's state
    static const size_t blocks[3] = { 5, 128, 450 }; const size_t wide = hse_pick ("wide", 0, 2), ch = wide == 2 ? 100 : wide ? 5 : 2, block = blocks[hse_pick ("block", 0, wide == 2 ? 1 : 2)], n = wide == 2 ? 10 : 450, at = hse_pick ("at", 0, 1) ? (wide == 2 ? 7 : 400) : (wide == 2 ? 3 : 129);
    const uint32_t seed = hse_u32 ("seed"); hart::WhiteNoise<T> w (seed); std::vector<T> got, more; w.prepareWithDSPChain (44100, ch, block);
    for (size_t i = 0; i < at; i += block) renderInto<T> (w, ch, i + block > at ? at - i : block, got, 9);
    std::unique_ptr<hart::Signal<T>> c = w.copy(); more = got;
    for (size_t i = at; i < n; i += block) { renderInto<T> (w, ch, i + block > n ? n - i : block, got, 9); renderInto<T> (*c, ch, i + block > n ? n - i : block, more, 9); }
    expectSequence (seed, got, "each frame of each channel takes the next value of the seed's sequence", 149); sameFrom (got, more, 0, "a copy continues with the values its original would have produced");
    w.resetWithDSPChain(); got.clear(); renderInto<T> (w, ch, 3, got, 9); expectSequence (seed, got, "a reset restarts the sequence");
    H<T>::obs ("last", more.back());
}
template <typename T> static void run (size_t part)
{
    switch (part) { case 0: splits<T>(); break; case 1: lifecycle<T>(); break; case 2: twoSeeds<T>(); break; case 3: globalSeed<T>(); break; case 4: longRun<T>(); break; default: throughHost<T>(); }
}
extern "C" void hse_main (void) { const size_t part = hse_pick ("part", 0, 5); if (hse_pick ("type", 0, 1)) run<float> (part); else run<double> (part); }
