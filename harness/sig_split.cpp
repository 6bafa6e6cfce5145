// BOUND: silence, sines, sweeps (linear / log / fixed frequency, looped or not, too short), noise, wav file (looped or not), sine with chained gain and clipper or with chained effects that keep state; 7 (thorough 9) frames at 8 Hz (the shortest sweep, 0.1 ms, at 44100 Hz); every split into blocks; 1..2 (3) channels; also 20 frames on 64 channels, 400 frames on 1 and 6 channels in blocks of 1, 7, 64 and 400 (phases fixed); symbolic phase in 4 windows of 1/16 rad, seed and wav samples; float and double
// ASSUME: sin/fmod/remainder/pow and the random generator uninterpreted (equal arguments give equal values); generator outputs above 0xfffffeff (where the standard library itself clamps) are excluded
#include "signals.hpp"
enum { N = HSE_TIER == 1 ? 7 : 9, CH = HSE_TIER == 1 ? 2 : 3 };
template <typename T> static void run (size_t kind)
{
    const size_t mask = hse_pick ("split", 0, (1u << (N - 1)) - 1), ch = 1 + (mask + kind) % CH;
    const SigParams p = symParams (kind, ch);
    std::vector<T> ref, got;
    std::unique_ptr<hart::Signal<T>> a = makeSignal<T> (kind, p), b = makeSignal<T> (kind, p);
    a->prepareWithDSPChain (rateOf (kind), ch, N); b->prepareWithDSPChain (rateOf (kind), ch, N);
    renderInto<T> (*a, ch, N, ref, 17);
    size_t start = 0;
    for (size_t i = 1; i <= N; ++i) if (i == N || ((mask >> (i - 1)) & 1)) { renderInto<T> (*b, ch, i - start, got, -23); start = i; }
    sameFrom (ref, got, 0, "any split into blocks gives the same samples, and every frame of every channel is written");
    H<T>::obs ("last", ref[N * ch - 1]); H<T>::obs ("mid", got[N * ch / 2]);
}
// long runs: 400 frames on up to 6 channels; phases fixed, seed and wav samples symbolic
template <typename T> static void large (size_t kind)
{
    const size_t wide = hse_pick ("wide", 0, 2), M = wide == 2 ? 20 : 400, ch = wide == 2 ? 64 : wide ? 6 : 1; const size_t blocks[4] = { 1, 7, 64, M }; const size_t block = blocks[hse_pick ("block", 0, wide == 2 ? 1 : 3)];
    const SigParams p = symParams (kind, ch, true); std::vector<T> ref, got;
    std::unique_ptr<hart::Signal<T>> a = makeSignal<T> (kind, p), b = makeSignal<T> (kind, p);
    a->prepareWithDSPChain (rateOf (kind), ch, M); b->prepareWithDSPChain (rateOf (kind), ch, M);
    renderInto<T> (*a, ch, M, ref, 17);
    for (size_t i = 0; i < M; i += block) renderInto<T> (*b, ch, i + block > M ? M - i : block, got, -23);
    sameFrom (ref, got, 0, "any split into blocks gives the same samples, and every frame of every channel is written");
    H<T>::obs ("last", ref[M * ch - 1]);
}
extern "C" void hse_main (void) { const size_t kind = hse_pick ("signal", 0, KINDS - 1); if (hse_pick ("long", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float> (kind); else large<double> (kind); return; } if (hse_pick ("type", 0, 1)) run<float> (kind); else run<double> (kind); }
