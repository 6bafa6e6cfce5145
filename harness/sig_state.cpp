// BOUND: the signals of sig_split; 8 (thorough 11) frames at 8 Hz (the shortest sweep, 0.1 ms, at 44100 Hz); reset, copy or move after every prefix (rendered in blocks of 1 or 3 frames or at once), then interleaved rendering and a reset of one side; also 20 frames on 64 channels, 400 frames on 1 and 6 channels, continued after 1, 65, 301 and 400 frames (phases fixed); symbolic phase in 4 windows of 1/16 rad, seed and wav samples; float and double
// ASSUME: sin/fmod/remainder/pow and the random generator uninterpreted (equal arguments give equal values); generator outputs above 0xfffffeff (where the standard library itself clamps) are excluded
#include "signals.hpp"
enum { N = HSE_TIER == 1 ? 8 : 11 };
template <typename T> static void advance (hart::Signal<T>& s, size_t ch, size_t n, size_t step, std::vector<T>& to) { while (n) { const size_t k = step < n ? step : n; renderInto<T> (s, ch, k, to, -23); n -= k; } }
template <typename T> static void run (size_t kind)
{
    const size_t at = hse_pick ("at", 0, N), what = hse_pick ("what", 0, 2), step = at % 3 == 0 ? 1 : at % 3 == 1 ? 3 : N, ch = 1 + (at + kind + what) % 2;
    const SigParams p = symParams (kind, ch);
    std::vector<T> ref, got;
    std::unique_ptr<hart::Signal<T>> r = makeSignal<T> (kind, p), a = makeSignal<T> (kind, p);
    r->prepareWithDSPChain (rateOf (kind), ch, N); a->prepareWithDSPChain (rateOf (kind), ch, N);
    renderInto<T> (*r, ch, N, ref, 17);
    if (what == 0)
    {
        advance<T> (*a, ch, at, step, got); got.clear();
        a->resetWithDSPChain(); if (at & 1) a->prepareWithDSPChain (rateOf (kind), ch, N);
        advance<T> (*a, ch, N, 1 + at % 4, got);
        sameFrom (ref, got, 0, "after a reset at any point a signal renders what it rendered when new");
    }
    else if (what == 1)
    {
        const size_t a0 = at < N ? at : 0;
        advance<T> (*a, ch, a0, step, got); got.clear();
        std::unique_ptr<hart::Signal<T>> c = a->copy(); std::vector<T> g2;
        for (size_t i = a0; i < N; ++i) { if (i & 1) advance<T> (*a, ch, 1, 1, got); advance<T> (*c, ch, 1, 1, g2); if (! (i & 1)) advance<T> (*a, ch, 1, 1, got); }
        sameFrom (ref, got, a0 * ch, "the original is not affected by rendering its copy"); sameFrom (ref, g2, a0 * ch, "a copy renders what the original renders from there on");
        c->resetWithDSPChain(); g2.clear(); advance<T> (*c, ch, 3, 3, g2); sameFrom (ref, g2, 0, "a reset copy starts over");
        // a copy of a copy, taken mid-way, while the original is reset
        std::unique_ptr<hart::Signal<T>> cc = c->copy(); c.reset(); a->resetWithDSPChain(); got.clear(); advance<T> (*a, ch, 2, 1, got); sameFrom (ref, got, 0, "resetting the original after its copy was rendered");
        g2.clear(); advance<T> (*cc, ch, N - 3, N, g2); sameFrom (ref, g2, 3 * ch, "resetting the original does not affect a copy");
    }
    else
    {
        const size_t a0 = at < N ? at : 0;
        advance<T> (*a, ch, a0, step, got); got.clear();
        std::unique_ptr<hart::Signal<T>> m = a->move(); a.reset();
        advance<T> (*m, ch, N - a0, 2, got); sameFrom (ref, got, a0 * ch, "a moved signal continues like the original");
        m->resetWithDSPChain(); got.clear(); advance<T> (*m, ch, N, N, got); sameFrom (ref, got, 0, "a moved signal starts over after a reset");
    }
    H<T>::obs ("last", ref[N * ch - 1]); H<T>::obs ("got", got[0]);
}
// long runs: 400 frames on up to 6 channels; phases fixed, seed and wav samples symbolic
template <typename T> static void large (size_t kind)
{
    const size_t wide = hse_pick ("wide", 0, 2), M = wide == 2 ? 20 : 400; const size_t blocks[2] = { 7, M }; const size_t points[4] = { 1, wide == 2 ? 9u : 65u, wide == 2 ? 16u : 301u, M }; const int what = (int) hse_pick ("what", 0, 2); const size_t at = points[hse_pick ("at", 0, 3)], ch = wide == 2 ? 64 : wide ? 6 : 1, block = blocks[hse_pick ("block", 0, 1)];
    const SigParams p = symParams (kind, ch, true); std::vector<T> ref, got;
    std::unique_ptr<hart::Signal<T>> a = makeSignal<T> (kind, p), b = makeSignal<T> (kind, p);
    a->prepareWithDSPChain (rateOf (kind), ch, M); b->prepareWithDSPChain (rateOf (kind), ch, M);
    renderInto<T> (*b, ch, M, ref, 17); advance<T> (*a, ch, at, block, got); sameFrom (ref, got, 0, "two equal signals render the same"); got.clear();
    if (what == 0) { a->resetWithDSPChain(); advance<T> (*a, ch, M, block, got); sameFrom (ref, got, 0, "after a reset at any point a signal renders what it rendered when new"); }
    else if (what == 1)
    {
        std::unique_ptr<hart::Signal<T>> c = a->copy(); std::vector<T> g2; advance<T> (*c, ch, M - at, block, g2); sameFrom (ref, g2, at * ch, "a copy renders what the original renders from there on");
        advance<T> (*a, ch, M - at, block, got); sameFrom (ref, got, at * ch, "the original is not affected by rendering its copy");
    }
    else { std::unique_ptr<hart::Signal<T>> m = a->move(); a.reset(); advance<T> (*m, ch, M - at, block, got); sameFrom (ref, got, at * ch, "a moved signal continues like the original"); }
    H<T>::obs ("last", ref[M * ch - 1]);
}
extern "C" void hse_main (void) { const size_t kind = hse_pick ("signal", 0, KINDS - 1); if (hse_pick ("long", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float> (kind); else large<double> (kind); return; } if (hse_pick ("type", 0, 1)) run<float> (kind); else run<double> (kind); }
