// Objects with a past: used in an earlier run at other settings, then copied or moved.
#pragma once
#include "probes.hpp"
enum { PASTS = 4 };
template <typename T> std::unique_ptr<hart::Signal<T>> withPast (const hart::Signal<T>& s, size_t past, double rate, size_t ch, size_t frames)
{
    std::unique_ptr<hart::Signal<T>> p = s.copy();
    if (past == 0) return p;
    p->resetWithDSPChain(); p->prepareWithDSPChain (rate, ch, 4);
    while (frames) { const size_t k = frames < 4 ? frames : 4; hart::AudioBuffer<T> b (ch, k); p->renderNextBlockWithDSPChain (b); frames -= k; }
    if (past == 2) p = p->copy();
    if (past == 3) { std::unique_ptr<hart::Signal<T>> m = p->move(); p = std::move (m); }
    return p;
}
// what a host does before a run; either order
template <typename T> void startRun (hart::Signal<T>& s, size_t past, double rate, size_t ch, size_t block)
{
    if (past & 1) { s.resetWithDSPChain(); s.prepareWithDSPChain (rate, ch, block); }
    else { s.prepareWithDSPChain (rate, ch, block); s.resetWithDSPChain(); }
}
