// BOUND: buffers of 0..2 (thorough 3) channels x 0..3 (thorough 5) frames, every non-NaN sample symbolic; channel, start and length over all 64-bit values; also four large shapes (up to 128 channels, up to 700 frames) with one symbolic peak; float and double
// ASSUME: no NaN in the buffer (the property does not say what the peak of a NaN is)
#include "probes.hpp"
#if HSE_TIER == 1
enum { MAXC = 2, MAXF = 3 };
#else
enum { MAXC = 3, MAXF = 5 };
#endif
template <typename T> static void run()
{
    const size_t ch = hse_pick ("channels", 0, MAXC), fr = hse_pick ("frames", 0, MAXF); const bool all = hse_pick ("all", 0, 1);
    hart::AudioBuffer<T> b (ch, fr);
    for (size_t c = 0; c < ch; ++c) for (size_t f = 0; f < fr; ++f) { b[c][f] = H<T>::sym ("x"); hse_assume (b[c][f] == b[c][f]); }
    const uint64_t start = hse_u64 ("start", 0, UINT64_MAX), len = hse_u64 ("length", 0, UINT64_MAX), chan = all ? 0 : hse_u64 ("channel", 0, UINT64_MAX);
    const int inside = hse_and (hse_and (len >= 1, len <= fr), hse_and (start <= fr, start <= fr - len));
    const int legal = hse_and (inside, all ? 1 : chan < ch);
    T got = (T) -1; 
    const Outcome o = outcomeOf ([&] { got = all ? b.getMagnitude ((size_t) start, (size_t) len) : b.getMagnitude ((size_t) chan, (size_t) start, (size_t) len); });
    hse_check (hse_implies (hse_not (legal), o == indexError), "a range or channel outside the buffer is refused with an index error");
    hse_check (hse_implies (legal, o == okay), "a range inside the buffer is accepted");
    hse_obs_u64 ("outcome", o);
    if (o != okay) return;
    const size_t s = hse_concretize (start), n = hse_concretize (len), k = hse_concretize (chan);
    T want = 0;
    for (size_t c = all ? 0 : k; c < (all ? ch : k + 1); ++c) for (size_t f = s; f < s + n; ++f) { const T a = std::abs (b[c][f]); want = H<T>::ite (a > want, a, want); }
    hse_check (got == want, "the magnitude is the largest absolute sample value of the range");
    H<T>::obs ("peak", got);
}
// long and wide buffers: a symbolic peak at a set position among fixed samples
template <typename T> static void large()
{
    static const size_t shape[4][2] = { { 1, 700 }, { 16, 20 }, { 128, 3 }, { 5, 257 } }, at[4] = { 0, 15, 255, 299 };
    auto& sh = shape[hse_pick ("shape", 0, 3)]; const size_t ch = sh[0], fr = sh[1], c0 = (ch - 1) * hse_pick ("last", 0, 1);
    hart::AudioBuffer<T> b (ch, fr); const size_t p = at[hse_pick ("at", 0, 3)] % fr;
    for (size_t c = 0; c < ch; ++c) for (size_t f = 0; f < fr; ++f) b[c][f] = (T) (((double) ((c * 31 + f * 17) % 64) + 0.1) / 64 - 0.5);
    const T v = H<T>::sym ("v"), tiny = (T) 0.001; const int how = (int) hse_pick ("how", 0, 4); T x = -tiny, y = tiny;
    // which one is the peak is fixed per path, its value is not
    switch (how)
    {
        case 0: hse_assume (v >= 1); x = v; break;
        case 1: hse_assume (v <= -1); x = v; break;
        case 2: hse_assume (v >= 1); y = v; break;
        case 3: hse_assume (v <= -1); y = v; break;
        default: break;
    }
    b[c0][p] = x; if (p != fr - 1) b[c0][fr - 1] = y;
    for (int q = 0; q < 3; ++q)
    {
        const size_t s = q == 2 ? (p ? p - 1 : 0) : 0, n = q == 1 ? p + 1 : fr - s;
        T wantC = 0, wantA = 0;
        for (size_t c = 0; c < ch; ++c) for (size_t f = s; f < s + n; ++f) { const T a = std::abs (b[c][f]); if (c == c0 && a > wantC) wantC = a; if (a > wantA) wantA = a; }
        hse_check (b.getMagnitude (c0, s, n) == wantC, "the magnitude of a range of one channel of a large buffer is its largest absolute sample value");
        hse_check (b.getMagnitude (s, n) == wantA, "the magnitude of a range of a large buffer is its largest absolute sample value");
    }
}
extern "C" void hse_main (void) { if (hse_pick ("large", 0, 1)) { if (hse_pick ("type", 0, 1)) large<float>(); else large<double>(); return; } if (hse_pick ("type", 0, 1)) run<float>(); else run<double>(); }
