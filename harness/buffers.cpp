// BOUND: every sequence of 3 (thorough 4) operations out of 12 on two buffers of shapes (channels x frames) 2x2, 1x1, 2x0, 0x2 (thorough also 3x3) with an equal or a different channel count, every sample symbolic, against a plain two-dimensional array; also six large shapes (up to 128 channels, up to 1800 frames, up to 30 appends); float and double
#include "probes.hpp"
#if HSE_TIER == 1
enum { OPS = 3, MAXD = 2 };
#else
enum { OPS = 4, MAXD = 3 };
#endif
template <typename T> struct Model { size_t ch, fr; std::vector<std::vector<T>> v; Model (size_t c = 0, size_t f = 0) : ch (c), fr (f), v (c, std::vector<T> (f)) {} };
template <typename T> static void same (const hart::AudioBuffer<T>& b, const Model<T>& m)
{
    hse_check (b.getNumChannels() == m.ch, "the channel count is that of a plain array");
    hse_check (b.getNumFrames() == m.fr, "the frame count is that of a plain array");
    for (size_t c = 0; c < m.ch && c < b.getNumChannels(); ++c)
    {
        for (size_t f = 0; f < m.fr && f < b.getNumFrames(); ++f)
        {
            hse_check (H<T>::same (b[c][f], m.v[c][f]), "every sample is that of a plain array");
            hse_check (b.getArrayOfReadPointers()[c] + f == &b[c][f], "the read pointers lead to the same samples");
        }
    }
}
template <typename T> static Outcome assign (std::unique_ptr<hart::AudioBuffer<T>>& a, const hart::AudioBuffer<T>& b) { return outcomeOf ([&] { *a = b; }); }
template <typename T> static void run (size_t shape, bool equal)
{
    typedef hart::AudioBuffer<T> B;
    const size_t c0 = shape == 0 ? 2 : shape == 1 ? 1 : shape == 2 ? 2 : shape == 3 ? 0 : MAXD, f0 = shape == 0 ? 2 : shape == 1 ? 1 : shape == 2 ? 0 : shape == 3 ? 2 : MAXD, c1 = equal ? c0 : (c0 + 1) % 3, f1 = (c0 + f0) % 3;
    std::unique_ptr<B> b[2] = { std::unique_ptr<B> (new B (c0, f0)), std::unique_ptr<B> (new B (c1, f1)) };
    Model<T> m[2] = { Model<T> (c0, f0), Model<T> (c1, f1) };
    same (*b[0], m[0]); same (*b[1], m[1]);
    for (int i = 0; i < 2; ++i) for (size_t c = 0; c < m[i].ch; ++c) for (size_t f = 0; f < m[i].fr; ++f) (*b[i])[c][f] = m[i].v[c][f] = H<T>::sym ("x");
    for (int step = 0; step < OPS; ++step)
    {
        const int op = (int) hse_pick ("op", 0, 11);
        const int x = op & 1, y = 1 - x;
        const bool match = m[x].ch == m[y].ch; Outcome o = okay;
        switch (op >> 1)
        {
            case 0: o = outcomeOf ([&] { *b[x] = *b[y]; }); if (match) m[x] = m[y]; break;
            case 1: o = outcomeOf ([&] { *b[x] = std::move (*b[y]); }); if (match) { m[x] = m[y]; m[y] = Model<T> (m[y].ch, 0); } break;
            case 2: o = outcomeOf ([&] { b[x]->appendFrom (*b[y]); }); if (match) { for (size_t c = 0; c < m[x].ch; ++c) m[x].v[c].insert (m[x].v[c].end(), m[y].v[c].begin(), m[y].v[c].end()); m[x].fr += m[y].fr; } break;
            case 3:
                if (x) b[0]->clear(), m[0] = Model<T> (m[0].ch, 0);
                else { B& self = *b[1]; *b[1] = self; b[1]->appendFrom (self); for (auto& r : m[1].v) { auto r2 = r; r.insert (r.end(), r2.begin(), r2.end()); } m[1].fr *= 2; }
                break;
            case 4:
            {   // copy- and move-construct
                if (x) { std::unique_ptr<B> n (new B (*b[0])); same (*b[0], m[0]); if (m[0].ch && m[0].fr) { const T v = H<T>::sym ("w"); (*b[0])[0][0] = v; same (*n, m[0]); } b[1] = std::move (n); m[1] = m[0]; if (m[0].ch && m[0].fr) m[0].v[0][0] = (*b[0])[0][0]; }
                else { std::unique_ptr<B> n (new B (std::move (*b[0]))); const Model<T> old = m[0]; m[0] = Model<T> (m[0].ch, 0); same (*b[0], m[0]); b[1] = std::move (n); m[1] = old; }
                break;
            }
            default:
                if (x) { B& self = *b[0]; *b[0] = std::move (self); if (m[0].ch && m[0].fr) { const T v = H<T>::sym ("w"); b[0]->getArrayOfWritePointers()[m[0].ch - 1][m[0].fr - 1] = v; m[0].v[m[0].ch - 1][m[0].fr - 1] = v; } }
                else { b[0].reset (new B (B::emptyLike (*b[1]))); m[0] = Model<T> (m[1].ch, m[1].fr); }
                break;
        }
        if (op < 6) hse_check (o == (match ? okay : channelLayoutError), "assigning or appending is refused with a channel layout error if and only if the channel counts differ");
        else hse_check (o == okay, "all other operations are accepted");
        same (*b[0], m[0]); same (*b[1], m[1]);
    }
    hse_obs_u64 ("shape", m[0].ch + 10 * m[0].fr + 100 * m[1].fr);
    if (m[0].ch && m[0].fr) H<T>::obs ("x", (*b[0])[0][0]);
}
// wide and long buffers, appended to many times
template <typename T> static void large (size_t ch, size_t fr, size_t times)
{
    typedef hart::AudioBuffer<T> B;
    B b (ch, fr), all (ch); Model<T> m (ch, fr), ma (ch, 0);
    same (b, m);
    for (size_t c = 0; c < ch; ++c) for (size_t f = 0; f < fr; ++f) b[c][f] = m.v[c][f] = H<T>::sym ("x");
    for (size_t i = 0; i < times; ++i)
    {
        if (fr) { m.v[i % ch][i % fr] = (T) i; b[i % ch][i % fr] = (T) i; }
        all.appendFrom (b);
        for (size_t c = 0; c < ch; ++c) ma.v[c].insert (ma.v[c].end(), m.v[c].begin(), m.v[c].end());
        ma.fr += fr;
    }
    same (b, m); same (all, ma);
    B copy (all), assigned (ch, 3); assigned = all; same (copy, ma); same (assigned, ma); same (B::emptyLike (all), Model<T> (ch, ma.fr));
    B moved (std::move (copy)); same (moved, ma); same (copy, Model<T> (ch, 0));
    assigned = std::move (all); same (assigned, ma); same (all, Model<T> (ch, 0));
    all.appendFrom (b); same (all, m); copy.appendFrom (b); same (copy, m);
    moved.clear(); same (moved, Model<T> (ch, 0)); same (assigned, ma);
    B other (ch + 1, fr); hse_check (outcomeOf ([&] { assigned.appendFrom (other); }) == channelLayoutError && outcomeOf ([&] { assigned = other; }) == channelLayoutError && outcomeOf ([&] { assigned = std::move (other); }) == channelLayoutError, "large buffers of different channel counts are kept apart");
    same (assigned, ma);
}
extern "C" void hse_main (void) 
{
    static const size_t big[6][3] = { { 16, 20, 3 }, { 1, 600, 3 }, { 128, 2, 2 }, { 3, 7, 30 }, { 5, 130, 2 }, { 33, 0, 4 } };
    if (hse_pick ("large", 0, 1)) { auto& b = big[hse_pick ("case", 0, 5)]; if (b[0] & 1) large<float> (b[0], b[1], b[2]); else large<double> (b[0], b[1], b[2]); return; }
    const size_t shape = hse_pick ("shape", 0, HSE_TIER == 1 ? 3 : 4); const bool equal = hse_pick ("sameChannels", 0, 1);
    if (HSE_TIER == 1 ? (shape + equal) % 2 == 0 : hse_pick ("type", 0, 1)) run<float> (shape, equal); else run<double> (shape, equal);
}
