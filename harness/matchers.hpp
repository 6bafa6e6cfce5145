#pragma once
#include "probes.hpp"
template <typename T> inline int printedAs (const std::string& t, const char* label, T want, int decimals)
{
    double v = 0; int p = -1; if (! hse_num_after (t, label, &v, &p)) return 0;
    double ulp = 0.50001; for (int i = 0; i < decimals; ++i) ulp /= 10;
    const double w = (double) want, aw = w < 0 ? -w : w;
    return hse_and (p == decimals, hse_or (hse_same_f64 (v, w), hse_and (v - w <= ulp + aw * 1e-7, w - v <= ulp + aw * 1e-7)));
}
template <typename T> inline T levelDb (T a) { return a < 1e-6 ? (T) -120 : (T) (20 * std::log10 (a)); }
// dB → ratio as documented, in double
inline double ratioOf (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }
template <typename T> inline void fillBuffer (hart::AudioBuffer<T>& b, Table<T>& t, size_t from) { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = t.at (c, from + f); }
