// Force-included before every translation unit of the SYMBOLIC build.
// std::mt19937 becomes an uninterpreted function of (seed, index); the engine evaluates it with the true generator.
#pragma once
#include <cstddef>
#include <cstdint>
#define to_string hse_std_to_string
#include <string>
#undef to_string
extern "C" int hse_known (uint64_t);
unsigned hse_text_num_add (double v, int precision, int fixed);
namespace std {
// a number that is not known on the path becomes a number token (see hse_ios.hpp)
inline string hse_token (double v) { const unsigned i = hse_text_num_add (v, 0, 1); const char b[4] = { 1, (char) ('A' + i / 26), (char) ('A' + i % 26), 2 }; return string (b, 4); }
template <typename N> inline string hse_number (N v, int known) { return known ? hse_std_to_string (v) : hse_token ((double) v); }
inline string to_string (int v) { return hse_number (v, hse_known ((uint32_t) v)); }
inline string to_string (unsigned v) { return hse_number (v, hse_known (v)); }
inline string to_string (long v) { return hse_number (v, hse_known ((uint64_t) v)); }
inline string to_string (unsigned long v) { return hse_number (v, hse_known (v)); }
inline string to_string (long long v) { return hse_number (v, hse_known ((uint64_t) v)); }
inline string to_string (unsigned long long v) { return hse_number (v, hse_known (v)); }
inline string to_string (float v) { return hse_std_to_string (v); }
inline string to_string (double v) { return hse_std_to_string (v); }
inline string to_string (long double v) { return hse_std_to_string (v); }
}
extern "C" uint64_t hse_mt (uint64_t seed, uint64_t index);

namespace std {
template <typename U, size_t, size_t, size_t, size_t, U, size_t, U, size_t, U, size_t, U, size_t, U> class mersenne_twister_engine;
template <>
class mersenne_twister_engine<uint_fast32_t, 32, 624, 397, 31, 0x9908b0dfUL, 11, 0xffffffffUL, 7, 0x9d2c5680UL, 15, 0xefc60000UL, 18, 1812433253UL>
{
    uint_fast32_t s; size_t i = 0;
public:
    typedef uint_fast32_t result_type;
    static constexpr size_t word_size = 32, state_size = 624, shift_size = 397, mask_bits = 31;
    static constexpr result_type default_seed = 5489u;
    mersenne_twister_engine() : s (default_seed) {}
    explicit mersenne_twister_engine (result_type v) : s (v & 0xffffffffUL) {}
    void seed (result_type v = default_seed) { s = v & 0xffffffffUL; i = 0; }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffUL; }
    void discard (unsigned long long n) { i += n; }
    result_type operator()() { return hse_mt (s, i++); }
    friend bool operator== (const mersenne_twister_engine& a, const mersenne_twister_engine& b) { return a.s == b.s && a.i == b.i; }
    friend bool operator!= (const mersenne_twister_engine& a, const mersenne_twister_engine& b) { return ! (a == b); }
};
}
#include <random>
#define SIGNALSMITH_PLOT_H
#include "hse_plot.hpp"
