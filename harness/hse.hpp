// Harness API.  The same harness source is (a) translated to LLVM IR and executed symbolically by /verif/build/hse and
// (b) compiled natively (g++, sanitizers, real libstdc++) to replay counterexamples and validate sample paths.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>

#ifndef HSE_TIER
#define HSE_TIER 1   // 1 = quick, 2 = thorough
#endif

extern "C" {
float hse_f32 (const char* name);
double hse_f64 (const char* name);
uint64_t hse_u64 (const char* name, uint64_t lo, uint64_t hi);
uint32_t hse_u32 (const char* name);
uint8_t hse_u8 (const char* name);
uint64_t hse_pick (const char* name, uint64_t lo, uint64_t hi);   // symbolic choice, one path per value
uint64_t hse_concretize (uint64_t v);
void hse_assume (int cond);
void hse_check (int cond, const char* msg);
void hse_note (const char* msg, uint64_t v);
void hse_obs_f32 (const char* name, float v);
void hse_obs_f64 (const char* name, double v);
void hse_obs_u64 (const char* name, uint64_t v);
void hse_done (void);
int hse_is_symbolic_build (void);
int hse_and (int a, int b);
int hse_or (int a, int b);
int hse_not (int a);
float hse_ite_f32 (int c, float a, float b);
double hse_ite_f64 (int c, double a, double b);
uint64_t hse_ite_u64 (int c, uint64_t a, uint64_t b);
int hse_same_f32 (float a, float b);
int hse_same_f64 (double a, double b);
// file model / scratch directory
void hse_file_write (const char* name, const char* data, uint64_t n, int truncate);
int hse_file_exists (const char* name);
uint64_t hse_file_size (const char* name);
unsigned hse_file_byte (const char* name, uint64_t i);
const char* hse_scratch_dir (void);   // absolute path of the directory files go to
void hse_make_dir (const char* name);
void hse_main (void);
}

// --- type-generic front ends ---------------------------------------------------------------------------------------
template <typename T> struct H;
template <> struct H<float>
{
    static float sym (const char* n) { return hse_f32 (n); }
    static float ite (int c, float a, float b) { return hse_ite_f32 (c, a, b); }
    static int same (float a, float b) { return hse_same_f32 (a, b); }
    static void obs (const char* n, float v) { hse_obs_f32 (n, v); }
};
template <> struct H<double>
{
    static double sym (const char* n) { return hse_f64 (n); }
    static double ite (int c, double a, double b) { return hse_ite_f64 (c, a, b); }
    static int same (double a, double b) { return hse_same_f64 (a, b); }
    static void obs (const char* n, double v) { hse_obs_f64 (n, v); }
};
// equal as numbers, or both NaN (zero signs do not matter)
template <typename T> inline int hse_eqv (T a, T b) { return hse_or (a == b, hse_and (a != a, b != b)); }
template <typename T> inline int hse_finite (T a) { return (a - a) == (a - a); }
template <typename T> inline int hse_nan (T a) { return a != a; }
// |a-b| <= tol (false when either is NaN), or the same value
template <typename T> inline int hse_near (T a, T b, T tol) { T d = a - b; return hse_or (hse_eqv (a, b), hse_and (d <= tol, -d <= tol)); }
inline int hse_implies (int a, int b) { return hse_or (hse_not (a), b); }

// --- text ----------------------------------------------------------------------------------------------------------
// number written at text[pos]; returns how many characters it takes (0: no number there)
size_t hse_num_at (const std::string& text, size_t pos, double* value, int* precision);
// value printed after `label` (first occurrence at or after from); 0 if absent
inline size_t hse_num_after (const std::string& t, const std::string& label, double* v, int* prec, size_t from = 0)
{
    size_t p = t.find (label, from);
    if (p == std::string::npos) return 0;
    return hse_num_at (t, p + label.size(), v, prec);
}
std::string hse_cout_text();
void hse_cout_clear();
template <typename T> inline std::string hse_represent (const T& x) { std::stringstream s; x.represent (s); return s.str(); }
inline bool hse_has (const std::string& t, const std::string& w) { return t.find (w) != std::string::npos; }
