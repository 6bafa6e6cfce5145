// hse: hash-consed bit-vector / floating-point expression DAG.
// Every value is a bit-vector of width 1..128.  Width-1 doubles as Bool.
// Floating-point operators interpret 32/64/80-bit vectors as IEEE (x87 for 80) numbers, round-to-nearest-even.
#pragma once
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_UF,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FMA, O_FSQRT, O_FRINT, O_FNEG, O_FABS,
  O_FEQ, O_FLT, O_FLE, O_FISNAN,
  O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FTOF
};
enum Uf : u32 { U_SIN = 1, U_COS, U_TAN, U_EXP, U_EXP2, U_EXP10, U_LOG, U_LOG2, U_LOG10, U_POW, U_FMOD, U_REMAINDER, U_TANH, U_ATAN, U_ATAN2, U_EXPM1, U_LOG1P, U_HYPOT, U_CBRT, U_ASIN, U_ACOS, U_SINH, U_COSH, U_MT };

struct Node {
  Op op; uint16_t w; bool hasUf, hasUninit; u32 aux; u32 id; Node* a[3]; u128 c;
};
typedef Node* E;

struct VarInfo { std::string name; int w; bool input; bool isF; };
extern std::vector<VarInfo> g_vars;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, int w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }
template <class T> inline T bits2f(u128 v) { T r; std::memset(&r, 0, sizeof r); std::memcpy(&r, &v, sizeof(T) == 16 ? 10 : sizeof(T)); return r; }
template <class T> inline u128 f2bits(T f) { u128 v = 0; std::memcpy(&v, &f, sizeof(T) == 16 ? 10 : sizeof(T)); return v; }
typedef long double ld;

u128 ufTrue(u32 fn, int w, const u128* x);

template <class T> u128 fev(Op op, u32 aux, u128 x, u128 y, u128 z) {
  T a = bits2f<T>(x), b = bits2f<T>(y), c = bits2f<T>(z);
  switch (op) {
    case O_FADD: return f2bits<T>(a + b);
    case O_FSUB: return f2bits<T>(a - b);
    case O_FMUL: return f2bits<T>(a * b);
    case O_FDIV: return f2bits<T>(a / b);
    case O_FMA: return f2bits<T>(std::fma(a, b, c));
    case O_FSQRT: return f2bits<T>(std::sqrt(a));
    case O_FRINT:
      switch (aux) { case 0: return f2bits<T>(std::nearbyint(a)); case 1: return f2bits<T>(std::round(a)); case 2: return f2bits<T>(std::ceil(a)); case 3: return f2bits<T>(std::floor(a)); default: return f2bits<T>(std::trunc(a)); }
    case O_FEQ: return a == b;
    case O_FLT: return a < b;
    case O_FLE: return a <= b;
    case O_FISNAN: return a != a;
    default: abort();
  }
}
inline ld asLd(u128 v, int w) { return w == 32 ? (ld)bits2f<float>(v) : w == 64 ? (ld)bits2f<double>(v) : bits2f<ld>(v); }
inline u128 fromLd(ld v, int w) { return w == 32 ? f2bits<float>((float)v) : w == 64 ? f2bits<double>((double)v) : f2bits<ld>(v); }

inline u128 evalOp(Op op, int w, u32 aux, int aw, u128 x, u128 y, u128 z, int bw) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? x / y : m;
    case O_UREM: return y ? x % y : x;
    case O_SDIV: { i128 a = sx(x, w), b = sx(y, w); if (!b) return (a < 0 ? 1 : m); if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case O_SREM: { i128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= (u128)w ? 0 : (x << (int)y) & m;
    case O_LSHR: return y >= (u128)w ? 0 : x >> (int)y;
    case O_ASHR: { i128 a = sx(x, w); int s = y >= (u128)w ? w - 1 : (int)y; return (u128)(a >> s) & m; }
    case O_CONCAT: return (x << bw) | y;
    case O_EXTRACT: return (x >> aux) & m;
    case O_ZEXT: return x;
    case O_SEXT: return (u128)sx(x, aw) & m;
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sx(x, aw) < sx(y, aw);
    case O_SLE: return sx(x, aw) <= sx(y, aw);
    case O_ITE: return x ? y : z;
    case O_FNEG: return x ^ ((u128)1 << (w - 1));
    case O_FABS: return x & ~((u128)1 << (w - 1)) & m;
    case O_FTOSI: { ld v = std::trunc(asLd(x, aw)); if (!(v >= -std::ldexp((ld)1, w - 1) && v < std::ldexp((ld)1, w - 1))) return (u128)1 << (w - 1); return (u128)(i128)v & m; }
    case O_FTOUI: { ld v = std::trunc(asLd(x, aw)); if (!(v > -1 && v < std::ldexp((ld)1, w))) return (u128)1 << (w - 1); return (u128)v & m; }
    case O_SITOF: { i128 v = sx(x, aw); if (w == 32) return f2bits<float>((float)v); if (w == 64) return f2bits<double>((double)v); return f2bits<ld>((ld)v); }
    case O_UITOF: { if (w == 32) return f2bits<float>((float)x); if (w == 64) return f2bits<double>((double)x); return f2bits<ld>((ld)x); }
    case O_FTOF: return fromLd(asLd(x, aw), w);
    default: break;
  }
  int fw = (op == O_FEQ || op == O_FLT || op == O_FLE || op == O_FISNAN) ? aw : w;
  if (fw == 32) return fev<float>(op, aux, x, y, z);
  if (fw == 64) return fev<double>(op, aux, x, y, z);
  return fev<ld>(op, aux, x, y, z);
}

E mkRaw(Op op, int w, u32 aux, E a = nullptr, E b = nullptr, E c = nullptr, u128 cv = 0);
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isC(E e, u128 v) { return e->op == O_CONST && e->c == v; }
inline E K(u128 v, int w) { return mkRaw(O_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
inline E KB(bool b) { return K(b, 1); }
E mkVar(const std::string& name, int w, bool input, bool isF);
E mkUf(u32 fn, int w, const std::vector<E>& args);
E mk(Op op, int w, u32 aux, E a, E b = nullptr, E c = nullptr);
E mkNot(E a);
inline E mkAnd(E a, E b) { return mk(O_AND, a->w, 0, a, b); }
inline E mkOr(E a, E b) { return mk(O_OR, a->w, 0, a, b); }
inline E mkIte(E c, E a, E b) { return mk(O_ITE, a->w, 0, c, a, b); }
inline E mkEq(E a, E b) { return mk(O_EQ, 1, 0, a, b); }
inline E mkExtract(E a, int lo, int w) { return mk(O_EXTRACT, w, lo, a); }
inline E mkConcat(E hi, E lo) { return mk(O_CONCAT, hi->w + lo->w, 0, hi, lo); }
inline E mkZext(E a, int w) { return w == a->w ? a : mk(O_ZEXT, w, 0, a); }
inline E mkSext(E a, int w) { return w == a->w ? a : mk(O_SEXT, w, 0, a); }
inline E mkTrunc(E a, int w) { return w == a->w ? a : mkExtract(a, 0, w); }
inline bool isBoolOp(Op o) { return o == O_EQ || (o >= O_ULT && o <= O_SLE) || o == O_FEQ || o == O_FLT || o == O_FLE || o == O_FISNAN; }
inline bool isFpResult(Op o) { return (o >= O_FADD && o <= O_FABS) || o == O_SITOF || o == O_UITOF || o == O_FTOF; }
int nArgs(E e);

struct Model { std::vector<u128> v; u128 get(u32 i) const { return i < v.size() ? v[i] : 0; } void set(u32 i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
struct Evaluator {
  const Model& m; std::unordered_map<E, u128> memo; std::unordered_map<E, u128>* ufOverride = nullptr;
  Evaluator(const Model& mm) : m(mm) {}
  u128 ev(E e);
};
std::string exprStr(E e, int depth = 6);
