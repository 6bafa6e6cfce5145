#include "solver.hpp"
#include <z3.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void collectVars(E e, std::unordered_set<E>& seen, std::vector<u32>& vars) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (isC(x) || !seen.insert(x).second) continue;
    if (x->op == O_VAR) vars.push_back(x->aux);
    for (int i = 0; i < 3 && x->a[i]; i++) st.push_back(x->a[i]);
  }
}

// ---------------------------------------------------------------- intervals
static const double INF = HUGE_VAL;
static double fval(E e) { return (double)asLd(e->c, e->w); }
static bool w32(E e) { return e->w == 32; }
static FRng topF() { return {-INF, INF, true}; }
static FRng isect(FRng a, const FRng& b) { a.lo = std::max(a.lo, b.lo); a.hi = std::min(a.hi, b.hi); a.nan = a.nan && b.nan; return a; }
static double opEnd(Op op, int w, double x, double y) {
  u128 r = evalOp(op, w, 0, w, fromLd(x, w), fromLd(y, w), 0, w);
  return (double)asLd(r, w);
}
FRng Ranges::f(E e) {
  if (isC(e)) { double v = fval(e); if (v != v) return {INF, -INF, true}; if (e->w == 80 && (ld)v != asLd(e->c, 80)) return {std::nextafter(v, -INF), std::nextafter(v, INF), false}; return {v, v, false}; }
  auto it = fmemo.find(e); if (it != fmemo.end()) return it->second;
  FRng r = topF(); int w = e->w;
  if (w == 32 || w == 64 || w == 80) switch (e->op) {
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      FRng a = f(e->a[0]), b = f(e->a[1]);
      if (a.lo > a.hi || b.lo > b.hi) { r = topF(); break; }
      bool ainf = std::isinf(a.lo) || std::isinf(a.hi), binf = std::isinf(b.lo) || std::isinf(b.hi);
      bool nan = a.nan || b.nan; double c[4]; int n = 4;
      if (e->op == O_FADD || e->op == O_FSUB) {
        if (e->op == O_FSUB) { double t = b.lo; b.lo = -b.hi; b.hi = -t; }
        nan |= (a.lo == -INF && b.hi == INF) || (a.hi == INF && b.lo == -INF);
        double lo = opEnd(O_FADD, w, a.lo, b.lo), hi = opEnd(O_FADD, w, a.hi, b.hi);
        if (lo != lo) lo = -INF; if (hi != hi) hi = INF;
        r = {lo, hi, nan}; break;
      }
      if (e->op == O_FDIV) {
        if (b.lo <= 0 && b.hi >= 0) { r = topF(); r.nan = nan || (a.lo <= 0 && a.hi >= 0) || (ainf && binf); if (a.lo >= 0 && b.lo > 0) r.lo = 0; break; }
        nan |= ainf && binf;
      } else {
        nan |= (ainf && b.lo <= 0 && b.hi >= 0) || (binf && a.lo <= 0 && a.hi >= 0);
        if (e->a[0] == e->a[1]) {
          double x = opEnd(O_FMUL, w, a.lo, a.lo), y = opEnd(O_FMUL, w, a.hi, a.hi);
          double hi = std::max(x, y), lo = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(x, y);
          r = {lo, hi, a.nan}; break;
        }
      }
      double xs[2] = {a.lo, a.hi}, ys[2] = {b.lo, b.hi}; int k = 0;
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double v = opEnd(e->op, w, xs[i], ys[j]); if (v != v) v = 0; c[k++] = v; }
      double lo = c[0], hi = c[0]; for (int i = 1; i < n; i++) { lo = std::min(lo, c[i]); hi = std::max(hi, c[i]); }
      if ((ainf || binf) && e->op == O_FMUL) { lo = std::min(lo, 0.0); hi = std::max(hi, 0.0); }
      if (ainf && binf) { lo = -INF; hi = INF; }
      r = {lo, hi, nan}; break;
    }
    case O_FNEG: { FRng a = f(e->a[0]); r = {-a.hi, -a.lo, a.nan}; break; }
    case O_FABS: { FRng a = f(e->a[0]); if (a.lo >= 0) r = a; else if (a.hi <= 0) r = {-a.hi, -a.lo, a.nan}; else r = {0, std::max(-a.lo, a.hi), a.nan}; break; }
    case O_FSQRT: { FRng a = f(e->a[0]); if (a.lo > a.hi) break; r.nan = a.nan || a.lo < 0; r.lo = a.lo > 0 ? opEnd(O_FSQRT, w, a.lo, 0) : 0; r.hi = a.hi > 0 ? opEnd(O_FSQRT, w, a.hi, 0) : 0; break; }
    case O_FRINT: { FRng a = f(e->a[0]); if (a.lo > a.hi) break; auto rr = [&](double v) { return (double)asLd(evalOp(O_FRINT, w, e->aux, w, fromLd(v, w), 0, 0, 0), w); }; r = {rr(a.lo), rr(a.hi), a.nan}; break; }
    case O_FTOF: { FRng a = f(e->a[0]); if (a.lo > a.hi) break; r = {(double)asLd(fromLd(a.lo, w), w), (double)asLd(fromLd(a.hi, w), w), a.nan}; break; }
    case O_UITOF: { URng a = u(e->a[0]); r = {(double)asLd(evalOp(O_UITOF, w, 0, 64, a.lo, 0, 0, 0), w), (double)asLd(evalOp(O_UITOF, w, 0, 64, a.hi, 0, 0, 0), w), false}; break; }
    case O_SITOF: {
      int aw = e->a[0]->w; URng a = u(e->a[0]); u64 half = aw >= 64 ? (u64)1 << 63 : (u64)1 << (aw - 1);
      double m = std::ldexp(1.0, aw - 1);
      if (a.hi < half) r = {(double)asLd(evalOp(O_UITOF, w, 0, 64, a.lo, 0, 0, 0), w), (double)asLd(evalOp(O_UITOF, w, 0, 64, a.hi, 0, 0, 0), w), false};
      else r = {-m, m, false};
      break; }
    case O_ITE: { FRng a = f(e->a[1]), b = f(e->a[2]); int d = decide(e->a[0]); if (d == 1) r = a; else if (d == 0) r = b; else {
      r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan};
      E c = e->a[0], t = e->a[1], o = e->a[2]; bool kept = !a.nan;   // a larger / smaller-of-two; 'kept': no NaN, or a NaN is passed on
      if (c->op == O_OR && c->w == 1) { for (int i = 0; i < 2; i++) if (c->a[i]->op == O_FISNAN && c->a[i]->a[0] == t) { kept = true; c = c->a[1 - i]; break; } }
      if (kept && (c->op == O_FLT || c->op == O_FLE) && a.lo <= a.hi && b.lo <= b.hi) {
        if (c->a[0] == o && c->a[1] == t) r.lo = std::max(a.lo, b.lo);
        else if (c->a[0] == t && c->a[1] == o) r.hi = std::min(a.hi, b.hi);
      }
    } break; }
    case O_UF: {
      FRng a = f(e->a[0]); bool ainf = a.lo == -INF || a.hi == INF;
      switch (e->aux) {
        case U_SIN: case U_COS: r = {-1, 1, a.nan || ainf};
          if (!ainf && a.hi - a.lo < 1 && std::fabs(a.lo) < 1e6) { double mid = (a.lo + a.hi) / 2, h = (a.hi - a.lo) / 2 + 1e-9, v = e->aux == U_SIN ? std::sin(mid) : std::cos(mid); r.lo = std::max(-1.0, v - h - (w == 32 ? 1e-6 : 0)); r.hi = std::min(1.0, v + h + (w == 32 ? 1e-6 : 0)); }
          break;
        case U_TANH: r = {-1, 1, a.nan}; break;
        case U_EXP: case U_EXP2: case U_EXP10: r = {0, INF, a.nan};
          if (a.lo >= -80 && a.hi <= 80 && e->aux == U_EXP) { double sl = w == 32 ? 1e-5 : 1e-12; r.lo = std::exp(a.lo) * (1 - sl); r.hi = std::exp(a.hi) * (1 + sl); }
          break;
        case U_POW: { FRng b = f(e->a[1]); if (a.lo > 0 && !a.nan) { r = {0, INF, b.nan}; if (a.lo == 1 && a.hi == 1) r = {1, 1, false};
            else if (a.hi < INF && b.lo > -1e6 && b.hi < 1e6) { double lo = INF, hi = 0, sl = w == 32 ? 1e-5 : 1e-12; for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) { double v = std::pow(x, y); lo = std::min(lo, v); hi = std::max(hi, v); } if (w == 32 ? lo > 1e-36 && hi < 1e36 : lo > 1e-300 && hi < 1e300) { r.lo = lo * (1 - sl); r.hi = hi * (1 + sl); } } } break; }
        case U_FMOD: case U_REMAINDER: { FRng b = f(e->a[1]); double k = e->aux == U_FMOD ? 1.0 : 0.5; double m = std::max(std::fabs(b.lo), std::fabs(b.hi)) * k; r = {-m, m, a.nan || b.nan || ainf || (b.lo <= 0 && b.hi >= 0)};
          if (e->aux == U_FMOD && a.lo >= 0) r.lo = 0; if (e->aux == U_FMOD && a.hi <= 0) r.hi = 0;
          if (!ainf && b.lo == b.hi && b.lo > 0 && b.hi < INF && std::fabs(a.lo) < 1e6 * b.lo && std::fabs(a.hi) < 1e6 * b.lo && a.lo <= a.hi) {   // whole interval inside one period
            auto op = [&](double x) { return e->aux == U_FMOD ? std::fmod(x, b.lo) : std::remainder(x, b.lo); }; double p = op(a.lo), q = op(a.hi);   // both are exact operations, increasing inside a period
            if (std::rint((a.lo - p) / b.lo) == std::rint((a.hi - q) / b.lo) && p <= q && (e->aux != U_FMOD || a.lo >= 0 || a.hi <= 0)) { r.lo = std::max(r.lo, p); r.hi = std::min(r.hi, q); } }
          break; }
        case U_LOG: case U_LOG2: case U_LOG10: r.nan = a.nan || a.lo < 0; if (a.lo >= 1) r.lo = 0; if (a.hi <= 1 && a.lo >= 0) r.hi = 0;
          if (a.lo > 1e-300 && a.hi < 1e300) { auto lg = [&](double x) { return e->aux == U_LOG ? std::log(x) : e->aux == U_LOG2 ? std::log2(x) : std::log10(x); }; double p = lg(a.lo), q = lg(a.hi), sl = (w == 32 ? 1e-5 : 1e-12); r.lo = p - std::fabs(p) * sl - sl * 1e-3; r.hi = q + std::fabs(q) * sl + sl * 1e-3; }
          break;
        default: break;
      }
      break; }
    default: break;
  }
  if (w == 80) { r.lo = std::nextafter(r.lo, -INF); r.hi = std::nextafter(r.hi, INF); }   // endpoints are kept as doubles
  auto fi = ffact.find(e); if (fi != ffact.end()) r = isect(r, fi->second);
  fmemo[e] = r;
  if (affine && (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL || e->op == O_FDIV || e->op == O_FRINT || e->op == O_SITOF || e->op == O_FTOF || (e->op == O_UF && (e->aux == U_REMAINDER || e->aux == U_FMOD))) && !r.nan && r.lo <= r.hi && r.lo > -INF && r.hi < INF) {
    const Aff& a = aff(e); if (a.ok) { r = isect(r, affRange(a)); fmemo[e] = r; }
  }
  return r;
}
FRng Ranges::affRange(const Aff& a) {
  long double lo = a.c, hi = a.c, mag = std::fabs(a.c);
  for (auto& t : a.t) { FRng r = f(t.first); long double p = t.second * r.lo, q = t.second * r.hi; lo += std::min(p, q); hi += std::max(p, q); mag += std::max(std::fabs(p), std::fabs(q)); }
  long double slack = a.err + mag * 1e-17L + 1e-300L;
  double l = (double)(lo - slack), h = (double)(hi + slack); return {std::nextafter(l, -INF), std::nextafter(h, INF), false};
}
// p = k*x and s = a+p in long double, with what the two roundings lose added to err (times how large the multiplied term can be)
static long double accum(long double a, long double k, long double x, long double m, long double& err) {
  long double p = k * x, s = a + p, bb = s - a;
  if (k != 1 && k != -1) { long double l = std::fabs(fmal(k, x, -p)); if (l != 0) err += l * m; }
  long double l = std::fabs((a - (s - bb)) + (p - bb)); if (l != 0) err += l * m;
  return s;
}
static void affAdd(Ranges& rg, Aff& r, const Aff& b, long double k) {
  if (!b.ok) { r.ok = false; return; }
  r.err += std::fabs(k) * b.err; r.c = accum(r.c, k, b.c, 1, r.err);
  for (auto& t : b.t) {
    FRng q = rg.f(t.first); long double m = std::max(std::fabs(q.lo), std::fabs(q.hi)); bool hit = false; if (!(m < 1e300L)) m = 1e4000L;
    for (auto& x : r.t) if (x.first == t.first) { x.second = accum(x.second, k, t.second, m, r.err); hit = true; }
    if (!hit) r.t.push_back({t.first, accum(0, k, t.second, m, r.err)});
  }
}
Aff Ranges::affInt(E e) {
  Aff r; int w = e->w; if (w > 64) return r;
  switch (e->op) {
    case O_CONST: r.ok = true; r.c = (long double)(int64_t)sx(e->c, w); return r;
    case O_SEXT: return affInt(e->a[0]);
    case O_EXTRACT: if (e->aux == 0 && e->a[0]->w <= 64) { r = affInt(e->a[0]); if (r.ok) { FRng q = affRange(r); double m = std::ldexp(1.0, w - 1); E in = e->a[0]; while (in->op == O_SEXT) in = in->a[0]; if (in->op == O_FTOSI) q = isect(q, f(in->a[0])); if (q.lo < -m || q.hi > m - 1) r.ok = false; } } return r;
    case O_FTOSI: { E x = e->a[0]; FRng q = f(x); double m = std::ldexp(1.0, w - 1); if (q.nan || !(q.lo <= q.hi) || q.lo <= -m || q.hi >= m) return r; r = aff(x); if (r.ok && x->op != O_FRINT) r.err += 1; return r; }
    default: return r;
  }
}
static bool pow2(long double k) { int x; return k != 0 && std::fabs(std::frexp(k, &x)) == 0.5L && std::abs(x) < 100; }
// a whole number of at most 24 bits times a power of two: representable in any format
static bool shortNum(Ranges& rg, E e) {
  if (e->op == O_FMUL) for (int k = 0; k < 2; k++) if (isC(e->a[k]) && pow2(asLd(e->a[k]->c, e->w))) return shortNum(rg, e->a[1 - k]);
  if (e->op == O_FNEG || e->op == O_FTOF) return shortNum(rg, e->a[0]);
  if (e->op == O_SITOF) { FRng r = rg.f(e); return !r.nan && r.lo >= -0x1p24 && r.hi <= 0x1p24 && r.lo <= r.hi; }
  return false;
}
// how many whole divisors an (exact) remainder may take off its argument
static bool periods(Ranges& rg, E e, double& k0, double& k1) {
  double b = std::fabs(fval(e->a[1])); FRng q = rg.f(e->a[0]); if (q.nan || !(b > 0) || !(b < INF) || !(q.lo <= q.hi) || std::fabs(q.lo) > 1e5 * b || std::fabs(q.hi) > 1e5 * b) return false;
  auto per = [&](double x) { return e->aux == U_FMOD ? std::trunc(x) : std::rint(x); };
  k0 = per(q.lo / b - 1e-9); k1 = per(q.hi / b + 1e-9); return k1 - k0 <= 3;
}
const Aff& Ranges::aff(E e) {
  auto it = amemo.find(e); if (it != amemo.end()) return it->second;
  Aff r; int w = e->w; FRng me = f(e);
  auto done = [&]() -> const Aff& { return amemo[e] = r; };
  if ((w != 32 && w != 64 && w != 80) || me.nan || !(me.lo <= me.hi) || me.lo == -INF || me.hi == INF) return done();
  long double M = std::max(std::fabs(me.lo), std::fabs(me.hi)), rel = w == 32 ? 0x1.000002p-24L : w == 64 ? 0x1.0000000000001p-53L : 0x1.00001p-64L, ulp = M * rel, tiny = w == 32 ? 0x1p-149L : w == 64 ? 0x1p-1074L : 0x1p-16445L;
  switch (e->op) {
    case O_CONST: r.ok = true; r.c = asLd(e->c, w); break;
    case O_FADD: case O_FSUB: r = aff(e->a[0]); if (r.ok) affAdd(*this, r, aff(e->a[1]), e->op == O_FADD ? 1 : -1); if (r.ok) { FRng q = affRange(r); ulp = std::min(ulp, std::max(std::fabs((long double)q.lo), std::fabs((long double)q.hi)) * rel); } r.err += ulp; break;
    case O_FMUL: { int k = isC(e->a[1]) ? 1 : 0; if (!isC(e->a[k])) break; Aff z; z.ok = true; affAdd(*this, z, aff(e->a[1 - k]), asLd(e->a[k]->c, w)); r = z; r.err += (pow2(asLd(e->a[k]->c, w)) ? 0 : ulp) + tiny; break; }
    case O_FDIV: if (isC(e->a[1]) && asLd(e->a[1]->c, w) != 0) { Aff z; z.ok = true; affAdd(*this, z, aff(e->a[0]), 1 / asLd(e->a[1]->c, w)); long double mag = std::fabs(z.c); for (auto& t : z.t) { FRng q = f(t.first); mag += std::fabs(t.second) * std::max(std::fabs(q.lo), std::fabs(q.hi)); } r = z; r.err += ulp + tiny + mag * 1e-18L; } break;
    case O_FNEG: { Aff z; z.ok = true; affAdd(*this, z, aff(e->a[0]), -1); r = z; break; }
    case O_FABS: { FRng q = f(e->a[0]); Aff z; z.ok = true; if (q.lo >= 0) affAdd(*this, z, aff(e->a[0]), 1); else if (q.hi <= 0) affAdd(*this, z, aff(e->a[0]), -1); else z.ok = false; r = z; break; }
    case O_FRINT: r = aff(e->a[0]); r.err += e->aux <= 1 ? 0.5L : 1; break;
    case O_FTOF: if (e->a[0]->w == 16) break; r = aff(e->a[0]); if (w < e->a[0]->w && !shortNum(*this, e->a[0])) r.err += ulp + tiny; break;
    case O_SITOF: r = affInt(e->a[0]); if (r.ok && M > (w == 32 ? 0x1p24 : 0x1p53)) r.err += ulp; break;
    case O_UITOF: if (w < 80 && e->a[0]->w <= 64) { r.ok = true; r.t.push_back({mk(O_UITOF, 80, 0, e->a[0]), 1}); if (M > (w == 32 ? 0x1p24 : 0x1p53)) r.err += ulp; } break;
    case O_ITE: { int d = decide(e->a[0]); if (d == 1) r = aff(e->a[1]); else if (d == 0) r = aff(e->a[2]); break; }
    case O_UF: if ((e->aux == U_REMAINDER || e->aux == U_FMOD) && isC(e->a[1])) {   // exact operations
      double k; auto pi = period.find(e); if (pi != period.end()) k = pi->second; else { double k0, k1; if (!periods(*this, e, k0, k1) || k0 != k1) break; k = k0; }
      r = aff(e->a[0]); r.c = accum(r.c, -(long double)k, std::fabs(fval(e->a[1])), 1, r.err);
      break; }
    default: break;
  }
  if (r.t.size() > 6) { r = Aff(); }
  if (!r.ok || !(r.err < 1e300L)) { r = Aff(); r.ok = true; r.t.push_back({e, 1}); }
  else { std::vector<std::pair<E, long double>> keep; for (auto& t : r.t) if (t.second != 0) keep.push_back(t); r.t = keep; }
  return done();
}
static URng topU(int w) { return {0, w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1)}; }
URng Ranges::u(E e) {
  int w = e->w; if (w > 64) return {0, ~(u64)0};
  if (isC(e)) return {(u64)e->c, (u64)e->c};
  auto it = umemo.find(e); if (it != umemo.end()) return it->second;
  URng r = topU(w); u64 mx = r.hi;
  switch (e->op) {
    case O_ZEXT: r = u(e->a[0]); break;
    case O_ADD: { URng a = u(e->a[0]), b = u(e->a[1]); u128 lo = (u128)a.lo + b.lo, hi = (u128)a.hi + b.hi; if (hi <= mx) r = {(u64)lo, (u64)hi}; else if (lo > mx) r = {(u64)(lo - mx - 1), (u64)(hi - mx - 1)}; break; }
    case O_SUB: { URng a = u(e->a[0]), b = u(e->a[1]); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
    case O_MUL: { URng a = u(e->a[0]), b = u(e->a[1]); u128 hi = (u128)a.hi * b.hi; if (hi <= mx) r = {a.lo * b.lo, (u64)hi}; break; }
    case O_UDIV: { URng a = u(e->a[0]), b = u(e->a[1]); if (b.lo > 0) r = {a.lo / b.hi, a.hi / b.lo}; break; }
    case O_UREM: { URng a = u(e->a[0]), b = u(e->a[1]); if (b.lo > 0) { if (a.hi < b.lo) r = a; else r = {0, std::min(a.hi, b.hi - 1)}; } break; }
    case O_AND: { URng a = u(e->a[0]), b = u(e->a[1]); r = {0, std::min(a.hi, b.hi)}; break; }
    case O_LSHR: if (isC(e->a[1]) && e->a[1]->c < 64) { URng a = u(e->a[0]); r = {a.lo >> (int)e->a[1]->c, a.hi >> (int)e->a[1]->c}; } break;
    case O_CONCAT: { if (e->a[1]->w < 64) { URng a = u(e->a[0]), b = u(e->a[1]); int s = e->a[1]->w; r = {(a.lo << s) + b.lo, (a.hi << s) + b.hi}; } break; }
    case O_EXTRACT: { if (e->aux == 0 && e->a[0]->w <= 64) { URng a = u(e->a[0]); if (a.hi <= mx) r = a; } break; }
    case O_ITE: { int d = decide(e->a[0]); if (d == 1) { r = u(e->a[1]); break; } if (d == 0) { r = u(e->a[2]); break; } URng a = u(e->a[1]), b = u(e->a[2]); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case O_FTOUI: case O_FTOSI: { FRng a = f(e->a[0]); double lim = std::ldexp(1.0, e->op == O_FTOUI ? w : w - 1); if (!a.nan && a.lo > -1 && a.hi < lim && a.lo <= a.hi) r = {a.lo <= 0 ? 0 : (u64)a.lo, a.hi <= 0 ? 0 : (u64)a.hi}; break; }
    case O_UF: if (e->aux == U_MT) r = {0, 0xfffffeffu}; break;
    default: break;
  }
  auto fi = ufact.find(e); if (fi != ufact.end()) { r.lo = std::max(r.lo, fi->second.lo); r.hi = std::min(r.hi, fi->second.hi); }
  umemo[e] = r; return r;
}
int Ranges::decide(E c) {
  if (isC(c)) return (int)c->c;
  if (affine) { auto it = truth.find(c); if (it != truth.end()) return it->second; }
  switch (c->op) {
    case O_XOR: if (c->w == 1 && isC(c->a[1], 1)) { int d = decide(c->a[0]); return d < 0 ? -1 : !d; } return -1;
    case O_AND: { if (c->w != 1) return -1; int a = decide(c->a[0]), b = decide(c->a[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return -1; }
    case O_OR: { if (c->w != 1) return -1; int a = decide(c->a[0]), b = decide(c->a[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return -1; }
    case O_EQ: { if (c->a[0]->w > 64) return -1; URng a = u(c->a[0]), b = u(c->a[1]); if (a.hi < b.lo || b.hi < a.lo) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; return -1; }
    case O_ULT: { if (c->a[0]->w > 64) return -1; URng a = u(c->a[0]), b = u(c->a[1]); if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return -1; }
    case O_ULE: { if (c->a[0]->w > 64) return -1; URng a = u(c->a[0]), b = u(c->a[1]); if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; return -1; }
    case O_SLT: case O_SLE: { int w = c->a[0]->w; if (w > 64) return -1; u64 half = (u64)1 << (w - 1); URng a = u(c->a[0]), b = u(c->a[1]); if (a.hi < half && b.hi < half) { bool s = c->op == O_SLT; if (s ? a.hi < b.lo : a.hi <= b.lo) return 1; if (s ? a.lo >= b.hi : a.lo > b.hi) return 0; } return -1; }
    case O_FISNAN: { FRng a = f(c->a[0]); if (!a.nan) return 0; if (a.lo > a.hi) return 1; return -1; }
    case O_FLT: case O_FLE: case O_FEQ: {
      FRng a = f(c->a[0]), b = f(c->a[1]); if (a.lo > a.hi || b.lo > b.hi) return 0;
      bool nn = !a.nan && !b.nan;
      if (c->op == O_FLT) { if (a.lo >= b.hi) return 0; if (nn && a.hi < b.lo) return 1; }
      else if (c->op == O_FLE) { if (a.lo > b.hi) return 0; if (nn && a.hi <= b.lo) return 1; }
      else { if (a.hi < b.lo || b.hi < a.lo) return 0; if (nn && a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; }
      return -1; }
    default: return -1;
  }
}
void Ranges::learn(E c, bool t) {
  if (affine) truth[c] = t;
  auto addF = [&](E e, FRng r) { if (isC(e)) return; auto& x = ffact.emplace(e, topF()).first->second; x = isect(x, r);
    if (e->op == O_FTOF && e->a[0]->w < e->w) { auto& y = ffact.emplace(e->a[0], topF()).first->second; y = isect(y, r); }
    if (e->op == O_FABS) { FRng q{-r.hi, r.hi, r.nan}; auto& y = ffact.emplace(e->a[0], topF()).first->second; y = isect(y, q); }
    flush(); };
  auto addU = [&](E e, u64 lo, u64 hi) { if (isC(e) || e->w > 64) return; for (;;) { auto& x = ufact.emplace(e, topU(e->w)).first->second; x.lo = std::max(x.lo, lo); x.hi = std::min(x.hi, hi); if (e->op == O_ZEXT) { e = e->a[0]; hi = std::min(hi, topU(e->w).hi); } else break; } flush(); };
  switch (c->op) {
    case O_XOR: if (c->w == 1 && isC(c->a[1], 1)) learn(c->a[0], !t); return;
    case O_AND: if (c->w == 1 && t) { learn(c->a[0], true); learn(c->a[1], true); } return;
    case O_OR: if (c->w == 1 && !t) { learn(c->a[0], false); learn(c->a[1], false); } return;
    case O_EQ: if (t && c->a[0]->w <= 64 && c->a[0]->w > 1) { URng a = u(c->a[0]), b = u(c->a[1]); addU(c->a[0], b.lo, b.hi); addU(c->a[1], a.lo, a.hi); }
      else if (!t && isC(c->a[1]) && c->a[0]->w <= 64) { URng a = u(c->a[0]); u64 k = (u64)c->a[1]->c; if (a.lo == k && a.hi > k) addU(c->a[0], k + 1, a.hi); else if (a.hi == k && a.lo < k) addU(c->a[0], a.lo, k - 1); } return;
    case O_ULT: case O_ULE: {
      E x = c->a[0], y = c->a[1]; bool strict = c->op == O_ULT; if (x->w > 64) return; if (!t) { std::swap(x, y); strict = !strict; }
      URng a = u(x), b = u(y); if (strict && b.hi == 0) return; addU(x, 0, b.hi - (strict ? 1 : 0)); addU(y, a.lo + (strict ? 1 : 0), ~(u64)0); return; }
    case O_FISNAN: if (!t) addF(c->a[0], {-INF, INF, false}); return;
    case O_FLT: case O_FLE: case O_FEQ: {
      E x = c->a[0], y = c->a[1]; FRng a = f(x), b = f(y);
      if (t) {
        if (a.lo > a.hi || b.lo > b.hi) return;
        if (c->op == O_FEQ) { addF(x, {b.lo, b.hi, false}); addF(y, {a.lo, a.hi, false}); }
        else { addF(x, {-INF, b.hi, false}); addF(y, {a.lo, INF, false}); }
      } else if (c->op != O_FEQ) {
        if (a.lo > a.hi || b.lo > b.hi) return;
        if (!b.nan) addF(x, {b.lo, INF, true}); if (!a.nan) addF(y, {-INF, a.hi, true});
      }
      return; }
    default: return;
  }
}

// ---------------------------------------------------------------- SMT-LIB encoding
struct Enc {
  std::ostringstream o; std::unordered_map<E, int> bdone, fdone, pdone; std::vector<E> ufs; std::vector<u32> vars; std::unordered_map<E, std::string> fresh; std::vector<std::string> freshNames;
  bool usesFp = false, bad = false; int nfresh = 0;
  static std::string fs(int w) { return w == 32 ? "8 24" : w == 64 ? "11 53" : "15 64"; }
  static std::string bvc(u128 v, int w) { std::string s = "#b"; for (int i = w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; return s; }
  // Comparisons of values available as bit patterns need no floating-point theory: IEEE order on the patterns.
  bool macros[2] = {false, false};
  bool bitsOk(E e, int depth = 0) {
    if (e->w != 32 && e->w != 64) return false;
    if (e->op == O_FNEG || e->op == O_FABS) return bitsOk(e->a[0], depth + 1);
    if (e->op == O_ITE) return depth < 60 && bitsOk(e->a[1], depth + 1) && bitsOk(e->a[2], depth + 1);
    return !isFpResult(e->op);
  }
  std::string bcmp(const char* n, E a, E b) {
    int w = a->w; std::string W = std::to_string(w), B = "(_ BitVec " + W + ")", inf = bvc(w == 32 ? (u128)0x7f800000 : (u128)0x7ff0000000000000ull, w), mag = bvc(maskw(w - 1), w), zero = bvc(0, w);
    if (!macros[w == 64]) {
      macros[w == 64] = true;
      o << "(define-fun nan" << W << " ((a " << B << ")) Bool (bvult " << inf << " (bvand a " << mag << ")))\n"
        << "(define-fun num" << W << " ((a " << B << ") (b " << B << ")) Bool (and (not (nan" << W << " a)) (not (nan" << W << " b))))\n"
        << "(define-fun zz" << W << " ((a " << B << ") (b " << B << ")) Bool (= (bvand (bvor a b) " << mag << ") " << zero << "))\n"
        << "(define-fun feq" << W << " ((a " << B << ") (b " << B << ")) Bool (and (num" << W << " a b) (or (= a b) (zz" << W << " a b))))\n"
        << "(define-fun flt" << W << " ((a " << B << ") (b " << B << ")) Bool (and (num" << W << " a b) (not (zz" << W << " a b)) (ite (bvslt a " << zero << ") (or (bvsge b " << zero << ") (bvult b a)) (bvslt a b))))\n"
        << "(define-fun fle" << W << " ((a " << B << ") (b " << B << ")) Bool (and (num" << W << " a b) (or (zz" << W << " a b) (ite (bvslt a " << zero << ") (or (bvsge b " << zero << ") (bvule b a)) (bvsle a b)))))\n";
    }
    std::string x = bv(a); if (!b) return std::string("(") + n + W + " " + x + ")";
    std::string y = bv(b); return std::string("(") + n + W + " " + x + " " + y + ")";
  }
  void chkw(int w, bool x87 = false) { if (w != 32 && w != 64 && !(w == 80 && x87)) bad = true; usesFp = true; }
  bool fpish(E e) { return (isFpResult(e->op) && e->op != O_FNEG && e->op != O_FABS) || (e->op == O_UF && e->aux != U_MT) || ((e->op == O_FNEG || e->op == O_FABS) && fpish(e->a[0])) || (e->op == O_ITE && (fpish(e->a[1]) || fpish(e->a[2]))); }
  std::string bv(E e) {
    if (isC(e)) return bvc(e->c, e->w);
    if (e->op == O_VAR) { if (!bdone[e]++) { vars.push_back(e->aux); o << "(declare-fun v" << e->aux << " () (_ BitVec " << e->w << "))\n"; } return "v" + std::to_string(e->aux); }
    std::string nm = "b" + std::to_string(e->id);
    if (e->op == O_UF) { if (!bdone[e]++) { o << "(declare-fun " << nm << " () (_ BitVec " << e->w << "))\n"; ufs.push_back(e); } return nm; }
    if (bdone.count(e)) return nm;
    std::string d; auto bin = [&](const char* n) { std::string a = bv(e->a[0]), b = bv(e->a[1]); d = std::string("(") + n + " " + a + " " + b + ")"; };
    if (e->w == 1 && e->op != O_EXTRACT) { std::string p = bo(e); d = "(ite " + p + " #b1 #b0)"; }
    else switch (e->op) {
      case O_ADD: bin("bvadd"); break; case O_SUB: bin("bvsub"); break; case O_MUL: bin("bvmul"); break; case O_UDIV: bin("bvudiv"); break; case O_SDIV: bin("bvsdiv"); break;
      case O_UREM: bin("bvurem"); break; case O_SREM: bin("bvsrem"); break; case O_AND: bin("bvand"); break; case O_OR: bin("bvor"); break; case O_XOR: bin("bvxor"); break;
      case O_SHL: bin("bvshl"); break; case O_LSHR: bin("bvlshr"); break; case O_ASHR: bin("bvashr"); break; case O_CONCAT: bin("concat"); break;
      case O_EXTRACT: { std::string a = bv(e->a[0]); d = "((_ extract " + std::to_string(e->aux + e->w - 1) + " " + std::to_string(e->aux) + ") " + a + ")"; break; }
      case O_ZEXT: { std::string a = bv(e->a[0]); d = "((_ zero_extend " + std::to_string(e->w - e->a[0]->w) + ") " + a + ")"; break; }
      case O_SEXT: { std::string a = bv(e->a[0]); d = "((_ sign_extend " + std::to_string(e->w - e->a[0]->w) + ") " + a + ")"; break; }
      case O_ITE: { std::string p = bo(e->a[0]), a = bv(e->a[1]), b = bv(e->a[2]); d = "(ite " + p + " " + a + " " + b + ")"; break; }
      case O_FNEG: { std::string a = bv(e->a[0]); d = "(bvxor " + a + " " + bvc((u128)1 << (e->w - 1), e->w) + ")"; break; }
      case O_FABS: { std::string a = bv(e->a[0]); d = "(bvand " + a + " " + bvc(maskw(e->w - 1), e->w) + ")"; break; }
      case O_FTOSI: { std::string a = fp(e->a[0]); d = "((_ fp.to_sbv " + std::to_string(e->w) + ") RTZ " + a + ")"; break; }
      case O_FTOUI: { std::string a = fp(e->a[0]); d = "((_ fp.to_ubv " + std::to_string(e->w) + ") RTZ " + a + ")"; break; }
      default: {  // FP result needed as bits
        chkw(e->w); std::string a = fp(e);
        o << "(declare-fun " << nm << " () (_ BitVec " << e->w << "))\n(assert (= ((_ to_fp " << fs(e->w) << ") " << nm << ") " << a << "))\n"; bdone[e] = 1; return nm; }
    }
    o << "(define-fun " << nm << " () (_ BitVec " << e->w << ") " << d << ")\n"; bdone[e] = 1; return nm;
  }
  std::string fp(E e) {
    chkw(e->w, true); if (bad) return "x";
    if (isC(e) && e->w == 80) {   // x87 patterns have an explicit leading bit
      u64 m = (u64)e->c; u32 ex = (u32)(e->c >> 64) & 0x7fff; bool sg = (e->c >> 79) & 1;
      if (ex == 0x7fff ? m != (u64)1 << 63 : (m >> 63) != (ex != 0)) { bad = true; return "x"; }
      return std::string("(fp ") + (sg ? "#b1 " : "#b0 ") + bvc(ex, 15) + " " + bvc(m & ~((u64)1 << 63), 63) + ")";
    }
    if (isC(e)) return "((_ to_fp " + fs(e->w) + ") " + bvc(e->c, e->w) + ")";
    std::string nm = "f" + std::to_string(e->id);
    if (fdone.count(e)) return nm;
    std::string d; auto bin = [&](const char* n) { std::string a = fp(e->a[0]), b = fp(e->a[1]); d = std::string("(") + n + " " + a + " " + b + ")"; };
    switch (e->op) {
      case O_FADD: bin("fp.add RNE"); break; case O_FSUB: bin("fp.sub RNE"); break; case O_FMUL: bin("fp.mul RNE"); break; case O_FDIV: bin("fp.div RNE"); break;
      case O_FMA: { std::string a = fp(e->a[0]), b = fp(e->a[1]), c = fp(e->a[2]); d = "(fp.fma RNE " + a + " " + b + " " + c + ")"; break; }
      case O_FSQRT: d = "(fp.sqrt RNE " + fp(e->a[0]) + ")"; break;
      case O_FRINT: { const char* m[] = {"RNE", "RNA", "RTP", "RTN", "RTZ"}; d = std::string("(fp.roundToIntegral ") + m[e->aux] + " " + fp(e->a[0]) + ")"; break; }
      case O_FNEG: d = "(fp.neg " + fp(e->a[0]) + ")"; break;
      case O_FABS: d = "(fp.abs " + fp(e->a[0]) + ")"; break;
      case O_SITOF: d = "((_ to_fp " + fs(e->w) + ") RNE " + bv(e->a[0]) + ")"; break;
      case O_UITOF: d = "((_ to_fp_unsigned " + fs(e->w) + ") RNE " + bv(e->a[0]) + ")"; break;
      case O_FTOF: d = "((_ to_fp " + fs(e->w) + ") RNE " + fp(e->a[0]) + ")"; break;
      case O_ITE: { std::string p = bo(e->a[0]), a = fp(e->a[1]), b = fp(e->a[2]); d = "(ite " + p + " " + a + " " + b + ")"; break; }
      default: if (e->w == 80) { bad = true; return "x"; } d = "((_ to_fp " + fs(e->w) + ") " + bv(e) + ")";
    }
    o << "(define-fun " << nm << " () (_ FloatingPoint " << fs(e->w) << ") " << d << ")\n"; fdone[e] = 1; return nm;
  }
  std::string bo(E e) {
    if (isC(e)) return e->c ? "true" : "false";
    std::string nm = "p" + std::to_string(e->id);
    if (pdone.count(e)) return nm;
    std::string d; auto bb = [&](const char* n) { std::string a = bv(e->a[0]), b = bv(e->a[1]); d = std::string("(") + n + " " + a + " " + b + ")"; };
    auto ff = [&](const char* n) { std::string a = fp(e->a[0]), b = fp(e->a[1]); d = std::string("(") + n + " " + a + " " + b + ")"; };
    auto pp = [&](const char* n) { std::string a = bo(e->a[0]), b = bo(e->a[1]); d = std::string("(") + n + " " + a + " " + b + ")"; };
    switch (e->op) {
      case O_AND: case O_MUL: pp("and"); break; case O_OR: pp("or"); break; case O_ADD: case O_SUB: pp("xor"); break;
      case O_XOR: if (isC(e->a[1], 1)) d = "(not " + bo(e->a[0]) + ")"; else pp("xor"); break;
      case O_EQ: if (e->a[0]->w == 1) pp("="); else if ((e->a[0]->w == 32 || e->a[0]->w == 64) && (fpish(e->a[0]) || fpish(e->a[1]))) ff("="); else bb("="); break;
      case O_ULT: bb("bvult"); break; case O_ULE: bb("bvule"); break; case O_SLT: bb("bvslt"); break; case O_SLE: bb("bvsle"); break;
      case O_FEQ: case O_FLT: case O_FLE:
        if (bitsOk(e->a[0]) && bitsOk(e->a[1])) d = bcmp(e->op == O_FEQ ? "feq" : e->op == O_FLT ? "flt" : "fle", e->a[0], e->a[1]);
        else ff(e->op == O_FEQ ? "fp.eq" : e->op == O_FLT ? "fp.lt" : "fp.leq");
        break;
      case O_FISNAN: if (bitsOk(e->a[0])) { d = bcmp("nan", e->a[0], nullptr); break; } d = "(fp.isNaN " + fp(e->a[0]) + ")"; break;
      case O_ITE: { std::string p = bo(e->a[0]), a = bo(e->a[1]), b = bo(e->a[2]); d = "(ite " + p + " " + a + " " + b + ")"; break; }
      default: d = "(= " + bv(e) + " #b1)";
    }
    o << "(define-fun " << nm << " () Bool " << d << ")\n"; pdone[e] = 1; return nm;
  }
  void ufAxioms() {
    for (size_t i = 0; i < ufs.size(); i++) {  // may grow while encoding arguments
      E e = ufs[i]; std::string u, a, b;
      if (e->aux == U_MT) { bv(e->a[0]); bv(e->a[1]); o << "(assert (bvult " << bv(e) << " " << bvc((u128)0xffffff00u, e->w) << "))\n"; continue; }
      if (e->w != 32 && e->w != 64) { bad = true; return; }
      u = fp(e); a = fp(e->a[0]); if (e->a[1]) b = fp(e->a[1]);
      auto fc = [&](double v) { return fp(K(fromLd(v, e->w), e->w)); };
      switch (e->aux) {
        case U_SIN: case U_COS: o << "(assert (ite (or (fp.isNaN " << a << ") (fp.isInfinite " << a << ")) (fp.isNaN " << u << ") (and (fp.leq " << u << " " << fc(1) << ") (fp.leq " << fc(-1) << " " << u << "))))\n"; break;
        case U_EXP: case U_EXP2: case U_EXP10: o << "(assert (ite (fp.isNaN " << a << ") (fp.isNaN " << u << ") (fp.leq " << fc(0) << " " << u << ")))\n"; break;
        case U_POW: o << "(assert (=> (and (fp.lt " << fc(0) << " " << a << ") (not (fp.isNaN " << b << "))) (fp.leq " << fc(0) << " " << u << ")))\n";
          o << "(assert (=> (and (fp.lt " << fc(1) << " " << a << ") (fp.leq " << b << " " << fc(0) << ")) (fp.leq " << u << " " << fc(1) << ")))\n";
          o << "(assert (=> (and (fp.lt " << fc(1) << " " << a << ") (fp.leq " << fc(0) << " " << b << ")) (fp.leq " << fc(1) << " " << u << ")))\n"; break;
        case U_LOG: case U_LOG2: case U_LOG10: o << "(assert (= (fp.isNaN " << u << ") (or (fp.isNaN " << a << ") (fp.lt " << a << " " << fc(0) << "))))\n";
          o << "(assert (=> (fp.leq " << fc(1) << " " << a << ") (fp.leq " << fc(0) << " " << u << ")))\n(assert (=> (and (fp.leq " << a << " " << fc(1) << ") (fp.leq " << fc(0) << " " << a << ")) (fp.leq " << u << " " << fc(0) << ")))\n"; break;
        case U_FMOD: case U_REMAINDER:
          o << "(assert (= (fp.isNaN " << u << ") (or (fp.isNaN " << a << ") (fp.isNaN " << b << ") (fp.isInfinite " << a << ") (fp.isZero " << b << "))))\n";
          o << "(assert (=> (not (fp.isNaN " << u << ")) (fp." << (e->aux == U_FMOD ? "lt" : "leq") << " (fp.abs " << u << ") (fp.abs " << b << "))))\n";
          o << "(assert (=> (not (fp.isNaN " << u << ")) (fp.leq (fp.abs " << u << ") (fp.abs " << a << "))))\n";
          if (e->aux == U_FMOD) o << "(assert (=> (fp.lt (fp.abs " << a << ") (fp.abs " << b << ")) (= " << u << " " << a << ")))\n(assert (=> (not (fp.isNaN " << u << ")) (= (fp.isNegative " << u << ") (fp.isNegative " << a << "))))\n";
          else o << "(assert (=> (not (fp.isNaN " << u << ")) (fp.leq (fp.abs (fp.add RNE " << u << " " << u << ")) (fp.abs " << b << "))))\n(assert (=> (fp.lt (fp.abs (fp.add RNE " << a << " " << a << ")) (fp.abs " << b << ")) (= " << u << " " << a << ")))\n";
          break;
        default: break;
      }
    }
    // congruence
    size_t n = ufs.size(); if (n <= 24)
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) {
      E x = ufs[i], y = ufs[j]; if (x->aux != y->aux || x->w != y->w) continue;
      bool isMt = x->aux == U_MT; auto t = [&](E e) { return isMt ? bv(e) : fp(e); };
      std::string c = "(= " + t(x->a[0]) + " " + t(y->a[0]) + ")";
      if (x->a[1]) c = "(and " + c + " (= " + t(x->a[1]) + " " + t(y->a[1]) + "))";
      o << "(assert (=> " << c << " (= " << t(x) << " " << t(y) << ")))\n";
    }
  }
};

static u128 parseBv(const std::string& s) {
  u128 v = 0;
  if (s.size() > 2 && s[0] == '#' && s[1] == 'x') { for (size_t i = 2; i < s.size(); i++) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); }
  else if (s.size() > 2 && s[0] == '#' && s[1] == 'b') { for (size_t i = 2; i < s.size(); i++) v = v * 2 + (s[i] - '0'); }
  else for (char c : s) if (isdigit(c)) v = v * 10 + (c - '0');
  return v;
}

// wall-clock limit of an in-process query: SIGALRM asks z3 to stop, again and again until it does
static Z3_context g_z3ctx = nullptr;
static void onAlarm(int) { if (g_z3ctx) Z3_interrupt(g_z3ctx); }
static void armZ3(Z3_context c, double secs) {
  g_z3ctx = c; struct sigaction sa{}; sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  itimerval t{}; if (c) { t.it_value.tv_sec = (time_t)secs; t.it_value.tv_usec = (suseconds_t)((secs - (time_t)secs) * 1e6) + 1; t.it_interval.tv_usec = 200000; }
  setitimer(ITIMER_REAL, &t, nullptr);
}

// first a light tactic (most queries are small: setting up z3's full preprocessing costs more than solving them), then the full one
Res Solver::z3Query(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs, bool fp) {
  double t0 = nowSec(); st.z3n++;
  if (getenv("HSE_DUMPQ")) { std::ofstream f(std::string(getenv("HSE_DUMPQ")) + "/" + std::to_string(getpid()) + "_" + std::to_string(st.z3n) + ".smt2"); f << smt; }
  Res r = fp ? R_UNKNOWN : z3Try(smt, names, vals, std::min(0.4, secs), {"simplify", "fpa2bv", "propagate-values", "simplify", "bit-blast", "sat"});
  if (r == R_UNKNOWN) r = z3Try(smt, names, vals, secs, {fp ? "qffpbv" : "qfbv"});
  st.z3t += nowSec() - t0;
  return r;
}
Res Solver::z3Try(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs, const std::vector<const char*>& tactics) {
  Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(c, [](Z3_context, Z3_error_code) {});
  Res r = R_UNKNOWN;
  Z3_ast_vector av = Z3_parse_smtlib2_string(c, smt.c_str(), 0, nullptr, nullptr, 0, nullptr, nullptr);
  if (Z3_get_error_code(c) == Z3_OK && av) {
    Z3_ast_vector_inc_ref(c, av);
    std::vector<Z3_tactic> held; auto hold = [&](Z3_tactic t) { Z3_tactic_inc_ref(c, t); held.push_back(t); return t; };
    Z3_tactic tac = hold(Z3_mk_tactic(c, tactics.back()));
    for (size_t i = tactics.size() - 1; i-- > 0;) tac = hold(Z3_tactic_and_then(c, hold(Z3_mk_tactic(c, tactics[i])), tac));
    Z3_solver s = Z3_mk_solver_from_tactic(c, tac); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), (unsigned)(secs * 3e6));
    Z3_solver_set_params(c, s, p);
    for (unsigned i = 0; i < Z3_ast_vector_size(c, av); i++) Z3_solver_assert(c, s, Z3_ast_vector_get(c, av, i));
    armZ3(c, secs); Z3_lbool b = Z3_solver_check(c, s); armZ3(nullptr, 0);
    if (b == Z3_L_FALSE) r = R_UNSAT;
    else if (b == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(c, s);
      if (m) {
        Z3_model_inc_ref(c, m); r = R_SAT; std::unordered_map<std::string, u128> got;
        unsigned n = Z3_model_get_num_consts(c, m);
        for (unsigned i = 0; i < n; i++) {
          Z3_func_decl d = Z3_model_get_const_decl(c, m, i); std::string nm = Z3_get_symbol_string(c, Z3_get_decl_name(c, d));
          Z3_ast v = Z3_model_get_const_interp(c, m, d); if (!v) continue;
          if (Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) got[nm] = parseBv(Z3_get_numeral_string(c, v));
        }
        vals.clear(); for (auto& x : names) vals.push_back(got.count(x) ? got[x] : 0);
        Z3_model_dec_ref(c, m);
      }
    }
    Z3_solver_dec_ref(c, s); for (auto t : held) Z3_tactic_dec_ref(c, t); Z3_params_dec_ref(c, p); Z3_ast_vector_dec_ref(c, av);
  } else if (dump) fprintf(stderr, "z3 parse error: %s\n%s\n", Z3_get_error_msg(c, Z3_get_error_code(c)), smt.c_str());
  Z3_del_context(c);
  return r;
}

Res Solver::extQuery(const std::string& smt, const std::vector<std::string>& names, std::vector<u128>& vals, double secs) {
  double t0 = nowSec(); st.extn++;
  std::string base = tmpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(st.extn), file = base + ".smt2";
  { std::ofstream f(file); f << "(set-option :produce-models true)\n(set-logic QF_BVFP)\n" << smt << "(check-sat)\n"; if (!names.empty()) { f << "(get-value ("; for (auto& n : names) f << n << " "; f << "))\n"; } }
  struct P { pid_t pid; std::string out; bool done; }; std::vector<P> ps;
  for (int k = 0; k < 2; k++) {
    std::string out = base + (k ? ".c" : ".z"); pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
      alarm((unsigned)secs + 5);
      std::string tl = "--tlimit=" + std::to_string((int)(secs * 1000)), tz = "-T:" + std::to_string((int)secs + 1);
      if (k) execl(cvc5bin.c_str(), "cvc5", "--lang=smt2", "--bv-sat-solver=cadical", tl.c_str(), file.c_str(), (char*)nullptr);
      else execl(z3bin.c_str(), "z3", "-smt2", tz.c_str(), "-memory:6000", file.c_str(), (char*)nullptr);
      _exit(127);
    }
    ps.push_back({p, out, false});
  }
  Res r = R_UNKNOWN; int live = 2; double end = t0 + secs + 3;
  while (live && r == R_UNKNOWN) {
    bool any = false;
    for (auto& p : ps) if (!p.done) {
      int stt; pid_t q = waitpid(p.pid, &stt, WNOHANG); if (q != p.pid) continue;
      p.done = true; live--; any = true;
      std::ifstream f(p.out); std::string line, all; std::getline(f, line); std::stringstream ss; ss << f.rdbuf(); all = ss.str();
      if (line == "unsat") { r = R_UNSAT; break; }
      if (line == "sat") {
        std::unordered_map<std::string, u128> got; std::string tok; std::vector<std::string> toks;
        for (char ch : all) { if (ch == '(' || ch == ')' || isspace((unsigned char)ch)) { if (!tok.empty()) toks.push_back(tok); tok.clear(); } else tok += ch; }
        for (size_t i = 0; i + 1 < toks.size(); i += 2) got[toks[i]] = parseBv(toks[i + 1]);
        bool ok = true; vals.clear(); for (auto& x : names) { if (!got.count(x)) ok = false; vals.push_back(got[x]); }
        if (ok) { r = R_SAT; break; }
      }
    }
    if (r != R_UNKNOWN) break;
    if (nowSec() > end) break;
    if (!any) usleep(3000);
  }
  for (auto& p : ps) { if (!p.done) { kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0); } unlink(p.out.c_str()); }
  if (!dump) unlink(file.c_str());
  st.extt += nowSec() - t0;
  return r;
}

// Cheap search for a model before a solver is asked: special values, the constants of the constraints and their neighbours,
// equal values.  A guess is only taken when it satisfies every constraint, so it can never change a verdict, only save time.
bool Solver::guess(const std::vector<E>& cs, const std::vector<u32>& vars, const Model& base, Model& out) {
  if (vars.empty() || vars.size() > 64) return false;
  std::unordered_set<E> seen; std::vector<E> st2(cs.begin(), cs.end()); std::vector<std::pair<int, u128>> mined; std::unordered_set<std::string> have;
  auto add = [&](int w, u128 v) { std::string k = std::to_string(w) + ":" + std::to_string((u64)v); if (have.insert(k).second) mined.push_back({w, v}); };
  while (!st2.empty()) { E e = st2.back(); st2.pop_back(); if (!seen.insert(e).second) continue; if (seen.size() > 4000) return false; if (e->op == O_CONST && (e->w == 32 || e->w == 64) && mined.size() < 48) add(e->w, e->c); for (int i = 0; i < 3; i++) if (e->a[i]) st2.push_back(e->a[i]); }
  auto fb = [](float f) { u32 u; memcpy(&u, &f, 4); return (u128)u; }; auto db = [](double d) { u64 u; memcpy(&u, &d, 8); return (u128)u; };
  std::vector<u128> c32, c64, cb{0, 1, 2, 3, 255, 128, 127};
  for (double d : std::initializer_list<double>{0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 1e-7, -1e-7, 1e-30, 100.0, -100.0, 1e30, -1e30, HUGE_VAL, -HUGE_VAL, (double)NAN}) { c32.push_back(fb((float)d)); c64.push_back(db(d)); }
  for (auto& m : mined) {
    if (m.first == 32) { float f; u32 u = (u32)m.second; memcpy(&f, &u, 4); for (int k = -1; k <= 1; k++) c32.push_back((u32)(u + k)); c32.push_back((u32)(u ^ 0x80000000u)); c64.push_back(db(f)); cb.push_back(m.second); }
    else { double d; u64 u = (u64)m.second; memcpy(&d, &u, 8); for (int k = -1; k <= 1; k++) { c64.push_back(u + k); cb.push_back(u + k); } c64.push_back(u ^ (1ull << 63)); if (d == d) { float f = (float)d; u32 x; memcpy(&x, &f, 4); for (int k = -1; k <= 1; k++) c32.push_back((u32)(x + k)); } }
  }
  auto cand = [&](u32 v) -> std::vector<u128>& { auto& i = g_vars[v]; return i.isF ? (i.w == 32 ? c32 : c64) : cb; };
  auto clip = [&](u32 v, u128 x) { int w = g_vars[v].w; return w >= 128 ? x : x & ((((u128)1) << w) - 1); };
  // order: constraints not yet satisfied decide which variables move; later (newer) constraints first
  double t0 = nowSec(); int evals = 0; const int maxEv = 120; double maxT = 0.008;
  Model cur = base; for (u32 v : vars) cur.set(v, base.get(v));
  auto score = [&](const Model& m) { evals++; Evaluator ev(m); size_t n = 0; for (E e : cs) n += ev.ev(e) != 0; return n; };
  size_t best = score(cur); if (best == cs.size()) { out = cur; return true; }
  for (int round = 0; round < 3; round++) {
    bool moved = false;
    for (size_t vi = vars.size(); vi-- > 0;) {
      u32 v = vars[vi]; std::vector<u128> tr = cand(v);
      for (u32 o2 : vars) if (o2 != v && g_vars[o2].w == g_vars[v].w && tr.size() < 90) { u128 x = cur.get(o2); tr.push_back(x); }
      for (u128 x : tr) {
        if (evals > maxEv || nowSec() - t0 > maxT) return false;
        x = clip(v, x); if (x == cur.get(v)) continue; Model m = cur; m.set(v, x); size_t s = score(m);
        if (s == cs.size()) { out = m; return true; }
        if (s > best) { best = s; cur = m; moved = true; }
      }
    }
    if (!moved) return false;
  }
  return false;
}

// Is `goal` impossible under the constraints by first-order error bounds?  Splits on undecided choices inside the goal.
static void conj(E c, bool t, std::vector<E>& out) {
  if (c->w == 1 && c->op == O_XOR && isC(c->a[1], 1)) { conj(c->a[0], !t, out); return; }
  if (c->w == 1 && (t ? c->op == O_AND : c->op == O_OR)) { conj(c->a[0], t, out); conj(c->a[1], t, out); return; }
  out.push_back(t ? c : mkNot(c));
}
static void iteConds(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
  if (!seen.insert(e).second || out.size() > 16) return;
  if (e->op == O_ITE && e->w > 1) out.push_back(e->a[0]);
  for (int i = 0; i < 3; i++) if (e->a[i]) iteConds(e->a[i], seen, out);
}
static void remNodes(E e, std::unordered_set<E>& seen, std::vector<E>& out) {
  if (!seen.insert(e).second || out.size() > 4) return;
  if (e->op == O_UF && (e->aux == U_REMAINDER || e->aux == U_FMOD) && isC(e->a[1]) && (e->w == 32 || e->w == 64)) out.push_back(e);
  for (int i = 0; i < 3; i++) if (e->a[i]) remNodes(e->a[i], seen, out);
}
bool Solver::refute(const std::vector<E>& cs, E goal, int depth, const std::unordered_map<E, double>& period) {
  std::vector<E> gs; conj(goal, true, gs); if (gs.size() > 8) return false;
  for (size_t i = 0; i < gs.size(); i++) {
    Ranges rg; rg.affine = true; rg.period = period; for (int pass = 0; pass < 2; pass++) { for (E e : cs) if (e != goal) rg.learn(e, true); for (size_t j = 0; j < gs.size(); j++) if (j != i) rg.learn(gs[j], true); }
    std::vector<E> known; for (auto& x : rg.ffact) known.push_back(x.first);
    for (E e : known) { FRng q = rg.f(e); if (q.lo > q.hi && !q.nan) return true; }
    if (rg.decide(gs[i]) == 0) return true;
    if (depth > 0) {
      std::unordered_set<E> seen, seen2; std::vector<E> ic, rn; iteConds(gs[i], seen, ic); remNodes(gs[i], seen2, rn); int tried = 0;
      for (E e : rn) { double k0, k1; if (period.count(e) || !periods(rg, e, k0, k1) || k0 == k1) continue;
        bool all = true; for (double k = k0; k <= k1 && all; k++) { auto pp = period; pp[e] = k; all = refute(cs, goal, depth, pp); }
        return all; }
      for (E c : ic) if (rg.decide(c) < 0) {
        auto a = cs; a.push_back(c); auto b = cs; b.push_back(mkNot(c));
        if (refute(a, goal, depth - 1, period) && refute(b, goal, depth - 1, period)) return true;
        if (++tried == 3) break;
      }
    }
  }
  return false;
}

// does the expression need floating-point arithmetic (anything but comparisons, sign changes and choices)?
static bool arith(E e) {
  static std::unordered_map<E, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = e->op == O_UF || e->op == O_FTOSI || e->op == O_FTOUI || (isFpResult(e->op) && e->op != O_FNEG && e->op != O_FABS);
  for (int i = 0; i < 3 && !r; i++) if (e->a[i]) r = arith(e->a[i]);
  return memo[e] = r;
}

Res Solver::solve(const std::vector<E>& cs0, Model& out, const Model& base, const SolveOpts& o) {
  st.queries++;
  std::vector<E> cs; for (E e : cs0) { if (isC(e)) { if (!e->c) { st.trivial++; return R_UNSAT; } continue; } cs.push_back(e); }
  if (cs.empty()) { out = base; st.trivial++; return R_SAT; }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::unordered_set<E> seen; std::vector<u32> vars; for (E e : cs) collectVars(e, seen, vars);
  auto holds = [&](const Model& m) { Evaluator ev(m); for (E e : cs) if (!ev.ev(e)) return false; return true; };
  auto overlay = [&](const Model& m) { Model r = base; for (u32 v : vars) r.set(v, m.get(v)); return r; };
  for (size_t i = pool.size(); i-- > 0 && i + 12 > pool.size();) { Model m = overlay(pool[i]); if (holds(m)) { out = m; st.pool++; st.sat++; return R_SAT; } }
  if (guess(cs, vars, base, out)) { pool.push_back(out); st.pool++; st.sat++; return R_SAT; }
  std::string key; for (E e : cs) key += std::to_string(e->id) + ",";
  if (cacheUnsat.count(key)) { st.cache++; st.unsat++; return R_UNSAT; }
  if (o.goal && !arith(o.goal)) {   // the constraints without arithmetic often decide already
    std::vector<E> easy; for (E e : cs) if (!arith(e)) easy.push_back(e);
    if (easy.size() < cs.size()) {
      SolveOpts o2 = o; o2.goal = nullptr; Model m; auto keep = st; Res r = solve(easy, m, base, o2); double z = st.z3t, x = st.extt; u64 zn = st.z3n, xn = st.extn; st = keep; st.z3t = z; st.extt = x; st.z3n = zn; st.extn = xn;
      if (r == R_UNSAT) { st.unsat++; cacheUnsat[key] = 1; return r; }
      if (r == R_SAT && holds(m)) { out = m; st.sat++; return r; }
    }
  }
  if (o.goal && arith(o.goal) && refute(cs, o.goal, 3, {})) { st.interval++; st.unsat++; cacheUnsat[key] = 1; return R_UNSAT; }
  {   // remainder / fmod by a constant are exact: argument minus a whole number of divisors, known up to a few periods from the argument's interval
    Ranges rg; for (E e : cs) rg.learn(e, true);
    std::vector<E> extra;
    for (E e : seen) if (e->op == O_UF && (e->aux == U_REMAINDER || e->aux == U_FMOD) && isC(e->a[1])) {
      double b = std::fabs(fval(e->a[1])); FRng r = rg.f(e->a[0]); if (r.nan || !(b > 0) || !(b < INF) || !(r.lo <= r.hi) || std::fabs(r.lo) > 1e5 * b || std::fabs(r.hi) > 1e5 * b) continue;
      auto per = [&](double x) { return e->aux == U_FMOD ? std::trunc(x / b) : std::rint(x / b); };
      double k0 = per(r.lo) , k1 = per(r.hi); if (k0 > k1 || k1 - k0 > 2) continue;
      double ulp = std::ldexp(std::max(std::max(std::fabs(r.lo), std::fabs(r.hi)), b), w32(e) ? -22 : -50); E ok = KB(false);
      for (double k = k0; k <= k1; k++) { E t = k == 0 ? e->a[0] : mk(O_FSUB, e->w, 0, e->a[0], K(fromLd(k * b, e->w), e->w)); ok = mkOr(ok, k == 0 ? mkOr(mkEq(e, t), mk(O_FEQ, 1, 0, e, t)) : mk(O_FLE, 1, 0, mk(O_FABS, e->w, 0, mk(O_FSUB, e->w, 0, e, t)), K(fromLd(ulp, e->w), e->w))); }
      extra.push_back(ok);
    }
    for (E e : extra) if (!isC(e)) cs.push_back(e);
  }
  Enc en; std::string asserts;
  for (E e : cs) { std::string p = en.bo(e); asserts += "(assert " + p + ")\n"; }
  en.ufAxioms();
  if (en.bad) { st.unknown++; return R_UNKNOWN; }
  std::vector<std::string> names; for (u32 v : en.vars) names.push_back("v" + std::to_string(v));
  size_t nv = names.size(); for (E u : en.ufs) names.push_back("b" + std::to_string(u->id));
  std::vector<u128> vals; std::string lemmas;
  double tEnd = nowSec() + o.z3Secs + o.extSecs + 1;
  for (int it = 0; it < 12; it++) {
    std::string smt = en.o.str() + asserts + lemmas;
    Res r = z3Query(smt, names, vals, o.z3Secs, en.usesFp);
    if (r == R_UNKNOWN && o.extSecs > 0) r = extQuery(smt, names, vals, o.extSecs);
    if (r == R_UNSAT) { st.unsat++; cacheUnsat[key] = 1; return R_UNSAT; }
    if (r == R_UNKNOWN) break;
    Model m = base; for (size_t i = 0; i < nv; i++) m.set(en.vars[i], vals[i]);
    if (holds(m)) { out = m; pool.push_back(m); st.sat++; return R_SAT; }
    if (en.ufs.empty()) { st.mismatch++; if (dump) { fprintf(stderr, "MISMATCH\n%s", smt.c_str()); } break; }
    // refine with true values of the transcendental functions at the model's arguments
    std::unordered_map<E, u128> ov; for (size_t i = 0; i < en.ufs.size(); i++) ov[en.ufs[i]] = vals[nv + i];
    bool added = false;
    for (E u : en.ufs) {
      Evaluator ev(m); ev.ufOverride = &ov; u128 x[2] = {ev.ev(u->a[0]), u->a[1] ? ev.ev(u->a[1]) : 0};
      u128 tv = ufTrue(u->aux, u->w, x); bool isMt = u->aux == U_MT;
      bool same = ov[u] == tv; if (!isMt && !same) { same = evalOp(O_FISNAN, 1, 0, u->w, tv, 0, 0, 0) && evalOp(O_FISNAN, 1, 0, u->w, ov[u], 0, 0, 0); }
      if (same) continue;
      auto t = [&](E e) { return isMt ? en.bv(e) : en.fp(e); };
      std::string c = "(= " + t(u->a[0]) + " " + t(K(x[0], u->a[0]->w)) + ")";
      if (u->a[1]) c = "(and " + c + " (= " + t(u->a[1]) + " " + t(K(x[1], u->a[1]->w)) + "))";
      lemmas += "(assert (=> " + c + " (= " + t(u) + " " + t(K(tv, u->w)) + ")))\n"; added = true; st.ufLemmas++;
    }
    if (!added || nowSec() > tEnd) break;
  }
  st.unknown++;
  return R_UNKNOWN;
}
