// Random soundness test of the interval and error-form analyses: every fact learnt holds at a chosen point, so every conclusion must.
#include "solver.hpp"
#include <random>
static std::mt19937_64 rng(1);
static u64 R(u64 n) { return rng() % n; }
static double U(double a, double b) { return a + (b - a) * (double)(rng() >> 11) / 9007199254740992.0; }
static double num() { switch (R(9)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return U(-1e-6, 1e-6); case 4: return U(-1e6, 1e6); case 5: return std::ldexp(U(1, 2), (int)R(200) - 100); case 6: return U(-8, 8); case 7: return (double)(i64)U(-100, 100); default: return U(-1, 1); } }
static E fk(double v, int w) { return K(fromLd(v, w), w); }
int main(int argc, char** argv) {
  long n = argc > 1 ? atol(argv[1]) : 20000, nodes = 0, tight = 0, exact = 0, bad = 0; rng.seed(argc > 2 ? atol(argv[2]) : 1);
  for (long it = 0; it < n && bad < 10; it++) {
    Model m; std::vector<E> f[3], iv, bo; 
    Ranges r[2]; r[1].affine = true; std::vector<std::pair<E, bool>> facts;
    for (int w : {32, 64}) for (int i = 0; i < 3; i++) {
      E v = mkVar("v" + std::to_string(it) + "_" + std::to_string(w) + "_" + std::to_string(i), w, true, true); double x = num(); m.set(v->aux, fromLd(x, w)); x = (double)asLd(fromLd(x, w), w);
      double d = R(3) ? std::fabs(num()) : 1e-3, lo = R(3) ? x - d * U(0, 1) : x, hi = R(3) ? x + d * U(0, 1) : x; auto down = [&](double q) { return w == 32 ? (double)std::nextafter((float)q, -HUGE_VALF) : q; }; auto up = [&](double q) { return w == 32 ? (double)std::nextafter((float)q, HUGE_VALF) : q; };
      lo = std::min(down(lo), x); hi = std::max(up(hi), x);
      if (R(5)) { facts.push_back({mk(O_FLE, 1, 0, fk(lo, w), v), true}); facts.push_back({mk(O_FLE, 1, 0, v, fk(hi, w)), true}); }
      f[w == 64].push_back(v); f[w == 64].push_back(fk(num(), w)); if (i == 0) f[2].push_back(mk(O_FTOF, 80, 0, v)); f[2].push_back(K(fromLd((ld)num() / 3, 80), 80));
    }
    for (int i = 0; i < 2; i++) { E v = mkVar("i" + std::to_string(it) + "_" + std::to_string(i), 64, true, false); u64 x = R(2) ? R(20) : rng(); m.set(v->aux, x); u64 d = R(50); if (R(4)) { facts.push_back({mk(O_ULE, 1, 0, K(x > d ? x - d : 0, 64), v), true}); facts.push_back({mk(O_ULE, 1, 0, v, K(x + d < x ? x : x + d, 64)), true}); } iv.push_back(v); iv.push_back(K(R(10) + 1, 64)); }
    Evaluator ev(m);
    auto any = [&](int k) { return f[k][R(f[k].size())]; }; auto anyi = [&] { return iv[R(iv.size())]; };
    for (int i = 0; i < 24; i++) {
      int k = (int)R(3), w = k == 2 ? 80 : k ? 64 : 32; E e = nullptr; u64 op = R(30); if (k == 2 && op >= 17 && op <= 19) op = 3;
      switch (op) {
        case 0: case 1: case 2: e = mk(O_FADD, w, 0, any(k), any(k)); break;
        case 3: case 4: e = mk(O_FSUB, w, 0, any(k), any(k)); break;
        case 5: case 6: e = mk(O_FMUL, w, 0, any(k), any(k)); break;
        case 7: e = mk(O_FDIV, w, 0, any(k), any(k)); break;
        case 8: e = mk(O_FDIV, w, 0, any(k), fk(num(), w)); break;
        case 9: e = mk(O_FMUL, w, 0, any(k), fk(num(), w)); break;
        case 10: e = mk(O_FNEG, w, 0, any(k)); break;
        case 11: e = mk(O_FABS, w, 0, any(k)); break;
        case 12: e = mk(O_FSQRT, w, 0, any(k)); break;
        case 13: e = mk(O_FRINT, w, (u32)R(5), any(k)); break;
        case 14: e = mk(O_FTOF, w, 0, any((int)(k + 1 + R(2)) % 3)); break;
        case 26: e = mk(O_UITOF, w, 0, anyi()); break;
        case 15: e = mk(O_SITOF, w, 0, anyi()); break;
        case 16: e = mk(O_UITOF, w, 0, anyi()); break;
        case 17: { u32 u[] = {U_SIN, U_COS, U_TANH, U_EXP, U_LOG, U_LOG10, U_LOG2}; e = mkUf(u[R(7)], w, {any(k)}); break; }
        case 18: e = mkUf(U_POW, w, {R(2) ? fk(10, w) : any(k), any(k)}); break;
        case 19: e = mkUf(R(2) ? U_FMOD : U_REMAINDER, w, {any(k), R(2) ? fk(6.28318530717958647692, w) : fk(1.5, w)}); break;
        case 27: case 28: {   // larger / smaller of two, with and without passing NaN on
          E x = any(k), y = any(k), c = mk(R(2) ? O_FLT : O_FLE, 1, 0, x, y); if (R(2)) c = mkOr(c, mk(O_FISNAN, 1, 0, R(2) ? x : y)); e = R(2) ? mkIte(c, x, y) : mkIte(c, y, x); break; }
        case 29: {   // the distance of two, the magnitude of one, compared
          E x = any(k), y = any(k), z = R(2) ? any(k) : fk(R(2) ? 0 : num(), w), d1 = mk(O_FSUB, w, 0, x, y), d2 = mk(O_FSUB, w, 0, y, x); if (R(2)) { y = fk(R(2) ? 0.0 : -0.0, w); d1 = x; d2 = R(2) ? mk(O_FNEG, w, 0, x) : mk(O_FSUB, w, 0, y, x); }
          E c = mk(R(2) ? O_FLT : O_FLE, 1, 0, y, x); Op cmp[] = {O_FLT, O_FLE, O_FEQ}, o = cmp[R(3)]; bool sw = R(2); e = mkIte(c, d1, d2); E b = sw ? mk(o, 1, 0, z, e) : mk(o, 1, 0, e, z);
          ld g = asLd(ev.ev(c) ? ev.ev(d1) : ev.ev(d2), w), h = asLd(ev.ev(z), w), l = sw ? h : g, q = sw ? g : h; if ((ev.ev(b) != 0) != (o == O_FLT ? l < q : o == O_FLE ? l <= q : l == q)) { bad++; printf("UNSOUND rewriting %s\n", exprStr(b, 9).c_str()); } bo.push_back(b); break; }
        case 20: if (!bo.empty()) e = mkIte(bo[R(bo.size())], any(k), any(k)); break;
        case 21: bo.push_back(mk(R(2) ? O_FLT : O_FLE, 1, 0, any(k), any(k))); break;
        case 22: bo.push_back(R(2) ? mk(O_FEQ, 1, 0, any(k), any(k)) : mk(O_FISNAN, 1, 0, any(k))); break;
        case 23: { Op o[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_AND}; iv.push_back(mk(o[R(6)], 64, 0, anyi(), anyi())); break; }
        case 24: { Op o[] = {O_EQ, O_ULT, O_ULE, O_SLT, O_SLE}; bo.push_back(mk(o[R(5)], 1, 0, anyi(), anyi())); break; }
        default: if (!bo.empty()) bo.push_back(R(2) ? mkNot(bo[R(bo.size())]) : mk(R(2) ? O_AND : O_OR, 1, 0, bo[R(bo.size())], bo[R(bo.size())])); else iv.push_back(mkIte(mk(O_ULT, 1, 0, anyi(), anyi()), anyi(), anyi())); break;
      }
      if (e) f[k].push_back(e);
    }
    for (E b : bo) if (R(3) == 0) facts.push_back({b, ev.ev(b) != 0});
    for (auto& q : r) for (int pass = 0; pass < 2; pass++) for (auto& c : facts) q.learn(c.first, c.second);
    for (int mode = 0; mode < 2; mode++) {
      Ranges& q = r[mode]; auto fail = [&](const char* what, E e) { bad++; printf("UNSOUND %s mode %d seed-iter %ld: %s\n", what, mode, it, exprStr(e, 9).c_str()); if (e->w == 32 || e->w == 64 || e->w == 80) { FRng g = q.f(e); printf("  value %.20g range [%.20g, %.20g] nan %d\n", (double)asLd(ev.ev(e), e->w), g.lo, g.hi, g.nan); } };
      for (int k = 0; k < 3; k++) for (E e : f[k]) {
        ld v = asLd(ev.ev(e), e->w); FRng g = q.f(e); nodes++;
        if (v != v ? !g.nan : !(v >= g.lo && v <= g.hi)) fail("float range", e);
        if (g.hi - g.lo < 1e-3) tight++;
        if (mode == 1) { const Aff& a = q.aff(e); if (a.ok && v == v && std::isfinite((double)v) && !g.nan && std::isfinite(g.lo) && std::isfinite(g.hi)) { __float128 s = a.c; bool ok = true; for (auto& t : a.t) { ld x = asLd(ev.ev(t.first), t.first->w); if (!std::isfinite((double)x)) ok = false; s += (__float128)t.second * x; } if (ok) { exact++; if (!(fabsl((long double)(s - v)) <= a.err * (1 + 1e-12L) + fabsl(v) * 1e-17L + 1e-4900L)) { fail("error form", e); printf("  form %.25Lg value %.25Lg err %.6Lg terms %zu\n", (long double)s, v, a.err, a.t.size()); } } } }
      }
      for (E e : iv) { u64 v = (u64)ev.ev(e); URng g = q.u(e); nodes++; if (v < g.lo || v > g.hi) fail("int range", e); }
      for (E e : bo) { int d = q.decide(e); nodes++; if (d >= 0 && d != (int)ev.ev(e)) fail("decision", e); }
    }
  }
  printf("%ld conclusions about %ld random terms' points, %ld tight ranges, %ld error forms, %ld unsound\n", nodes, n, tight, exact, bad);
  return bad != 0;
}
