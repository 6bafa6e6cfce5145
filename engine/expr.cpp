#include "expr.hpp"
#include <random>
#include <algorithm>

std::vector<VarInfo> g_vars;

namespace {
struct Key { Op op; u8 w; u32 aux; E a, b, c; u128 cv; };
struct H { size_t operator()(const Node* n) const {
  u64 h = n->op * 0x9E3779B97F4A7C15ull + n->w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(n->aux); for (int i = 0; i < 3; i++) mix(n->a[i] ? n->a[i]->id : 0); mix((u64)n->c); mix((u64)(n->c >> 64)); return h; } };
struct EqN { bool operator()(const Node* x, const Node* y) const { return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2] && x->c == y->c; } };
std::unordered_set<Node*, H, EqN>& table() { static auto* t = new std::unordered_set<Node*, H, EqN>(1 << 16); return *t; }
u32 g_next = 1;
}
int nArgs(E e) { int n = 0; while (n < 3 && e->a[n]) n++; return n; }

E mkRaw(Op op, int w, u32 aux, E a, E b, E c, u128 cv) {
  Node n; n.op = op; n.w = (u8)w; n.aux = aux; n.a[0] = a; n.a[1] = b; n.a[2] = c; n.c = cv; n.id = 0; n.hasUf = n.hasUninit = false;
  auto it = table().find(&n);
  if (it != table().end()) return *it;
  Node* p = new Node(n); p->id = g_next++;
  p->hasUf = op == O_UF; p->hasUninit = (op == O_VAR && !g_vars[aux].input);
  for (int i = 0; i < 3; i++) if (n.a[i]) { p->hasUf |= n.a[i]->hasUf; p->hasUninit |= n.a[i]->hasUninit; }
  table().insert(p);
  return p;
}
E mkVar(const std::string& name, int w, bool input, bool isF) {
  g_vars.push_back({name, w, input, isF});
  return mkRaw(O_VAR, w, (u32)g_vars.size() - 1);
}

template <class T> static T ufT(u32 fn, T a, T b) {
  switch (fn) {
    case U_SIN: return std::sin(a); case U_COS: return std::cos(a); case U_TAN: return std::tan(a); case U_EXP: return std::exp(a); case U_EXP2: return std::exp2(a);
    case U_EXP10: return sizeof(T) == 4 ? (T)exp10f((float)a) : sizeof(T) == 8 ? (T)::exp10((double)a) : (T)exp10l((long double)a);
    case U_LOG: return std::log(a); case U_LOG2: return std::log2(a); case U_LOG10: return std::log10(a);
    case U_POW: return std::pow(a, b); case U_FMOD: return std::fmod(a, b); case U_REMAINDER: return std::remainder(a, b); case U_TANH: return std::tanh(a);
    case U_ATAN: return std::atan(a); case U_ATAN2: return std::atan2(a, b); case U_EXPM1: return std::expm1(a); case U_LOG1P: return std::log1p(a); case U_HYPOT: return std::hypot(a, b);
    case U_CBRT: return std::cbrt(a); case U_ASIN: return std::asin(a); case U_ACOS: return std::acos(a); case U_SINH: return std::sinh(a); case U_COSH: return std::cosh(a);
  }
  abort();
}
u128 ufTrue(u32 fn, int w, const u128* x) {
  if (fn == U_MT) {  // (seed, index) -> index-th output of mt19937(seed)
    static std::unordered_map<u64, std::pair<std::mt19937*, std::vector<u32>>> cache;
    if (cache.size() > 64) cache.clear();
    auto& c = cache[(u64)x[0]];
    if (!c.first) c.first = new std::mt19937((std::mt19937::result_type)(u64)x[0]);
    if (x[1] > 1000000) return 0;
    while (c.second.size() <= (u64)x[1]) c.second.push_back((u32)(*c.first)());
    return c.second[(u64)x[1]];
  }
  if (w == 32) return f2bits<float>(ufT<float>(fn, bits2f<float>(x[0]), bits2f<float>(x[1])));
  if (w == 64) return f2bits<double>(ufT<double>(fn, bits2f<double>(x[0]), bits2f<double>(x[1])));
  return f2bits<ld>(ufT<ld>(fn, bits2f<ld>(x[0]), bits2f<ld>(x[1])));
}
E mkUf(u32 fn, int w, const std::vector<E>& args) {
  bool allc = true; u128 x[2] = {0, 0};
  for (size_t i = 0; i < args.size(); i++) { allc &= isC(args[i]); x[i] = args[i]->c; }
  if (allc) return K(ufTrue(fn, w, x), w);
  return mkRaw(O_UF, w, fn, args[0], args.size() > 1 ? args[1] : nullptr);
}
E mkNot(E a) { return mk(O_XOR, a->w, 0, a, K(maskw(a->w), a->w)); }
static bool isNot(E e) { return e->op == O_XOR && isC(e->a[1], maskw(e->w)); }
static bool isFpW(int w) { return w == 32 || w == 64 || w == 80; }
static u128 fpOne(int w) { return w == 32 ? f2bits(1.0f) : w == 64 ? f2bits(1.0) : f2bits((ld)1); }
static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ || o == O_FADD || o == O_FMUL || o == O_FEQ; }
static bool neverNan(E e, int d = 0) {
  if (e->op == O_SITOF || e->op == O_UITOF) return true;
  if (isC(e)) return !evalOp(O_FISNAN, 1, 0, e->w, e->c, 0, 0, 0);
  if (d < 6) {
    if (e->op == O_FTOF || e->op == O_FNEG || e->op == O_FABS) return neverNan(e->a[0], d + 1);
    if (e->op == O_ITE) return neverNan(e->a[1], d + 1) && neverNan(e->a[2], d + 1);
  }
  return false;
}

static void cuts(E e, int at, std::vector<int>& out) {
  if (e->op == O_CONCAT) { out.push_back(at + e->a[1]->w); cuts(e->a[0], at + e->a[1]->w, out); cuts(e->a[1], at, out); }
  else if (e->op == O_ZEXT) { out.push_back(at + e->a[0]->w); cuts(e->a[0], at, out); }
}
// the or of values with disjoint known-zero parts is their concatenation
static E orParts(E a, E b, int w) {
  std::vector<int> p{0, w}; cuts(a, 0, p); cuts(b, 0, p); if (p.size() == 2 || p.size() > 34) return nullptr;
  std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
  E r = nullptr;
  for (size_t i = p.size() - 1; i-- > 0;) {
    E x = mkExtract(a, p[i], p[i + 1] - p[i]), y = mkExtract(b, p[i], p[i + 1] - p[i]), z = isC(x, 0) ? y : isC(y, 0) ? x : nullptr;
    if (!z) return nullptr;
    r = r ? mkConcat(r, z) : z;
  }
  return r;
}

// Choices that are an absolute value up to the sign of zero: y < x ? x - y : y - x, x < 0 ? -x : x
static E absChoice(E e) {
  if (e->op == O_FTOF && e->a[0]->w < e->w) { E x = absChoice(e->a[0]); return x == e->a[0] ? e : mk(O_FTOF, e->w, 0, x); }
  if (e->op != O_ITE || (e->a[0]->op != O_FLT && e->a[0]->op != O_FLE)) return e;
  E l = e->a[0]->a[0], r = e->a[0]->a[1], t = e->a[1], o = e->a[2];
  auto neg = [](E n, E x) { return (n->op == O_FNEG && n->a[0] == x) || (n->op == O_FSUB && isC(n->a[0]) && (n->a[0]->c << 1 & maskw(n->w)) == 0 && n->a[1] == x); };
  if (t->op == O_FSUB && o->op == O_FSUB && t->a[0] == o->a[1] && t->a[1] == o->a[0] && l == t->a[1] && r == t->a[0]) return mk(O_FABS, e->w, 0, t);
  auto zero = [](E x) { return isC(x) && (x->c << 1 & maskw(x->w)) == 0; };
  if (zero(r) && l == o && neg(t, o)) return mk(O_FABS, e->w, 0, o);
  if (zero(l) && r == t && neg(o, t)) return mk(O_FABS, e->w, 0, t);
  return e;
}
E mk(Op op, int w, u32 aux, E a, E b, E c) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) return K(evalOp(op, w, aux, a->w, a->c, b ? b->c : 0, c ? c->c : 0, b ? b->w : 0), w);
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
    case O_ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == O_ADD && isC(a->a[1])) return mk(O_ADD, w, 0, a->a[0], K(a->a[1]->c + b->c, w));
      if (isC(b) && a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], K(a->a[1]->c + b->c, w), K(a->a[2]->c + b->c, w));
      if (a->op == O_SUB && a->a[1] == b) return a->a[0];
      if (b->op == O_SUB && b->a[1] == a) return b->a[0];
      if (w == 1) return mk(O_XOR, 1, 0, a, b);
      break;
    case O_SUB:
      if (isC(b, 0)) return a;
      if (a == b) return K(0, w);
      if (isC(b)) return mk(O_ADD, w, 0, a, K(-b->c, w));
      if (a->op == O_ADD && a->a[0] == b) return a->a[1];
      if (a->op == O_ADD && a->a[1] == b) return a->a[0];
      break;
    case O_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) s++; return mk(O_SHL, w, 0, a, K(s, w)); }
      break;
    case O_UDIV: if (isC(b, 1)) return a; if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) s++; return mk(O_LSHR, w, 0, a, K(s, w)); } break;
    case O_SDIV: if (isC(b, 1)) return a; break;
    case O_UREM: if (isC(b, 1)) return K(0, w); if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mk(O_AND, w, 0, a, K(b->c - 1, w)); break;
    case O_AND:
      if (isC(b, 0)) return b;
      if (isC(b, maskw(w))) return a;
      if (a == b) return a;
      if (isNot(a) && a->a[0] == b) return K(0, w);
      if (isNot(b) && b->a[0] == a) return K(0, w);
      if (w == 1 && a->op == b->op && (a->op == O_FLE || a->op == O_FLT) && a->a[1] == b->a[1]) {   // x-y <= t and y-x <= t: |x-y| <= t
        E x = a->a[0], y = b->a[0];
        if ((x->op == O_FSUB && y->op == O_FSUB && x->a[0] == y->a[1] && x->a[1] == y->a[0]) || (x->op == O_FNEG && x->a[0] == y) || (y->op == O_FNEG && y->a[0] == x))
          return mk(a->op, 1, 0, mk(O_FABS, x->w, 0, x), a->a[1]);
      }
      if (w == 1) { if (a->op == O_AND && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == O_AND && (b->a[0] == a || b->a[1] == a)) return b; }
      if (isC(b) && w > 1 && (b->c & (b->c + 1)) == 0) { int k = 0; while ((b->c >> k) & 1) k++; return mkZext(mkExtract(a, 0, k), w); }
      break;
    case O_OR:
      if (isC(b, 0)) return a;
      if (isC(b, maskw(w))) return b;
      if (a == b) return a;
      if (isNot(a) && a->a[0] == b) return K(maskw(w), w);
      if (isNot(b) && b->a[0] == a) return K(maskw(w), w);
      if (w > 8) if (E r = orParts(a, b, w)) return r;
      break;
    case O_XOR:
      if (isC(b, 0)) return a;
      if (a == b) return K(0, w);
      if (isC(b) && a->op == O_XOR && isC(a->a[1])) return mk(O_XOR, w, 0, a->a[0], K(a->a[1]->c ^ b->c, w));
      if (w == 1 && isC(b, 1)) {
        if (a->op == O_ULT) return mk(O_ULE, 1, 0, a->a[1], a->a[0]);
        if (a->op == O_ULE) return mk(O_ULT, 1, 0, a->a[1], a->a[0]);
        if (a->op == O_SLT) return mk(O_SLE, 1, 0, a->a[1], a->a[0]);
        if (a->op == O_SLE) return mk(O_SLT, 1, 0, a->a[1], a->a[0]);
      }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && b->c < (u128)w) {
        int s = (int)b->c;
        if (op == O_LSHR) return mkZext(mkExtract(a, s, w - s), w);
        if (op == O_SHL) return mkConcat(mkExtract(a, 0, w - s), K(0, s));
        if (op == O_ASHR) return mkSext(mkExtract(a, s, w - s), w);
      }
      if (isC(b) && b->c >= (u128)w && op != O_ASHR) return K(0, w);
      break;
    case O_CONCAT:
      if (isC(a, 0)) return mkZext(b, w);
      if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a[0] == b->a[0] && a->aux == b->aux + b->w) return mkExtract(a->a[0], b->aux, w);
      if (a->op == O_CONCAT && a->a[1]->op == O_EXTRACT && b->op == O_EXTRACT && a->a[1]->a[0] == b->a[0] && a->a[1]->aux == b->aux + b->w)
        return mkConcat(a->a[0], mkExtract(b->a[0], b->aux, b->w + a->a[1]->w));
      if (a->op == O_EXTRACT && b->op == O_ITE && false) break;
      if (a->op == O_ITE && b->op == O_ITE && a->a[0] == b->a[0]) return mkIte(a->a[0], mkConcat(a->a[1], b->a[1]), mkConcat(a->a[2], b->a[2]));
      break;
    case O_EXTRACT:
      if (aux == 0 && w == a->w) return a;
      if (a->op == O_EXTRACT) return mkExtract(a->a[0], aux + a->aux, w);
      if (a->op == O_CONCAT) {
        int lw = a->a[1]->w;
        if ((int)aux + w <= lw) return mkExtract(a->a[1], aux, w);
        if ((int)aux >= lw) return mkExtract(a->a[0], aux - lw, w);
        return mkConcat(mkExtract(a->a[0], 0, (int)aux + w - lw), mkExtract(a->a[1], aux, lw - aux));
      }
      if (a->op == O_ZEXT || a->op == O_SEXT) {
        int iw = a->a[0]->w;
        if ((int)aux + w <= iw) return mkExtract(a->a[0], aux, w);
        if (a->op == O_ZEXT && (int)aux >= iw) return K(0, w);
        if (a->op == O_ZEXT) return mkZext(mkExtract(a->a[0], aux, iw - aux), w);
        if (aux == 0) return mkSext(a->a[0], w);
      }
      if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) if (isC(a->a[1])) return mk(a->op, w, 0, mkExtract(a->a[0], aux, w), mkExtract(a->a[1], aux, w));
      if (aux == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && w >= 8 && (a->a[0]->op == O_ZEXT || a->a[0]->op == O_SEXT || isC(a->a[1]))) return mk(a->op, w, 0, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
      if (a->op == O_ITE && (isC(a->a[1]) || isC(a->a[2]) || w == 1)) return mkIte(a->a[0], mkExtract(a->a[1], aux, w), mkExtract(a->a[2], aux, w));
      if (w == 1 && a->op == O_FNEG && (int)aux == a->w - 1) return mkNot(mkExtract(a->a[0], aux, 1));
      break;
    case O_ZEXT:
      if (a->op == O_ZEXT) return mkZext(a->a[0], w);
      if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], K(a->a[1]->c, w), K(a->a[2]->c, w));
      break;
    case O_SEXT:
      if (a->op == O_SEXT) return mkSext(a->a[0], w);
      if (a->op == O_ZEXT) return mkZext(a->a[0], w);
      if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkSext(a->a[1], w), mkSext(a->a[2], w));
      if (a->w == 1) return mkIte(a, K(maskw(w), w), K(0, w));
      break;
    case O_EQ:
      if (a == b) return KB(true);
      if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mk(O_XOR, 1, 0, a, b)); }
      if (isC(b)) {
        if (a->op == O_ZEXT) { if (b->c >> a->a[0]->w) return KB(false); return mkEq(a->a[0], K(b->c, a->a[0]->w)); }
        if (a->op == O_SEXT) { u128 lo = b->c & maskw(a->a[0]->w); if (((u128)sx(lo, a->a[0]->w) & maskw(a->w)) != b->c) return KB(false); return mkEq(a->a[0], K(lo, a->a[0]->w)); }
        if (a->op == O_CONCAT) { int lw = a->a[1]->w; return mkAnd(mkEq(a->a[0], K(b->c >> lw, a->a[0]->w)), mkEq(a->a[1], K(b->c, lw))); }
        if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) { bool t = a->a[1]->c == b->c, f = a->a[2]->c == b->c; if (t && f) return KB(true); if (t) return a->a[0]; if (f) return mkNot(a->a[0]); return KB(false); }
        if (a->op == O_ITE && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b));
        if (a->op == O_ADD && isC(a->a[1])) return mkEq(a->a[0], K(b->c - a->a[1]->c, a->w));
        if (a->op == O_XOR && isC(a->a[1])) return mkEq(a->a[0], K(b->c ^ a->a[1]->c, a->w));
        if (a->op == O_SUB && b->c == 0) return mkEq(a->a[0], a->a[1]);
      } else {
        if (a->op == O_ADD && b->op == O_ADD && isC(a->a[1]) && isC(b->a[1]) && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        if (a->op == O_ITE && b->op == O_ITE && a->a[0] == b->a[0]) return mkIte(a->a[0], mkEq(a->a[1], b->a[1]), mkEq(a->a[2], b->a[2]));
      }
      break;
    case O_ULT:
      if (a == b || isC(b, 0)) return KB(false);
      if (isC(a, maskw(a->w))) return KB(false);
      if (isC(b, 1)) return mkEq(a, K(0, a->w));
      if (isC(a, 0)) return mkNot(mkEq(b, K(0, b->w)));
      if (a->op == O_ZEXT && isC(b)) { int iw = a->a[0]->w; if (b->c >> iw) return KB(true); return mk(O_ULT, 1, 0, a->a[0], K(b->c, iw)); }
      if (b->op == O_ZEXT && isC(a)) { int iw = b->a[0]->w; if (a->c >> iw) return KB(false); return mk(O_ULT, 1, 0, K(a->c, iw), b->a[0]); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mk(O_ULT, 1, 0, a->a[0], b->a[0]);
      break;
    case O_ULE:
      if (a == b || isC(a, 0) || isC(b, maskw(b->w))) return KB(true);
      if (isC(b, 0)) return mkEq(a, b);
      if (isC(a, 1)) return mkNot(mkEq(b, K(0, b->w)));
      if (a->op == O_ZEXT && isC(b)) { int iw = a->a[0]->w; if (b->c >> iw) return KB(true); return mk(O_ULE, 1, 0, a->a[0], K(b->c, iw)); }
      if (b->op == O_ZEXT && isC(a)) { int iw = b->a[0]->w; if (a->c >> iw) return KB(false); return mk(O_ULE, 1, 0, K(a->c, iw), b->a[0]); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mk(O_ULE, 1, 0, a->a[0], b->a[0]);
      break;
    case O_SLT: if (a == b) return KB(false);
      if (isC(b, 0)) return mkExtract(a, a->w - 1, 1);
      if (a->op == O_ZEXT && isC(b) && a->a[0]->w < a->w) { if (sx(b->c, b->w) <= 0) return KB(false); return mk(O_ULT, 1, 0, a, b); }
      if (b->op == O_ZEXT && isC(a) && b->a[0]->w < b->w) { if (sx(a->c, a->w) < 0) return KB(true); return mk(O_ULT, 1, 0, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w < a->w && b->a[0]->w < b->w) return mk(O_ULT, 1, 0, a, b);
      break;
    case O_SLE: if (a == b) return KB(true);
      if (isC(a, 0)) return mkNot(mkExtract(b, b->w - 1, 1));
      if (a->op == O_ZEXT && isC(b) && a->a[0]->w < a->w) { if (sx(b->c, b->w) < 0) return KB(false); return mk(O_ULE, 1, 0, a, b); }
      if (b->op == O_ZEXT && isC(a) && b->a[0]->w < b->w) { if (sx(a->c, a->w) <= 0) return KB(true); return mk(O_ULE, 1, 0, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w < a->w && b->a[0]->w < b->w) return mk(O_ULE, 1, 0, a, b);
      break;
    case O_ITE:
      if (isC(a)) return a->c ? b : c;
      if (b == c) return b;
      if (isNot(a)) return mkIte(a->a[0], c, b);
      if (w == 1) {
        if (isC(b, 1)) return mkOr(a, c);
        if (isC(b, 0)) return mkAnd(mkNot(a), c);
        if (isC(c, 0)) return mkAnd(a, b);
        if (isC(c, 1)) return mkOr(mkNot(a), b);
      }
      if (b->op == O_ITE && b->a[0] == a) return mkIte(a, b->a[1], c);
      if (c->op == O_ITE && c->a[0] == a) return mkIte(a, b, c->a[2]);
      break;
    case O_FADD:
      if (isC(b, (u128)1 << (w - 1))) return a;  // x + -0
      break;
    case O_FSUB:
      if (isC(b, 0)) return a;
      break;
    case O_FMUL:
      if (isC(b, fpOne(w))) return a;
      if (isC(b, fpOne(w) | ((u128)1 << (w - 1)))) return mk(O_FNEG, w, 0, a);
      break;
    case O_FDIV: if (isC(b, fpOne(w))) return a; break;
    case O_FNEG: if (a->op == O_FNEG) return a->a[0]; break;
    case O_FABS: if (a->op == O_FABS) return a; if (a->op == O_FNEG) return mk(O_FABS, w, 0, a->a[0]);
      if (a->op == O_FSUB && a->a[0]->id > a->a[1]->id) return mk(O_FABS, w, 0, mk(O_FSUB, w, 0, a->a[1], a->a[0]));   // |x-y| = |y-x|
      break;
    case O_FRINT: if (a->op == O_FRINT || a->op == O_SITOF || a->op == O_UITOF) return a; break;
    case O_FTOF:
      if (a->w == w) return a;
      if (a->op == O_FTOF && a->a[0]->w <= a->w) { if (a->a[0]->w == w) return a->a[0]; if (a->a[0]->w < a->w && w > a->w) return mk(O_FTOF, w, 0, a->a[0]); }
      if (w > a->w && (a->op == O_FABS || a->op == O_FNEG)) return mk(a->op, w, 0, mk(O_FTOF, w, 0, a->a[0]));
      if (w > a->w && (a->op == O_SITOF || a->op == O_UITOF) && a->a[0]->w <= (a->w == 32 ? 24 : 53)) return mk(a->op, w, 0, a->a[0]);
      break;
    case O_FEQ:
      if (a == b) return mkNot(mk(O_FISNAN, 1, 0, a));
      // fallthrough to shared rules
    case O_FLT: case O_FLE: {
      if (a == b) return op == O_FLT ? KB(false) : mkNot(mk(O_FISNAN, 1, 0, a));
      if ((isC(a) && !neverNan(a)) || (isC(b) && !neverNan(b))) return KB(false);
      // comparisons ignore the sign of zero: -(x-y) compares like y-x
      if (a->op == O_FNEG && a->a[0]->op == O_FSUB) return mk(op, 1, 0, mk(O_FSUB, a->w, 0, a->a[0]->a[1], a->a[0]->a[0]), b);
      if (b->op == O_FNEG && b->a[0]->op == O_FSUB) return mk(op, 1, 0, a, mk(O_FSUB, b->w, 0, b->a[0]->a[1], b->a[0]->a[0]));
      { E x = absChoice(a), y = absChoice(b); if (x != a || y != b) return mk(op, 1, 0, x, y); }
      int wa = a->w;
      auto narrowable = [](E x, int nw) { return (x->op == O_FTOF && x->a[0]->w == nw) || (isC(x) && evalOp(O_FTOF, x->w, 0, nw, evalOp(O_FTOF, nw, 0, x->w, x->c, 0, 0, 0), 0, 0, 0) == x->c); };
      auto narrow = [](E x, int nw) { return x->op == O_FTOF ? x->a[0] : K(evalOp(O_FTOF, nw, 0, x->w, x->c, 0, 0, 0), nw); };
      E s = a->op == O_FTOF && a->a[0]->w < wa ? a : b->op == O_FTOF && b->a[0]->w < wa ? b : nullptr;
      if (s) { int nw = s->a[0]->w; if (narrowable(a, nw) && narrowable(b, nw)) return mk(op, 1, 0, narrow(a, nw), narrow(b, nw)); }
      // a widened value against a constant between two narrow values: compare narrow with the neighbour
      if (wa == 64 && ((isC(b) && a->op == O_FTOF && a->a[0]->w == 32) || (isC(a) && b->op == O_FTOF && b->a[0]->w == 32)) && op != O_FEQ) {
        bool cb = isC(b); double d = bits2f<double>(cb ? b->c : a->c); float f = (float)d;   // not exactly representable here, or the rule above had applied
        float dn = (double)f <= d ? f : std::nextafter(f, -HUGE_VALF), up = (double)f >= d ? f : std::nextafter(f, HUGE_VALF);
        if (std::isfinite(dn) && std::isfinite(up)) {
          if (cb) return op == O_FLT ? mk(O_FLT, 1, 0, a->a[0], K(f2bits<float>(up), 32)) : mk(O_FLE, 1, 0, a->a[0], K(f2bits<float>(dn), 32));
          return op == O_FLT ? mk(O_FLT, 1, 0, K(f2bits<float>(dn), 32), b->a[0]) : mk(O_FLE, 1, 0, K(f2bits<float>(up), 32), b->a[0]);
        }
      }
      if (op == O_FLT && a->op == O_FABS && isC(b, 0)) return KB(false);
      if (op == O_FLE && isC(a, 0) && b->op == O_FABS) return mkNot(mk(O_FISNAN, 1, 0, b));
      break;
    }
    case O_FISNAN:
      if (neverNan(a)) return KB(false);
      if (a->op == O_FTOF || a->op == O_FNEG || a->op == O_FABS || a->op == O_FRINT) return mk(O_FISNAN, 1, 0, a->a[0]);
      break;
    case O_SITOF: if (a->op == O_ZEXT) return mk(O_UITOF, w, 0, a->a[0]); break;
    case O_UITOF: if (a->op == O_ZEXT) return mk(O_UITOF, w, 0, a->a[0]); break;
    case O_FTOSI: case O_FTOUI:
      if (a->op == O_FTOF && a->a[0]->w < a->w) return mk(op, w, 0, a->a[0]);
      if ((a->op == O_SITOF || a->op == O_UITOF) && a->a[0]->w <= (a->w == 32 ? 24 : 53) && a->a[0]->w < w) { if (a->op == O_UITOF) return mkZext(a->a[0], w); if (op == O_FTOSI) return mkSext(a->a[0], w); }
      break;
    default: break;
  }
  (void)isFpW;
  return mkRaw(op, w, aux, a, b, c);
}

u128 Evaluator::ev(E e) {
  if (isC(e)) return e->c;
  if (e->op == O_VAR) return m.get(e->aux) & maskw(e->w);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  u128 r;
  if (e->op == O_ITE) r = ev(e->a[0]) ? ev(e->a[1]) : ev(e->a[2]);
  else {
    u128 x[3] = {0, 0, 0};
    for (int i = 0; i < 3 && e->a[i]; i++) x[i] = ev(e->a[i]);
    if (e->op == O_UF) {
      bool done = false; r = 0;
      if (ufOverride) { auto j = ufOverride->find(e); if (j != ufOverride->end()) { r = j->second; done = true; } }
      if (!done) r = ufTrue(e->aux, e->w, x);
    }
    else r = evalOp(e->op, e->w, e->aux, e->a[0]->w, x[0], x[1], x[2], e->a[1] ? e->a[1]->w : 0);
  }
  memo[e] = r;
  return r;
}
static const char* opn[] = {"const","var","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","fma","fsqrt","frint","fneg","fabs","feq","flt","fle","isnan","ftosi","ftoui","sitof","uitof","ftof"};
std::string exprStr(E e, int d) {
  char buf[64];
  if (isC(e)) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == O_VAR) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op]; if (e->op == O_EXTRACT || e->op == O_UF) s += "." + std::to_string(e->aux);
  s += ":" + std::to_string(e->w);
  for (int i = 0; i < 3 && e->a[i]; i++) s += " " + exprStr(e->a[i], d - 1);
  return s + ")";
}
