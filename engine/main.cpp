// hse: symbolic executor for LLVM IR. Paths are explored by fork(); data stays symbolic; branch feasibility,
// checks and memory-safety conditions are decided by the solver layer.
#include "solver.hpp"
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <atomic>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <algorithm>

using namespace llvm;
typedef llvm::SmallVector<E, 2> Val;

// ------------------------------------------------------------------ shared state
struct CheckSlot { std::atomic<u64> hash, reached, proven, syntactic, unknown, failed; };
struct Shared {
  std::atomic<int> slots; std::atomic<u32> handovers; std::atomic<int> stop;  // stop: 1 out of time, 2 enough counterexamples
  std::atomic<u64> started, done, assumed, stoppedCand, limit, unsupported, engineErr, forks, decisions, instrs, samples, candidates, memOps, memSym;
  std::atomic<u64> q, qtriv, qint, qpool, qcache, qz3, qext, qsat, qunsat, qunk, qmis, qlem, z3us, extus;
  std::atomic<u64> candKind[512];
  CheckSlot checks[512]; std::atomic<u64> covers[256];
  std::atomic<u8> fn[1 << 14]; std::atomic<u8> bb[1 << 19];
};
static Shared* S;
static int g_out = -1;
static double g_deadline, g_start;
static int g_maxSamples = 40, g_maxCand = 24;
static u64 g_maxInstr = 400000000ull;
static bool g_verbose = false;
static SolveOpts g_optBranch, g_optCheck;
static std::string g_trail;

struct PathEnd { const char* status; };

static void emit(const std::string& s) { std::string l = s + "\n"; size_t o = 0; while (o < l.size()) { ssize_t n = write(g_out, l.data() + o, l.size() - o); if (n <= 0) break; o += (size_t)n; } }
static std::string jstr(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static std::string hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }

// ------------------------------------------------------------------ memory
enum { ST_UNINIT = 0, ST_CONC = 1, ST_SYM = 2 };
struct Obj {
  u64 base, size; std::vector<u8> conc, st; std::unordered_map<u32, std::pair<E, int>> sym; bool freed = false, ro = false; int kind; std::string name;  // kind 0 global 1 stack 2 malloc 3 new 4 new[]
};
static std::map<u64, Obj*> g_mem; static u64 g_brk = 0x100000000ull; static Obj* g_last = nullptr;
static Obj* newObj(u64 size, int kind, const std::string& name, bool zero, u64 align = 16) {
  if (align < 16) align = 16;
  u64 b = (g_brk + align - 1) / align * align; Obj* o = new Obj; o->base = b; o->size = size; o->kind = kind; o->name = name;
  o->conc.assign(size, 0); o->st.assign(size, zero ? ST_CONC : ST_UNINIT);
  g_brk = b + size + 4096 + (size > 4096 ? size : 0); g_mem[b] = o; return o;
}
static Obj* findObj(u64 a) {
  if (g_last && a >= g_last->base && a < g_last->base + g_last->size) return g_last;
  auto it = g_mem.upper_bound(a); if (it == g_mem.begin()) return nullptr; --it; Obj* o = it->second;
  if (a < o->base + o->size || (o->size == 0 && a == o->base)) { g_last = o; return o; }
  return nullptr;
}
static Obj* nearObj(u64 a) { auto it = g_mem.upper_bound(a); if (it == g_mem.begin()) return nullptr; --it; return it->second; }

// ------------------------------------------------------------------ path state
struct InputRec { std::string name, kind; E e; };
struct ObsRec { std::string name; E e; bool isF; };
static std::vector<E> g_pc; static std::unordered_set<E> g_pcSet; static Ranges g_rng; static Model g_model; static bool g_modelOk = true;
static std::vector<InputRec> g_inputs; static std::vector<ObsRec> g_obs; static Solver g_sol; static u64 g_instr = 0; static std::vector<pid_t> g_kids; static bool g_root = true;
static std::vector<std::string> g_notes;

static std::unordered_map<E, std::vector<u32>> g_varCache;
static const std::vector<u32>& varsOf(E e) { auto it = g_varCache.find(e); if (it != g_varCache.end()) return it->second; std::unordered_set<E> seen; std::vector<u32> v; collectVars(e, seen, v); std::sort(v.begin(), v.end()); return g_varCache[e] = v; }
static std::vector<E> slice(E c) {
  std::set<u32> vs(varsOf(c).begin(), varsOf(c).end()); std::vector<E> r{c}; std::vector<char> used(g_pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < g_pc.size(); i++) if (!used[i]) { auto& v = varsOf(g_pc[i]); bool hit = false; for (u32 x : v) if (vs.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; r.push_back(g_pc[i]); for (u32 x : v) vs.insert(x); } } }
  return r;
}
static u64 evalU(E e) { Evaluator ev(g_model); return (u64)ev.ev(e); }
static bool evalB(E e) { Evaluator ev(g_model); return ev.ev(e) != 0; }

static std::string g_status;
[[noreturn]] static void endPath(const char* status) { throw PathEnd{status}; }
static void flushStats() {
  auto& s = g_sol.st; S->q += s.queries; S->qtriv += s.trivial; S->qint += s.interval; S->qpool += s.pool; S->qcache += s.cache; S->qz3 += s.z3n; S->qext += s.extn; S->qsat += s.sat; S->qunsat += s.unsat; S->qunk += s.unknown; S->qmis += s.mismatch; S->qlem += s.ufLemmas; S->z3us += (u64)(s.z3t * 1e6); S->extus += (u64)(s.extt * 1e6);
  s = SolverStats{}; S->instrs += g_instr; g_instr = 0;
}
static u64 g_instrPath = 0;
static std::string inputsJson() {
  std::string s = "[";
  Evaluator ev(g_model);
  for (size_t i = 0; i < g_inputs.size(); i++) { auto& r = g_inputs[i]; if (i) s += ","; s += "{\"name\":" + jstr(r.name) + ",\"kind\":\"" + r.kind + "\",\"w\":" + std::to_string(r.e->w) + ",\"v\":\"" + hex(ev.ev(r.e)) + "\"}"; }
  return s + "]";
}
// Make sure g_model satisfies the whole path condition; used before reporting.
static bool ensureModel(const SolveOpts& o) {
  if (g_modelOk) return true;
  Model m; Res r = g_sol.solve(g_pc, m, g_model, o);
  if (r == R_SAT) { g_model = m; g_modelOk = true; return true; }
  if (r == R_UNSAT) endPath("infeasible");
  return false;
}
static void addPc(E c) {
  if (isC(c)) return;
  if (c->op == O_AND && c->w == 1) { addPc(c->a[0]); addPc(c->a[1]); return; }
  if (g_pcSet.insert(c).second) { g_pc.push_back(c); g_rng.learn(c, true); }
}
// ------------------------------------------------------------------ forking
static double g_lastChk = 0;
static void checkStop() { if (S->stop.load(std::memory_order_relaxed)) endPath("stopped"); double n = nowSec(); if (n > g_deadline) { endPath("timeout"); } g_lastChk = n; }
static bool tryAcquire() { int v = S->slots.load(); while (v > 0) if (S->slots.compare_exchange_weak(v, v - 1)) return true; return false; }
static bool g_ownsToken = true;
static void reapStatus(int st) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { S->engineErr++; emit("{\"type\":\"engine_error\",\"status\":" + std::to_string(st) + "}"); } }
static pid_t g_monitor = 0;
static std::atomic<uint8_t>* g_handover = nullptr; static const u32 g_handoverMax = 1u << 22; static u32 g_myHandover = 0;   // 0 waiting parent, 1 parent went on by itself, 2 path ended
// this explorer's place goes back to whoever waits for it, or to everyone
static void releasePlace() { if (g_ownsToken) S->slots++; else if (g_myHandover && g_handover[g_myHandover].exchange(2) == 1) S->slots++; }
// returns true in the child. The child takes a free place and both go on, or the parent waits for it; a waiting parent goes on as soon as another place is free
static bool forkPath() {
  checkStop(); S->forks++; flushStats();
  if (kill(g_monitor, 0) < 0) _exit(3);
  for (size_t i = 0; i < g_kids.size();) { int st; if (waitpid(g_kids[i], &st, WNOHANG) == g_kids[i]) { reapStatus(st); g_kids[i] = g_kids.back(); g_kids.pop_back(); } else i++; }
  bool par = tryAcquire(); u32 h = 0; if (!par) { h = ++S->handovers; if (h >= g_handoverMax) h = 0; }
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { if (par) S->slots++; endPath("limit"); }
  if (p == 0) { g_root = false; g_kids.clear(); g_ownsToken = par; g_myHandover = h; S->started++; return true; }
  if (par) { g_kids.push_back(p); return false; }
  sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD);
  for (long ns = 4000000;; ns = ns < 40000000 ? ns * 2 : ns) {
    int st; if (waitpid(p, &st, WNOHANG) == p) { reapStatus(st); return false; }
    if (h && tryAcquire()) { if (g_handover[h].exchange(1) == 0) { g_kids.push_back(p); return false; } S->slots++; h = 0; }
    timespec t = {0, ns}; if (h) sigtimedwait(&set, nullptr, &t); else sigwaitinfo(&set, nullptr);
    if (h && kill(g_monitor, 0) < 0) _exit(3);
  }
}
static std::string backtrace();
static Res query(E c, Model& m, const SolveOpts& o) {
  auto cs = slice(c); double t0 = nowSec(); SolveOpts og = o; og.goal = c; Res r = g_sol.solve(cs, m, g_model, og);
  if (g_verbose && nowSec() - t0 > 0.5) { std::string s = "[slow " + std::to_string(nowSec() - t0) + " res " + std::to_string(r) + "] " + exprStr(c, 12) + " @ " + backtrace(); for (E e : cs) s += "\n      & " + exprStr(e, 8); fprintf(stderr, "%s\n", s.c_str()); }
  return r;
}

static void uninitCandidate(E c);
// Decide a branch; forks when both sides are feasible. Adds the taken side to the path condition.
static bool branch(E c, bool noLog = false) {
  if (isC(c)) return c->c != 0;
  S->decisions++;
  if (g_pcSet.count(c)) return true;
  E n = mkNot(c);
  if (g_pcSet.count(n)) return false;
  int d = g_rng.decide(c);
  if (d >= 0) { g_sol.st.queries++; g_sol.st.interval++; return d == 1; }
  checkStop();
  if (!g_modelOk) ensureModel(g_optBranch);
  if (g_modelOk) {
    bool side = evalB(c); E mine = side ? c : n, other = side ? n : c; Model m; Res r = query(other, m, g_optBranch);
    if (r == R_UNSAT) { addPc(mine); return side; }
    if (c->hasUninit && !noLog) uninitCandidate(c);
    if (forkPath()) { if (r == R_SAT) g_model = m; else g_modelOk = false; addPc(other); return !side; }
    addPc(mine); return side;
  }
  Model m1, m2; Res r1 = query(c, m1, g_optBranch), r2 = query(n, m2, g_optBranch);
  if (r1 == R_UNSAT && r2 == R_UNSAT) endPath("infeasible");
  if (r1 == R_UNSAT) { addPc(n); return false; }
  if (r2 == R_UNSAT) { addPc(c); return true; }
  if (forkPath()) { addPc(n); return false; }
  addPc(c); return true;
}
// a choice this path's facts already settle is no choice
static E mkIteHere(E c, E a, E b) {
  if (!isC(c) && a != b) { if (g_pcSet.count(c)) return a; if (g_pcSet.count(mkNot(c))) return b; int d = g_rng.decide(c); if (d >= 0) return d ? a : b; }
  return mkIte(c, a, b);
}
static u64 concretize(E e) {
  for (;;) {
    if (isC(e)) return (u64)e->c;
    URng u = g_rng.u(e); if (u.lo == u.hi) return u.lo;
    if (!g_modelOk && !ensureModel(g_optCheck)) endPath("unsupported");
    u64 v = evalU(e); if (branch(mkEq(e, K(v, e->w)), true)) return v;
  }
}

// ------------------------------------------------------------------ module / interpreter structures
static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* g_dl;
struct FnInfo { std::unordered_map<const Value*, int> slot; int n = 0, idx = 0; std::unordered_map<const BasicBlock*, int> bbIdx; };
static std::unordered_map<const Function*, FnInfo*> g_fns; static int g_fnCount = 0, g_bbCount = 0; static std::vector<const Function*> g_fnList;
static std::unordered_map<const GlobalValue*, u64> g_gaddr; static std::unordered_map<u64, const Function*> g_faddr; static u64 g_fbrk = 0x10000;
struct Frame { const Function* f; FnInfo* fi; std::vector<Val> regs; const BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::const_iterator it; std::vector<Obj*> allocas; const CallBase* call = nullptr; int onReturn = 0; u64 cookie = 0; std::vector<Val> varargs; u64 lpExn = 0; u32 lpSel = 0; };
static std::vector<Frame> g_stk;
struct Exn { u64 ptr; const Value* ti; u64 tiAddr, dtor; int handlers; bool rethrown; };
static std::map<u64, Exn> g_exn; static std::vector<u64> g_caught; static std::map<u64, u64> g_allocExn;
static std::unordered_map<u64, u32> g_typeIds;

static std::string loc(const Instruction* i) {
  if (!i) return "?"; std::string s; if (const DILocation* l = i->getDebugLoc().get()) { s = l->getFilename().str(); size_t k = s.rfind('/'); if (k != std::string::npos) s = s.substr(k + 1); s += ":" + std::to_string(l->getLine()); }
  return s;
}
static const Instruction* curInst() { if (g_stk.empty()) return nullptr; auto& f = g_stk.back(); if (f.bb && f.it != f.bb->end()) return &*f.it; return nullptr; }
static std::string backtrace() { std::string s; for (size_t i = g_stk.size(); i-- > 0 && s.size() < 900;) { auto& f = g_stk[i]; const Instruction* in = i + 1 == g_stk.size() ? curInst() : (f.bb && f.it != f.bb->begin() ? &*std::prev(f.it) : nullptr); std::string d = demangle(f.f->getName().str()); if (d.size() > 110) d = d.substr(0, 110); s += d + "@" + loc(in) + " < "; } return s; }

static u64 strHash(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ? h : 1; }
static void candidate(const std::string& kind, const std::string& msg, bool hasModel) {
  u64 h = strHash(kind + msg + loc(curInst())) % 512; u64 n = S->candKind[h]++;
  if (n < 6) { S->candidates++; emit("{\"type\":\"candidate\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"at\":" + jstr(backtrace()) + ",\"hasModel\":" + (hasModel ? "true" : "false") + ",\"inputs\":" + inputsJson() + "}"); }
  if (S->candidates.load() >= (u64)g_maxCand) S->stop = 1;
}
static void uninitCandidate(E c) { (void)c; candidate("uninit", "branch on uninitialised value", true); }
[[noreturn]] static void fatal(const std::string& kind, const std::string& msg) { bool m = ensureModel(g_optCheck); candidate(kind, msg, m); endPath("cand"); }
[[noreturn]] static void unsupported(const std::string& msg) { emit("{\"type\":\"unsupported\",\"msg\":" + jstr(msg) + ",\"at\":" + jstr(backtrace()) + "}"); endPath("unsupported"); }

static int scalarW(Type* t) {
  if (t->isIntegerTy()) return (int)t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16;
  return 0;
}
struct Sc { Type* t; u64 off; };
static std::unordered_map<Type*, std::vector<Sc>> g_flat;
static const std::vector<Sc>& flat(Type* t) {
  auto it = g_flat.find(t); if (it != g_flat.end()) return it->second; std::vector<Sc> r;
  if (scalarW(t)) r.push_back({t, 0});
  else if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* l = g_dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) for (auto& s : flat(st->getElementType(i))) r.push_back({s.t, s.off + l->getElementOffset(i)}); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = g_dl->getTypeAllocSize(at->getElementType()); auto sub = flat(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) for (auto& s : sub) r.push_back({s.t, s.off + i * sz}); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = g_dl->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) r.push_back({vt->getElementType(), i * sz}); }
  else if (!t->isVoidTy()) { std::string s; raw_string_ostream o(s); t->print(o); unsupported("type " + o.str()); }
  return g_flat[t] = r;
}

// ------------------------------------------------------------------ memory access
static E fresh(const char* nm, int w) { static int k = 0; return mkVar(std::string(nm) + std::to_string(k++), w, false, false); }
static void oob(u64 a, u64 n, bool wr) {
  Obj* o = nearObj(a); std::string m = wr ? "invalid write" : "invalid read"; m += " of " + std::to_string(n) + " bytes";
  if (a < 4096) m = std::string("null dereference (") + (wr ? "write" : "read") + ")"; else if (o) m += " at offset " + std::to_string((i64)(a - o->base)) + " of object " + o->name + " size " + std::to_string(o->size);
  fatal("memory", m);
}
static Obj* access(u64 a, u64 n, bool wr) {
  S->memOps.fetch_add(1, std::memory_order_relaxed);
  Obj* o = findObj(a); if (!o || a + n > o->base + o->size) { if (n == 0) return nullptr; oob(a, n, wr); }
  if (o->freed) fatal("memory", std::string(wr ? "write" : "read") + " after free of " + o->name);
  if (wr && o->ro) fatal("memory", "write to constant " + o->name);
  return o;
}
static E readByte(Obj* o, u32 off) {
  switch (o->st[off]) { case ST_CONC: return K(o->conc[off], 8); case ST_SYM: { auto& p = o->sym[off]; return mkExtract(p.first, p.second * 8, 8); } default: { E v = fresh("uninit", 8); o->st[off] = ST_SYM; o->sym[off] = {v, 0}; return v; } }
}
static E loadC(u64 a, int n) {
  Obj* o = access(a, n, false); u32 off = (u32)(a - o->base); bool allc = true; for (int i = 0; i < n; i++) if (o->st[off + i] != ST_CONC) { allc = false; break; }
  if (allc) { u128 v = 0; for (int i = n; i-- > 0;) v = (v << 8) | o->conc[off + i]; return K(v, n * 8); }
  if (o->st[off] == ST_SYM) { auto& p = o->sym[off]; if (p.second == 0 && p.first->w == n * 8) { bool ok = true; for (int i = 1; i < n && ok; i++) { if (o->st[off + i] != ST_SYM) ok = false; else { auto& q = o->sym[off + i]; ok = q.first == p.first && q.second == i; } } if (ok) return p.first; } }
  E r = readByte(o, off); for (int i = 1; i < n; i++) r = mkConcat(readByte(o, off + i), r);
  return r;
}
static void storeC(u64 a, E v) {
  int n = (v->w + 7) / 8; if (v->w % 8) v = mkZext(v, n * 8); Obj* o = access(a, n, true); u32 off = (u32)(a - o->base);
  if (isC(v)) { for (int i = 0; i < n; i++) { if (o->st[off + i] == ST_SYM) o->sym.erase(off + i); o->conc[off + i] = (u8)(v->c >> (8 * i)); o->st[off + i] = ST_CONC; } }
  else for (int i = 0; i < n; i++) { o->sym[off + i] = {v, i}; o->st[off + i] = ST_SYM; }
}
// All feasible concrete values of a symbolic address.
static std::vector<u64> addrValues(E a) {
  std::vector<u64> r;
  { std::set<u64> s; std::vector<std::pair<E, u64>> st{{a, 0}}; bool ok = true; int cnt = 0;
    while (!st.empty() && ok) { auto [e, add] = st.back(); st.pop_back(); if (++cnt > 256) ok = false; if (isC(e)) s.insert((u64)e->c + add); else if (e->op == O_ITE) { int d = g_rng.decide(e->a[0]); if (g_pcSet.count(e->a[0])) d = 1; if (d != 0) st.push_back({e->a[1], add}); if (d != 1) st.push_back({e->a[2], add}); } else if (e->op == O_ADD && isC(e->a[1])) st.push_back({e->a[0], add + (u64)e->a[1]->c}); else ok = false; }
    bool allValid = ok; if (ok) for (u64 v : s) if (!findObj(v)) allValid = false;
    if (ok && allValid && s.size() <= 64) return std::vector<u64>(s.begin(), s.end()); }
  if (!g_modelOk && !ensureModel(g_optCheck)) unsupported("symbolic address without model");
  E ex = KB(true); Model save = g_model;
  for (int k = 0; k < 300; k++) {
    u64 v; if (k == 0) v = evalU(a); else { Model m; std::vector<E> cs = slice(ex); Res q = g_sol.solve(cs, m, save, g_optBranch); if (q == R_UNSAT) return r; if (q == R_UNKNOWN) unsupported("symbolic address: solver gave up"); Evaluator ev(m); v = (u64)ev.ev(a); }
    r.push_back(v); ex = mkAnd(ex, mkNot(mkEq(a, K(v, 64))));
  }
  unsupported("symbolic address with too many values");
}
static E load(E a, int n) {
  if (isC(a)) return loadC((u64)a->c, n);
  S->memSym++; auto vs = addrValues(a); E r = nullptr;
  for (u64 v : vs) { Obj* o = findObj(v); bool bad = !o || v + n > o->base + o->size || o->freed; if (bad) { if (branch(mkEq(a, K(v, 64)), true)) { loadC(v, n); } continue; } }
  for (u64 v : vs) { Obj* o = findObj(v); if (!o || v + n > o->base + o->size || o->freed) continue; E x = loadC(v, n); r = r ? mkIte(mkEq(a, K(v, 64)), x, r) : x; }
  if (!r) endPath("infeasible");
  return r;
}
static void store(E a, E v) {
  if (isC(a)) { storeC((u64)a->c, v); return; }
  S->memSym++; auto vs = addrValues(a); int n = (v->w + 7) / 8; if (v->w % 8) v = mkZext(v, n * 8);
  for (u64 x : vs) { Obj* o = findObj(x); bool bad = !o || x + n > o->base + o->size || o->freed; if (bad && branch(mkEq(a, K(x, 64)), true)) storeC(x, v); }
  for (u64 x : vs) { Obj* o = findObj(x); if (!o || x + n > o->base + o->size || o->freed) continue; storeC(x, mkIte(mkEq(a, K(x, 64)), v, loadC(x, n))); }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; Obj* so = access(s, n, false); Obj* dd = access(d, n, true); u32 a = (u32)(s - so->base), b = (u32)(d - dd->base);
  std::vector<u8> st(so->st.begin() + a, so->st.begin() + a + n), cc(so->conc.begin() + a, so->conc.begin() + a + n); std::vector<std::pair<E, int>> sy(n); for (u64 i = 0; i < n; i++) if (st[i] == ST_SYM) sy[i] = so->sym[a + (u32)i];
  for (u64 i = 0; i < n; i++) { if (dd->st[b + i] == ST_SYM && st[i] != ST_SYM) dd->sym.erase(b + (u32)i); dd->st[b + i] = st[i]; dd->conc[b + i] = cc[i]; if (st[i] == ST_SYM) dd->sym[b + (u32)i] = sy[i]; }
}
static std::string cstr(E a) { u64 p = concretize(a); std::string s; for (;; p++) { E c = loadC(p, 1); if (!isC(c)) { s += '?'; if (s.size() > 2000) break; continue; } if (!c->c) break; s += (char)c->c; } return s; }

// ------------------------------------------------------------------ constants and globals
static u64 fnAddr(const Function* f) { auto it = g_gaddr.find(f); if (it != g_gaddr.end()) return it->second; u64 a = g_fbrk; g_fbrk += 16; g_gaddr[f] = a; g_faddr[a] = f; return a; }
static u64 globalAddr(const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  if (auto* f = dyn_cast<Function>(g)) return fnAddr(f);
  auto it = g_gaddr.find(g); if (it != g_gaddr.end()) return it->second; unsupported("global " + g->getName().str());
}
static Val constVal(const Constant* c);
static E constScalar(const Constant* c) { Val v = constVal(c); return v[0]; }
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { const APInt& a = ci->getValue(); u128 v = a.getBitWidth() > 64 ? ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0) : a.getZExtValue(); return {K(v, (int)a.getBitWidth())}; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getBitWidth() > 64 ? ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0) : a.getZExtValue(); return {K(v, scalarW(t))}; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) return {K(globalAddr(gv), 64)};
  if (isa<PoisonValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { Val r; for (auto& s : flat(t)) r.push_back(K(0, scalarW(s.t))); return r; }
  if (isa<UndefValue>(c)) { Val r; for (auto& s : flat(t)) r.push_back(fresh("undef", scalarW(s.t))); return r; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val r; for (unsigned i = 0; i < cd->getNumElements(); i++) { Val x = constVal(cd->getElementAsConstant(i)); r.append(x.begin(), x.end()); } return r; }
  if (isa<ConstantAggregate>(c)) { Val r; for (unsigned i = 0; i < c->getNumOperands(); i++) { Val x = constVal(cast<Constant>(c->getOperand(i))); r.append(x.begin(), x.end()); } return r; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*g_dl, off)) unsupported("constexpr gep"); E b = constScalar(cast<Constant>(g->getPointerOperand())); return {mk(O_ADD, 64, 0, b, K(off.getZExtValue(), 64))}; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { E b = constScalar(ce->getOperand(0)); int w = scalarW(t); return {w < b->w ? mkTrunc(b, w) : mkZext(b, w)}; }
      case Instruction::Trunc: return {mkTrunc(constScalar(ce->getOperand(0)), scalarW(t))};
      case Instruction::Sub: return {mk(O_SUB, scalarW(t), 0, constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)))};
      case Instruction::Add: return {mk(O_ADD, scalarW(t), 0, constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)))};
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); unsupported("constant " + o.str());
}
static void initGlobals() {
  for (auto& f : *g_mod) fnAddr(&f);
  for (auto& g : g_mod->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)g_dl->getTypeAllocSize(g.getValueType()) : 64; if (!g.hasInitializer() && sz < 256) sz = 256; u64 al = g.getAlign() ? g.getAlign()->value() : 16;
    Obj* o = newObj(sz, 0, g.getName().str(), true, al); g_gaddr[&g] = o->base;
  }
  for (auto& g : g_mod->globals()) if (g.hasInitializer()) {
    const Constant* c = g.getInitializer(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) continue; Val v = constVal(c); auto& fl = flat(g.getValueType()); u64 b = g_gaddr[&g]; for (size_t i = 0; i < fl.size(); i++) storeC(b + fl[i].off, v[i]);
  }
  for (auto& g : g_mod->globals()) if (g.isConstant() && g.hasInitializer()) findObj(g_gaddr[&g]) ? (void)(findObj(g_gaddr[&g])->ro = true) : (void)0;
}
static FnInfo* fnInfo(const Function* f) {
  auto& p = g_fns[f]; if (p) return p; p = new FnInfo; p->idx = g_fnCount++; g_fnList.push_back(f); for (auto& a : f->args()) p->slot[&a] = p->n++;
  for (auto& b : *f) { p->bbIdx[&b] = g_bbCount++; for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++; } return p;
}
static Val get(const Value* v) { if (auto* c = dyn_cast<Constant>(v)) { static std::unordered_map<const Constant*, Val> cc; auto it = cc.find(c); if (it != cc.end()) return it->second; Val r = constVal(c); if (!c->containsUndefOrPoisonElement() && !isa<UndefValue>(c)) cc[c] = r; return r; } auto& f = g_stk.back(); auto it = f.fi->slot.find(v); if (it == f.fi->slot.end()) { if (isa<MetadataAsValue>(v)) return {}; unsupported("operand"); } return f.regs[it->second]; }
static E get1(const Value* v) { Val x = get(v); return x[0]; }
static void setReg(Frame& f, const Instruction* i, Val v) { f.regs[f.fi->slot[i]] = std::move(v); }

static void enterBlock(Frame& f, const BasicBlock* bb) {
  f.prev = f.bb; f.bb = bb; f.it = bb->begin(); int ix = f.fi->bbIdx[bb]; if (ix < (1 << 19)) S->bb[ix].store(1, std::memory_order_relaxed);
  std::vector<std::pair<const Instruction*, Val>> tmp; while (auto* p = dyn_cast<PHINode>(&*f.it)) { tmp.push_back({p, get(p->getIncomingValueForBlock(f.prev))}); ++f.it; }
  for (auto& x : tmp) setReg(f, x.first, x.second);
}
static void pushFrame(const Function* f, const std::vector<Val>& args, const CallBase* call, int onReturn = 0, u64 cookie = 0) {
  if (g_stk.size() > 4000) fatal("memory", "stack overflow (recursion depth 4000)");
  FnInfo* fi = fnInfo(f); if (fi->idx < (1 << 14)) S->fn[fi->idx].store(1, std::memory_order_relaxed);
  Frame fr; fr.f = f; fr.fi = fi; fr.regs.resize(fi->n); fr.call = call; fr.onReturn = onReturn; fr.cookie = cookie;
  size_t k = 0; for (auto& a : f->args()) { if (k < args.size()) { if (a.hasByValAttr()) { Type* t = a.getParamByValType(); u64 sz = g_dl->getTypeAllocSize(t); Obj* o = newObj(sz, 1, "byval", false, 16); fr.allocas.push_back(o); copyMem(o->base, concretize(args[k][0]), sz); fr.regs[fi->slot[&a]] = {K(o->base, 64)}; } else fr.regs[fi->slot[&a]] = args[k]; } k++; }
  for (; k < args.size(); k++) fr.varargs.push_back(args[k]);
  g_stk.push_back(std::move(fr)); enterBlock(g_stk.back(), &f->getEntryBlock());
}
static void popAllocas(Frame& f) { for (Obj* o : f.allocas) { o->freed = true; if (g_last == o) g_last = nullptr; g_mem.erase(o->base); delete o; } f.allocas.clear(); }
static void finishCall(Frame& f, const CallBase* cb, const Val& v) {  // f is the caller's frame
  if (!cb) return; if (!cb->getType()->isVoidTy()) setReg(f, cb, v); if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(f, inv->getNormalDest());
}

// ------------------------------------------------------------------ exceptions
static const GlobalVariable* tiGlobal(const Value* v) { return v ? dyn_cast<GlobalVariable>(v->stripPointerCasts()) : nullptr; }
static std::unordered_map<u64, const GlobalVariable*> g_tiByAddr;
static bool tiSame(const GlobalVariable* a, const GlobalVariable* b) { return a == b || (a && b && a->getName() == b->getName()); }
static bool tiDerives(const GlobalVariable* d, const GlobalVariable* b, u64& off, int depth = 0) {
  if (tiSame(d, b)) return true; if (!d || depth > 20 || !d->hasInitializer()) return false; auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3) return tiDerives(tiGlobal(cs->getOperand(2)), b, off, depth + 1);
  if (cs->getNumOperands() > 4) for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { u64 o2 = 0; if (tiDerives(tiGlobal(cs->getOperand(i)), b, o2, depth + 1)) { i64 fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue(); off += o2 + (u64)(fl >> 8); return true; } }
  return false;
}
static u32 typeId(const Value* ti) { u64 k = (u64)(uintptr_t)tiGlobal(ti); auto it = g_typeIds.find(k); if (it != g_typeIds.end()) return it->second; u32 n = (u32)g_typeIds.size() + 1; g_typeIds[k] = n; return n; }
static std::string exnWhat(const Exn& e) { auto* g = tiGlobal(e.ti); return g ? demangle(g->getName().str()) : "?"; }
static void unwind(u64 exn) {
  Exn& ex = g_exn[exn];
  for (;;) {
    if (g_stk.empty()) { fatal("uncaught", "uncaught exception " + exnWhat(ex)); }
    Frame& f = g_stk.back(); const Instruction* ci = nullptr;
    if (f.bb && f.it != f.bb->begin()) ci = &*std::prev(f.it);
    if (auto* inv = dyn_cast_or_null<InvokeInst>(ci)) {
      const LandingPadInst* lp = inv->getLandingPadInst(); u32 sel = 0; bool found = false; u64 off = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !found; i++) {
        if (lp->isCatch(i)) { auto* c = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { sel = typeId(nullptr); found = true; } else { u64 o = 0; if (tiDerives(tiGlobal(ex.ti), tiGlobal(c), o)) { sel = typeId(c); found = true; off = o; } } }
        else { auto* a = lp->getClause(i); bool allowed = false; if (auto* ca = dyn_cast<ConstantArray>(a)) for (unsigned k = 0; k < ca->getNumOperands(); k++) { u64 o = 0; if (tiDerives(tiGlobal(ex.ti), tiGlobal(ca->getOperand(k)), o)) allowed = true; } if (!allowed) { sel = (u32)-1; found = true; } }
      }
      if (found || lp->isCleanup()) { (void)off; f.lpExn = exn; f.lpSel = sel; enterBlock(f, inv->getUnwindDest()); return; }
    }
    if (f.onReturn) fatal("uncaught", "exception leaves a destructor/initialiser run by the runtime");
    if (f.f->doesNotThrow()) fatal("uncaught", "exception " + exnWhat(ex) + " leaves noexcept function");
    popAllocas(f); g_stk.pop_back();
  }
}
static void doThrow(u64 obj, u64 ti, u64 dtor) { Exn e; e.ptr = obj; e.tiAddr = ti; e.ti = g_tiByAddr.count(ti) ? g_tiByAddr[ti] : nullptr; e.dtor = dtor; e.handlers = 0; e.rethrown = false; g_exn[obj] = e; unwind(obj); }

// ------------------------------------------------------------------ externals
typedef std::function<bool(const CallBase*, std::vector<Val>&, Val&)> Ext;  // returns true if control was transferred
static std::unordered_map<std::string, Ext> g_ext;
static void releaseMem(u64 p, int kind) {
  if (!p) return; auto it = g_mem.find(p); if (it == g_mem.end() || it->second->kind < 2) fatal("memory", "free of invalid pointer"); Obj* o = it->second; if (o->freed) fatal("memory", "double free");
  if (o->kind != kind) fatal("memory", "mismatched allocation/deallocation"); o->freed = true; o->conc.clear(); o->conc.shrink_to_fit(); o->sym.clear(); std::vector<u8>().swap(o->st);
}
static u64 alloc(E n, int kind, bool zero, u64 align = 16) { u64 sz = concretize(n); if (sz > (u64)1 << 30) return 0; return newObj(sz, kind, kind == 2 ? "malloc" : "new", zero, align)->base; }
static E castW(E e, int w) { return e->w > w ? mkTrunc(e, w) : mkZext(e, w); }

static E fcmp(CmpInst::Predicate p, E a, E b) {
  auto eq = [&] { return mk(O_FEQ, 1, 0, a, b); }; auto lt = [&](E x, E y) { return mk(O_FLT, 1, 0, x, y); }; auto le = [&](E x, E y) { return mk(O_FLE, 1, 0, x, y); };
  auto uno = [&] { return mkOr(mk(O_FISNAN, 1, 0, a), mk(O_FISNAN, 1, 0, b)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return KB(false); case CmpInst::FCMP_TRUE: return KB(true);
    case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a); case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b);
    case CmpInst::FCMP_ONE: return mkOr(lt(a, b), lt(b, a)); case CmpInst::FCMP_ORD: return mkNot(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkNot(mkOr(lt(a, b), lt(b, a))); case CmpInst::FCMP_UGT: return mkNot(le(a, b)); case CmpInst::FCMP_UGE: return mkNot(lt(a, b)); case CmpInst::FCMP_ULT: return mkNot(le(b, a)); case CmpInst::FCMP_ULE: return mkNot(lt(b, a)); case CmpInst::FCMP_UNE: return mkNot(eq());
    default: abort();
  }
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mk(O_ULT, 1, 0, a, b); case CmpInst::ICMP_ULE: return mk(O_ULE, 1, 0, a, b); case CmpInst::ICMP_UGT: return mk(O_ULT, 1, 0, b, a); case CmpInst::ICMP_UGE: return mk(O_ULE, 1, 0, b, a);
    case CmpInst::ICMP_SLT: return mk(O_SLT, 1, 0, a, b); case CmpInst::ICMP_SLE: return mk(O_SLE, 1, 0, a, b); case CmpInst::ICMP_SGT: return mk(O_SLT, 1, 0, b, a); case CmpInst::ICMP_SGE: return mk(O_SLE, 1, 0, b, a); default: abort();
  }
}
static double fpLim(int e) { return std::ldexp(1.0, e); }
// checked float -> integer conversion
static E fpToInt(E a, int w, bool sg) {
  if (a->w != 80) {
    E ok; auto c = [&](double v) { return K(fromLd((ld)v, a->w), a->w); };
    if (sg) { E lo = w >= (a->w == 32 ? 24 : 53) ? mk(O_FLE, 1, 0, c(-fpLim(w - 1)), a) : mk(O_FLT, 1, 0, c(-fpLim(w - 1) - 1), a); ok = mkAnd(lo, mk(O_FLT, 1, 0, a, c(fpLim(w - 1)))); }
    else ok = mkAnd(mk(O_FLT, 1, 0, c(-1), a), mk(O_FLT, 1, 0, a, c(fpLim(w))));
    if (!branch(ok)) { if (a->hasUninit) candidate("uninit", "conversion of uninitialised value", true); else fatal("ub", "float to integer conversion out of range"); }
  }
  E r = mk(sg ? O_FTOSI : O_FTOUI, w, 0, a);
  if (!isC(r)) { URng u = g_rng.u(r); if (u.lo == u.hi) return K(u.lo, w); }
  return r;
}
static E clz(E a, bool fromTop) { int w = a->w; E r = K(w, w); for (int i = 0; i < w; i++) { int bit = fromTop ? i : w - 1 - i; r = mkIte(mkExtract(a, bit, 1), K(fromTop ? w - 1 - bit : bit, w), r); } return r; }

static E inputVar(const std::string& name, const char* kind, int w, bool f) { E v = mkVar(name + "#" + std::to_string(g_inputs.size()), w, true, f); g_inputs.push_back({name, kind, v}); return v; }
static CheckSlot& checkSlot(const std::string& msg) { u64 h = strHash(msg); for (u64 i = h;; i++) { auto& c = S->checks[i % 512]; u64 z = 0; if (c.hash.load() == h) return c; if (c.hash.load() == 0 && c.hash.compare_exchange_strong(z, h)) { emit("{\"type\":\"checkdef\",\"slot\":" + std::to_string(i % 512) + ",\"msg\":" + jstr(msg) + "}"); return c; } if (c.hash.load() == h) return c; } }

// The term under this path's facts: settled conditions and choices are replaced by their outcome.
static int settled(E c) {
  if (isC(c)) return (int)c->c; if (g_pcSet.count(c)) return 1; if (g_pcSet.count(mkNot(c))) return 0;
  return g_rng.decide(c);
}
static E underPath(E e, std::unordered_map<E, E>& memo, int depth = 0) {
  if (isC(e) || !e->a[0] || depth > 4000) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r = e; int d = e->w == 1 ? settled(e) : -1;
  if (d >= 0) r = KB(d);
  else if (e->op == O_ITE && (d = settled(e->a[0])) >= 0) r = underPath(e->a[d ? 1 : 2], memo, depth + 1);
  else {
    E x[3] = {e->a[0], e->a[1], e->a[2]}; bool diff = false;
    for (int i = 0; i < 3; i++) if (e->a[i]) { x[i] = underPath(e->a[i], memo, depth + 1); diff |= x[i] != e->a[i]; }
    if (diff) { if (e->op == O_UF) { std::vector<E> v; for (E y : x) if (y) v.push_back(y); r = mkUf(e->aux, e->w, v); } else r = mk(e->op, e->w, e->aux, x[0], x[1], x[2]); }
  }
  return memo[e] = r;
}
static void doCheck(E cond, const std::string& msg) {
  if (cond->w != 1) cond = mkNot(mkEq(cond, K(0, cond->w)));
  auto& cs = checkSlot(msg); cs.reached++;
  if (isC(cond, 1) || g_pcSet.count(cond)) { cs.proven++; cs.syntactic++; return; }
  int d = g_rng.decide(cond); if (d == 1) { g_sol.st.queries++; g_sol.st.interval++; cs.proven++; return; }
  if (d < 0) { std::unordered_map<E, E> memo; cond = underPath(cond, memo); if (isC(cond, 1) || g_pcSet.count(cond)) { g_sol.st.queries++; g_sol.st.interval++; cs.proven++; return; } }
  E n = mkNot(cond); if (!g_modelOk) ensureModel(g_optCheck);
  if (isC(cond, 0) || d == 0 || (g_modelOk && !evalB(cond))) { cs.failed++; fatal("check", msg); }
  Model m; Res r = query(n, m, g_optCheck);
  if (r == R_UNSAT) { cs.proven++; addPc(cond); return; }
  if (r == R_SAT) {
    cs.failed++; Model save = g_model; bool so = g_modelOk; g_model = m; g_modelOk = so;
    if (!so) { std::vector<E> all = g_pc; all.push_back(n); Model m2; Res r2 = g_sol.solve(all, m2, g_model, g_optCheck); if (r2 == R_UNSAT) { cs.failed--; cs.proven++; addPc(cond); g_model = save; return; } if (r2 == R_SAT) { g_model = m2; so = true; } }
    candidate("check", msg, so); g_model = save; addPc(cond); if (!g_modelOk || !evalB(cond)) g_modelOk = false; return;
  }
  cs.unknown++; emit("{\"type\":\"undecided\",\"msg\":" + jstr(msg) + ",\"expr\":" + jstr(exprStr(cond, 9)) + ",\"at\":" + jstr(backtrace()) + ",\"inputs\":" + inputsJson() + "}"); addPc(cond);
}
static void doAssume(E c) {
  if (c->w != 1) c = mkNot(mkEq(c, K(0, c->w)));
  if (isC(c)) { if (!c->c) endPath("assume"); return; }
  if (g_pcSet.count(c)) return;
  if (g_modelOk && evalB(c)) { addPc(c); return; }
  int d = g_rng.decide(c); if (d == 1) { addPc(c); return; } if (d == 0) endPath("assume");
  Model m; Res r = query(c, m, g_optCheck); if (r == R_UNSAT) endPath("assume"); addPc(c); if (r == R_SAT) { bool ok = g_modelOk; g_model = m; g_modelOk = ok; if (!ok) ensureModel(g_optBranch); } else g_modelOk = false;
}

static void regExt() {
  auto ex = [&](const char* n, Ext e) { g_ext[n] = e; };
  // harness API
  ex("hse_f32", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {inputVar(cstr(a[0][0]), "f32", 32, true)}; return false; });
  ex("hse_f64", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {inputVar(cstr(a[0][0]), "f64", 64, true)}; return false; });
  ex("hse_u64", [](const CallBase*, std::vector<Val>& a, Val& r) { E v = inputVar(cstr(a[0][0]), "u64", 64, false); doAssume(mkAnd(mk(O_ULE, 1, 0, a[1][0], v), mk(O_ULE, 1, 0, v, a[2][0]))); r = {v}; return false; });
  ex("hse_u32", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {inputVar(cstr(a[0][0]), "u32", 32, false)}; return false; });
  ex("hse_u8", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {inputVar(cstr(a[0][0]), "u8", 8, false)}; return false; });
  ex("hse_pick", [](const CallBase*, std::vector<Val>& a, Val& r) {
    u64 lo = concretize(a[1][0]), hi = concretize(a[2][0]); if (lo > hi) endPath("assume"); u64 v = lo; std::string n = cstr(a[0][0]);
    for (; v < hi; v++) if (forkPath()) break;
    S->decisions++; g_inputs.push_back({n, "u64", K(v, 64)}); r = {K(v, 64)}; return false; });
  ex("hse_known", [](const CallBase*, std::vector<Val>& a, Val& r) { bool k = isC(a[0][0]); if (!k) { URng u = g_rng.u(a[0][0]); k = u.lo == u.hi || u.hi > ((u64)1 << 53); } r = {K(k, 32)}; return false; });
  ex("hse_concretize", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(concretize(a[0][0]), 64)}; return false; });
  ex("hse_assume", [](const CallBase*, std::vector<Val>& a, Val&) { doAssume(a[0][0]); return false; });
  ex("hse_check", [](const CallBase*, std::vector<Val>& a, Val&) { doCheck(a[0][0], cstr(a[1][0])); return false; });
  ex("hse_note", [](const CallBase*, std::vector<Val>& a, Val&) { if (g_verbose) fprintf(stderr, "[%d] note %s %s\n", getpid(), cstr(a[0][0]).c_str(), exprStr(a[1][0], 9).c_str()); return false; });
  ex("hse_obs_f32", [](const CallBase*, std::vector<Val>& a, Val&) { g_obs.push_back({cstr(a[0][0]), a[1][0], true}); return false; });
  ex("hse_obs_f64", [](const CallBase*, std::vector<Val>& a, Val&) { g_obs.push_back({cstr(a[0][0]), a[1][0], true}); return false; });
  ex("hse_obs_u64", [](const CallBase*, std::vector<Val>& a, Val&) { g_obs.push_back({cstr(a[0][0]), a[1][0], false}); return false; });
  ex("hse_done", [](const CallBase*, std::vector<Val>&, Val&) -> bool { endPath("done"); });
  ex("hse_is_symbolic_build", [](const CallBase*, std::vector<Val>&, Val& r) { r = {K(1, 32)}; return false; });
  ex("hse_mt", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {mkUf(U_MT, 64, {a[0][0], a[1][0]})}; return false; });
  // branchless boolean helpers: evaluate without forking
  ex("hse_and", [](const CallBase*, std::vector<Val>& a, Val& r) { auto nz = [](E e) { return mkNot(mkEq(e, K(0, e->w))); }; r = {castW(mkAnd(nz(a[0][0]), nz(a[1][0])), 32)}; return false; });
  ex("hse_or", [](const CallBase*, std::vector<Val>& a, Val& r) { auto nz = [](E e) { return mkNot(mkEq(e, K(0, e->w))); }; r = {castW(mkOr(nz(a[0][0]), nz(a[1][0])), 32)}; return false; });
  ex("hse_not", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {mkEq(a[0][0], K(0, a[0][0]->w))}; r[0] = castW(r[0], a[0][0]->w); return false; });
  ex("hse_ite_f32", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {mkIteHere(mkNot(mkEq(a[0][0], K(0, a[0][0]->w))), a[1][0], a[2][0])}; return false; });
  g_ext["hse_ite_f64"] = g_ext["hse_ite_f32"]; g_ext["hse_ite_u64"] = g_ext["hse_ite_f32"];
  ex("hse_same_f32", [](const CallBase*, std::vector<Val>& a, Val& r) { E x = a[0][0], y = a[1][0]; r = {castW(mkOr(mkEq(x, y), mkAnd(mk(O_FISNAN, 1, 0, x), mk(O_FISNAN, 1, 0, y))), 32)}; return false; });
  g_ext["hse_same_f64"] = g_ext["hse_same_f32"];
  // memory
  ex("malloc", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(alloc(a[0][0], 2, false), 64)}; return false; });
  ex("calloc", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(alloc(mk(O_MUL, 64, 0, a[0][0], a[1][0]), 2, true), 64)}; return false; });
  ex("realloc", [](const CallBase*, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0][0]), n = alloc(a[1][0], 2, false); if (p) { Obj* o = findObj(p); if (!o || o->freed) fatal("memory", "realloc of invalid pointer"); copyMem(n, p, std::min(o->size, concretize(a[1][0]))); releaseMem(p, 2); } r = {K(n, 64)}; return false; });
  ex("free", [](const CallBase*, std::vector<Val>& a, Val&) { releaseMem(concretize(a[0][0]), 2); return false; });
  ex("hse_new", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(alloc(a[0][0], 3, false), 64)}; return false; });
  ex("hse_newarr", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(alloc(a[0][0], 4, false), 64)}; return false; });
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) ex(n, [](const CallBase*, std::vector<Val>& a, Val&) { releaseMem(concretize(a[0][0]), 3); return false; });
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) ex(n, [](const CallBase*, std::vector<Val>& a, Val&) { releaseMem(concretize(a[0][0]), 4); return false; });
  Ext mcp = [](const CallBase*, std::vector<Val>& a, Val& r) { copyMem(concretize(a[0][0]), concretize(a[1][0]), concretize(a[2][0])); r = {a[0][0]}; return false; };
  Ext mst = [](const CallBase*, std::vector<Val>& a, Val& r) { u64 d = concretize(a[0][0]), n = concretize(a[2][0]); E b = castW(a[1][0], 8); if (n) access(d, n, true); for (u64 i = 0; i < n; i++) storeC(d + i, b); r = {a[0][0]}; return false; };
  g_ext["memcpy"] = g_ext["memmove"] = mcp; g_ext["memset"] = mst;
  // exceptions
  ex("__cxa_allocate_exception", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {K(newObj(concretize(a[0][0]), 2, "exception", false)->base, 64)}; return false; });
  ex("__cxa_free_exception", [](const CallBase*, std::vector<Val>& a, Val&) { releaseMem(concretize(a[0][0]), 2); return false; });
  ex("__cxa_throw", [](const CallBase*, std::vector<Val>& a, Val&) { doThrow(concretize(a[0][0]), concretize(a[1][0]), concretize(a[2][0])); return true; });
  ex("__cxa_begin_catch", [](const CallBase*, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0][0]); auto& e = g_exn[p]; e.handlers++; e.rethrown = false; g_caught.push_back(p); r = {K(p, 64)}; return false; });
  ex("__cxa_get_exception_ptr", [](const CallBase*, std::vector<Val>& a, Val& r) { r = {a[0][0]}; return false; });
  ex("__cxa_end_catch", [](const CallBase* cb, std::vector<Val>&, Val&) -> bool {
    if (g_caught.empty()) unsupported("end_catch without catch"); u64 p = g_caught.back(); g_caught.pop_back(); auto& e = g_exn[p]; if (--e.handlers > 0 || e.rethrown) return false;
    u64 d = e.dtor; g_exn.erase(p); if (d && g_faddr.count(d) && !g_faddr[d]->isDeclaration()) { pushFrame(g_faddr[d], {Val{K(p, 64)}}, cb, 2, p); return true; } releaseMem(p, 2); return false; });
  ex("__cxa_rethrow", [](const CallBase*, std::vector<Val>&, Val&) -> bool { if (g_caught.empty()) fatal("abort", "rethrow without exception"); u64 p = g_caught.back(); g_exn[p].rethrown = true; unwind(p); return true; });
  ex("__dynamic_cast", [](const CallBase*, std::vector<Val>& a, Val& r) -> bool {
    u64 p = concretize(a[0][0]), vp = concretize(load(a[0][0], 8)), top = concretize(load(K(vp - 16, 64), 8)), ti = concretize(load(K(vp - 8, 64), 8)), off = 0;
    auto it = g_tiByAddr.find(ti), d = g_tiByAddr.find(concretize(a[2][0])); if (it == g_tiByAddr.end() || d == g_tiByAddr.end() || !it->second->hasInitializer()) unsupported("dynamic_cast from an external class");
    r = {K(tiDerives(it->second, d->second, off) ? p + top + off : 0, 64)}; return false; });
  ex("__clang_call_terminate", [](const CallBase*, std::vector<Val>&, Val&) -> bool { fatal("uncaught", "std::terminate (exception escapes noexcept)"); });
  ex("_ZSt9terminatev", [](const CallBase*, std::vector<Val>&, Val&) -> bool { fatal("abort", "std::terminate called"); });
  ex("abort", [](const CallBase*, std::vector<Val>&, Val&) -> bool { fatal("abort", "abort() called"); });
  ex("__assert_fail", [](const CallBase*, std::vector<Val>& a, Val&) -> bool { fatal("abort", "assertion failed: " + cstr(a[0][0])); });
  ex("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](const CallBase*, std::vector<Val>& a, Val&) -> bool { fatal("abort", "library assertion failed: " + cstr(a[3][0])); });
  ex("__cxa_pure_virtual", [](const CallBase*, std::vector<Val>&, Val&) -> bool { fatal("abort", "pure virtual call"); });
  ex("exit", [](const CallBase*, std::vector<Val>&, Val&) -> bool { fatal("abort", "exit() called"); });
  Ext nop0 = [](const CallBase* cb, std::vector<Val>&, Val& r) { if (!cb->getType()->isVoidTy()) r = {K(0, scalarW(cb->getType()))}; return false; };
  for (const char* n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit", "fflush", "setvbuf", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_mutex_lock", "pthread_mutex_unlock"}) g_ext[n] = nop0;
  ex("__cxa_guard_acquire", [](const CallBase*, std::vector<Val>& a, Val& r) { E b = load(a[0][0], 1); r = {K(isC(b) && b->c ? 0 : 1, 32)}; return false; });
  ex("__cxa_guard_release", [](const CallBase*, std::vector<Val>& a, Val&) { store(a[0][0], K(1, 8)); return false; });
  ex("__cxa_guard_abort", nop0);
  // math
  auto uf = [&](const char* n, u32 id, int na) {
    ex(n, [id, na](const CallBase*, std::vector<Val>& a, Val& r) { std::vector<E> v{a[0][0]}; if (na > 1) v.push_back(a[1][0]); r = {mkUf(id, v[0]->w, v)}; return false; });
    for (const char* suf : {"f", "l"}) g_ext[std::string(n) + suf] = g_ext[n];
  };
  uf("sin", U_SIN, 1); uf("cos", U_COS, 1); uf("tan", U_TAN, 1); uf("exp", U_EXP, 1); uf("exp2", U_EXP2, 1); uf("exp10", U_EXP10, 1); uf("log", U_LOG, 1); uf("log2", U_LOG2, 1); uf("log10", U_LOG10, 1); uf("pow", U_POW, 2); uf("fmod", U_FMOD, 2); uf("remainder", U_REMAINDER, 2); uf("tanh", U_TANH, 1); uf("atan", U_ATAN, 1); uf("atan2", U_ATAN2, 2); uf("expm1", U_EXPM1, 1); uf("log1p", U_LOG1P, 1); uf("hypot", U_HYPOT, 2); uf("cbrt", U_CBRT, 1); uf("asin", U_ASIN, 1); uf("acos", U_ACOS, 1); uf("sinh", U_SINH, 1); uf("cosh", U_COSH, 1);
  Ext nxt = [](const CallBase*, std::vector<Val>& a, Val& r) -> bool { E x = a[0][0], y = a[1][0]; if (!isC(x) || !isC(y)) unsupported("nextafter of a symbolic value"); if (x->w == 32) { float p, q; u32 u = (u32)x->c, v = (u32)y->c; memcpy(&p, &u, 4); memcpy(&q, &v, 4); p = std::nextafter(p, q); memcpy(&u, &p, 4); r = {K(u, 32)}; } else { double p, q; u64 u = (u64)x->c, v = (u64)y->c; memcpy(&p, &u, 8); memcpy(&q, &v, 8); p = std::nextafter(p, q); memcpy(&u, &p, 8); r = {K(u, 64)}; } return false; };
  g_ext["nextafter"] = g_ext["nextafterf"] = nxt;
  auto fu = [&](const char* n, Op op, u32 aux) { ex(n, [op, aux](const CallBase*, std::vector<Val>& a, Val& r) { r = {mk(op, a[0][0]->w, aux, a[0][0])}; return false; }); for (const char* suf : {"f", "l"}) g_ext[std::string(n) + suf] = g_ext[n]; };
  fu("fabs", O_FABS, 0); fu("sqrt", O_FSQRT, 0); fu("round", O_FRINT, 1); fu("floor", O_FRINT, 3); fu("ceil", O_FRINT, 2); fu("trunc", O_FRINT, 4); fu("rint", O_FRINT, 0); fu("nearbyint", O_FRINT, 0); fu("roundeven", O_FRINT, 0);
  auto mm = [&](const char* n, bool mx) { ex(n, [mx](const CallBase*, std::vector<Val>& a, Val& r) { E x = a[0][0], y = a[1][0]; E c = mx ? mk(O_FLT, 1, 0, x, y) : mk(O_FLT, 1, 0, y, x); r = {mkIte(mk(O_FISNAN, 1, 0, x), y, mkIte(mk(O_FISNAN, 1, 0, y), x, mkIte(c, y, x)))}; return false; }); for (const char* suf : {"f", "l"}) g_ext[std::string(n) + suf] = g_ext[n]; };
  mm("fmin", false); mm("fmax", true);
  for (const char* n : {"copysign", "copysignf"}) ex(n, [](const CallBase*, std::vector<Val>& a, Val& r) { int w = a[0][0]->w; r = {mkConcat(mkExtract(a[1][0], w - 1, 1), mkExtract(a[0][0], 0, w - 1))}; return false; });
  for (const char* n : {"fma", "fmaf"}) ex(n, [](const CallBase*, std::vector<Val>& a, Val& r) { r = {mk(O_FMA, a[0][0]->w, 0, a[0][0], a[1][0], a[2][0])}; return false; });
  Ext lr = [](const CallBase*, std::vector<Val>& a, Val& r) { r = {fpToInt(mk(O_FRINT, a[0][0]->w, 1, a[0][0]), 64, true)}; return false; };
  for (const char* n : {"lround", "lroundf", "llround", "llroundf"}) g_ext[n] = lr;
  Ext lri = [](const CallBase*, std::vector<Val>& a, Val& r) { r = {fpToInt(mk(O_FRINT, a[0][0]->w, 0, a[0][0]), 64, true)}; return false; };
  for (const char* n : {"lrint", "lrintf", "llrint", "llrintf"}) g_ext[n] = lri;
  ex("ldexp", [](const CallBase*, std::vector<Val>& a, Val& r) { i64 k = (i64)sx(K(concretize(a[1][0]), 32)->c, 32); r = {mk(O_FMUL, 64, 0, a[0][0], K(f2bits(std::ldexp(1.0, (int)k)), 64))}; return false; });
}

static bool intrinsic(const IntrinsicInst* ii, std::vector<Val>& a, Val& r) {
  int w = ii->getType()->isVoidTy() ? 0 : scalarW(ii->getType());
  auto lanes = [&](std::function<E(size_t)> f) { size_t n = flat(ii->getType()).size(); for (size_t k = 0; k < n; k++) r.push_back(f(k)); };
  switch (ii->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::donothing: return false;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: r = {K(0, 64)}; return false;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { E n = a[2][0]; copyMem(concretize(a[0][0]), concretize(a[1][0]), concretize(n)); return false; }
    case Intrinsic::memset: { Val t; g_ext["memset"](nullptr, a, t); return false; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; return false;
    case Intrinsic::threadlocal_address: r = a[0]; return false;
    case Intrinsic::is_constant: r = {KB(false)}; return false;
    case Intrinsic::objectsize: r = {K(maskw(w), w)}; return false;
    case Intrinsic::fabs: lanes([&](size_t k) { return mk(O_FABS, a[0][k]->w, 0, a[0][k]); }); return false;
    case Intrinsic::sqrt: lanes([&](size_t k) { return mk(O_FSQRT, a[0][k]->w, 0, a[0][k]); }); return false;
    case Intrinsic::floor: r = {mk(O_FRINT, w, 3, a[0][0])}; return false; case Intrinsic::ceil: r = {mk(O_FRINT, w, 2, a[0][0])}; return false; case Intrinsic::trunc: r = {mk(O_FRINT, w, 4, a[0][0])}; return false; case Intrinsic::round: r = {mk(O_FRINT, w, 1, a[0][0])}; return false;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = {mk(O_FRINT, w, 0, a[0][0])}; return false;
    case Intrinsic::lround: case Intrinsic::llround: r = {fpToInt(mk(O_FRINT, a[0][0]->w, 1, a[0][0]), w, true)}; return false;
    case Intrinsic::lrint: case Intrinsic::llrint: r = {fpToInt(mk(O_FRINT, a[0][0]->w, 0, a[0][0]), w, true)}; return false;
    case Intrinsic::fma: r = {mk(O_FMA, w, 0, a[0][0], a[1][0], a[2][0])}; return false;
    case Intrinsic::fmuladd: lanes([&](size_t k) { return mk(O_FADD, a[0][k]->w, 0, mk(O_FMUL, a[0][k]->w, 0, a[0][k], a[1][k]), a[2][k]); }); return false;
    case Intrinsic::copysign: { E s = mkExtract(a[1][0], w - 1, 1); r = {mkConcat(s, mkExtract(a[0][0], 0, w - 1))}; return false; }
    case Intrinsic::minnum: g_ext["fmin"](nullptr, a, r); return false; case Intrinsic::maxnum: g_ext["fmax"](nullptr, a, r); return false;
    case Intrinsic::sin: r = {mkUf(U_SIN, w, {a[0][0]})}; return false; case Intrinsic::cos: r = {mkUf(U_COS, w, {a[0][0]})}; return false; case Intrinsic::exp: r = {mkUf(U_EXP, w, {a[0][0]})}; return false; case Intrinsic::exp2: r = {mkUf(U_EXP2, w, {a[0][0]})}; return false; case Intrinsic::exp10: r = {mkUf(U_EXP10, w, {a[0][0]})}; return false;
    case Intrinsic::log: r = {mkUf(U_LOG, w, {a[0][0]})}; return false; case Intrinsic::log2: r = {mkUf(U_LOG2, w, {a[0][0]})}; return false; case Intrinsic::log10: r = {mkUf(U_LOG10, w, {a[0][0]})}; return false; case Intrinsic::pow: r = {mkUf(U_POW, w, {a[0][0], a[1][0]})}; return false;
    case Intrinsic::umin: r = {mkIte(mk(O_ULT, 1, 0, a[0][0], a[1][0]), a[0][0], a[1][0])}; return false; case Intrinsic::umax: r = {mkIte(mk(O_ULT, 1, 0, a[0][0], a[1][0]), a[1][0], a[0][0])}; return false;
    case Intrinsic::smin: r = {mkIte(mk(O_SLT, 1, 0, a[0][0], a[1][0]), a[0][0], a[1][0])}; return false; case Intrinsic::smax: r = {mkIte(mk(O_SLT, 1, 0, a[0][0], a[1][0]), a[1][0], a[0][0])}; return false;
    case Intrinsic::abs: r = {mkIte(mkExtract(a[0][0], w - 1, 1), mk(O_SUB, w, 0, K(0, w), a[0][0]), a[0][0])}; return false;
    case Intrinsic::ctlz: r = {clz(a[0][0], true)}; return false; case Intrinsic::cttz: r = {clz(a[0][0], false)}; return false;
    case Intrinsic::ctpop: { E s = K(0, w); for (int i = 0; i < w; i++) s = mk(O_ADD, w, 0, s, mkZext(mkExtract(a[0][0], i, 1), w)); r = {s}; return false; }
    case Intrinsic::bswap: { E s = mkExtract(a[0][0], 0, 8); for (int i = 8; i < w; i += 8) s = mkConcat(s, mkExtract(a[0][0], i, 8)); r = {s}; return false; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E s = mk(O_UREM, w, 0, a[2][0], K(w, w)); E is = mk(O_SUB, w, 0, K(w, w), s); bool l = ii->getIntrinsicID() == Intrinsic::fshl; E x = l ? mkOr(mk(O_SHL, w, 0, a[0][0], s), mk(O_LSHR, w, 0, a[1][0], is)) : mkOr(mk(O_SHL, w, 0, a[0][0], is), mk(O_LSHR, w, 0, a[1][0], s)); E z = mkEq(s, K(0, w)); r = {mkIte(z, l ? a[0][0] : a[1][0], x)}; return false; }
    case Intrinsic::uadd_with_overflow: { int q = a[0][0]->w; E s = mk(O_ADD, q, 0, a[0][0], a[1][0]); r = {s, mk(O_ULT, 1, 0, s, a[0][0])}; return false; }
    case Intrinsic::usub_with_overflow: { int q = a[0][0]->w; r = {mk(O_SUB, q, 0, a[0][0], a[1][0]), mk(O_ULT, 1, 0, a[0][0], a[1][0])}; return false; }
    case Intrinsic::umul_with_overflow: { int q = a[0][0]->w; if (q > 64) unsupported("umul128"); E s = mk(O_MUL, 2 * q, 0, mkZext(a[0][0], 2 * q), mkZext(a[1][0], 2 * q)); r = {mkTrunc(s, q), mkNot(mkEq(mkExtract(s, q, q), K(0, q)))}; return false; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { int q = a[0][0]->w; if (q > 64) unsupported("sop128"); Op o = ii->getIntrinsicID() == Intrinsic::sadd_with_overflow ? O_ADD : ii->getIntrinsicID() == Intrinsic::ssub_with_overflow ? O_SUB : O_MUL; E s = mk(o, 2 * q, 0, mkSext(a[0][0], 2 * q), mkSext(a[1][0], 2 * q)); E t = mkTrunc(s, q); r = {t, mkNot(mkEq(mkSext(t, 2 * q), s))}; return false; }
    case Intrinsic::usub_sat: r = {mkIte(mk(O_ULT, 1, 0, a[0][0], a[1][0]), K(0, w), mk(O_SUB, w, 0, a[0][0], a[1][0]))}; return false;
    case Intrinsic::uadd_sat: { E s = mk(O_ADD, w, 0, a[0][0], a[1][0]); r = {mkIte(mk(O_ULT, 1, 0, s, a[0][0]), K(maskw(w), w), s)}; return false; }
    case Intrinsic::eh_typeid_for: { const Value* v = ii->getArgOperand(0)->stripPointerCasts(); r = {K(typeId(isa<ConstantPointerNull>(v) ? nullptr : v), 32)}; return false; }
    case Intrinsic::is_fpclass: { u32 m = (u32)a[1][0]->c; E x = a[0][0]; E res = KB(false); int q = x->w; E nan = mk(O_FISNAN, 1, 0, x); if ((m & 3) == 3) res = mkOr(res, nan); else if (m & 3) unsupported("fpclass"); E neg = mkExtract(x, q - 1, 1); u128 infb = q == 32 ? f2bits(HUGE_VALF) : f2bits(HUGE_VAL); E ab = mk(O_FABS, q, 0, x); E inf = mkEq(ab, K(infb, q)), zero = mkEq(ab, K(0, q)); u128 mn = q == 32 ? 0x800000 : (u128)1 << 52; E sub = mkAnd(mkNot(zero), mk(O_ULT, 1, 0, ab, K(mn, q))); E norm = mkAnd(mk(O_ULE, 1, 0, K(mn, q), ab), mk(O_ULT, 1, 0, ab, K(infb, q))); E cls[] = {mkAnd(inf, neg), mkAnd(norm, neg), mkAnd(sub, neg), mkAnd(zero, neg), mkAnd(zero, mkNot(neg)), mkAnd(sub, mkNot(neg)), mkAnd(norm, mkNot(neg)), mkAnd(inf, mkNot(neg))}; for (int i = 0; i < 8; i++) if (m & (4u << i)) res = mkOr(res, cls[i]); r = {res}; return false; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: fatal("abort", "trap");
    case Intrinsic::vastart: { u64 ap = concretize(a[0][0]); auto& f = g_stk.back(); Obj* o = newObj(8 * f.varargs.size() + 8, 1, "varargs", false); for (size_t i = 0; i < f.varargs.size(); i++) storeC(o->base + 8 * i, castW(f.varargs[i][0], 64)); f.allocas.push_back(o); storeC(ap, K(48, 32)); storeC(ap + 4, K(304, 32)); storeC(ap + 8, K(o->base, 64)); storeC(ap + 16, K(0, 64)); return false; }
    case Intrinsic::vaend: return false;
    case Intrinsic::vacopy: copyMem(concretize(a[0][0]), concretize(a[1][0]), 24); return false;
    default: unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
  }
}

static const Function* g_aliasFn(const Value* v) { v = v->stripPointerCasts(); if (auto* a = dyn_cast<GlobalAlias>(v)) return dyn_cast<Function>(a->getAliaseeObject()); return dyn_cast<Function>(v); }
static void doCall(const CallBase* cb) {
  Frame& f = g_stk.back(); const Function* callee = g_aliasFn(cb->getCalledOperand());
  std::vector<Val> args; for (auto& u : cb->args()) args.push_back(get(u.get()));
  ++f.it;
  if (cb->isInlineAsm()) { if (!cb->getType()->isVoidTy()) unsupported("inline asm"); finishCall(f, cb, {}); return; }
  if (!callee) {
    --f.it; E t = get1(cb->getCalledOperand()); u64 a = concretize(t); auto it = g_faddr.find(a); if (it == g_faddr.end()) fatal("memory", "call through invalid function pointer"); callee = it->second; ++g_stk.back().it;
  }
  if (callee->isDeclaration()) {
    Val r; bool transferred;
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { --g_stk.back().it; transferred = intrinsic(ii, args, r); ++g_stk.back().it; }
    else {
      auto it = g_ext.find(callee->getName().str()); if (it == g_ext.end()) { --f.it; unsupported("external function " + demangle(callee->getName().str()) + " [" + callee->getName().str() + "]"); }
      transferred = it->second(cb, args, r);
    }
    if (!transferred) finishCall(g_stk.back(), cb, r);
    return;
  }
  static std::unordered_map<const Function*, const Ext*> ov; auto o = ov.find(callee); if (o == ov.end()) { std::string n = callee->getName().str(); auto it = (n == "__clang_call_terminate" || n.rfind("hse_", 0) == 0) ? g_ext.find(n) : g_ext.end(); o = ov.emplace(callee, it == g_ext.end() ? nullptr : &it->second).first; }
  if (o->second) { Val r; if (!(*o->second)(cb, args, r)) finishCall(g_stk.back(), cb, r); return; }
  pushFrame(callee, args, cb);
}

static void step() {
  Frame& f = g_stk.back(); const Instruction* I = &*f.it; g_instr++; g_instrPath++;
  if ((g_instrPath & 0xffff) == 0) { checkStop(); if (g_instrPath > g_maxInstr) { emit("{\"type\":\"limit\",\"at\":" + jstr(backtrace()) + ",\"inputs\":" + inputsJson() + "}"); endPath("limit"); } }
  if (g_verbose && getenv("HSE_TRACE")) { std::string s; raw_string_ostream o(s); I->print(o); fprintf(stderr, "%s: %s\n", f.f->getName().str().substr(0, 40).c_str(), o.str().c_str()); }
  auto lanes2 = [&](std::function<E(E, E)> fn) { Val x = get(I->getOperand(0)), y = get(I->getOperand(1)), r; for (size_t i = 0; i < x.size(); i++) r.push_back(fn(x[i], y[i])); setReg(f, I, r); ++f.it; };
  auto lanes1 = [&](std::function<E(E)> fn) { Val x = get(I->getOperand(0)), r; for (size_t i = 0; i < x.size(); i++) r.push_back(fn(x[i])); setReg(f, I, r); ++f.it; };
  auto bin = [&](Op op) { lanes2([op](E a, E b) { return mk(op, a->w, 0, a, b); }); };
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      Val v; if (auto* rv = cast<ReturnInst>(I)->getReturnValue()) v = get(rv);
      const CallBase* cb = f.call; int onr = f.onReturn; u64 ck = f.cookie; popAllocas(f); g_stk.pop_back(); if (g_stk.empty()) return;
      if (onr == 2) { releaseMem(ck, 2); finishCall(g_stk.back(), cb, {}); return; }
      if (onr == 1) return;
      finishCall(g_stk.back(), cb, v); return;
    }
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (!b->isConditional()) { enterBlock(f, b->getSuccessor(0)); return; } E c = get1(b->getCondition()); bool t = branch(c); enterBlock(g_stk.back(), b->getSuccessor(t ? 0 : 1)); return; }
    case Instruction::Switch: { auto* s = cast<SwitchInst>(I); E c = get1(s->getCondition()); for (auto& k : s->cases()) if (branch(mkEq(c, constScalar(k.getCaseValue())))) { enterBlock(g_stk.back(), k.getCaseSuccessor()); return; } enterBlock(g_stk.back(), s->getDefaultDest()); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
    case Instruction::LandingPad: { setReg(f, I, {K(f.lpExn, 64), K(f.lpSel, 32)}); ++f.it; return; }
    case Instruction::Resume: { Val v = get(I->getOperand(0)); u64 p = concretize(v[0]); popAllocas(f); g_stk.pop_back(); unwind(p); return; }
    case Instruction::Unreachable: fatal("abort", "reached unreachable code (undefined behaviour)");
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); u64 n = concretize(get1(a->getArraySize())); Obj* o = newObj(n * (u64)g_dl->getTypeAllocSize(a->getAllocatedType()), 1, "stack:" + a->getName().str(), false, a->getAlign().value()); f.allocas.push_back(o); setReg(f, I, {K(o->base, 64)}); ++f.it; return; }
    case Instruction::Load: { Val r; E p = get1(I->getOperand(0)); for (auto& s : flat(I->getType())) { int n = (int)g_dl->getTypeStoreSize(s.t); E v = load(mk(O_ADD, 64, 0, p, K(s.off, 64)), n); int w = scalarW(s.t); r.push_back(w == v->w ? v : mkTrunc(v, w)); } Frame& g = g_stk.back(); setReg(g, I, r); ++g.it; return; }
    case Instruction::Store: { Val v = get(I->getOperand(0)); E p = get1(I->getOperand(1)); auto& fl = flat(I->getOperand(0)->getType()); for (size_t i = 0; i < fl.size(); i++) store(mk(O_ADD, 64, 0, p, K(fl[i].off, 64)), v[i]); ++g_stk.back().it; return; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I); E p = get1(g->getPointerOperand());
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        E ix = get1(it.getOperand());
        if (StructType* st = it.getStructTypeOrNull()) p = mk(O_ADD, 64, 0, p, K(g_dl->getStructLayout(st)->getElementOffset((unsigned)ix->c), 64));
        else { u64 sz = g_dl->getTypeAllocSize(it.getIndexedType()); E x = ix->w < 64 ? mkSext(ix, 64) : ix; p = mk(O_ADD, 64, 0, p, mk(O_MUL, 64, 0, x, K(sz, 64))); }
      }
      setReg(f, I, {p}); ++f.it; return; }
    case Instruction::Add: bin(O_ADD); return; case Instruction::Sub: bin(O_SUB); return; case Instruction::Mul: bin(O_MUL); return; case Instruction::And: bin(O_AND); return; case Instruction::Or: bin(O_OR); return; case Instruction::Xor: bin(O_XOR); return; case Instruction::Shl: bin(O_SHL); return; case Instruction::LShr: bin(O_LSHR); return; case Instruction::AShr: bin(O_ASHR); return;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E b = get1(I->getOperand(1)); if (branch(mkEq(b, K(0, b->w)))) fatal("ub", "integer division by zero");
      bin(I->getOpcode() == Instruction::UDiv ? O_UDIV : I->getOpcode() == Instruction::SDiv ? O_SDIV : I->getOpcode() == Instruction::URem ? O_UREM : O_SREM); return; }
    case Instruction::FAdd: bin(O_FADD); return; case Instruction::FSub: bin(O_FSUB); return; case Instruction::FMul: bin(O_FMUL); return; case Instruction::FDiv: bin(O_FDIV); return;
    case Instruction::FRem: lanes2([](E a, E b) { return mkUf(U_FMOD, a->w, {a, b}); }); return;
    case Instruction::FNeg: lanes1([](E a) { return mk(O_FNEG, a->w, 0, a); }); return;
    case Instruction::ICmp: { auto p = cast<CmpInst>(I)->getPredicate(); lanes2([p](E a, E b) { return icmp(p, a, b); }); return; }
    case Instruction::FCmp: { auto p = cast<CmpInst>(I)->getPredicate(); lanes2([p](E a, E b) { return fcmp(p, a, b); }); return; }
    case Instruction::ZExt: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mkZext(a, w); }); return; }
    case Instruction::SExt: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mkSext(a, w); }); return; }
    case Instruction::Trunc: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mkTrunc(a, w); }); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { int w = scalarW(I->getType()); lanes1([w](E a) { return castW(a, w); }); return; }
    case Instruction::BitCast: {
      Val x = get(I->getOperand(0)); auto& fl = flat(I->getType()); if (x.size() == fl.size()) { setReg(f, I, x); ++f.it; return; }
      E all = x[0]; for (size_t i = 1; i < x.size(); i++) all = mkConcat(x[i], all); Val r; int o = 0; for (auto& s : fl) { int w = scalarW(s.t); r.push_back(mkExtract(all, o, w)); o += w; } setReg(f, I, r); ++f.it; return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mk(O_FTOF, w, 0, a); }); return; }
    case Instruction::SIToFP: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mk(O_SITOF, w, 0, a); }); return; }
    case Instruction::UIToFP: { int w = scalarW(I->getType()->getScalarType()); lanes1([w](E a) { return mk(O_UITOF, w, 0, a); }); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { bool sg = I->getOpcode() == Instruction::FPToSI; int w = scalarW(I->getType()->getScalarType()); Val x = get(I->getOperand(0)), r; for (E e : x) r.push_back(fpToInt(e, w, sg)); Frame& g = g_stk.back(); setReg(g, I, r); ++g.it; return; }
    case Instruction::Select: {
      Val c = get(I->getOperand(0)), x = get(I->getOperand(1)), y = get(I->getOperand(2)), r; for (size_t i = 0; i < x.size(); i++) r.push_back(mkIteHere(c.size() > 1 ? c[i] : c[0], x[i], y[i])); setReg(f, I, r); ++f.it; return; }
    case Instruction::ExtractValue: case Instruction::InsertValue: {
      bool ins = I->getOpcode() == Instruction::InsertValue; Type* t = I->getOperand(0)->getType(); size_t off = 0;
      for (unsigned ix : ins ? cast<InsertValueInst>(I)->getIndices() : cast<ExtractValueInst>(I)->getIndices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += flat(st->getElementType(k)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * flat(t).size(); } }
      Val a = get(I->getOperand(0)); size_t n = flat(t).size();
      if (ins) { Val b = get(I->getOperand(1)); for (size_t k = 0; k < n; k++) a[off + k] = b[k]; setReg(f, I, a); } else { Val r(a.begin() + off, a.begin() + off + n); setReg(f, I, r); }
      ++f.it; return; }
    case Instruction::ExtractElement: { Val a = get(I->getOperand(0)); u64 k = concretize(get1(I->getOperand(1))); setReg(g_stk.back(), I, {a[k]}); ++g_stk.back().it; return; }
    case Instruction::InsertElement: { Val a = get(I->getOperand(0)); u64 k = concretize(get1(I->getOperand(2))); a[k] = get1(I->getOperand(1)); setReg(g_stk.back(), I, a); ++g_stk.back().it; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = get(I->getOperand(0)), b = get(I->getOperand(1)), r; for (int k : sv->getShuffleMask()) r.push_back(k < 0 ? K(0, a[0]->w) : (size_t)k < a.size() ? a[k] : b[k - a.size()]); setReg(f, I, r); ++f.it; return; }
    case Instruction::Freeze: setReg(f, I, get(I->getOperand(0))); ++f.it; return;
    case Instruction::Fence: ++f.it; return;
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(I); E p = get1(rm->getPointerOperand()), v = get1(rm->getValOperand()); E old = load(p, v->w / 8); E nv; switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mk(O_ADD, v->w, 0, old, v); break; case AtomicRMWInst::Sub: nv = mk(O_SUB, v->w, 0, old, v); break; default: unsupported("atomicrmw"); } store(p, nv); setReg(g_stk.back(), I, {old}); ++g_stk.back().it; return; }
    case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(I); E p = get1(cx->getPointerOperand()), c = get1(cx->getCompareOperand()), n = get1(cx->getNewValOperand()); E old = load(p, c->w / 8); E eq = mkEq(old, c); store(p, mkIte(eq, n, old)); setReg(g_stk.back(), I, {old, eq}); ++g_stk.back().it; return; }
    case Instruction::VAArg: unsupported("va_arg");
    default: unsupported(std::string("instruction ") + I->getOpcodeName());
  }
}
static void runFn(const Function* f) { size_t d = g_stk.size(); pushFrame(f, {}, nullptr, 0); while (g_stk.size() > d) step(); }

static void finishPath(const char* status) {
  std::string st = status; flushStats();
  if (st == "done") {
    S->done++;
    if (g_modelOk) { u64 k = S->samples++; if (k < (u64)g_maxSamples) { Evaluator ev(g_model); std::string s = "{\"type\":\"path\",\"inputs\":" + inputsJson() + ",\"obs\":["; for (size_t i = 0; i < g_obs.size() && i < 400; i++) { if (i) s += ","; s += "[" + jstr(g_obs[i].name) + ",\"" + (g_obs[i].isF ? "f" : "u") + std::to_string(g_obs[i].e->w) + "\",\"" + hex(ev.ev(g_obs[i].e)) + "\"]"; } emit(s + "],\"pc\":" + std::to_string(g_pc.size()) + "}"); } }
  } else if (st == "assume" || st == "infeasible") S->assumed++;
  else if (st == "cand") S->stoppedCand++;
  else if (st == "unsupported") S->unsupported++;
  else if (st == "stopped" && g_instrPath < 2000000) {}
  else { S->limit++; if ((st == "timeout" || st == "stopped") && g_instrPath >= 2000000 && g_modelOk) emit("{\"type\":\"limit\",\"instructions\":" + std::to_string(g_instrPath) + ",\"inputs\":" + inputsJson() + "}"); if (st == "timeout") S->stop = 1; }
}

int main(int argc, char** argv) {
  std::vector<std::string> files; std::string outF = "/dev/stdout"; double budget = 60; int jobs = 8; double zs = 2, es = 20, cs = 60;
  g_sol.tmpDir = "/tmp"; g_sol.z3bin = "z3-new"; g_sol.cvc5bin = "/usr/bin/cvc5";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") outF = nx(); else if (a == "-t") budget = stod(nx()); else if (a == "-j") jobs = stoi(nx()); else if (a == "-v") g_verbose = true; else if (a == "--z3-secs") zs = stod(nx()); else if (a == "--ext-secs") es = stod(nx()); else if (a == "--check-secs") cs = stod(nx()); else if (a == "--tmp") g_sol.tmpDir = nx(); else if (a == "--samples") g_maxSamples = stoi(nx()); else if (a == "--max-cand") g_maxCand = stoi(nx()); else if (a == "--z3") g_sol.z3bin = nx(); else if (a == "--cvc5") g_sol.cvc5bin = nx(); else if (a == "--dump") g_sol.dump = true; else if (a == "--max-instr") g_maxInstr = stoull(nx()); else files.push_back(a); }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->slots = jobs - 1; S->started = 1; g_handover = (std::atomic<uint8_t>*)mmap(nullptr, g_handoverMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_monitor = getpid();
  { sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD); sigprocmask(SIG_BLOCK, &set, nullptr); }
  g_out = open(outF.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); g_start = nowSec(); g_deadline = g_start + budget;
  g_optBranch = {zs, es}; g_optCheck = {zs, cs};
  SMDiagnostic err;
  for (auto& fn : files) { auto m = parseIRFile(fn, err, g_ctx); if (!m) { err.print("hse", errs()); return 2; } if (!g_mod) g_mod = std::move(m); else if (Linker::linkModules(*g_mod, std::move(m))) { fprintf(stderr, "link failed\n"); return 2; } }
  g_dl = &g_mod->getDataLayout(); regExt();
  for (auto& f : *g_mod) if (!f.isDeclaration()) fnInfo(&f);
  // The monitor stays out of the exploration: whatever happens to the explorers, it ends them in time and reports.
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t ex = fork();
  if (ex == 0) {
    setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); const char* status = "done";
    try {
      initGlobals();
      for (auto& g : g_mod->globals()) g_tiByAddr[g_gaddr[&g]] = &g;
      if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) { std::vector<std::pair<u64, const Function*>> v; if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs2 = cast<ConstantStruct>(ca->getOperand(i)); v.push_back({cast<ConstantInt>(cs2->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs2->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) if (x.second) runFn(x.second); }
      const Function* mn = g_mod->getFunction("hse_main"); if (!mn) { fprintf(stderr, "no hse_main\n"); _exit(2); }
      runFn(mn);
    } catch (PathEnd& e) { status = e.status; }
    finishPath(status);
    releasePlace();   // its children are the monitor's from here on
    _exit(0);
  }
  setpgid(ex, ex);
  for (bool killed = false;;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0) break;                                   // every explorer is gone
    if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !killed) { S->engineErr++; emit("{\"type\":\"engine_error\",\"msg\":\"explorer ended with " + std::to_string(st) + "\"}"); }
    if (p > 0) continue;
    if (!killed && nowSec() > g_deadline + 6) { killed = true; S->stop = 1; kill(-ex, SIGKILL); }
    if (killed && nowSec() > g_deadline + 10) break;
    usleep(2000);
  }
  std::string fs; int nf = 0; for (int i = 0; i < g_fnCount && i < (1 << 14); i++) if (S->fn[i]) { std::string n = demangle(g_fnList[i]->getName().str()); if (n.find("hart::") != std::string::npos || n.find("drwav") != std::string::npos) { if (nf++) fs += ","; fs += jstr(n.substr(0, 200)); } }
  std::set<std::string> inl;   // source functions inlined into the executed blocks
  for (auto* f : g_fnList) for (auto& b : *f) { int ix = g_fns[f]->bbIdx[&b]; if (ix >= (1 << 19) || !S->bb[ix]) continue;
    for (auto& i : b) for (const DILocation* l = i.getDebugLoc(); l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) {
      std::string fn = sp->getFilename().str(); size_t k = fn.rfind('/'); if (k != std::string::npos) fn = fn.substr(k + 1);
      if (fn.compare(0, 4, "hart") == 0 || fn.compare(0, 6, "dr_wav") == 0) inl.insert("hart source: " + sp->getName().str() + " (" + fn + ":" + std::to_string(sp->getLine()) + ")"); } }
  for (auto& n : inl) { if (nf++) fs += ","; fs += jstr(n.substr(0, 200)); }
  int nbb = 0, tbb = 0; for (auto* f : g_fnList) { std::string n = demangle(f->getName().str()); if (n.find("hart::") == std::string::npos) continue; for (auto& b : *f) { tbb++; int ix = g_fns[f]->bbIdx[&b]; if (ix < (1 << 19) && S->bb[ix]) nbb++; } }
  std::string ck; for (int i = 0; i < 512; i++) if (S->checks[i].hash) { auto& c = S->checks[i]; if (!ck.empty()) ck += ","; ck += "{\"slot\":" + std::to_string(i) + ",\"reached\":" + std::to_string(c.reached) + ",\"proven\":" + std::to_string(c.proven) + ",\"syntactic\":" + std::to_string(c.syntactic) + ",\"unknown\":" + std::to_string(c.unknown) + ",\"failed\":" + std::to_string(c.failed) + "}"; }
  char b[2048]; auto L = [](std::atomic<u64>& x) { return (unsigned long long)x.load(); };
  snprintf(b, sizeof b, "{\"type\":\"summary\",\"seconds\":%.2f,\"paths\":%llu,\"done\":%llu,\"assumed\":%llu,\"cand_paths\":%llu,\"limit\":%llu,\"unsupported\":%llu,\"engine_errors\":%llu,\"stop\":%d,\"forks\":%llu,\"decisions\":%llu,\"instructions\":%llu,\"mem_ops\":%llu,\"mem_sym\":%llu,\"queries\":%llu,\"q_trivial\":%llu,\"q_interval\":%llu,\"q_modelpool\":%llu,\"q_cache\":%llu,\"q_z3\":%llu,\"q_ext\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"mismatch\":%llu,\"uf_lemmas\":%llu,\"z3_s\":%.2f,\"ext_s\":%.2f,\"hart_blocks_covered\":%d,\"hart_blocks_total\":%d,",
    nowSec() - g_start, L(S->started), L(S->done), L(S->assumed), L(S->stoppedCand), L(S->limit), L(S->unsupported), L(S->engineErr), (int)S->stop, L(S->forks), L(S->decisions), L(S->instrs), L(S->memOps), L(S->memSym), L(S->q), L(S->qtriv), L(S->qint), L(S->qpool), L(S->qcache), L(S->qz3), L(S->qext), L(S->qsat), L(S->qunsat), L(S->qunk), L(S->qmis), L(S->qlem), S->z3us / 1e6, S->extus / 1e6, nbb, tbb);
  emit(std::string(b) + "\"checks\":[" + ck + "],\"functions\":[" + fs + "]}");
  return 0;
}
