#include <sys/prctl.h>
#include <signal.h>
// pgsym: a small path-forking symbolic executor for LLVM 18 IR (C programs).
//
//   pgsym MODULE.bc --entry FN --out RESULT.json [--jobs N] [--time S]
//         [--maxinst N] [--param I=V]... [--maxviol N]
//
// Every feasible path of FN is executed; branch conditions, memory-safety
// conditions and pg_assert conditions over symbolic inputs are decided by Z3
// on the accumulated path condition.  See DESIGN.md for the semantics.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>
#include <set>
#include <memory>
#include <cmath>
#include <chrono>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <random>

using namespace llvm;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
struct Obj {
  u64 base, size; int rc = 1; uint8_t kind; // 0 global 1 stack 2 heap
  bool dead = false, ro = false; const char *name;
  std::vector<uint8_t> b; std::vector<Expr *> s; // s empty => concrete
};
struct ObjP {
  Obj *p;
  ObjP(Obj *o = nullptr) : p(o) {}
  ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; }
  ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) noexcept { std::swap(p, o.p); return *this; }
  ~ObjP() { if (p && --p->rc == 0) delete p; }
  Obj *operator->() const { return p; }
};
static const u64 GBASE = 0x100000000ull, FBASE = 0x10000ull, SBASE = 0x7f0000000000ull, HBASE = 0x600000000000ull;
static const u64 GAP = 1 << 16;
typedef std::vector<ObjP> Space;

// ---------------------------------------------------------------- bytecode
struct Opd { int reg; V v; };
struct KFunc;
enum Op : uint8_t { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_LOAD, O_STORE, O_GEP, O_CAST, O_ALLOCA, O_CALL, O_RET, O_BR, O_CBR, O_SWITCH, O_SELECT, O_EXTV, O_INSV, O_UNREACH, O_FREEZE, O_INTRIN };
struct Case { u64 v; int bb; };
struct KInst {
  Op op; uint8_t sub = 0; uint8_t w = 0, w2 = 0; // widths in bits
  int dst = -1; bool isfp = false, isvoid = false;
  std::vector<Opd> ops; std::vector<u64> scale; u64 off = 0; // GEP
  int t = 0, f = 0; std::vector<Case> cases; std::vector<unsigned> idx;
  Function *callee = nullptr; KFunc *kf = nullptr; int ext = 0; Instruction *I = nullptr;
  std::vector<u64> byval; Type *ty = nullptr; Type *ty2 = nullptr; std::vector<Type *> argty;
};
struct Phi { int dst; std::vector<std::pair<int, Opd>> in; };
struct KBlock { std::vector<Phi> phis; std::vector<KInst> ins; };
struct KFunc { Function *F; std::vector<KBlock> bb; int nreg = 0; bool compiled = false; u64 hits = 0; std::vector<int> argreg; int depth = 0; };

static LLVMContext *LC; static Module *M; static const DataLayout *DL;
static std::map<Function *, KFunc *> kfs; static std::map<u64, Function *> faddr; static std::map<const GlobalValue *, u64> gaddr;
static std::map<std::string, int> extid;

// ---------------------------------------------------------------- state
struct Frame { KFunc *f; int bb = 0, ip = 0, prev = 0; std::vector<V> r; std::vector<u64> allocas; int dst = -1; std::vector<V> va; u64 vamem = 0; };
struct SymRec { std::string name; uint32_t first, n; };
struct State {
  std::vector<Frame> st; Space g, s, h; u64 snext = SBASE, hnext = HBASE;
  std::vector<Expr *> pc; std::vector<uint8_t> model; std::vector<SymRec> syms; uint32_t nsym = 0;
  u64 inst = 0; int forks = 0; bool allow_exit = false, forkaddr = false; std::vector<std::string> notes; u64 heap_live = 0; bool in_exit=false; int mallocfail = -1; bool exploring_exit = false;
};

// ---------------------------------------------------------------- globals/stats
struct Viol { std::string kind, msg, loc, stack; std::vector<SymRec> syms; std::vector<uint8_t> model; std::vector<std::string> notes; };
static u64 n_paths = 0, n_forks = 0, n_query = 0, n_qsat = 0, n_qunsat = 0, n_qcache = 0, n_inst = 0, n_assert = 0, n_assert_q = 0, n_assumed = 0, n_memq = 0, n_exitpaths = 0, n_unknown = 0;
static double t_solver = 0, t_start; static std::map<std::string, u64> covers; static std::vector<Viol> viols; static std::map<std::string, u64> fnhits;
struct Wit { std::vector<SymRec> syms; std::vector<uint8_t> model; }; static std::vector<Wit> wits; static std::vector<std::string> incompletes; static std::vector<std::string> samples; static std::set<std::string> violkeys;
static u64 maxinst = 50000000; static double timelimit = 600; static int maxviol = 5; static std::map<int, u64> params; static u64 seed_ = 1; static unsigned qtimeout = 60000;
static bool verbose = false; static u64 n_byteq = 0; static u64 n_bytes_symbolic = 0; static u64 maxenum = 70000; static std::map<std::string,u64> forkat; static bool profile=false;

static void incomplete(const std::string &s) { for (auto &x : incompletes) if (x == s) return; incompletes.push_back(s); }

static std::string where(Instruction *I) {
  if (I) if (DILocation *d = I->getDebugLoc()) { return d->getFilename().str() + ":" + std::to_string(d->getLine()); }
  return I ? I->getFunction()->getName().str() : "?";
}
static std::string stackof(State &S) {
  std::string r; for (int i = (int)S.st.size() - 1; i >= 0; i--) { Frame &f = S.st[i]; auto &b = f.f->bb[f.bb]; int ip = f.ip; if (ip >= (int)b.ins.size()) ip = b.ins.size() - 1; if (i < (int)S.st.size() - 1 && ip > 0) ip--; 
    r += f.f->F->getName().str() + "@" + (ip >= 0 && ip < (int)b.ins.size() ? where(b.ins[ip].I) : std::string("?")) + " < "; if (r.size() > 1500) break; } return r; }

static State *CUR;
struct PathEnd { std::string kind, msg; };  // thrown to end a path
// ---------------------------------------------------------------- solver
struct Res { int sat; std::vector<std::pair<uint32_t, uint8_t>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<uint32_t>, Res, VecHash> qcache;
static z3::solver *Sol() { static z3::solver *s = nullptr; if (!s) { s = new z3::solver(z3ctx(), z3::solver::simple()); z3::params p(z3ctx()); p.set("timeout", qtimeout); s->set(p); } return s; }

// Is (pc && c) satisfiable?  On sat, updates `model` (starting from the given one).
static bool solve(const std::vector<Expr *> &pc, Expr *c, std::vector<uint8_t> &model) {
  if (isc(c)) return c->c;
  if (eval_expr(c, model)) return true;
  // independent-constraint slice
  static std::vector<uint32_t> mark; static uint32_t stamp = 0; stamp++;
  auto add = [&](SymSet *s) { for (auto x : s->v) { if (x >= mark.size()) mark.resize(x + 64, 0); mark[x] = stamp; } };
  auto hit = [&](SymSet *s) { for (auto x : s->v) if (x < mark.size() && mark[x] == stamp) return true; return false; };
  add(c->syms); std::vector<Expr *> sl; std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && hit(pc[i]->syms)) { used[i] = 1; sl.push_back(pc[i]); add(pc[i]->syms); ch = true; } }
  std::vector<uint32_t> key; for (auto e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(c->id);
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    double t0 = now(); n_query++; Res r;
    { // support of one byte: decided by complete evaluation over its 256 values
      uint32_t one = ~0u; bool single = true; auto chk = [&](SymSet *q) { for (auto x : q->v) { if (one == ~0u) one = x; else if (one != x) single = false; } };
      chk(c->syms); if (single) for (auto e : sl) { chk(e->syms); if (!single) break; }
      if (single && one != ~0u) {
        std::vector<uint8_t> m = model; if (one >= m.size()) m.resize(one + 1, 0); int found = -1;
        for (int v = 0; v < 256 && found < 0; v++) { m[one] = v; if (!eval_expr(c, m)) continue; bool ok = true; for (auto e : sl) if (!eval_expr(e, m)) { ok = false; break; } if (ok) found = v; }
        n_byteq++; r.sat = found >= 0; if (r.sat) { n_qsat++; r.m.push_back({one, (uint8_t)found}); } else n_qunsat++; t_solver += now() - t0;
        it = qcache.emplace(key, r).first; if (!r.sat) return false; if (one >= model.size()) model.resize(one + 1, 0); model[one] = found; return true;
      } }
    if (getenv("PGDBG")) { std::set<uint32_t> ids; for (auto x : c->syms->v) ids.insert(x); for (auto e : sl) for (auto x : e->syms->v) ids.insert(x); Frame &f = CUR->st.back(); fprintf(stderr, "Q %zu csup %zu sl %zu at %s\n", ids.size(), c->syms->v.size(), sl.size(), where(f.f->bb[f.bb].ins[f.ip].I).c_str()); }
    if (c->syms->v.size() > 16) { // a condition which almost any input satisfies needs no search
      std::vector<uint32_t> ids; { std::set<uint32_t> q; for (auto x : c->syms->v) q.insert(x); for (auto e : sl) for (auto x : e->syms->v) q.insert(x); ids.assign(q.begin(), q.end()); }
      std::vector<uint8_t> m = model; if (m.size() <= ids.back()) m.resize(ids.back() + 1, 0); static uint64_t g = 88172645463325252ull; bool ok = false;
      for (int t = 0; t < 12 && !ok; t++) { for (auto x : ids) { g ^= g << 13; g ^= g >> 7; g ^= g << 17; if (t >= 6 && (g & 3)) continue; m[x] = g >> 24; } ok = eval_expr(c, m); for (size_t i = 0; i < sl.size() && ok; i++) ok = eval_expr(sl[i], m); }
      if (ok) { n_qsat++; r.sat = 1; for (auto x : ids) r.m.push_back({x, m[x]}); t_solver += now() - t0; qcache.emplace(key, r); for (auto &p : r.m) { if (p.first >= model.size()) model.resize(p.first + 1, 0); model[p.first] = p.second; } return true; } }
    // a query may not outlive the run by more than a few seconds
    auto budget = [&](double most) { double left = timelimit - (now() - t_start) + 5; return (unsigned)(1000 * std::max(2.0, std::min(most / 1000.0, left))); };
    z3::solver &s = *Sol(); { z3::params p(z3ctx()); p.set("timeout", budget(qtimeout)); s.set(p); } s.push();
    for (auto e : sl) s.add(to_z3(e)); s.add(to_z3(c));
    z3::check_result cr = s.check();
    if (cr == z3::unknown) { // one more try with the full tactic-based solver
      z3::solver s2(z3ctx(), "QF_BV"); z3::params p(z3ctx()); p.set("timeout", budget(qtimeout * 4.0)); s2.set(p); for (auto e : sl) s2.add(to_z3(e)); s2.add(to_z3(c)); cr = s2.check();
      if (cr == z3::sat) { z3::model zm = s2.get_model(); std::set<uint32_t> ids; for (auto x : c->syms->v) ids.insert(x); for (auto e : sl) for (auto x : e->syms->v) ids.insert(x); for (auto x : ids) { z3::expr v = zm.eval(sym_z3(x), true); r.m.push_back({x, (uint8_t)v.get_numeral_uint()}); } }
    } else if (cr == z3::sat) {
      z3::model zm = s.get_model(); std::set<uint32_t> ids; for (auto x : c->syms->v) ids.insert(x); for (auto e : sl) for (auto x : e->syms->v) ids.insert(x);
      for (auto x : ids) { z3::expr v = zm.eval(sym_z3(x), true); r.m.push_back({x, (uint8_t)v.get_numeral_uint()}); }
    }
    s.pop(); t_solver += now() - t0;
    if (cr == z3::unknown) { n_unknown++; incomplete("solver returned unknown"); r.sat = 0; if (now() - t_start > timelimit) throw PathEnd{"time", ""}; }
    else r.sat = cr == z3::sat; 
    if (r.sat) n_qsat++; else n_qunsat++;
    it = qcache.emplace(key, r).first;
  } else n_qcache++;
  if (!it->second.sat) return false;
  for (auto &p : it->second.m) { if (p.first >= model.size()) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  return true;
}
static void addpc(State &S, Expr *c) {
  if (isc(c)) return;
  if (c->k == K_AND && c->w == 1) { addpc(S, c->a); addpc(S, c->b); return; }
  S.pc.push_back(c);
}

// ---------------------------------------------------------------- values
static inline Expr *E(V v, unsigned w) { return v.e ? v.e : mk_const(v.c, w); }
static inline V VE(Expr *e) { if (isc(e)) return V{nullptr, e->c}; return V{e, 0}; }
static inline V VC(u64 c) { return V{nullptr, c}; }
static V mkagg(std::vector<V> *v) { Expr *e = new Expr(); e->k = K_AGG; e->w = 0; e->agg = v; return V{e, 0}; }

static Obj *find(State &S, u64 a, ObjP **slot = nullptr, bool allowend = false) {
  Space *sp = a >= SBASE ? &S.s : a >= HBASE ? &S.h : &S.g;
  size_t lo = 0, hi = sp->size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if ((*sp)[m]->base <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; ObjP &o = (*sp)[lo - 1];
  if (a - o->base < o->size || (allowend && a - o->base <= o->size)) { if (slot) *slot = &o; return o.p; }
  return nullptr;
}
static std::string describe(State &S, u64 a) {
  Space *sp = a >= SBASE ? &S.s : a >= HBASE ? &S.h : &S.g; char buf[160];
  if (a < GBASE) { snprintf(buf, sizeof buf, "address 0x%llx (null or wild pointer)", (unsigned long long)a); return buf; }
  for (size_t i = 0; i < sp->size(); i++) { Obj *o = (*sp)[i].p; if (o->base <= a + GAP / 2 && a < o->base + o->size + GAP / 2) { snprintf(buf, sizeof buf, "offset %lld of %s object '%s' of size %llu%s", (long long)(a - o->base), o->kind == 0 ? "global" : o->kind == 1 ? "stack" : "heap", o->name, (unsigned long long)o->size, o->dead ? " (freed)" : ""); return buf; } }
  snprintf(buf, sizeof buf, "address 0x%llx (no object)", (unsigned long long)a); return buf;
}
static Obj *wr(ObjP *slot) { if (slot->p->rc > 1) { Obj *n = new Obj(*slot->p); n->rc = 1; *slot = ObjP(n); } return slot->p; }

static void ins_sorted(Space &sp, ObjP o) { sp.push_back(o); }
static u64 new_obj(State &S, u64 size, int kind, const char *name, int fill) {
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->name = name; o->b.assign(size, fill);
  u64 &nx = kind == 1 ? S.snext : S.hnext; o->base = nx; nx += (size + 15) / 16 * 16 + GAP; nx = (nx + 63) & ~63ull;
  (kind == 1 ? S.s : S.h).push_back(ObjP(o)); return o->base;
}

static std::deque<State *> work;
static void forkpoint() { n_forks++; if (profile) { Frame &f = CUR->st.back(); forkat[where(f.f->bb[f.bb].ins[f.ip].I)]++; } }

// fork CUR on c (both sides if feasible). returns the side CUR continues on.
static bool fork_on(Expr *c, bool requeue_same_inst) {
  if (isc(c)) return c->c;
  State &S = *CUR; bool cur = eval_expr(c, S.model); Expr *other = cur ? mk_not(c) : c;
  std::vector<uint8_t> m2 = S.model;
  if (solve(S.pc, other, m2)) {
    forkpoint(); State *N = new State(S); N->model = m2; addpc(*N, other); N->forks++; (void)requeue_same_inst; work.push_back(N);
    addpc(S, cur ? c : mk_not(c)); S.forks++;
  }
  return cur;
}
// a value of one symbolic byte which the path condition already determines
static V determined(V v, unsigned w) {
  if (!v.e || v.e->syms->v.size() != 1) return v;
  State &S = *CUR; u64 x = eval_expr(v.e, S.model); std::vector<uint8_t> m2 = S.model; return solve(S.pc, mk_not(mk_bin(K_EQ, v.e, mk_const(x, w))), m2) ? v : VC(x);
}
// concretize by forking: CUR continues with its model's value; the complement is re-queued at the same instruction
static u64 concretize(V v, unsigned w, const char *why) {
  if (!v.e) return v.c;
  State &S = *CUR; u64 x = eval_expr(v.e, S.model); Expr *c = mk_bin(K_EQ, v.e, mk_const(x, w));
  if (!isc(c)) {
    std::vector<uint8_t> m2 = S.model; Expr *nc = mk_not(c);
    if (solve(S.pc, nc, m2)) { forkpoint(); State *N = new State(S); N->model = m2; addpc(*N, nc); work.push_back(N); addpc(S, c); }
  }
  (void)why; return x;
}
static void report(State &S, const std::string &kind, const std::string &msg, const std::vector<uint8_t> &model) {
  Frame &f = S.st.back(); Instruction *I = f.ip < (int)f.f->bb[f.bb].ins.size() ? f.f->bb[f.bb].ins[f.ip].I : nullptr;
  // innermost frame that is not a runtime stub
  std::string loc = where(I); Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackof(S); v.syms = S.syms; v.model = model; v.notes = S.notes;
  std::string key = kind + "|" + loc + "|" + (kind == "assert" ? msg : ""); for (auto &n : S.notes) if (n.compare(0, 6, "class:") == 0) key += "|" + n;
  if (!violkeys.insert(key).second) return; viols.push_back(v);
}
// --diff: which subexpressions of an equality differ (for normal forms that should have met)
static bool diffmode = false;
static std::string xs(Expr *e, int d) { static const char *n[] = {"C","S","ADD","SUB","MUL","UDIV","SDIV","UREM","SREM","AND","OR","XOR","SHL","LSHR","ASHR","EQ","ULT","SLT","ITE","CAT","EXT","ZX","SX","AGG"}; std::string r = n[e->k]; r += std::to_string(e->w); if (e->k <= K_SYM || e->k == K_EXTRACT) r += "#" + std::to_string(e->c); if (d && e->a) { r += "(" + xs(e->a, d - 1); if (e->b) r += "," + xs(e->b, d - 1); r += ")"; } else r += "@" + std::to_string(e->id); return r; }
static void showdiff(Expr *ok) {
  if (ok->k != K_EQ) { fprintf(stderr, "assert %s\n", xs(ok, 5).c_str()); return; }
  typedef std::map<uint32_t, Expr *> T; T A, B; std::function<void(Expr *, T &)> w = [&](Expr *e, T &s) { if (!e || !s.insert({e->id, e}).second) return; w(e->a, s); w(e->b, s); w(e->d, s); }; w(ok->a, A); w(ok->b, B);
  for (int q = 0; q < 2; q++) { int n = 0; for (auto &x : q ? B : A) if (!(q ? A : B).count(x.first)) { fprintf(stderr, "only %s: %s\n", q ? "right" : "left", xs(x.second, 3).c_str()); if (++n > 6) break; } }
}
// condition ok must hold; otherwise violation.  Continues on the ok side.
static void require(Expr *ok, const char *kind, const std::function<std::string()> &msg) {
  State &S = *CUR; if (isc(ok)) { if (!ok->c) { report(S, kind, msg(), S.model); throw PathEnd{"violation", ""}; } return; }
  n_memq++; if (diffmode) showdiff(ok); std::vector<uint8_t> m = S.model;
  if (solve(S.pc, mk_not(ok), m)) {
    report(S, kind, msg(), m);
    std::vector<uint8_t> m3 = S.model; if (!solve(S.pc, ok, m3)) throw PathEnd{"violation", ""};
    S.model = m3; addpc(S, ok);
  }
}

// an interval of unsigned values which e lies in
typedef std::pair<u64, u64> Range;
static Range range(Expr *e, int depth = 0) {
  static std::unordered_map<u64, Range> memo; u64 all = MASK(e->w) & ~e->kz; if (isc(e)) return {e->c, e->c}; if (depth > 24) return {0, all};
  auto it = memo.find((u64)e); if (it != memo.end()) return it->second;
  Range r{0, all}, x, y; auto set = [&](unsigned __int128 lo, unsigned __int128 hi) { if (hi <= MASK(e->w) && lo <= hi) { r.first = lo; r.second = std::min<u64>(r.second, hi); if (r.first > r.second) r.first = r.second; } };
  auto A = [&] { return range(e->a, depth + 1); }; auto B = [&] { return range(e->b, depth + 1); };
  switch (e->k) {
    case K_ADD: x = A(); y = B(); set((unsigned __int128)x.first + y.first, (unsigned __int128)x.second + y.second); break;
    case K_SUB: x = A(); y = B(); if (x.first >= y.second) set(x.first - y.second, x.second - y.first); break;
    case K_MUL: x = A(); y = B(); if ((unsigned __int128)x.second * y.second <= MASK(e->w)) set((unsigned __int128)x.first * y.first, (unsigned __int128)x.second * y.second); break;
    case K_UDIV: x = A(); y = B(); if (y.first) set(x.first / y.second, x.second / y.first); break;
    case K_UREM: x = A(); y = B(); if (y.first) { if (x.second < y.first) set(x.first, x.second); else set(0, std::min(x.second, y.second - 1)); } break;
    case K_LSHR: x = A(); if (isc(e->b) && e->b->c < e->w) set(x.first >> e->b->c, x.second >> e->b->c); break;
    case K_OR: case K_XOR: if ((~e->a->kz & MASK(e->w) & ~e->b->kz) == 0) { x = A(); y = B(); set((unsigned __int128)x.first + y.first, (unsigned __int128)x.second + y.second); } break;
    case K_AND: x = A(); y = B(); set(0, std::min(x.second, y.second)); break;
    case K_ZEXT: x = A(); set(x.first, x.second); break;
    case K_CONCAT: x = A(); y = B(); set((unsigned __int128)x.first << e->b->w | y.first, (unsigned __int128)x.second << e->b->w | y.second); break;
    case K_EXTRACT: x = A(); if (e->c == 0 && x.second <= MASK(e->w)) set(x.first, x.second); else if (e->c + e->w >= e->a->w) set(x.first >> e->c, x.second >> e->c); else if (e->c && (x.second >> e->c) <= MASK(e->w)) set(x.first >> e->c, x.second >> e->c); break;
    case K_ITE: x = B(); y = range(e->d, depth + 1); set(std::min(x.first, y.first), std::max(x.second, y.second)); break;
    default: break;
  }
  memo[(u64)e] = r; return r;
}
// resolve an address for an n-byte access; may fork/queue.  returns object, concrete or symbolic offset
struct Ref { Obj *o; ObjP *slot; Expr *off; u64 coff; };
static Ref resolve(V addr, u64 n, bool write, const char *what) {
  State &S = *CUR; Ref r{nullptr, nullptr, nullptr, 0};
  if (addr.e && profile) { Frame &f = S.st.back(); forkat["symaddr " + where(f.f->bb[f.bb].ins[f.ip].I)]++; }
  if (addr.e && n) { // known to lie within one object whatever the inputs are
    Range g = range(addr.e); if (g.first == g.second) return resolve(VC(g.first), n, write, what); Obj *o = g.first < g.second ? find(S, g.first, &r.slot) : nullptr;
    if (o && !o->dead && !(write && o->ro) && n <= o->size && g.second - o->base <= o->size - n) { r.o = o; r.off = mk_bin(K_SUB, addr.e, mk_const(o->base, 64)); return r; }
  }
  if (addr.e && diffmode) fprintf(stderr, "unbounded address %s\n", xs(addr.e, 9).c_str());
  u64 a = addr.e ? eval_expr(addr.e, S.model) : addr.c;
  addr = determined(addr, 64);
  Obj *o = find(S, a, &r.slot); if (!o && n == 0) o = find(S, a, &r.slot, true);
  auto bad = [&](const char *k) { report(S, "memory", std::string(what) + " of " + std::to_string(n) + " bytes: " + k + " at " + describe(S, a), S.model); throw PathEnd{"violation", ""}; };
  if (!o) { 
    if (addr.e) { // record the violation for this value, continue with other values
      Expr *c = mk_bin(K_EQ, addr.e, mk_const(a, 64)); std::vector<uint8_t> m2 = S.model; if (solve(S.pc, mk_not(c), m2)) { State *N = new State(S); N->model = m2; addpc(*N, mk_not(c)); work.push_back(N); if (work.size() > 20000) { work.pop_back(); delete N; } }
    }
    bad("out of bounds"); }
  if (o->dead) bad("use after free");
  if (write && o->ro) bad("write to constant");
  if (!addr.e) { if (n > o->size - (a - o->base)) bad("out of bounds"); r.o = o; r.coff = a - o->base; return r; }
  // symbolic address: within this object?
  if (n > o->size) bad("out of bounds");
  Expr *off = mk_bin(K_SUB, addr.e, mk_const(o->base, 64));
  Expr *in = mk_not(mk_bin(K_ULT, mk_const(o->size - n, 64), off)); // off <= size-n
  if (!eval_expr(in, S.model)) bad("out of bounds");
  std::vector<uint8_t> m2 = S.model;
  if (diffmode && !isc(in) && range(off).second > o->size - n) fprintf(stderr, "address %s\n", xs(off, 12).c_str());
  if (!isc(in) && range(off).second > o->size - n && solve(S.pc, mk_not(in), m2)) { forkpoint(); State *N = new State(S); N->model = m2; addpc(*N, mk_not(in)); work.push_back(N); addpc(S, in); }
  r.o = o; r.off = off; return r;
}
// a stored value which is loaded again as a whole is the same expression, also
// where its bytes were simplified one by one
struct BytesHash { size_t operator()(const std::vector<Expr *> &v) const { u64 h = v.size(); for (auto *e : v) { h ^= (u64)e >> 4; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<Expr *>, Expr *, BytesHash> wholes;
static V load_at(Obj *o, u64 off, unsigned bytes) {
  if (o->s.empty()) { u64 v = 0; memcpy(&v, &o->b[off], bytes); return VC(v); }
  bool conc = true; for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc) { u64 v = 0; memcpy(&v, &o->b[off], bytes); return VC(v); }
  Expr *e = nullptr; bool flat = true; std::vector<Expr *> xs; for (unsigned i = 0; i < bytes; i++) { Expr *x = o->s[off + i] ? o->s[off + i] : mk_const(o->b[off + i], 8); xs.push_back(x); flat = flat && x->flat; }
  if (!flat && bytes > 1) { auto it = wholes.find(xs); if (it != wholes.end()) return VE(it->second); }
  for (auto *x : xs) e = e ? mk_concat(x, e) : x;
  return VE(e);
}
static void store_at(Obj *o, u64 off, unsigned bytes, V v) {
  if (!v.e) { memcpy(&o->b[off], &v.c, bytes); if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Expr *e = v.e; if (e->w < bytes * 8) e = mk_zext(e, bytes * 8);
  std::vector<Expr *> xs; for (unsigned i = 0; i < bytes; i++) { Expr *x = mk_extract(e, i * 8, 8); xs.push_back(x); if (isc(x)) { o->s[off + i] = nullptr; o->b[off + i] = x->c; } else o->s[off + i] = x; }
  if (bytes > 1 && !e->flat) wholes[std::move(xs)] = e;
}
static Expr *tree(Expr *idx, const std::vector<std::pair<u64, Expr *>> &runs, size_t lo, size_t hi) { // runs: (start idx, value)
  if (hi - lo == 1) return runs[lo].second; size_t m = (lo + hi) / 2;
  return mk_ite(mk_bin(K_ULT, idx, mk_const(runs[m].first, 64)), tree(idx, runs, lo, m), tree(idx, runs, m, hi));
}
static V mem_load(V addr, unsigned bytes) {
  if (addr.e && CUR->forkaddr) addr = VC(concretize(addr, 64, "load"));
  Ref r = resolve(addr, bytes, false, "read");
  if (!r.off) return load_at(r.o, r.coff, bytes);
  // the constant low bits of the offset say which offsets are possible
  unsigned lown = 0; u64 low = 0; for (Expr *t = r.off;;) { if (t->k == K_ZEXT) t = t->a; else if (t->k == K_CONCAT) t = t->b; else { if (isc(t)) { lown = t->w; low = t->c; } break; } }
  if (!lown) while (lown < 12 && (r.off->kz >> lown & 1)) lown++;
  u64 step = 1ull << std::min(lown, 32u), hib = ~r.off->kz, maxoff = std::min<u64>(hib, r.o->size - bytes); Range rg = range(r.off); maxoff = std::min(maxoff, rg.second); if (rg.first > low) low += (rg.first - low) / step * step; if (low > maxoff) maxoff = low;
  if ((maxoff - low) / step + 1 > 8192) { u64 a = concretize(addr, 64, "load"); return load_at(r.o, a - r.o->base, bytes); }
  std::vector<std::pair<u64, Expr *>> runs;
  for (u64 i = low; i <= maxoff && i + bytes <= r.o->size; i += step) { Expr *v = E(load_at(r.o, i, bytes), bytes * 8); if (runs.empty() || runs.back().second != v) runs.push_back({i >> lown, v}); }
  if (runs.empty()) { u64 a = concretize(addr, 64, "load"); return load_at(r.o, a - r.o->base, bytes); }
  return VE(tree(mk_zext(mk_extract(r.off, lown, 64 - lown), 64), runs, 0, runs.size()));
}
static void mem_store(V addr, unsigned bytes, V v) {
  if (addr.e && CUR->forkaddr) addr = VC(concretize(addr, 64, "store"));
  Ref r = resolve(addr, bytes, true, "write");
  if (!r.off) { store_at(wr(r.slot), r.coff, bytes, v); return; }
  u64 maxoff = std::min<u64>(~r.off->kz, r.o->size - bytes);
  if (maxoff > 64) { u64 a = concretize(addr, 64, "store"); u64 off = a - r.o->base; find(*CUR, a, &r.slot); store_at(wr(r.slot), off, bytes, v); return; }
  Obj *o = wr(r.slot); Expr *e = E(v, bytes * 8); if (e->w < bytes * 8) e = mk_zext(e, bytes * 8);
  std::vector<Expr *> nb(maxoff + bytes);
  for (u64 i = 0; i < maxoff + bytes; i++) { Expr *cur = E(load_at(o, i, 1), 8); for (unsigned k = 0; k < bytes; k++) if (i >= k && i - k <= maxoff) cur = mk_ite(mk_bin(K_EQ, r.off, mk_const(i - k, 64)), mk_extract(e, 8 * k, 8), cur); nb[i] = cur; }
  for (u64 i = 0; i < nb.size(); i++) store_at(o, i, 1, VE(nb[i]));
}

// ---------------------------------------------------------------- constants & compile
static V constval(const Constant *C);
static std::vector<uint8_t> constbytes(const Constant *C) {
  u64 sz = DL->getTypeAllocSize(C->getType()); std::vector<uint8_t> r(sz, 0);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return r;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef s = D->getRawDataValues(); memcpy(r.data(), s.data(), std::min<u64>(sz, s.size())); return r; }
  if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) { auto b = constbytes(A->getOperand(i)); memcpy(&r[i * es], b.data(), b.size()); } return r; }
  if (auto *St = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(St->getType()); for (unsigned i = 0; i < St->getNumOperands(); i++) { auto b = constbytes(St->getOperand(i)); if (!b.empty()) memcpy(&r[L->getElementOffset(i)], b.data(), b.size()); } return r; }
  V v = constval(C); if (v.e) { fprintf(stderr, "bad const\n"); abort(); } memcpy(r.data(), &v.c, std::min<u64>(sz, 8)); return r;
}
static V constval(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return VC(I->getValue().getLimitedValue());
  if (auto *F = dyn_cast<ConstantFP>(C)) return VC(F->getValueAPF().bitcastToAPInt().getLimitedValue());
  if (isa<ConstantPointerNull>(C)) return VC(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    if (auto *ST = dyn_cast<StructType>(C->getType())) { auto *v = new std::vector<V>(); for (unsigned i = 0; i < ST->getNumElements(); i++) v->push_back(constval(isa<UndefValue>(C) ? (Constant*)UndefValue::get(ST->getElementType(i)) : Constant::getNullValue(ST->getElementType(i)))); return mkagg(v); }
    return VC(0); }
  if (auto *St = dyn_cast<ConstantStruct>(C)) { auto *v = new std::vector<V>(); for (unsigned i = 0; i < St->getNumOperands(); i++) v->push_back(constval(St->getOperand(i))); return mkagg(v); }
  if (auto *G = dyn_cast<GlobalValue>(C)) { if (auto *GA = dyn_cast<GlobalAlias>(G)) return constval(GA->getAliasee()); auto it = gaddr.find(G); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", G->getName().str().c_str()); abort(); } return VC(it->second); }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    unsigned w = CE->getType()->isPointerTy() ? 64 : CE->getType()->getPrimitiveSizeInBits();
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) abort(); return VC(constval(CE->getOperand(0)).c + off.getSExtValue()); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return VC(constval(CE->getOperand(0)).c & MASK(w));
      case Instruction::Trunc: return VC(constval(CE->getOperand(0)).c & MASK(w));
      case Instruction::Sub: return VC((constval(CE->getOperand(0)).c - constval(CE->getOperand(1)).c) & MASK(w));
      case Instruction::Add: return VC((constval(CE->getOperand(0)).c + constval(CE->getOperand(1)).c) & MASK(w));
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); abort();
}
static unsigned tw(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); if (w > 64) { return 0; } return w; } if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }

enum Ext { X_NONE = 0, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_ABORT, X_EXIT, X_ASSERTFAIL, X_SYM, X_ASSUME, X_FAIL, X_ASSERT, X_COVER, X_PARAM, X_CONC, X_ALLOWEXIT, X_FORKADDR, X_FMTD, X_LOG, X_LOG2, X_NOTE, X_NOP, X_ISSYM, X_SIZE, X_PRINT, X_POW, X_LIVE, X_TIME, X_MALLOCFAIL, X_DEPSYM, X_VALID, X_FLOOR, X_SILENT, X_SQRT, X_FABS, X_ISSECRET, X_NOTEI, X_CHOICE, X_BYTESEQ, X_LASTX };
static void init_ext() {
  extid = {{"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"abort", X_ABORT}, {"exit", X_EXIT}, {"_exit", X_EXIT}, {"__assert_fail", X_ASSERTFAIL},
    {"pg_sym_raw", X_SYM}, {"pg_assume", X_ASSUME}, {"pg_fail", X_FAIL}, {"pg_assert_raw", X_ASSERT}, {"pg_cover", X_COVER}, {"pg_param_raw", X_PARAM}, {"pg_conc", X_CONC}, {"pg_allow_exit", X_ALLOWEXIT}, {"pg_fork_addresses", X_FORKADDR}, {"pg_fmt_double", X_FMTD}, {"log", X_LOG}, {"log2", X_LOG2}, {"pow", X_POW}, {"pg_note", X_NOTE}, {"pg_choice_raw", X_CHOICE}, {"pg_bytes_eq", X_BYTESEQ}, {"pg_note_i", X_NOTEI}, {"pg_objsize", X_SIZE}, {"pg_print", X_PRINT}, {"pg_heap_live", X_LIVE}, {"pg_malloc_fail_at", X_MALLOCFAIL}, {"pg_is_symbolic", X_ISSYM}, {"pg_valid", X_VALID}, {"pg_path_end", X_SILENT}, {"sqrt", X_SQRT}, {"fabs", X_FABS}, {"floor", X_FLOOR}};
}
static void assign_globals(State &S) {
  u64 fa = FBASE; for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
  u64 ga = GBASE; for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); gaddr[&G] = ga; ga += (sz + 15) / 16 * 16 + GAP; ga = (ga + 63) & ~63ull; }
  for (auto &G : M->globals()) {
    Obj *o = new Obj(); o->base = gaddr[&G]; o->size = DL->getTypeAllocSize(G.getValueType()); o->kind = 0; o->name = strdup(G.getName().str().c_str()); o->ro = G.isConstant();
    if (G.hasInitializer()) o->b = constbytes(G.getInitializer()); else { o->b.assign(o->size, 0); }
    o->b.resize(o->size); S.g.push_back(ObjP(o));
  }
}
static KFunc *kfunc(Function *F) { auto &k = kfs[F]; if (!k) { k = new KFunc(); k->F = F; } return k; }
static void compile(KFunc *kf) {
  if (kf->compiled) return; kf->compiled = true; Function *F = kf->F; std::map<const Value *, int> reg; std::map<const BasicBlock *, int> bbi; int n = 0;
  for (auto &A : F->args()) { reg[&A] = n; kf->argreg.push_back(n); n++; }
  int bi = 0; for (auto &B : *F) { bbi[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  kf->nreg = n;
  auto opd = [&](const Value *v) -> Opd { if (auto *C = dyn_cast<Constant>(v)) return Opd{-1, constval(C)}; if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Opd{-1, VC(0)}; return Opd{reg.at(v), VC(0)}; };
  kf->bb.resize(F->size()); bi = 0;
  for (auto &B : *F) {
    KBlock &kb = kf->bb[bi++];
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) { Phi ph; ph.dst = reg[&I]; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) ph.in.push_back({bbi[P->getIncomingBlock(i)], opd(P->getIncomingValue(i))}); kb.phis.push_back(ph); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      KInst k; k.I = &I; k.ty = I.getType(); k.isvoid = I.getType()->isVoidTy(); if (!k.isvoid) { k.dst = reg[&I]; k.w = tw(I.getType()); }
      auto die = [&](const char *m) { std::string s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "unsupported %s: %s in %s\n", m, os.str().c_str(), F->getName().str().c_str()); exit(3); };
      if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
        k.ops = {opd(BO->getOperand(0)), opd(BO->getOperand(1))};
        if (I.getType()->isFloatingPointTy()) { k.op = O_FBIN; k.sub = BO->getOpcode(); }
        else { if (!k.w) die("width"); k.op = O_BIN; switch (BO->getOpcode()) { case Instruction::Add: k.sub = K_ADD; break; case Instruction::Sub: k.sub = K_SUB; break; case Instruction::Mul: k.sub = K_MUL; break; case Instruction::UDiv: k.sub = K_UDIV; break; case Instruction::SDiv: k.sub = K_SDIV; break; case Instruction::URem: k.sub = K_UREM; break; case Instruction::SRem: k.sub = K_SREM; break; case Instruction::And: k.sub = K_AND; break; case Instruction::Or: k.sub = K_OR; break; case Instruction::Xor: k.sub = K_XOR; break; case Instruction::Shl: k.sub = K_SHL; break; case Instruction::LShr: k.sub = K_LSHR; break; case Instruction::AShr: k.sub = K_ASHR; break; default: die("binop"); } }
      } else if (auto *C = dyn_cast<ICmpInst>(&I)) { k.op = O_ICMP; k.sub = C->getPredicate(); k.w2 = tw(C->getOperand(0)->getType()); if (!k.w2) die("icmp"); k.ops = {opd(C->getOperand(0)), opd(C->getOperand(1))}; }
      else if (auto *C = dyn_cast<FCmpInst>(&I)) { k.op = O_FCMP; k.sub = C->getPredicate(); k.ty2 = C->getOperand(0)->getType(); k.ops = {opd(C->getOperand(0)), opd(C->getOperand(1))}; }
      else if (I.getOpcode() == Instruction::FNeg) { k.op = O_FNEG; k.ops = {opd(I.getOperand(0))}; }
      else if (auto *L = dyn_cast<LoadInst>(&I)) { k.op = O_LOAD; k.ops = {opd(L->getPointerOperand())}; if (!k.w && !I.getType()->isStructTy()) die("load"); }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { k.op = O_STORE; k.ty2 = S->getValueOperand()->getType(); k.w2 = tw(k.ty2); if (!k.w2) die("store"); k.ops = {opd(S->getValueOperand()), opd(S->getPointerOperand())}; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        k.op = O_GEP; k.ops = {opd(G->getPointerOperand())}; k.scale = {0}; u64 off = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *CI = dyn_cast<ConstantInt>(ix)) off += es * (u64)CI->getSExtValue(); else { Opd o = opd(ix); unsigned iw = tw(ix->getType()); if (o.reg < 0) off += es * (u64)SX(o.v.c, iw); else { k.ops.push_back(o); k.scale.push_back(es); k.idx.push_back(iw); } } }
        }
        k.off = off;
      } else if (auto *C = dyn_cast<CastInst>(&I)) { k.op = O_CAST; k.sub = C->getOpcode(); k.w2 = tw(C->getSrcTy()); k.ty2 = C->getSrcTy(); k.ops = {opd(C->getOperand(0))}; if (!k.w || !k.w2) die("cast"); }
      else if (auto *A = dyn_cast<AllocaInst>(&I)) { k.op = O_ALLOCA; k.off = DL->getTypeAllocSize(A->getAllocatedType()); k.ops = {opd(A->getArraySize())}; k.w2 = tw(A->getArraySize()->getType()); }
      else if (auto *R = dyn_cast<ReturnInst>(&I)) { k.op = O_RET; if (R->getReturnValue()) k.ops = {opd(R->getReturnValue())}; }
      else if (auto *R = dyn_cast<BranchInst>(&I)) { if (R->isConditional()) { k.op = O_CBR; k.ops = {opd(R->getCondition())}; k.t = bbi[R->getSuccessor(0)]; k.f = bbi[R->getSuccessor(1)]; } else { k.op = O_BR; k.t = bbi[R->getSuccessor(0)]; } }
      else if (auto *S = dyn_cast<SwitchInst>(&I)) { k.op = O_SWITCH; k.ops = {opd(S->getCondition())}; k.w2 = tw(S->getCondition()->getType()); k.t = bbi[S->getDefaultDest()]; for (auto &c : S->cases()) k.cases.push_back({c.getCaseValue()->getValue().getLimitedValue(), bbi[c.getCaseSuccessor()]}); }
      else if (auto *S = dyn_cast<SelectInst>(&I)) { k.op = O_SELECT; k.sub = S->getType()->isPointerTy(); k.ops = {opd(S->getCondition()), opd(S->getTrueValue()), opd(S->getFalseValue())}; }
      else if (auto *X = dyn_cast<ExtractValueInst>(&I)) { k.op = O_EXTV; k.ops = {opd(X->getAggregateOperand())}; for (auto i : X->indices()) k.idx.push_back(i); }
      else if (auto *X = dyn_cast<InsertValueInst>(&I)) { k.op = O_INSV; k.ops = {opd(X->getAggregateOperand()), opd(X->getInsertedValueOperand())}; for (auto i : X->indices()) k.idx.push_back(i); k.ty2 = X->getType(); }
      else if (isa<UnreachableInst>(&I)) k.op = O_UNREACH;
      else if (isa<FreezeInst>(&I)) { k.op = O_FREEZE; k.ops = {opd(I.getOperand(0))}; }
      else if (auto *C = dyn_cast<CallInst>(&I)) {
        if (C->isInlineAsm()) { if (!k.isvoid) die("asm"); continue; }
        Function *cf = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
        for (unsigned i = 0; i < C->arg_size(); i++) { k.ops.push_back(opd(C->getArgOperand(i))); k.argty.push_back(C->getArgOperand(i)->getType()); u64 bv = 0; if (C->paramHasAttr(i, Attribute::ByVal)) bv = DL->getTypeAllocSize(C->getParamByValType(i)); k.byval.push_back(bv); }
        k.ops.push_back(opd(C->getCalledOperand())); k.op = O_CALL; k.callee = cf;
        if (cf && cf->isIntrinsic()) {
          switch (cf->getIntrinsicID()) { case Intrinsic::memcpy: k.ext = X_MEMCPY; break; case Intrinsic::memmove: k.ext = X_MEMMOVE; break; case Intrinsic::memset: k.ext = X_MEMSET; break;
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: continue;
            default: k.op = O_INTRIN; k.sub = 0; k.off = cf->getIntrinsicID(); }
        } else if (cf && cf->isDeclaration()) { auto it = extid.find(cf->getName().str()); if (it != extid.end()) k.ext = it->second; else k.ext = -1; }
        else if (cf) { auto it = extid.find(cf->getName().str()); if (it != extid.end()) k.ext = it->second; else k.kf = kfunc(cf); }
      } else die("instruction");
      kb.ins.push_back(std::move(k));
    }
  }
}

// ---------------------------------------------------------------- execution
static inline V get(Frame &f, const Opd &o) { return o.reg < 0 ? o.v : f.r[o.reg]; }
static double asd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float asf(u64 b) { uint32_t x = b; float d; memcpy(&d, &x, 4); return d; }
static u64 fbits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static std::string cstr(State &S, u64 a) { std::string r; Obj *o = find(S, a); if (!o) return "?"; for (u64 i = a - o->base; i < o->size; i++) { uint8_t c = (!o->s.empty() && o->s[i]) ? (uint8_t)eval_expr(o->s[i], S.model) : o->b[i]; if (!c) break; r += c; } return r; }

static void goto_bb(Frame &f, int t) {
  int from = f.bb; f.prev = from; f.bb = t; f.ip = 0; auto &ph = f.f->bb[t].phis;
  if (ph.empty()) return;
  if (ph.size() == 1) { for (auto &p : ph[0].in) if (p.first == from) { f.r[ph[0].dst] = get(f, p.second); break; } return; }
  static std::vector<V> tmp; tmp.clear(); for (auto &p : ph) for (auto &in : p.in) if (in.first == from) { tmp.push_back(get(f, in.second)); break; }
  for (size_t i = 0; i < ph.size(); i++) f.r[ph[i].dst] = tmp[i];
}
static void push_frame(State &S, KFunc *kf, const std::vector<V> &args, int dst) {
  compile(kf); if (!kf->hits++) {} 
  if (S.st.size() > 60000) { report(S, "memory", "stack overflow (call depth)", S.model); throw PathEnd{"violation", ""}; }
  S.st.emplace_back(); Frame &f = S.st.back(); f.f = kf; f.r.assign(kf->nreg, VC(0)); f.dst = dst; for (size_t i = 0; i < kf->argreg.size() && i < args.size(); i++) f.r[kf->argreg[i]] = args[i];
}
static void kill_allocas(State &S, Frame &f) {
  for (size_t i = f.allocas.size(); i-- > 0;) { if (!S.s.empty() && S.s.back()->base == f.allocas[i]) { S.s.pop_back(); } else { ObjP *sl; Obj *o = find(S, f.allocas[i], &sl, true); if (o && o->base == f.allocas[i]) { wr(sl)->dead = true; } } }
}
static void set(Frame &f, KInst &k, V v) { if (k.dst >= 0) f.r[k.dst] = v; }

static u64 do_malloc(State &S, u64 n, int fill) { if (S.mallocfail == 0) { S.mallocfail = -1; return 0; } if (S.mallocfail > 0) S.mallocfail--; if (n > (1ull << 28)) return 0; u64 a = new_obj(S, n, 2, "malloc", fill); S.heap_live++; return a; }
static Obj *heap_obj(State &S, u64 a, ObjP **slot, const char *what) {
  Obj *o = find(S, a, slot, true);
  if (!o || o->kind != 2 || o->base != a) { report(S, "memory", std::string(what) + " of invalid pointer: " + describe(S, a), S.model); throw PathEnd{"violation", ""}; }
  if (o->dead) { report(S, "memory", std::string(what) + " of freed pointer: " + describe(S, a), S.model); throw PathEnd{"violation", ""}; }
  return o;
}
static void copy_bytes(State &S, V dst, V src, u64 n) {
  if (!n) return;
  u64 d = concretize(dst, 64, "memcpy dst"), s = concretize(src, 64, "memcpy src");
  Ref rs = resolve(VC(s), n, false, "memcpy read"); Ref rd = resolve(VC(d), n, true, "memcpy write");
  Obj *od = wr(rd.slot); Obj *os = find(S, s); u64 so = s - os->base, dof = d - od->base;
  if (os->s.empty() && od->s.empty()) { memmove(&od->b[dof], &os->b[so], n); return; }
  if (od->s.empty()) od->s.assign(od->size, nullptr);
  std::vector<uint8_t> tb(os->b.begin() + so, os->b.begin() + so + n); std::vector<Expr *> ts(n, nullptr); if (!os->s.empty()) ts.assign(os->s.begin() + so, os->s.begin() + so + n);
  memcpy(&od->b[dof], tb.data(), n); std::copy(ts.begin(), ts.end(), od->s.begin() + dof);
}
static void finish_exit(State &S, u64 code);

static void ext_call(State &S, Frame &f, KInst &k) {
  auto A = [&](int i) { return get(f, k.ops[i]); };
  switch (k.ext) {
    case X_MALLOC: { u64 n = concretize(A(0), 64, "malloc"); set(f, k, VC(do_malloc(S, n, 0xbe))); break; }
    case X_CALLOC: { u64 n = concretize(A(0), 64, "calloc") , m = concretize(A(1), 64, "calloc"); set(f, k, VC(do_malloc(S, n * m, 0))); break; }
    case X_REALLOC: {
      u64 p = concretize(A(0), 64, "realloc"), n = concretize(A(1), 64, "realloc"); if (!p) { set(f, k, VC(do_malloc(S, n, 0xbe))); break; }
      ObjP *sl; Obj *o = heap_obj(S, p, &sl, "realloc"); u64 osz = o->size; if (n == 0) { o = wr(sl); o->dead = true; o->b.clear(); o->s.clear(); S.heap_live--; set(f, k, VC(0)); break; }
      u64 q = do_malloc(S, n, 0xbe); if (!q) { set(f, k, VC(0)); break; }
      copy_bytes(S, VC(q), VC(p), std::min(n, osz)); heap_obj(S, p, &sl, "realloc"); o = wr(sl); o->dead = true; o->b.clear(); o->s.clear(); S.heap_live--;
      set(f, k, VC(q)); break; }
    case X_FREE: { u64 p = concretize(A(0), 64, "free"); if (!p) break; ObjP *sl; heap_obj(S, p, &sl, "free"); 
      static Function *hook = M->getFunction("pg_free_hook"); static Function *hookend = M->getFunction("pg_free_hook_done"); (void)hookend;
      if (hook && !hook->isDeclaration() && !S.in_exit) { // run hook(p, size) first, then free
        bool inhook = false; for (auto &fr : S.st) if (fr.f->F == hook) inhook = true;
        if (!inhook && !(f.ip & (1 << 30)) && f.va.empty()) { f.va.push_back(VC(1)); push_frame(S, kfunc(hook), {VC(p), VC(sl->p->size)}, -1); S.st[S.st.size() - 2].ip--; return; }
        if (!inhook) f.va.clear();
      }
      Obj *o = wr(sl); o->dead = true; o->b.clear(); o->s.clear(); S.heap_live--; break; }
    case X_MEMCPY: case X_MEMMOVE: { u64 n = concretize(A(2), 64, "memcpy"); copy_bytes(S, A(0), A(1), n); set(f, k, A(0)); break; }
    case X_MEMSET: { u64 n = concretize(A(2), 64, "memset"); V c = A(1); if (c.e && c.e->w > 8) c = VE(mk_extract(c.e, 0, 8)); if (n) { u64 d = concretize(A(0), 64, "memset"); Ref r = resolve(VC(d), n, true, "memset write"); Obj *o = wr(r.slot); if (!c.e) { memset(&o->b[r.coff], (int)c.c, n); if (!o->s.empty()) std::fill(o->s.begin() + r.coff, o->s.begin() + r.coff + n, nullptr); } else for (u64 i = 0; i < n; i++) store_at(o, r.coff + i, 1, c); } set(f, k, A(0)); break; }
    case X_ABORT: if (S.allow_exit) { n_exitpaths++; finish_exit(S, 134); return; } report(S, "abort", "abort() called", S.model); throw PathEnd{"violation", ""};
    case X_EXIT: { u64 c = concretize(A(0), 32, "exit"); if (S.allow_exit) { n_exitpaths++; finish_exit(S, c); return; } report(S, "exit", "exit(" + std::to_string(c) + ") called", S.model); throw PathEnd{"violation", ""}; }
    case X_ASSERTFAIL: report(S, "assertion", "assert() failed: " + cstr(S, concretize(A(0), 64, "string")), S.model); throw PathEnd{"violation", ""};
    case X_SYM: { u64 p = A(0).c, n = A(1).c; std::string nm = cstr(S, concretize(A(2), 64, "string")); Ref r = resolve(VC(p), n, true, "pg_sym"); if (!n) break; Obj *o = wr(r.slot); if (o->s.empty()) o->s.assign(o->size, nullptr); S.syms.push_back({nm, S.nsym, (uint32_t)n}); for (u64 i = 0; i < n; i++) o->s[r.coff + i] = mk_sym(S.nsym++); S.model.resize(S.nsym, 0); n_bytes_symbolic = std::max<u64>(n_bytes_symbolic, S.nsym); break; }
    case X_ASSUME: { V c = A(0); Expr *e = E(c, 32); e = mk_not(mk_bin(K_EQ, e, mk_const(0, e->w))); if (isc(e)) { if (!e->c) { n_assumed++; throw PathEnd{"assume", ""}; } break; } std::vector<uint8_t> m = S.model; if (!solve(S.pc, e, m)) { n_assumed++; throw PathEnd{"assume", ""}; } S.model = m; addpc(S, e); break; }
    case X_ASSERT: { n_assert++; Expr *e = E(A(0), 32); e = mk_not(mk_bin(K_EQ, e, mk_const(0, e->w))); if (!isc(e)) n_assert_q++; std::string m = cstr(S, concretize(A(1), 64, "string")); require(e, "assert", [&] { return m; }); break; }
    case X_FAIL: report(S, "assert", cstr(S, concretize(A(0), 64, "string")), S.model); throw PathEnd{"violation", ""};
    case X_COVER: covers[cstr(S, concretize(A(0), 64, "string"))]++; break;
    case X_PARAM: { int i = (int)A(0).c; auto it = params.find(i); set(f, k, it == params.end() ? A(1) : VC(it->second)); break; }
    case X_CONC: set(f, k, VC(concretize(A(0), 64, "pg_conc"))); break;
    case X_CHOICE: { // every value 0..max, one state each; the input is recorded but never constrained
      u64 mx = A(0).c; unsigned n = mx < 256 ? 1 : 4; uint32_t first = S.nsym; S.syms.push_back({cstr(S, concretize(A(1), 64, "string")), first, n}); S.nsym += n; S.model.resize(S.nsym, 0); n_bytes_symbolic = std::max<u64>(n_bytes_symbolic, S.nsym);
      for (unsigned i = 0; i < n; i++) mk_sym(first + i);
      for (u64 v = mx; v >= 1; v--) { forkpoint(); State *N = new State(S); for (unsigned i = 0; i < n; i++) N->model[first + i] = v >> (8 * i); set(N->st.back(), k, VC(v)); N->st.back().ip++; work.push_back(N); }
      for (unsigned i = 0; i < n; i++) S.model[first + i] = 0; set(f, k, VC(0)); break; }
    case X_BYTESEQ: { u64 p = concretize(A(0), 64, "bytes_eq"), q = concretize(A(1), 64, "bytes_eq"), n = concretize(A(2), 64, "bytes_eq"); Expr *e = mk_const(1, 1);
      if (n) { Ref a = resolve(VC(p), n, false, "bytes_eq"), b = resolve(VC(q), n, false, "bytes_eq"); for (u64 i = 0; i < n && !(isc(e) && !e->c); i++) { V x = load_at(a.o, a.coff + i, 1), y = load_at(b.o, b.coff + i, 1); Expr *c; if (!x.e && !y.e) c = mk_const(x.c == y.c, 1); else c = mk_bin(K_EQ, E(x, 8), E(y, 8)); e = mk_bin(K_AND, e, c); } }
      set(f, k, VE(mk_zext(e, 32))); break; }
    case X_FORKADDR: S.forkaddr = A(0).c != 0; break;
    case X_ALLOWEXIT: S.allow_exit = A(0).c != 0; break;
    case X_FMTD: { u64 buf = A(0).c, sz = A(1).c; std::string fmt = cstr(S, concretize(A(2), 64, "string")); u64 d = concretize(A(3), 64, "double"); char tmp[512]; int n = snprintf(tmp, sizeof tmp, fmt.c_str(), asd(d)); u64 m = std::min<u64>(n + 1, sz); Ref r = resolve(VC(buf), m, true, "fmt"); Obj *o = wr(r.slot); for (u64 i = 0; i < m; i++) store_at(o, r.coff + i, 1, VC((uint8_t)tmp[i])); set(f, k, VC((uint32_t)n)); break; }
    case X_LOG: set(f, k, VC(dbits(::log(asd(concretize(A(0), 64, "log")))))); break;
    case X_LOG2: set(f, k, VC(dbits(::log2(asd(concretize(A(0), 64, "log")))))); break;
    case X_SQRT: set(f, k, VC(dbits(::sqrt(asd(concretize(A(0), 64, "log")))))); break;
    case X_FABS: set(f, k, VC(dbits(::fabs(asd(concretize(A(0), 64, "log")))))); break;
    case X_FLOOR: set(f, k, VC(dbits(::floor(asd(concretize(A(0), 64, "log")))))); break;
    case X_POW: set(f, k, VC(dbits(::pow(asd(concretize(A(0), 64, "pow")), asd(concretize(A(1), 64, "pow")))))); break;
    case X_NOTE: S.notes.push_back(cstr(S, concretize(A(0), 64, "string"))); break;
    case X_NOTEI: { V v = A(1); u64 x = v.e ? eval_expr(v.e, S.model) : v.c; S.notes.push_back(cstr(S, concretize(A(0), 64, "string")) + "=" + std::to_string(x)); break; }
    case X_SIZE: { u64 p = A(0).c; Obj *o = find(S, p, nullptr, true); set(f, k, VC(o ? o->size - (p - o->base) : 0)); break; }
    case X_VALID: { u64 p = concretize(A(0), 64, "valid"); Obj *o = find(S, p); set(f, k, VC(o && !o->dead)); break; }
    case X_LIVE: set(f, k, VC(S.heap_live)); break;
    case X_MALLOCFAIL: S.mallocfail = (int)A(0).c; break;
    case X_ISSYM: { u64 p = A(0).c, n = A(1).c; bool sy = false; Obj *o = find(S, p); if (o && !o->s.empty()) for (u64 i = 0; i < n && p - o->base + i < o->size; i++) if (o->s[p - o->base + i]) sy = true; set(f, k, VC(sy)); break; }
    case X_PRINT: if (verbose) { V v = A(1); fprintf(stderr, "[print] %s %llu%s\n", cstr(S, concretize(A(0), 64, "string")).c_str(), (unsigned long long)(v.e ? eval_expr(v.e, S.model) : v.c), v.e ? " (sym)" : ""); } break;
    case X_SILENT: throw PathEnd{"done", ""};
    default: fprintf(stderr, "call to unmodelled external function %s at %s\n", k.callee ? k.callee->getName().str().c_str() : "?", where(k.I).c_str()); incomplete("unmodelled external function " + (k.callee ? k.callee->getName().str() : std::string("?"))); throw PathEnd{"unmodelled", ""};
  }
}
static void finish_exit(State &S, u64 code) {
  Function *h = M->getFunction("pg_exit_handler");
  if (h && !h->isDeclaration() && !S.in_exit) { S.in_exit = true; S.st.resize(1); // keep the entry frame only; its continuation is never reached
    Frame &f0 = S.st[0]; f0.bb = 0; f0.ip = -1; push_frame(S, kfunc(h), {VC(code)}, -1); S.exploring_exit = true; return; }
  throw PathEnd{"exit", ""};
}
static V icmp(KInst &k, V a, V b) {
  unsigned w = k.w2;
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; int64_t sx = SX(x, w), sy = SX(y, w); bool r; switch (k.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } return VC(r); }
  Expr *x = E(a, w), *y = E(b, w), *r; switch (k.sub) { case CmpInst::ICMP_EQ: r = mk_bin(K_EQ, x, y); break; case CmpInst::ICMP_NE: r = mk_not(mk_bin(K_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = mk_bin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mk_not(mk_bin(K_ULT, x, y)); break; case CmpInst::ICMP_ULT: r = mk_bin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mk_not(mk_bin(K_ULT, y, x)); break; case CmpInst::ICMP_SGT: r = mk_bin(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mk_not(mk_bin(K_SLT, x, y)); break; case CmpInst::ICMP_SLT: r = mk_bin(K_SLT, x, y); break; default: r = mk_not(mk_bin(K_SLT, y, x)); } return VE(r);
}
static V insv(V agg, const unsigned *ix, size_t n, V v, Type *T) {
  auto *old = agg.e && agg.e->k == K_AGG ? agg.e->agg : nullptr; unsigned cnt = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : T->getArrayNumElements();
  auto *nv = old ? new std::vector<V>(*old) : new std::vector<V>(cnt, VC(0)); if (n == 1) (*nv)[*ix] = v; else (*nv)[*ix] = insv((*nv)[*ix], ix + 1, n - 1, v, isa<StructType>(T) ? cast<StructType>(T)->getElementType(*ix) : T->getArrayElementType()); return mkagg(nv);
}
static V load_typed(V addr, Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); auto *v = new std::vector<V>(); for (unsigned i = 0; i < ST->getNumElements(); i++) { V a = addr.e ? VE(mk_bin(K_ADD, addr.e, mk_const(L->getElementOffset(i), 64))) : VC(addr.c + L->getElementOffset(i)); v->push_back(load_typed(a, ST->getElementType(i))); } return mkagg(v); }
  unsigned w = tw(T), bytes = (w + 7) / 8; V r = mem_load(addr, bytes); if (w < bytes * 8) { if (r.e) r = VE(mk_extract(r.e, 0, w)); else r.c &= MASK(w); } return r;
}

// run one instruction of CUR
static void step() {
  State &S = *CUR; Frame &f = S.st.back(); KInst &k = f.f->bb[f.bb].ins[f.ip]; S.inst++; n_inst++;
  switch (k.op) {
    case O_BIN: {
      V a = get(f, k.ops[0]), b = get(f, k.ops[1]); unsigned w = k.w; Kind kk = (Kind)k.sub;
      if (kk == K_UDIV || kk == K_SDIV || kk == K_UREM || kk == K_SREM) { Expr *nz = mk_not(mk_bin(K_EQ, E(b, w), mk_const(0, w))); require(nz, "arith", [] { return std::string("division by zero"); }); if (CUR != &S) return; }
      if (!a.e && !b.e) { u64 x = a.c, y = b.c, r, m = MASK(w); switch (kk) { case K_ADD: r = (x + y) & m; break; case K_SUB: r = (x - y) & m; break; case K_MUL: r = (x * y) & m; break; case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break; case K_SHL: r = y >= w ? 0 : (x << y) & m; break; case K_LSHR: r = y >= w ? 0 : x >> y; break; case K_ASHR: r = (u64)(SX(x, w) >> (y >= w ? w - 1 : y)) & m; break; case K_UDIV: r = x / y; break; case K_UREM: r = x % y; break; default: r = mk_bin(kk, mk_const(x, w), mk_const(y, w))->c; } set(f, k, VC(r)); }
      else { V v = VE(mk_bin(kk, E(a, w), E(b, w))); if (kk == K_UREM) v = determined(v, w); set(f, k, v); }
      f.ip++; break; }
    case O_ICMP: set(f, k, icmp(k, get(f, k.ops[0]), get(f, k.ops[1]))); f.ip++; break;
    case O_FBIN: { u64 a = concretize(get(f, k.ops[0]), k.w, "fp"), b = concretize(get(f, k.ops[1]), k.w, "fp");
      if (k.w == 64) { double x = asd(a), y = asd(b), r; switch (k.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } set(f, k, VC(dbits(r))); }
      else { float x = asf(a), y = asf(b), r; switch (k.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } set(f, k, VC(fbits(r))); }
      f.ip++; break; }
    case O_FNEG: { u64 a = concretize(get(f, k.ops[0]), k.w, "fp"); set(f, k, VC(a ^ (1ull << (k.w - 1)))); f.ip++; break; }
    case O_FCMP: { bool dbl = k.ty2->isDoubleTy(); u64 a = concretize(get(f, k.ops[0]), dbl ? 64 : 32, "fp"), b = concretize(get(f, k.ops[1]), dbl ? 64 : 32, "fp"); double x = dbl ? asd(a) : asf(a), y = dbl ? asd(b) : asf(b); bool un = x != x || y != y, r; switch (k.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } set(f, k, VC(r)); f.ip++; break; }
    case O_LOAD: { V v = k.w ? V{} : V{}; V a = get(f, k.ops[0]); if (k.w) { unsigned bytes = (k.w + 7) / 8; v = mem_load(a, bytes); if (k.w < bytes * 8) { if (v.e) v = VE(mk_extract(v.e, 0, k.w)); else v.c &= MASK(k.w); } } else v = load_typed(a, k.ty); set(f, k, v); f.ip++; break; }
    case O_STORE: { V v = get(f, k.ops[0]); mem_store(get(f, k.ops[1]), (k.w2 + 7) / 8, v); f.ip++; break; }
    case O_GEP: { V p = get(f, k.ops[0]); u64 c = k.off; Expr *e = p.e; if (!e) c += p.c;
      for (size_t i = 1; i < k.ops.size(); i++) { V x = get(f, k.ops[i]); unsigned iw = k.idx[i - 1]; if (!x.e) c += k.scale[i] * (u64)SX(x.c, iw); else { Expr *y = mk_bin(K_MUL, mk_sext(x.e, 64), mk_const(k.scale[i], 64)); e = e ? mk_bin(K_ADD, e, y) : y; } }
      set(f, k, e ? VE(mk_bin(K_ADD, e, mk_const(c, 64))) : VC(c)); f.ip++; break; }
    case O_CAST: { V a = get(f, k.ops[0]); unsigned w = k.w, w2 = k.w2; switch (k.sub) {
        case Instruction::Trunc: a = a.e ? VE(mk_extract(a.e, 0, w)) : VC(a.c & MASK(w)); break;
        case Instruction::ZExt: if (a.e) a = VE(mk_zext(a.e, w)); break;
        case Instruction::SExt: a = a.e ? VE(mk_sext(a.e, w)) : VC((u64)SX(a.c, w2) & MASK(w)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < w2) a = a.e ? VE(mk_extract(a.e, 0, w)) : VC(a.c & MASK(w)); else if (a.e && w > w2) a = VE(mk_zext(a.e, w)); break;
        case Instruction::BitCast: break;
        case Instruction::UIToFP: { u64 x = concretize(a, w2, "fp"); a = VC(w == 64 ? dbits((double)x) : fbits((float)x)); break; }
        case Instruction::SIToFP: { int64_t x = SX(concretize(a, w2, "fp"), w2); a = VC(w == 64 ? dbits((double)x) : fbits((float)x)); break; }
        case Instruction::FPToUI: { u64 x = concretize(a, w2, "fp"); double d = w2 == 64 ? asd(x) : asf(x); a = VC((u64)d & MASK(w)); break; }
        case Instruction::FPToSI: { u64 x = concretize(a, w2, "fp"); double d = w2 == 64 ? asd(x) : asf(x); a = VC((u64)(int64_t)d & MASK(w)); break; }
        case Instruction::FPExt: a = VC(dbits(asf(concretize(a, 32, "fp")))); break;
        case Instruction::FPTrunc: a = VC(fbits((float)asd(concretize(a, 64, "fp")))); break;
        default: fprintf(stderr, "cast?\n"); exit(3); }
      set(f, k, a); f.ip++; break; }
    case O_ALLOCA: { u64 n = concretize(get(f, k.ops[0]), k.w2, "alloca"); u64 sz = n * k.off; if (sz > (64ull << 20)) { report(S, "memory", "stack allocation of " + std::to_string(sz) + " bytes", S.model); throw PathEnd{"violation", ""}; }
      u64 a = new_obj(S, sz, 1, "alloca", 0xbe); S.s.back()->name = f.f->F->getName().data(); f.allocas.push_back(a); set(f, k, VC(a)); f.ip++; break; }
    case O_SELECT: { V c = determined(get(f, k.ops[0]), 1); V a = get(f, k.ops[1]), b = get(f, k.ops[2]); if (!c.e) set(f, k, c.c ? a : b); else if (!k.w || k.sub) { bool t = fork_on(c.e, true); set(f, k, t ? a : b); } else set(f, k, VE(mk_ite(c.e, E(a, k.w), E(b, k.w)))); f.ip++; break; }
    case O_EXTV: { V a = get(f, k.ops[0]); for (auto i : k.idx) a = (*a.e->agg)[i]; set(f, k, a); f.ip++; break; }
    case O_INSV: { set(f, k, insv(get(f, k.ops[0]), k.idx.data(), k.idx.size(), get(f, k.ops[1]), k.ty2)); f.ip++; break; }
    case O_FREEZE: set(f, k, get(f, k.ops[0])); f.ip++; break;
    case O_BR: goto_bb(f, k.t); break;
    case O_CBR: { V c = get(f, k.ops[0]); bool t = c.e ? fork_on(c.e, true) : (c.c & 1); goto_bb(S.st.back(), t ? k.t : k.f); break; }
    case O_SWITCH: {
      V c = get(f, k.ops[0]); if (!c.e) { int t = k.t; for (auto &x : k.cases) if (x.v == c.c) { t = x.bb; break; } goto_bb(f, t); break; }
      u64 cv = eval_expr(c.e, S.model); int cur = k.t; for (auto &x : k.cases) if (x.v == cv) { cur = x.bb; break; }
      std::map<int, Expr *> tc; Expr *none = mk_const(1, 1); for (auto &x : k.cases) { Expr *e = mk_bin(K_EQ, c.e, mk_const(x.v, k.w2)); none = mk_bin(K_AND, none, mk_not(e)); if (x.bb == k.t) continue; auto &sl = tc[x.bb]; sl = sl ? mk_bin(K_OR, sl, e) : e; }
      Expr *def = mk_const(1, 1); { for (auto &t : tc) def = mk_bin(K_AND, def, mk_not(t.second)); } (void)none; tc[k.t] = def;
      bool multi = false;
      for (auto &t : tc) if (t.first != cur && !(isc(t.second) && !t.second->c)) { std::vector<uint8_t> m2 = S.model; if (solve(S.pc, t.second, m2)) { multi = true; forkpoint(); State *N = new State(S); N->model = m2; addpc(*N, t.second); work.push_back(N); } }
      if (multi) addpc(S, tc[cur]); goto_bb(S.st.back(), cur); break; }
    case O_UNREACH: report(S, "unreachable", "unreachable instruction reached", S.model); throw PathEnd{"violation", ""};
    case O_RET: {
      V v = k.ops.empty() ? VC(0) : get(f, k.ops[0]); int dst = f.dst; kill_allocas(S, f); S.st.pop_back();
      if (S.st.empty() || (S.exploring_exit && S.st.size() == 1)) throw PathEnd{"done", ""};
      Frame &g = S.st.back(); if (dst >= 0) g.r[dst] = v; break; }
    case O_INTRIN: {
      auto A = [&](int i) { return get(f, k.ops[i]); }; V r = VC(0); unsigned w = k.w;
      switch (k.off) {
        case Intrinsic::fshl: case Intrinsic::fshr: { V a = A(0), b = A(1), c = A(2); Expr *s = mk_bin(K_UREM, E(c, w), mk_const(w, w)); Expr *x = E(a, w), *y = E(b, w); if (!isc(s)) { incomplete("fsh"); throw PathEnd{"x", ""}; } u64 n = s->c; if (k.off == Intrinsic::fshr) n = (w - n) % w, r = n ? VE(mk_bin(K_OR, mk_bin(K_SHL, x, mk_const(n, w)), mk_bin(K_LSHR, y, mk_const(w - n, w)))) : VE(y); else r = n ? VE(mk_bin(K_OR, mk_bin(K_SHL, x, mk_const(n, w)), mk_bin(K_LSHR, y, mk_const(w - n, w)))) : VE(x); break; }
        case Intrinsic::umin: { Expr *x = E(A(0), w), *y = E(A(1), w); r = VE(mk_ite(mk_bin(K_ULT, x, y), x, y)); break; }
        case Intrinsic::umax: { Expr *x = E(A(0), w), *y = E(A(1), w); r = VE(mk_ite(mk_bin(K_ULT, x, y), y, x)); break; }
        case Intrinsic::smin: { Expr *x = E(A(0), w), *y = E(A(1), w); r = VE(mk_ite(mk_bin(K_SLT, x, y), x, y)); break; }
        case Intrinsic::smax: { Expr *x = E(A(0), w), *y = E(A(1), w); r = VE(mk_ite(mk_bin(K_SLT, x, y), y, x)); break; }
        case Intrinsic::bswap: { V a = A(0); Expr *x = E(a, w), *e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mk_extract(x, i * 8, 8); e = e ? mk_concat(e, b) : b; } r = VE(e); break; }
        case Intrinsic::ctpop: { u64 x = concretize(A(0), w, "ctpop"); r = VC(__builtin_popcountll(x)); break; }
        case Intrinsic::ctlz: { u64 x = concretize(A(0), w, "ctlz"); r = VC(x ? __builtin_clzll(x) - (64 - w) : w); break; }
        case Intrinsic::cttz: { u64 x = concretize(A(0), w, "cttz"); r = VC(x ? __builtin_ctzll(x) : w); break; }
        case Intrinsic::fabs: r = VC(dbits(::fabs(asd(concretize(A(0), 64, "fp"))))); break;
        case Intrinsic::is_fpclass: { double d = asd(concretize(A(0), 64, "fp")); u64 m = concretize(A(1), 32, "class"); bool neg = std::signbit(d); int b; switch (std::fpclassify(d)) { case FP_NAN: b = 1; break; case FP_INFINITE: b = neg ? 2 : 9; break; case FP_ZERO: b = neg ? 5 : 6; break; case FP_SUBNORMAL: b = neg ? 4 : 7; break; default: b = neg ? 3 : 8; } r = VC((m >> b & 1) | (b == 1 ? (m & 1) : 0)); break; }
        case Intrinsic::fmuladd: r = VC(dbits(asd(concretize(A(0), 64, "fp")) * asd(concretize(A(1), 64, "fp")) + asd(concretize(A(2), 64, "fp")))); break;
        case Intrinsic::stacksave: r = VC(0); break;
        case Intrinsic::expect: r = A(0); break;
        case Intrinsic::objectsize: r = VC(MASK(w)); break;
        case Intrinsic::is_constant: r = VC(0); break;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
          unsigned ww = tw(k.argty[0]); u64 x = concretize(A(0), ww, "ovf"), y = concretize(A(1), ww, "ovf"); u64 m = MASK(ww), res; bool o; unsigned __int128 q;
          if (k.off == Intrinsic::uadd_with_overflow) q = (unsigned __int128)x + y; else if (k.off == Intrinsic::umul_with_overflow) q = (unsigned __int128)x * y; else q = (unsigned __int128)(x - y); res = (u64)q & m; o = k.off == Intrinsic::usub_with_overflow ? x < y : q > m; auto *v = new std::vector<V>{VC(res), VC(o)}; r = mkagg(v); break; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: report(S, "ub", "undefined behaviour trap", S.model); throw PathEnd{"violation", ""};
        case Intrinsic::vastart: {
          // SysV va_list: send everything to the overflow area
          u64 p = A(0).c; if (!f.vamem) { u64 sz = std::max<u64>(8, f.va.size() * 8); f.vamem = new_obj(S, sz, 1, "varargs", 0); f.allocas.push_back(f.vamem); ObjP *sl; find(S, f.vamem, &sl); Obj *o = wr(sl); for (size_t i = 0; i < f.va.size(); i++) store_at(o, i * 8, 8, f.va[i]); }
          mem_store(VC(p), 4, VC(48)); mem_store(VC(p + 4), 4, VC(304)); mem_store(VC(p + 8), 8, VC(f.vamem)); mem_store(VC(p + 16), 8, VC(0)); break; }
        case Intrinsic::vaend: break;
        case Intrinsic::vacopy: copy_bytes(S, A(0), A(1), 24); break;
        default: fprintf(stderr, "intrinsic %s\n", k.callee->getName().str().c_str()); incomplete("unmodelled intrinsic " + k.callee->getName().str()); throw PathEnd{"unmodelled", ""};
      }
      set(f, k, r); f.ip++; break; }
    case O_CALL: {
      KFunc *kf = k.kf; int ext = k.ext;
      if (!kf && !ext) { u64 a = concretize(get(f, k.ops.back()), 64, "fnptr"); auto it = faddr.find(a); if (it == faddr.end()) { report(S, "memory", "call through invalid function pointer: " + describe(S, a), S.model); throw PathEnd{"violation", ""}; }
        Function *F = it->second; auto e = extid.find(F->getName().str()); if (e != extid.end()) ext = e->second; else if (F->isDeclaration()) { incomplete("unmodelled external " + F->getName().str()); throw PathEnd{"unmodelled", ""}; } else kf = kfunc(F);
        if (ext) { KInst k2 = k; k2.ext = ext; k2.callee = F; f.ip++; ext_call(S, f, k2); if (CUR && !S.st.empty()) {} break; } }
      if (ext) { // ip advanced after success: calls may re-queue this instruction
        if (ext == X_FREE || ext == X_EXIT || ext == X_ABORT) { f.ip++; size_t d = S.st.size(); if (ext != X_FREE) f.ip--; ext_call(S, S.st.back(), k); (void)d; break; }
        ext_call(S, f, k); S.st.back().ip++; break; }
      std::vector<V> args; args.reserve(k.ops.size()); Function *F = kf->F; size_t np = F->arg_size(); std::vector<V> va;
      for (size_t i = 0; i + 1 < k.ops.size(); i++) { V v = get(f, k.ops[i]); if (k.byval[i]) { u64 a = new_obj(S, k.byval[i], 1, "byval", 0); S.st.back().allocas.push_back(a); copy_bytes(S, VC(a), v, k.byval[i]); v = VC(a); if (i >= np) { for (u64 o = 0; o < k.byval[i]; o += 8) va.push_back(mem_load(VC(a + o), (unsigned)std::min<u64>(8, k.byval[i] - o))); continue; } } if (i < np) args.push_back(v); else { unsigned w = tw(k.argty[i]); if (v.e && w < 64) v = VE(mk_zext(v.e, 64)); va.push_back(v); } }
      S.st.back().ip++; push_frame(S, kf, args, k.isvoid ? -1 : k.dst); S.st.back().va = std::move(va); break; }
  }
}

static void run_state(State *S0) {
  CUR = S0; std::string end;
  try { for (;;) { step(); if (CUR->inst > maxinst) { report(*CUR, "hang", "path exceeded " + std::to_string(maxinst) + " instructions (non-termination?)", CUR->model); throw PathEnd{"violation", ""}; } 
      if ((n_inst & 0xffff) == 0 && now() - t_start > timelimit) { incomplete("time limit"); throw PathEnd{"time", ""}; } } }
  catch (PathEnd &p) { end = p.kind; }
  catch (z3::exception &e) { incomplete(std::string("z3: ") + e.msg()); end = "z3"; }
  if (end == "done" || end == "exit") { n_paths++; if ((n_paths & (n_paths - 1)) == 0) { Wit w{S0->syms, S0->model}; if (wits.size() < 4) wits.push_back(w); else wits[1 + (n_paths % 3)] = w; } if (samples.size() < 4 && (n_paths & (n_paths - 1)) == 0) { std::string s; for (auto &r : S0->syms) { s += r.name + "="; char b[4]; for (unsigned i = 0; i < std::min(r.n, 16u); i++) { snprintf(b, 4, "%02x", S0->model[r.first + i]); s += b; } s += " "; if (s.size() > 300) break; } samples.push_back(s); } }
  delete S0; CUR = nullptr;
}
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void dump(const std::string &path) {
  FILE *o = fopen(path.c_str(), "w"); 
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"unknown\":%llu,\"byte_queries\":%llu,\"solver_s\":%.3f,\"instructions\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"memory_queries\":%llu,\"assumed_away\":%llu,\"exit_paths\":%llu,\"symbolic_bytes\":%llu,\"wall_s\":%.3f,\"exprs\":%llu,", (unsigned long long)n_paths, (unsigned long long)n_forks, (unsigned long long)n_query, (unsigned long long)n_qsat, (unsigned long long)n_qunsat, (unsigned long long)n_qcache, (unsigned long long)n_unknown, (unsigned long long)n_byteq, t_solver, (unsigned long long)n_inst, (unsigned long long)n_assert, (unsigned long long)n_assert_q, (unsigned long long)n_memq, (unsigned long long)n_assumed, (unsigned long long)n_exitpaths, (unsigned long long)n_bytes_symbolic, now() - t_start, (unsigned long long)g_exprs);
  fprintf(o, "\"covers\":{"); bool c = false; for (auto &x : covers) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", jesc(x.first).c_str(), (unsigned long long)x.second); c = true; }
  fprintf(o, "},\"functions\":{"); c = false; for (auto &x : kfs) if (x.second->hits) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", x.first->getName().str().c_str(), (unsigned long long)x.second->hits); c = true; }
  fprintf(o, "},\"incomplete\":["); c = false; for (auto &x : incompletes) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(x).c_str()); c = true; }
  fprintf(o, "],\"samples\":["); c = false; for (auto &x : samples) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(x).c_str()); c = true; }
  fprintf(o, "],\"witnesses\":["); c = false; for (auto &v : wits) { fprintf(o, "%s[", c ? "," : ""); c = true; bool d = false; for (auto &r : v.syms) { fprintf(o, "%s{\"name\":\"%s\",\"hex\":\"", d ? "," : "", jesc(r.name).c_str()); d = true; for (unsigned i = 0; i < r.n; i++) fprintf(o, "%02x", r.first + i < v.model.size() ? v.model[r.first + i] : 0); fprintf(o, "\"}"); } fprintf(o, "]"); }
  fprintf(o, "],\"violations\":["); c = false; for (auto &v : viols) {
    fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"notes\":[", c ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.stack).c_str()); c = true; bool d = false;
    for (auto &n : v.notes) { fprintf(o, "%s\"%s\"", d ? "," : "", jesc(n).c_str()); d = true; } fprintf(o, "],\"inputs\":["); d = false;
    for (auto &r : v.syms) { fprintf(o, "%s{\"name\":\"%s\",\"hex\":\"", d ? "," : "", jesc(r.name).c_str()); d = true; for (unsigned i = 0; i < r.n; i++) fprintf(o, "%02x", r.first + i < v.model.size() ? v.model[r.first + i] : 0); fprintf(o, "\"}"); }
    fprintf(o, "]}"); }
  fprintf(o, "]}\n"); fclose(o);
}
int main(int argc, char **argv) {
  std::string mod, entry = "main", out = "out.json"; int jobs = 1; double memgb = 3;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = std::stoi(nx()); else if (a == "--time") timelimit = std::stod(nx()); else if (a == "--maxinst") maxinst = std::stoull(nx()); else if (a == "--maxviol") maxviol = std::stoi(nx()); else if (a == "--param") { std::string p = nx(); auto q = p.find('='); params[std::stoi(p.substr(0, q))] = std::stoull(p.substr(q + 1)); } else if (a == "-v") verbose = true; else if (a == "--diff") diffmode = true; else if (a == "--profile") profile = true; else if (a == "--mem") memgb = std::stod(nx()); else if (a == "--qtimeout") qtimeout = std::stoul(nx()); else mod = a; }
  struct rlimit rl = {512ull << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  t_start = now(); LC = new LLVMContext(); SMDiagnostic err; auto m = parseIRFile(mod, err, *LC); if (!m) { err.print("pgsym", errs()); return 3; } M = m.release(); DL = &M->getDataLayout(); init_ext();
  State *S = new State(); assign_globals(*S); Function *F = M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; } push_frame(*S, kfunc(F), {}, -1); work.push_back(S);
  int me = 0; 
  // breadth-first until enough states, then split
  if (jobs > 1) {
    size_t target = jobs * 24; double bfs0 = now();
    while (!work.empty() && work.size() < target && now() - bfs0 < 5 && (int)viols.size() < maxviol) { State *s = work.front(); work.pop_front(); run_state(s); }
    if (work.size() > 1) {
      std::vector<State *> all(work.begin(), work.end()); work.clear(); std::mt19937 rng(12345); std::shuffle(all.begin(), all.end(), rng);
      std::vector<pid_t> pids; for (int c = 0; c < jobs; c++) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); me = c + 1; n_paths = n_forks = n_query = n_qsat = n_qunsat = n_qcache = n_inst = n_assert = n_assert_q = n_memq = n_assumed = n_exitpaths = n_byteq = 0; t_solver = 0; covers.clear(); viols.clear(); samples.clear(); wits.clear(); incompletes.clear(); for (auto &k : kfs) k.second->hits = 0; for (size_t i = c; i < all.size(); i += jobs) work.push_back(all[i]); break; } pids.push_back(p); }
      if (!me) { dump(out + ".0"); int bad = 0; for (size_t i = 0; i < pids.size(); i++) { int st; waitpid(pids[i], &st, 0); if (st) { bad = 1; } } FILE *o = fopen(out.c_str(), "w"); fprintf(o, "{\"parts\":%d,\"crashed\":%d,\"wall_s\":%.3f}\n", jobs + 1, bad, now() - t_start); fclose(o); return 0; }
    }
  }
  u64 cnt = 0;
  while (!work.empty()) {
    State *s = work.back(); work.pop_back(); run_state(s);
    if ((int)viols.size() >= maxviol) { incomplete("violation limit"); break; }
    if (now() - t_start > timelimit) { if (!work.empty()) incomplete("time limit"); break; }
    if ((++cnt & 255) == 0) { FILE *st = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (st) { if (fscanf(st, "%ld %ld", &a, &b) != 2) b = 0; fclose(st); } if (b * 4096.0 > memgb * 1e9) { incomplete("memory limit"); break; } if (qcache.size() > 3000000) qcache.clear(); }
  }
  if (profile) { std::vector<std::pair<u64, std::string>> v; for (auto &x : forkat) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  if (me) { dump(out + "." + std::to_string(me)); _exit(0); }
  if (jobs > 1) { dump(out + ".0"); FILE *o = fopen(out.c_str(), "w"); fprintf(o, "{\"parts\":1,\"crashed\":0,\"wall_s\":%.3f}\n", now() - t_start); fclose(o); } else dump(out);
  return 0;
}
