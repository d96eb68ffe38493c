// ssx: symbolic executor for LLVM IR produced by clang from a C++ harness that includes /repo's headers.
// Inputs are symbolic bytes; every branch on them is explored; assertions, memory accesses, uses of
// uninitialised values, leaks, uncaught exceptions and runaway loops are decided for all their values (Z3).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/APInt.h>
#include <map>
#include <set>
#include <atomic>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <signal.h>

using namespace llvm;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
[[noreturn]] static void die(const std::string &m) { fprintf(stderr, "ssx: error: %s\n", m.c_str()); _exit(3); }

// ---------------------------------------------------------------- options
static std::string optOut; static int optJobs = 8; static double optTime = 600; static uint64_t optSteps = 4000000;
static int optSamples = 40; static uint64_t optSeed = 1; static bool optVerbose = false; static double optMem = 0; static bool optAll = false; static double optSlow = 0;
static std::string optRepo = "/repo/include/";

// ---------------------------------------------------------------- bytecode
struct Val { uint64_t c; Expr *e; };
enum Op : uint16_t { O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, O_SELECT, O_TRUNC, O_ZEXT, O_SEXT, O_MOV, O_LOAD, O_STORE, O_GEPK, O_GEPI, O_BR, O_CBR, O_SWITCH, O_RET,
  O_CALL, O_BUILTIN, O_UNREACH, O_ALLOCA, O_LPAD, O_RESUME, O_FREEZE, O_FP, O_NOP };
struct Fn;
typedef std::vector<std::pair<int32_t, int32_t>> Moves;
struct Edge { uint32_t pc = 0; int block = -1; Moves moves; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; std::vector<Edge> edges; };  // edges[0] default
struct CallInfo { Fn *fn = nullptr; int builtin = -1; int32_t fp = 0; std::vector<int32_t> args; std::vector<uint32_t> byval; std::vector<uint8_t> argw; bool invoke = false; Edge normal, unwind; int nret = 0; std::string name; };
struct LpadInfo { bool cleanup; std::vector<uint64_t> catches; bool filter = false; };
struct Ins { uint16_t op; uint16_t w; uint16_t w2; uint8_t sub; int32_t dst, a, b, c; uint64_t imm; void *ext; uint32_t loc; };
struct Fn { Function *F; std::string name; bool lowered = false; uint32_t nregs = 0, nargs = 0; std::vector<Ins> code; std::vector<Val> consts; std::vector<uint32_t> blockPc; std::vector<uint8_t> blockHit; std::vector<uint32_t> blockEnd; uint32_t idx; };

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::vector<Fn *> fns; static std::unordered_map<Function *, Fn *> fnOf;
static const uint64_t FNBASE = 0x7F000000ull, OFF0 = 0x10000;
struct Loc { std::string file, func; uint32_t line; };
static std::vector<Loc> locs{{"?", "?", 0}}; static std::unordered_map<const void *, uint32_t> locMap;

// ---------------------------------------------------------------- memory
enum OK : uint8_t { K_GCONST, K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_DEADSTACK, K_DEADHEAP, K_EXTERN };
struct Obj { int ref; uint32_t size; uint8_t kind, shared; uint8_t *data; uint8_t *tag; Expr **sym; uint32_t loc; };
struct Chunk { int ref; Obj *o[32]; };
static Obj g_deadStack{1 << 30, 0, K_DEADSTACK, 0, nullptr, nullptr, nullptr, 0}, g_deadHeap{1 << 30, 0, K_DEADHEAP, 0, nullptr, nullptr, nullptr, 0};
static Obj *newObj(uint32_t size, uint8_t kind, bool undef) {
  Obj *o = (Obj *)malloc(sizeof(Obj) + 2 * (size_t)size + 16); o->ref = 1; o->size = size; o->kind = kind; o->shared = 0; o->data = (uint8_t *)(o + 1); o->tag = o->data + size; o->sym = nullptr; o->loc = 0;
  memset(o->data, 0, size); memset(o->tag, undef ? 1 : 0, size); return o;
}
static void decObj(Obj *o) { if (o && --o->ref == 0) { free(o->sym); free(o); } }
static void decChunk(Chunk *c) { if (--c->ref == 0) { for (auto o : c->o) decObj(o); free(c); } }
struct Frame { int ref; uint32_t pc; Fn *fn; std::vector<uint32_t> *allocas; Val regs[1]; };
static Frame *newFrame(Fn *f) { Frame *fr = (Frame *)malloc(sizeof(Frame) + sizeof(Val) * (f->nregs + 1)); fr->ref = 1; fr->pc = 0; fr->fn = f; fr->allocas = nullptr; return fr; }
static void decFrame(Frame *f) { if (--f->ref == 0) { delete f->allocas; free(f); } }

struct Obs { std::vector<Val> v; };
struct State {
  std::vector<Frame *> st; std::vector<Chunk *> ch; uint32_t nobj = 1;
  uint32_t nsym = 0; Mask dom[128]; uint8_t model[128]; std::vector<Expr *> pc; uint64_t ps0 = 0, ps1 = 0;
  uint64_t steps = 0; int32_t failAt = -1; uint32_t liveHeap = 0; bool noleak = false; uint32_t allocs = 0; uint64_t bulk = 0, liveBytes = 0, peakBytes = 0;
  std::vector<Val> obs; std::string note; std::vector<std::pair<std::string, uint32_t>> names; // symbol names with start index
  uint32_t depth = 0;
};
static void freeState(State *s) { for (auto f : s->st) decFrame(f); for (auto c : s->ch) decChunk(c); delete s; }
static State *forkState(State *s) { State *n = new State(*s); for (auto f : n->st) f->ref++; for (auto c : n->ch) c->ref++; return n; }
static inline Obj *getObj(State *s, uint64_t id) { if (id == 0 || id >= s->nobj) return nullptr; return s->ch[id >> 5]->o[id & 31]; }
static Chunk *wChunk(State *s, uint64_t id) { Chunk *&c = s->ch[id >> 5]; if (c->ref > 1) { Chunk *n = (Chunk *)malloc(sizeof(Chunk)); *n = *c; n->ref = 1; for (auto o : n->o) if (o) o->ref++; c->ref--; c = n; } return c; }
static Obj *wObj(State *s, uint64_t id) {
  Chunk *c = wChunk(s, id); Obj *&o = c->o[id & 31];
  if (o->ref > 1) { Obj *n = newObj(o->size, o->kind, false); n->loc = o->loc; n->shared = o->shared; memcpy(n->data, o->data, 2 * (size_t)o->size); if (o->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * o->size); memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); } o->ref--; o = n; }
  return o;
}
static uint32_t addObj(State *s, Obj *o) {
  uint32_t id = s->nobj++; if ((id >> 5) >= s->ch.size()) { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; s->ch.push_back(c); }
  Chunk *c = wChunk(s, id); c->o[id & 31] = o; return id;
}
static void killObj(State *s, uint32_t id, Obj *dead) { Chunk *c = wChunk(s, id); decObj(c->o[id & 31]); dead->ref++; c->o[id & 31] = dead; }
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OFF0; }

// ---------------------------------------------------------------- globals of the exploration
struct Violation { std::string kind, msg, where, note; std::vector<uint8_t> model; std::vector<std::pair<std::string, uint32_t>> names; };
struct Shared {
  std::atomic<uint64_t> next, paths, steps, forks, queries, qsat, qunsat, qunknown, domDecisions, certs, asserts, assertsSolver, vassumes, stop, nviol, cacheHits, maxSym, assumedOut; std::atomic<uint64_t> usolver;
  std::atomic<uint32_t> reach[256]; std::atomic<uint64_t> undefq, concretised, termStates, createdStates, timeouts;
};
static Shared *sh;
static std::vector<Violation> viols; static std::vector<State *> work; static double tStart; static bool prefix = true;
struct Sample { std::vector<uint8_t> model, obs; std::string note; std::vector<std::pair<std::string, uint32_t>> names; };
static std::vector<Sample> samples; static uint64_t sampleSeen = 0; static uint64_t rng;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
struct PathEnd {}; // thrown to end a path

static std::map<std::string, uint64_t> globalAddr; static std::unordered_map<const GlobalValue *, uint64_t> gvAddr;
static State *initial;

static std::string where(State *s) {
  std::string r; int n = 0;
  for (int i = (int)s->st.size() - 1; i >= 0 && n < 6; i--, n++) { Frame *f = s->st[i]; uint32_t pc = f->pc; if (pc >= f->fn->code.size()) continue; const Loc &l = locs[f->fn->code[pc].loc];
    if (!r.empty()) r += " < "; size_t p = l.file.rfind('/'); r += (p == std::string::npos ? l.file : l.file.substr(p + 1)) + ":" + std::to_string(l.line); if (n == 0) r += " (" + l.func + ")"; }
  return r;
}
static void addViolation(State *s, const std::string &kind, const std::string &msg) {
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.note = s->note; v.model.assign(s->model, s->model + s->nsym); v.names = s->names;
  for (auto &o : viols) if (o.kind == kind && o.msg == msg && o.where == v.where) return;
  if (viols.size() < 20) { viols.push_back(v); sh->nviol++; }
  if (!optAll) sh->stop = 1;
}
[[noreturn]] static void violate(State *s, const std::string &kind, const std::string &msg) { addViolation(s, kind, msg); throw PathEnd(); }

// ---------------------------------------------------------------- solver
static Z3_solver solver;
static std::unordered_map<std::string, int> qcache; static std::unordered_map<std::string, std::vector<uint8_t>> qmodel;
static void initZ3() {
  Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); Z = Z3_mk_context(c); Z3_del_config(c);
  solver = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP")); Z3_solver_inc_ref(Z, solver);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 60000); Z3_solver_set_params(Z, solver, p);
}
static bool isFull(const Mask &m) { return m.count() == 256; }
// is (domains & path constraints & extra) satisfiable? fills model for involved symbols
static int solve(State *s, std::vector<Expr *> extra, uint8_t *model, Expr *u1neq = nullptr) {
  uint64_t c0 = 0, c1 = 0; for (auto e : extra) { c0 |= e->s0; c1 |= e->s1; } if (u1neq) { c0 |= u1neq->s0; c1 |= u1neq->s1; }
  std::vector<Expr *> cs; std::vector<char> used(s->pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i] && ((s->pc[i]->s0 & c0) | (s->pc[i]->s1 & c1))) { used[i] = 1; ch = true; c0 |= s->pc[i]->s0; c1 |= s->pc[i]->s1; cs.push_back(s->pc[i]); } }
  std::string key; std::vector<uint32_t> ids; for (auto e : cs) ids.push_back(e->id); for (auto e : extra) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  key.append((char *)ids.data(), ids.size() * 4); if (u1neq) { uint32_t t = u1neq->id; key += "U"; key.append((char *)&t, 4); }
  std::vector<unsigned> syms; for (unsigned i = 0; i < 128; i++) if (i < 64 ? (c0 >> i & 1) : (c1 >> (i - 64) & 1)) syms.push_back(i);
  for (unsigned i : syms) { key += (char)i; key.append((char *)s->dom[i].w, 32); }
  auto it = qcache.find(key); 
  if (it != qcache.end()) { sh->cacheHits++; if (it->second == 1 && model) { auto &m = qmodel[key]; for (size_t i = 0; i < syms.size(); i++) model[syms[i]] = m[i]; } return it->second; }
  double t0 = now();
  Z3_solver_push(Z, solver);
  for (unsigned i : syms) if (!isFull(s->dom[i])) Z3_solver_assert(Z, solver, zset(i, s->dom[i]));
  for (auto e : cs) Z3_solver_assert(Z, solver, toZ3(e)); for (auto e : extra) Z3_solver_assert(Z, solver, toZ3(e));
  if (u1neq) Z3_solver_assert(Z, solver, Z3_mk_not(Z, Z3_mk_eq(Z, toZ3(u1neq, 1), toZ3(u1neq, 2))));
  Z3_lbool r = Z3_solver_check(Z, solver); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
  std::vector<uint8_t> mv;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(Z, solver); Z3_model_inc_ref(Z, m);
    for (unsigned i : syms) { Z3_ast v; unsigned x = s->model[i]; if (Z3_model_eval(Z, m, zsym(i), false, &v) && Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint(Z, v, &x); else { if (!s->dom[i].get(x)) for (x = 0; !s->dom[i].get(x); x++); } mv.push_back(x); if (model) model[i] = x; }
    Z3_model_dec_ref(Z, m); qmodel[key] = mv;
  }
  Z3_solver_pop(Z, solver, 1);
  sh->queries++; sh->usolver += (uint64_t)((now() - t0) * 1e6); (res == 1 ? sh->qsat : res == 0 ? sh->qunsat : sh->qunknown)++;
  if (optSlow > 0 && now() - t0 > optSlow) fprintf(stderr, "ssx: slow query %.2fs res=%d syms=%zu cs=%zu at %s\n", now() - t0, res, syms.size(), cs.size(), where(s).c_str());
  qcache[key] = res; return res;
}
// the solver confirms that no byte lies in the intersection (cached)
static void certEmpty(const Mask &a, const Mask &b) {
  static std::set<std::string> done; std::string k((char *)a.w, 32); k.append((char *)b.w, 32);
  if (done.count(k)) return;
  double t0 = now(); Z3_solver_push(Z, solver); Z3_solver_assert(Z, solver, zset(0, a)); Z3_solver_assert(Z, solver, zset(0, b)); Z3_lbool r = Z3_solver_check(Z, solver); Z3_solver_pop(Z, solver, 1);
  sh->certs++; sh->queries++; sh->usolver += (uint64_t)((now() - t0) * 1e6); if (r != Z3_L_FALSE) die("domain reasoning not confirmed by the solver"); sh->qunsat++; done.insert(k);
}
static Expr *checkUndef(State *s, Expr *e, const char *what) {
  if (!e->undef) return e;
  sh->undefq++;
  uint8_t m[128]; memcpy(m, s->model, 128); int r = solve(s, {}, m, e);
  if (r == 1) { memcpy(s->model, m, 128); violate(s, "uninit", std::string("uninitialised value used in ") + what); }
  if (r == 2) { addViolation(s, "unknown", "solver gave no answer on an initialisation query"); throw PathEnd(); }
  std::unordered_map<Expr *, Expr *> memo; return dropUndef(e, memo);
}
static inline bool hasPc(State *s, Expr *e) { return (s->ps0 & e->s0) | (s->ps1 & e->s1); }
static inline void addPc(State *s, Expr *e) { s->pc.push_back(e); s->ps0 |= e->s0; s->ps1 |= e->s1; }
static int prefByte(const Mask &m) { static const char *p = "a1b2,\"\\ \n\r"; for (const char *q = p; *q; q++) if (m.get((uint8_t)*q)) return (uint8_t)*q; for (int i = 32; i < 127; i++) if (m.get(i)) return i; for (int i = 0; i < 256; i++) if (m.get(i)) return i; die("empty domain"); }
static void pushFork(State *n) { n->depth++; work.push_back(n); sh->forks++; sh->createdStates++; }

// simplification under the current byte domains: a table that is constant on the domain is that constant
static inline Expr *red1(State *s, Expr *e) {
  if (e->k != KLut && e->k != KSet) return e;
  const Mask &d = s->dom[e->sym]; bool first = true; uint64_t v = 0;
  for (int w = 0; w < 4; w++) for (uint64_t m = d.w[w]; m; m &= m - 1) { unsigned i = w * 64 + __builtin_ctzll(m); uint64_t t = e->k == KLut ? e->tab[i] : (e->tab[i >> 6] >> (i & 63)) & 1; if (first) { v = t; first = false; } else if (t != v) return e; }
  return first ? e : mkConst(e->w, v);
}
static Expr *redAll(State *s, Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->k <= KUndef) return e;
  if (e->k == KLut || e->k == KSet) return red1(s, e);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *a = e->a ? redAll(s, e->a, memo) : nullptr, *b = e->b ? redAll(s, e->b, memo) : nullptr, *c = e->c ? redAll(s, e->c, memo) : nullptr;
  Expr *r = (a == e->a && b == e->b && c == e->c) ? e : mkRaw(e->k, e->w, a, b, c, e->lo);
  memo[e] = r; return r;
}
static bool decide(State *s, Expr *c) {
  if (isC(c)) return c->lo;
  if (c->undef) { c = checkUndef(s, c, "a branch"); if (isC(c)) return c->lo; }
  switch (c->k) {
    case KXor: if (isC(c->b)) return !decide(s, c->a); return decide(s, c->a) != decide(s, c->b);
    case KAnd: return decide(s, c->a) && decide(s, c->b);
    case KOr: return decide(s, c->a) || decide(s, c->b);
    case KIte: return decide(s, c->a) ? decide(s, c->b) : decide(s, c->c);
    case KEq: if (c->a->w == 1) return decide(s, c->a) == decide(s, c->b); break;
    default: break;
  }
  if (c->k == KSet) {
    unsigned i = c->sym; Mask t = s->dom[i] & setMask(c), f = s->dom[i] & ~setMask(c);
    if (t.empty()) { sh->domDecisions++; certEmpty(s->dom[i], setMask(c)); return false; }
    if (f.empty()) { sh->domDecisions++; certEmpty(s->dom[i], ~setMask(c)); return true; }
    bool cur = setMask(c).get(s->model[i]); Mask &om = cur ? f : t;
    if (!hasPc(s, c)) {
      State *n = forkState(s); n->dom[i] = om; n->model[i] = prefByte(om); pushFork(n); sh->domDecisions++;
    } else {
      uint8_t m[128]; memcpy(m, s->model, 128); int r = solve(s, {cur ? mkNot(c) : c}, m);
      if (r == 2) { sh->timeouts++; } 
      if (r == 1) { State *n = forkState(s); n->dom[i] = om; memcpy(n->model, m, 128); pushFork(n); }
    }
    s->dom[i] = cur ? t : f; return cur;
  }
  { std::unordered_map<Expr *, Expr *> memo; Expr *r = redAll(s, c, memo); if (r != c) return decide(s, r); }
  bool cur = (bool)evalE(c, s->model); uint8_t m[128]; memcpy(m, s->model, 128); Expr *o = cur ? mkNot(c) : c;
  int r = solve(s, {o}, m);
  if (r == 2) sh->timeouts++;
  if (r == 1) { State *n = forkState(s); memcpy(n->model, m, 128); addPc(n, o); pushFork(n); addPc(s, cur ? c : mkNot(c)); }
  return cur;
}
static u128 concretize(State *s, Expr *e, const char *what) {
  if (isC(e)) return cval(e);
  if (e->undef) { e = checkUndef(s, e, what); if (isC(e)) return cval(e); }
  sh->concretised++;
  while (true) { u128 v = evalE(e, s->model); if (decide(s, mkBin(KEq, e, mkConst(e->w, v)))) return v; }
}

// ---------------------------------------------------------------- values
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Expr *toR(State *s, const Val &v, unsigned w) { return v.e ? red1(s, v.e) : mkConst(w, v.c); }
static inline Val fromE(Expr *e) { if (isC(e) && e->w <= 64) return Val{e->lo, nullptr}; return Val{isC(e) ? e->lo : 0, e}; }
static inline uint64_t conc(State *s, const Val &v, const char *what) { return v.e ? (uint64_t)concretize(s, v.e, what) : v.c; }

// objects with static storage, and what is allocated while one is initialised, are shared by all threads (-shared: writing to them later is a violation)
static bool optShared = false, started = false; static uint64_t guardsAddr = 0;
static bool guarded(State *s) { if (!started) return true; if (!guardsAddr) return false; Obj *o = getObj(s, guardsAddr >> 32); return o->data[0] != 0; }
static Obj *checkAccess(State *s, uint64_t addr, uint64_t n, bool write, const char *what) {
  uint64_t id = addr >> 32; int64_t off = (int64_t)(addr & 0xffffffffu) - (int64_t)OFF0; Obj *o;
  if (id == 0) violate(s, "memory", std::string("null pointer ") + what);
  o = getObj(s, id);
  if (!o) violate(s, "memory", std::string("invalid pointer ") + what);
  if (o->kind == K_DEADSTACK) violate(s, "memory", std::string("stack use after scope: ") + what);
  if (o->kind == K_DEADHEAP) violate(s, "memory", std::string("use after free: ") + what);
  if (o->kind == K_EXTERN) violate(s, "external", "access to an object defined outside the headers");
  if (off < 0 || (uint64_t)off + n > o->size) violate(s, "memory", std::string("out of bounds ") + what + (o->kind == K_STACK ? " (stack)" : o->kind <= K_GLOBAL ? " (global)" : " (heap)"));
  if (write && o->shared && optShared && !guarded(s)) violate(s, "shared", "write to an object that all threads share");
  if (write && o->kind == K_GCONST) violate(s, "memory", std::string("write to constant memory: ") + what);
  return o;
}
static inline Expr *byteE(Obj *o, uint64_t off) { uint8_t t = o->tag[off]; return t == 0 ? mkConst(8, o->data[off]) : t == 1 ? mkUndef(8) : o->sym[off]; }
static Val loadObj(Obj *o, uint64_t off, unsigned n, unsigned w) {
  bool sy = false; for (unsigned i = 0; i < n; i++) sy |= o->tag[off + i];
  if (!sy && n <= 8) { uint64_t v = 0; memcpy(&v, o->data + off, n); return Val{v & maskw(w), nullptr}; }
  Expr *e = byteE(o, off); for (unsigned i = 1; i < n; i++) e = mkConcat(byteE(o, off + i), e);
  if (w < e->w) e = mkExtract(e, 0, w);
  return fromE(e);
}
static Val load(State *s, uint64_t addr, unsigned n, unsigned w) { Obj *o = checkAccess(s, addr, n, false, "read"); return loadObj(o, (addr & 0xffffffffu) - OFF0, n, w); }
static void putByte(Obj *o, uint64_t off, Expr *b) {
  if (isC(b)) { o->data[off] = b->lo; o->tag[off] = 0; }
  else if (b->k == KUndef) o->tag[off] = 1;
  else { if (!o->sym) o->sym = (Expr **)malloc(sizeof(Expr *) * o->size); o->sym[off] = b; o->tag[off] = 2; }
}
static void store(State *s, uint64_t addr, const Val &v, unsigned n, unsigned w) {
  checkAccess(s, addr, n, true, "write"); Obj *o = wObj(s, addr >> 32); uint64_t off = (addr & 0xffffffffu) - OFF0;
  if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->tag + off, 0, n); return; }
  Expr *e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) putByte(o, off + i, mkExtract(e, 8 * i, 8));
}
static void memcopy(State *s, uint64_t d, uint64_t a, uint64_t n) {
  if (!n) return; Obj *src = checkAccess(s, a, n, false, "read (memcpy)"); checkAccess(s, d, n, true, "write (memcpy)");
  src->ref++; Obj *dst = wObj(s, d >> 32); uint64_t so = (a & 0xffffffffu) - OFF0, dof = (d & 0xffffffffu) - OFF0;
  memmove(dst->data + dof, src->data + so, n);
  bool sy = false; if (src->sym) for (uint64_t i = 0; i < n; i++) sy |= src->tag[so + i] == 2;
  if (sy) { if (!dst->sym) dst->sym = (Expr **)malloc(sizeof(Expr *) * dst->size); memmove(dst->sym + dof, src->sym + so, n * sizeof(Expr *)); }
  memmove(dst->tag + dof, src->tag + so, n);
  decObj(src);
}
static std::string cstr(State *s, uint64_t a) { std::string r; for (int i = 0; i < 400; i++) { Val v = load(s, a + i, 1, 8); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }

// ---------------------------------------------------------------- lowering
static uint64_t fnAddr(Fn *f) { return ((FNBASE + f->idx) << 32) | OFF0; }
static Fn *getFn(Function *F) { auto it = fnOf.find(F); if (it != fnOf.end()) return it->second; Fn *f = new Fn; f->F = F; f->name = F->getName().str(); f->idx = fns.size(); fns.push_back(f); fnOf[F] = f; return f; }
static void leaves(Type *t, std::vector<Type *> &o) {
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leaves(e, o); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), o); }
  else if (t->isVoidTy()) {}
  else o.push_back(t);
}
static unsigned nleaves(Type *t) { if (!t->isAggregateType()) return t->isVoidTy() ? 0 : 1; std::vector<Type *> v; leaves(t, v); return v.size(); }
static unsigned width(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
  std::string str; raw_string_ostream os(str); t->print(os); die("unsupported type " + os.str());
}
static uint64_t gaddr(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) return gaddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
  if (auto *f = dyn_cast<Function>(g)) return fnAddr(getFn(const_cast<Function *>(f)));
  auto it = gvAddr.find(g); if (it == gvAddr.end()) die("no address for global " + g->getName().str()); return it->second;
}
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { unsigned w = i->getBitWidth(); if (w <= 64) return Val{i->getZExtValue(), nullptr}; const APInt &a = i->getValue(); return Val{a.getRawData()[0], mkConst(w, ((u128)a.getRawData()[1] << 64) | a.getRawData()[0])}; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (!f->getType()->isFloatTy() && !f->getType()->isDoubleTy()) die("long double constant"); return Val{f->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr}; }
  if (isa<ConstantPointerNull>(c)) return Val{0, nullptr};
  if (isa<UndefValue>(c)) return Val{0, mkUndef(width(c->getType()))};
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val{gaddr(g), nullptr};
  if (isa<ConstantAggregateZero>(c)) return Val{0, nullptr};
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *gep = cast<GEPOperator>(e); if (!gep->accumulateConstantOffset(*DL, off)) die("constant gep"); Val b = constVal(cast<Constant>(gep->getPointerOperand())); return Val{b.c + off.getZExtValue(), nullptr}; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val v = constVal(e->getOperand(0)); v.c &= maskw(width(e->getType())); return v; }
      case Instruction::Sub: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return Val{(a.c - b.c) & maskw(width(e->getType())), nullptr}; }
      case Instruction::Add: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return Val{(a.c + b.c) & maskw(width(e->getType())), nullptr}; }
      case Instruction::Trunc: { Val a = constVal(e->getOperand(0)); return Val{a.c & maskw(width(e->getType())), nullptr}; }
      case Instruction::ICmp: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); auto p = (CmpInst::Predicate)e->getPredicate(); if (p == CmpInst::ICMP_EQ) return Val{a.c == b.c, nullptr}; if (p == CmpInst::ICMP_NE) return Val{a.c != b.c, nullptr}; if (p == CmpInst::ICMP_ULT) return Val{a.c < b.c, nullptr}; die("const icmp"); }
      default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os); die("unsupported constant " + os.str());
}
static void constLeaves(const Constant *c, Type *t, std::vector<Val> &o) {
  if (t->isAggregateType()) { unsigned n = isa<StructType>(t) ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Type *et = isa<StructType>(t) ? t->getStructElementType(i) : t->getArrayElementType(); const Constant *e = c->getAggregateElement(i); if (!e) die("aggregate constant"); constLeaves(e, et, o); } }
  else o.push_back(constVal(c));
}
static void initMem(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType(); uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { return; }
  if (isa<UndefValue>(c)) { return; }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { StringRef d = cds->getRawDataValues(); memcpy(o->data + off, d.data(), d.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i)); return; }
  Val v = constVal(c); if (v.e) { u128 x = cval(v.e); memcpy(o->data + off, &x, std::min<uint64_t>(sz, 16)); return; }
  memcpy(o->data + off, &v.c, std::min<uint64_t>(8, DL->getTypeStoreSize(t)));
}
static uint32_t locOf(const Instruction &I) {
  const DILocation *d = I.getDebugLoc().get(); if (!d) return 0; auto it = locMap.find(d); if (it != locMap.end()) return it->second;
  Loc l; l.line = d->getLine(); std::string f = d->getFilename().str(); if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f; l.file = f; auto *sp = d->getScope()->getSubprogram(); l.func = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "?";
  locs.push_back(l); return locMap[d] = locs.size() - 1;
}
enum BI { B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_NOP, B_ASSUME, B_OVF, B_MINMAX, B_SYMBOLIC, B_CHOOSE, B_SXASSUME, B_SXASSERT, B_REACH, B_OBSERVE, B_ALLOC, B_FREE, B_UNWIND, B_TYPEID, B_TERMINATE, B_FAILAT, B_NOTE, B_NOLEAK, B_STOP, B_RESET, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_ABS, B_FSHL, B_FABS, B_EXPECT, B_FMULADD, B_OBJSIZE, B_PRINT, B_UBTRAP, B_CONSTP, B_SATADD, B_PICK, B_NALLOC, B_ISSYM, B_SDIFF, B_STACKSAVE, B_STRTOD, B_COPYSIGN, B_HEAPSIZE, B_WORK, B_PEAK };
static const std::map<std::string, int> builtins = {
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"sx_symbolic", B_SYMBOLIC}, {"sx_choose", B_CHOOSE}, {"sx_assume", B_SXASSUME}, {"sx_assert_at", B_SXASSERT},
  {"sx_reach", B_REACH}, {"sx_observe", B_OBSERVE}, {"sx_alloc", B_ALLOC}, {"sx_free", B_FREE}, {"sx_unwind", B_UNWIND}, {"sx_terminate", B_TERMINATE}, {"sx_fail_alloc", B_FAILAT}, {"sx_note", B_NOTE}, {"sx_noleak", B_NOLEAK},
  {"sx_stop", B_STOP}, {"sx_reset", B_RESET}, {"sx_print", B_PRINT}, {"sx_concretize", B_PICK}, {"sx_alloc_count", B_NALLOC}, {"sx_is_symbolic", B_ISSYM}, {"sx_strtod", B_STRTOD}, {"sx_work", B_WORK}, {"sx_peak", B_PEAK}, {"sx_heap_size", B_HEAPSIZE}};
struct BInfo { int sub = 0; };

struct Lower {
  Fn *fn; std::unordered_map<const Value *, int32_t> reg; std::map<std::pair<uint64_t, Expr *>, int32_t> cidx; std::unordered_map<const BasicBlock *, int> bidx;
  int32_t constIdx(Val v) { auto k = std::make_pair(v.c, v.e); auto it = cidx.find(k); if (it != cidx.end()) return it->second; fn->consts.push_back(v); return cidx[k] = -(int32_t)fn->consts.size(); }
  int32_t op(const Value *v, unsigned leaf = 0) {
    if (auto *c = dyn_cast<Constant>(v)) { if (c->getType()->isAggregateType()) { std::vector<Val> l; constLeaves(c, c->getType(), l); return constIdx(l[leaf]); } return constIdx(constVal(c)); }
    auto it = reg.find(v); if (it == reg.end()) die("value without register in " + fn->name); return it->second + leaf;
  }
  Ins &emit(Op o, const Instruction &I) { fn->code.push_back(Ins{(uint16_t)o, 0, 0, 0, -1, 0, 0, 0, 0, nullptr, locOf(I)}); return fn->code.back(); }
  std::vector<std::pair<Edge *, const BasicBlock *>> fix;
  void edge(Edge &e, const BasicBlock *from, const BasicBlock *to) {
    for (auto &p : to->phis()) { const Value *v = p.getIncomingValueForBlock(from); unsigned n = nleaves(p.getType()); for (unsigned i = 0; i < n; i++) { int32_t d = reg[&p] + i, sr = op(v, i); if (d != sr) e.moves.push_back({d, sr}); } }
    e.block = bidx[to];
  }
  void run() {
    Function &F = *fn->F; uint32_t r = 0; std::vector<Type *> tmp;
    for (auto &a : F.args()) { reg[&a] = r; r += nleaves(a.getType()); }
    fn->nargs = r; int bi = 0;
    for (auto &B : F) { bidx[&B] = bi++; for (auto &I : B) { unsigned n = nleaves(I.getType()); if (n) { reg[&I] = r; r += n; } } }
    fn->nregs = r; std::vector<Edge *> edges;
    auto mkEdge = [&](const BasicBlock *f, const BasicBlock *t) { Edge *e = new Edge; edge(*e, f, t); edges.push_back(e); return e; };
    for (auto &B : F) { fn->blockPc.push_back(fn->code.size()); for (auto &I : B) ins(I, B, mkEdge, edges); fn->blockEnd.push_back(fn->code.size()); }
    for (auto *e : edges) e->pc = fn->blockPc[e->block];
    fn->blockHit.assign(bi, 0); fn->lowered = true;
  }
  template <class ME> void ins(Instruction &I, BasicBlock &B, ME mkEdge, std::vector<Edge *> &edges) {
    int32_t d = nleaves(I.getType()) ? reg[&I] : -1;
    switch (I.getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
        int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1)); auto &x = emit(m.at(I.getOpcode()), I); x.dst = d; x.w = width(I.getType()); x.a = a; x.b = b; return; }
      case Instruction::ICmp: { auto &c = cast<ICmpInst>(I); int32_t a = op(c.getOperand(0)), b = op(c.getOperand(1)); auto &x = emit(O_ICMP, I); x.dst = d; x.w = width(c.getOperand(0)->getType()); x.sub = c.getPredicate(); x.a = a; x.b = b; return; }
      case Instruction::Select: { unsigned n = nleaves(I.getType()); std::vector<Type *> l; leaves(I.getType(), l);
        for (unsigned i = 0; i < n; i++) { int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1), i), c = op(I.getOperand(2), i); auto &x = emit(O_SELECT, I); x.dst = d + i; x.w = width(l[i]); x.sub = l[i]->isPointerTy(); x.a = a; x.b = b; x.c = c; } return; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        unsigned ws = width(I.getOperand(0)->getType()), wd = width(I.getType()); int32_t a = op(I.getOperand(0)); Op o = I.getOpcode() == Instruction::SExt ? O_SEXT : wd < ws ? O_TRUNC : wd > ws ? O_ZEXT : O_MOV;
        auto &x = emit(o, I); x.dst = d; x.w = wd; x.w2 = ws; x.a = a; return; }
      case Instruction::Freeze: { for (unsigned i = 0; i < nleaves(I.getType()); i++) { int32_t a = op(I.getOperand(0), i); auto &x = emit(O_FREEZE, I); x.dst = d + i; x.a = a; } return; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        int32_t a = op(I.getOperand(0)), b = op(I.getOperand(1)); auto &x = emit(O_FP, I); x.dst = d; x.w = x.w2 = width(I.getType()); x.a = a; x.b = b;
        x.sub = I.getOpcode() == Instruction::FAdd ? FAdd : I.getOpcode() == Instruction::FSub ? FSub : I.getOpcode() == Instruction::FMul ? FMul : I.getOpcode() == Instruction::FDiv ? FDiv : FRem; return; }
      case Instruction::FNeg: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        int32_t a = op(I.getOperand(0)); auto &x = emit(O_FP, I); x.dst = d; x.w = width(I.getType()); x.w2 = width(I.getOperand(0)->getType()); x.a = a; x.b = INT32_MIN;
        static const std::map<unsigned, FpOp> m = {{Instruction::FNeg, FNeg}, {Instruction::SIToFP, FSiToFp}, {Instruction::UIToFP, FUiToFp}, {Instruction::FPToSI, FToSi}, {Instruction::FPToUI, FToUi}, {Instruction::FPExt, FExt}, {Instruction::FPTrunc, FTrunc}};
        x.sub = m.at(I.getOpcode()); return; }
      case Instruction::FCmp: { auto &c = cast<FCmpInst>(I); int32_t a = op(c.getOperand(0)), b = op(c.getOperand(1));
        static const std::map<unsigned, FpOp> m = {{FCmpInst::FCMP_OEQ, FOeq}, {FCmpInst::FCMP_OGT, FOgt}, {FCmpInst::FCMP_OGE, FOge}, {FCmpInst::FCMP_OLT, FOlt}, {FCmpInst::FCMP_OLE, FOle}, {FCmpInst::FCMP_ONE, FOne}, {FCmpInst::FCMP_ORD, FOrd}, {FCmpInst::FCMP_UNO, FUno}, {FCmpInst::FCMP_UEQ, FUeq}, {FCmpInst::FCMP_UGT, FUgt}, {FCmpInst::FCMP_UGE, FUge}, {FCmpInst::FCMP_ULT, FUlt}, {FCmpInst::FCMP_ULE, FUle}, {FCmpInst::FCMP_UNE, FUne}};
        auto &x = emit(O_FP, I); x.dst = d; x.w = 1; x.w2 = width(c.getOperand(0)->getType()); x.a = a; x.b = b; x.sub = m.at(c.getPredicate()); return; }
      case Instruction::Load: { std::vector<Type *> l; leaves(I.getType(), l); int32_t a = op(I.getOperand(0)); 
        if (l.size() == 1 && !I.getType()->isAggregateType()) { auto &x = emit(O_LOAD, I); x.dst = d; x.a = a; x.w = width(l[0]); x.imm = DL->getTypeStoreSize(l[0]); return; }
        aggr(I.getType(), 0, [&](Type *t, uint64_t off, unsigned i) { auto &x = emit(O_LOAD, I); x.dst = d + i; x.a = a; x.w = width(t); x.imm = DL->getTypeStoreSize(t); x.w2 = off; }); return; }
      case Instruction::Store: { Type *t0 = I.getOperand(0)->getType(); int32_t a = op(I.getOperand(1));
        if (!t0->isAggregateType()) { int32_t b = op(I.getOperand(0)); auto &x = emit(O_STORE, I); x.a = a; x.b = b; x.w = width(t0); x.imm = DL->getTypeStoreSize(t0); return; }
        aggr(t0, 0, [&](Type *t, uint64_t off, unsigned i) { int32_t b = op(I.getOperand(0), i); auto &x = emit(O_STORE, I); x.a = a; x.b = b; x.w = width(t); x.imm = DL->getTypeStoreSize(t); x.w2 = off; }); return; }
      case Instruction::GetElementPtr: { auto &g = cast<GetElementPtrInst>(I); int64_t k = 0; std::vector<std::pair<const Value *, uint64_t>> idx;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { const Value *v = it.getOperand(); if (StructType *st = it.getStructTypeOrNull()) k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(v)) k += c->getSExtValue() * (int64_t)sz; else idx.push_back({v, sz}); } }
        int32_t cur = op(g.getPointerOperand()); bool done = false;
        if (k || idx.empty()) { auto &x = emit(O_GEPK, I); x.dst = d; x.a = cur; x.imm = k; cur = d; done = true; }
        for (auto &p : idx) { int32_t b = op(p.first); auto &x = emit(O_GEPI, I); x.dst = d; x.a = cur; x.b = b; x.w = width(p.first->getType()); x.imm = p.second; cur = d; done = true; }
        (void)done; return; }
      case Instruction::ExtractValue: { auto &x = cast<ExtractValueInst>(I); unsigned off = aggOff(x.getAggregateOperand()->getType(), x.getIndices()); for (unsigned i = 0; i < nleaves(I.getType()); i++) { int32_t a = op(x.getAggregateOperand(), off + i); auto &m = emit(O_MOV, I); m.dst = d + i; m.a = a; m.w = 64; } return; }
      case Instruction::InsertValue: { auto &x = cast<InsertValueInst>(I); unsigned off = aggOff(I.getType(), x.getIndices()), n = nleaves(x.getInsertedValueOperand()->getType()), N = nleaves(I.getType());
        for (unsigned i = 0; i < N; i++) { int32_t a = (i >= off && i < off + n) ? op(x.getInsertedValueOperand(), i - off) : op(x.getAggregateOperand(), i); auto &m = emit(O_MOV, I); m.dst = d + i; m.a = a; m.w = 64; } return; }
      case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); auto *n = dyn_cast<ConstantInt>(al.getArraySize()); if (!n) die("variable alloca in " + fn->name); auto &x = emit(O_ALLOCA, I); x.dst = d; x.imm = DL->getTypeAllocSize(al.getAllocatedType()) * n->getZExtValue(); return; }
      case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { Edge *e = mkEdge(&B, b.getSuccessor(0)); auto &x = emit(O_BR, I); x.ext = e; } else { int32_t c = op(b.getCondition()); Edge **p = new Edge *[2]; p[0] = mkEdge(&B, b.getSuccessor(0)); p[1] = mkEdge(&B, b.getSuccessor(1)); auto &x = emit(O_CBR, I); x.a = c; x.ext = p; } return; }
      case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); auto *si = new SwitchInfo; std::map<const BasicBlock *, int> ei; int32_t a = op(sw.getCondition()); std::vector<const BasicBlock *> tb{sw.getDefaultDest()};
        for (auto &c : sw.cases()) { if (c.getCaseSuccessor() == sw.getDefaultDest()) continue; auto it = ei.find(c.getCaseSuccessor()); int k; if (it == ei.end()) { k = tb.size(); ei[c.getCaseSuccessor()] = k; tb.push_back(c.getCaseSuccessor()); } else k = it->second; si->cases.push_back({c.getCaseValue()->getZExtValue(), k}); }
        si->edges.resize(tb.size()); for (size_t i = 0; i < tb.size(); i++) { edge(si->edges[i], &B, tb[i]); edges.push_back(&si->edges[i]); }
        auto &x = emit(O_SWITCH, I); x.a = a; x.ext = si; x.w = width(sw.getCondition()->getType()); return; }
      case Instruction::Ret: { unsigned n = I.getNumOperands() ? nleaves(I.getOperand(0)->getType()) : 0; auto *v = new std::vector<int32_t>; for (unsigned i = 0; i < n; i++) v->push_back(op(I.getOperand(0), i)); auto &x = emit(O_RET, I); x.ext = v; return; }
      case Instruction::Unreachable: emit(O_UNREACH, I); return;
      case Instruction::Resume: { int32_t a = op(I.getOperand(0), 0); auto &x = emit(O_RESUME, I); x.a = a; return; }
      case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(I); auto *li = new LpadInfo; li->cleanup = lp.isCleanup(); for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (lp.isFilter(i)) { li->filter = true; continue; } li->catches.push_back(constVal(lp.getClause(i)).c); } auto &x = emit(O_LPAD, I); x.dst = d; x.ext = li; return; }
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), B, d, mkEdge, edges); return;
      default: break;
    }
    std::string str; raw_string_ostream os(str); I.print(os); die("unsupported instruction " + os.str());
  }
  template <class Cb> unsigned aggr(Type *t, uint64_t off, Cb cb, unsigned i = 0) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned k = 0; k < st->getNumElements(); k++) i = aggr(st->getElementType(k), off + sl->getElementOffset(k), cb, i); return i; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t k = 0; k < at->getNumElements(); k++) i = aggr(at->getElementType(), off + k * es, cb, i); return i; }
    cb(t, off, i); return i + 1;
  }
  unsigned aggOff(Type *t, ArrayRef<unsigned> idx) { unsigned o = 0; for (unsigned k : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) o += nleaves(st->getElementType(i)); t = st->getElementType(k); } else { t = t->getArrayElementType(); o += k * nleaves(t); } } return o; }
  template <class ME> void call(CallBase &C, BasicBlock &B, int32_t d, ME mkEdge, std::vector<Edge *> &edges) {
    auto *ci = new CallInfo; const Value *cv = C.getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
    int sub = 0; unsigned w = 0, w2 = 0;
    if (auto *F = const_cast<Function *>(dyn_cast<Function>(cv))) {
      std::string n = F->getName().str(); ci->name = n; auto pre = [&](const char *p) { return n.rfind(p, 0) == 0; };
      if (F->isDeclaration() || builtins.count(n)) {
        auto it = builtins.find(n);
        if (it != builtins.end()) ci->builtin = it->second;
        else if (pre("llvm.memcpy") || pre("llvm.memmove")) ci->builtin = B_MEMCPY; else if (pre("llvm.memset")) ci->builtin = B_MEMSET;
        else if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.experimental.noalias") || pre("llvm.donothing") || pre("llvm.invariant") || pre("llvm.var.annotation") || pre("llvm.prefetch")) { delete ci; return; }
        else if (pre("llvm.assume")) { delete ci; return; }
        else if (pre("llvm.stacksave") || pre("llvm.stackrestore")) ci->builtin = B_STACKSAVE;
        else if (pre("llvm.expect")) ci->builtin = B_EXPECT; else if (pre("llvm.launder") || pre("llvm.strip")) ci->builtin = B_EXPECT;
        else if (pre("llvm.uadd.with")) { ci->builtin = B_OVF; sub = 0; } else if (pre("llvm.sadd.with")) { ci->builtin = B_OVF; sub = 1; } else if (pre("llvm.usub.with")) { ci->builtin = B_OVF; sub = 2; } else if (pre("llvm.ssub.with")) { ci->builtin = B_OVF; sub = 3; } else if (pre("llvm.umul.with")) { ci->builtin = B_OVF; sub = 4; } else if (pre("llvm.smul.with")) { ci->builtin = B_OVF; sub = 5; }
        else if (pre("llvm.umin.")) { ci->builtin = B_MINMAX; sub = 0; } else if (pre("llvm.umax.")) { ci->builtin = B_MINMAX; sub = 1; } else if (pre("llvm.smin.")) { ci->builtin = B_MINMAX; sub = 2; } else if (pre("llvm.smax.")) { ci->builtin = B_MINMAX; sub = 3; }
        else if (pre("llvm.threadlocal.address")) ci->builtin = B_EXPECT; else if (pre("llvm.eh.typeid.for")) ci->builtin = B_TYPEID; else if (pre("llvm.trap") ) ci->builtin = B_UBTRAP; else if (pre("llvm.ubsantrap")) ci->builtin = B_UBTRAP;
        else if (pre("llvm.ctpop.")) ci->builtin = B_CTPOP; else if (pre("llvm.ctlz.")) ci->builtin = B_CTLZ; else if (pre("llvm.cttz.")) ci->builtin = B_CTTZ; else if (pre("llvm.bswap.")) ci->builtin = B_BSWAP; else if (pre("llvm.abs.")) ci->builtin = B_ABS;
        else if (pre("llvm.fshl.")) { ci->builtin = B_FSHL; sub = 0; } else if (pre("llvm.fshr.")) { ci->builtin = B_FSHL; sub = 1; } else if (pre("llvm.fabs.")) ci->builtin = B_FABS; else if (pre("llvm.fmuladd.")) ci->builtin = B_FMULADD; else if (pre("llvm.copysign.")) ci->builtin = B_COPYSIGN;
        else if (pre("llvm.usub.sat.")) { ci->builtin = B_SATADD; sub = 1; } else if (pre("llvm.uadd.sat.")) { ci->builtin = B_SATADD; sub = 0; }
        else if (pre("llvm.objectsize")) ci->builtin = B_OBJSIZE; else if (pre("llvm.is.constant")) ci->builtin = B_CONSTP;
        else { ci->builtin = 1000; }
      } else ci->fn = getFn(F);
    } else ci->fp = op(C.getCalledOperand());
    for (unsigned i = 0; i < C.arg_size(); i++) {
      Value *a = C.getArgOperand(i); Type *t = a->getType(); if (t->isMetadataTy()) continue;
      bool bv = C.isByValArgument(i); std::vector<Type *> l; leaves(t, l);
      for (unsigned k = 0; k < l.size(); k++) { ci->args.push_back(op(a, k)); ci->byval.push_back(bv ? DL->getTypeAllocSize(C.getParamByValType(i)) : 0); ci->argw.push_back(width(l[k]) > 255 ? 255 : width(l[k])); }
    }
    ci->nret = nleaves(C.getType());
    if (C.arg_size()) { std::vector<Type *> l; leaves(C.getArgOperand(0)->getType(), l); if (l.size() == 1 && (l[0]->isIntegerTy() || l[0]->isPointerTy() || l[0]->isFloatTy() || l[0]->isDoubleTy())) w = width(l[0]); }
    if (!C.getType()->isVoidTy() && !C.getType()->isAggregateType()) w2 = width(C.getType());
    if (auto *iv = dyn_cast<InvokeInst>(&C)) { ci->invoke = true; edge(ci->normal, &B, iv->getNormalDest()); edge(ci->unwind, &B, iv->getUnwindDest()); edges.push_back(&ci->normal); edges.push_back(&ci->unwind); }
    auto &x = emit(ci->builtin >= 0 ? O_BUILTIN : O_CALL, C); x.dst = d; x.ext = ci; x.sub = sub; x.w = w; x.w2 = w2; 
  }
};
static inline void ensure(Fn *f) { if (!f->lowered) { if (f->F->isDeclaration()) die("call to external function " + f->name); Lower l; l.fn = f; l.run(); } }

// ---------------------------------------------------------------- interpreter
static inline Frame *wTop(State *s) { Frame *&f = s->st.back(); if (f->ref > 1) { Frame *n = newFrame(f->fn); n->pc = f->pc; if (f->allocas) n->allocas = new std::vector<uint32_t>(*f->allocas); memcpy(n->regs, f->regs, sizeof(Val) * f->fn->nregs); f->ref--; f = n; } return f; }
static void popFrame(State *s) { Frame *f = s->st.back(); if (f->allocas) for (uint32_t id : *f->allocas) killObj(s, id, &g_deadStack); s->st.pop_back(); decFrame(f); }
static void takeEdge(State *s, const Edge &e) {
  Frame *f = wTop(s); Fn *fn = f->fn; size_t n = e.moves.size();
  auto rd = [&](int32_t i) -> const Val & { return i >= 0 ? f->regs[i] : fn->consts[-i - 1]; };
  if (n == 1) f->regs[e.moves[0].first] = rd(e.moves[0].second);
  else if (n) { Val tmp[512]; if (n > 512) die("too many phis"); for (size_t i = 0; i < n; i++) tmp[i] = rd(e.moves[i].second); for (size_t i = 0; i < n; i++) f->regs[e.moves[i].first] = tmp[i]; }
  f->pc = e.pc; fn->blockHit[e.block] = 1;
}
static std::unordered_map<uint64_t, int> typeIds;
static int typeId(uint64_t a) { auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[a] = n; }
static std::unordered_map<uint64_t, std::string> nameOfAddr; static uint64_t siVt = 0, vmiVt = 0;
static bool derives(State *s, uint64_t t, uint64_t base) {
  if (t == base) return true;
  static const std::map<std::string, std::string> ext = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  Obj *o = getObj(s, t >> 32); if (!o) return false;
  if (o->kind == K_EXTERN) { auto n = nameOfAddr[t]; auto it = ext.find(n); if (it == ext.end()) return false; auto g = globalAddr.find(it->second); return g != globalAddr.end() && derives(s, g->second, base); }
  uint64_t vt = load(s, t, 8, 64).c; if (siVt && vt == siVt + 16) return derives(s, load(s, t + 16, 8, 64).c, base);
  if (vmiVt && vt == vmiVt + 16) { uint64_t n = load(s, t + 20, 4, 32).c; for (uint64_t i = 0; i < n; i++) { uint64_t bt = load(s, t + 24 + 16 * i, 8, 64).c, fl = load(s, t + 32 + 16 * i, 8, 64).c; if ((fl >> 8) == 0 && !(fl & 1) && (fl & 2) && derives(s, bt, base)) return true; } return false; }
  return false;
}
static void unwind(State *s, uint64_t exc, uint64_t ti) {
  // current frame is discarded first by the caller
  while (true) {
    if (s->st.empty()) violate(s, "exception", "uncaught exception " + nameOfAddr[ti]);
    Frame *f = s->st.back(); const Ins &in = f->fn->code[f->pc];
    if (in.op == O_CALL || in.op == O_BUILTIN) { auto *ci = (CallInfo *)in.ext;
      if (ci->invoke) { uint32_t lp = ci->unwind.pc; const Ins &L = f->fn->code[lp]; if (L.op != O_LPAD) die("no landing pad"); auto *li = (LpadInfo *)L.ext; int sel = -1;
        for (uint64_t c : li->catches) if (c == 0 || derives(s, ti, c)) { sel = c == 0 ? typeId(0) : typeId(c); break; }
        if (sel < 0 && li->cleanup) sel = 0; if (li->filter) die("exception filter");
        if (sel >= 0) { takeEdge(s, ci->unwind); Frame *g = wTop(s); g->regs[L.dst] = Val{exc, nullptr}; g->regs[L.dst + 1] = Val{(uint64_t)sel, nullptr}; g->pc = lp + 1; return; } } }
    popFrame(s);
  }
}
static uint64_t g_curTi(State *s) { return 0; }
static const char *excName = "sx_cur_exception";

static std::vector<std::pair<uint32_t, Obj *>> initialStatics;
static uint32_t baseHeap = 0;   // blocks owned by objects with static storage
static void endPath(State *s) {
  if (!s->noleak && s->liveHeap > baseHeap) { std::string w; for (uint32_t i = 1; i < s->nobj; i++) { Obj *o = getObj(s, i); if (o && o->kind >= K_MALLOC && o->kind <= K_NEWA && !o->shared) { w = "heap block of " + std::to_string(o->size) + " bytes never freed (allocated at " + locs[o->loc].func + ")"; break; } } addViolation(s, "leak", w); }
  sh->paths++; sampleSeen++; uint64_t m = sh->maxSym; if (s->nsym > m) sh->maxSym = s->nsym;
  size_t slot = samples.size(); if (samples.size() < (size_t)optSamples) samples.emplace_back(); else { slot = rnd() % sampleSeen; if (slot >= samples.size()) return; }
  Sample &x = samples[slot]; x.model.assign(s->model, s->model + s->nsym); x.obs.clear(); for (auto &v : s->obs) x.obs.push_back(v.e ? (uint8_t)evalE(v.e, s->model) : (uint8_t)v.c); x.note = s->note; x.names = s->names;
}
static uint64_t allocLocStack(State *s) { for (int i = (int)s->st.size() - 1; i >= 0; i--) { Frame *f = s->st[i]; uint32_t l = f->fn->code[f->pc].loc; if (locs[l].file.find(optRepo) != std::string::npos) return l; } return s->st.empty() ? 0 : s->st.back()->fn->code[s->st.back()->pc].loc; }

// returns true if the builtin already changed control flow
static bool builtin(State *s, Frame *&f, const Ins &in) {
  auto *ci = (CallInfo *)in.ext; Fn *fn = f->fn;
  auto A = [&](unsigned i) -> const Val & { int32_t k = ci->args[i]; return k >= 0 ? f->regs[k] : fn->consts[-k - 1]; };
  auto ret = [&](Val v, int k = 0) { wTop(s)->regs[in.dst + k] = v; };
  auto CA = [&](unsigned i, const char *w) { return conc(s, A(i), w); };
  switch (ci->builtin) {
    case B_MEMCPY: { uint64_t d = CA(0, "an address"), a = CA(1, "an address"), n = CA(2, "a length"); s->bulk += n; memcopy(s, d, a, n); if (in.dst >= 0) ret(Val{d, nullptr}); break; }
    case B_MEMSET: { uint64_t d = CA(0, "an address"), n = CA(2, "a length"); s->bulk += n; if (n) { checkAccess(s, d, n, true, "write (memset)"); Obj *o = wObj(s, d >> 32); uint64_t off = (d & 0xffffffffu) - OFF0; Val v = A(1); Expr *b = v.e ? mkExtract(v.e, 0, 8) : nullptr; if (!b) { memset(o->data + off, (uint8_t)v.c, n); memset(o->tag + off, 0, n); } else for (uint64_t i = 0; i < n; i++) putByte(o, off + i, b); } if (in.dst >= 0) ret(Val{d, nullptr}); break; }
    case B_MEMCMP: case B_BCMP: { uint64_t p = CA(0, "an address"), q = CA(1, "an address"), n = CA(2, "a length"); s->bulk += n; if (!n) { ret(Val{0, nullptr}); break; }
      Obj *o1 = checkAccess(s, p, n, false, "read (memcmp)"), *o2 = checkAccess(s, q, n, false, "read (memcmp)"); uint64_t a = (p & 0xffffffffu) - OFF0, b = (q & 0xffffffffu) - OFF0;
      Expr *r = mkConst(32, 0); for (int64_t i = n - 1; i >= 0; i--) { Expr *x = byteE(o1, a + i), *y = byteE(o2, b + i); if (x == y && !x->undef) continue; Expr *ne = mkNot(mkBin(KEq, x, y)); r = mkIte(ne, ci->builtin == B_BCMP ? mkConst(32, 1) : mkIte(mkBin(KUlt, x, y), mkConst(32, ~0u), mkConst(32, 1)), r); }
      ret(fromE(r)); break; }
    case B_EXPECT: ret(A(0)); break;
    case B_OVF: { unsigned w = in.w; Val a = A(0), b = A(1); bool sg = in.sub & 1; int k = in.sub >> 1; unsigned ww = k == 2 ? 2 * w : w + 1; Expr *x = toE(a, w), *y = toE(b, w);
      if (ww > 128) ww = 128;
      if (isC(x) && isC(y) && w <= 64) { i128 p = sg ? sx128(cval(x), w) : (i128)cval(x), q = sg ? sx128(cval(y), w) : (i128)cval(y); i128 r = k == 0 ? p + q : k == 1 ? p - q : p * q; u128 t = (u128)r & maskw128(w); bool ov = sg ? sx128(t, w) != r : (k == 2 ? ((u128)p * (u128)q) >> w != 0 : (r < 0 || (i128)t != r)); ret(Val{(uint64_t)t, nullptr}, 0); ret(Val{ov, nullptr}, 1); break; }
      Expr *xe = sg ? mkSExt(x, ww) : mkZExt(x, ww), *ye = sg ? mkSExt(y, ww) : mkZExt(y, ww); EK op = k == 0 ? KAdd : k == 1 ? KSub : KMul; Expr *lo = mkBin(op, x, y), *full = mkBin(op, xe, ye); Expr *ov = mkNot(mkBin(KEq, full, sg ? mkSExt(lo, ww) : mkZExt(lo, ww)));
      if (!sg && k == 0) ov = mkBin(KUlt, lo, x); if (!sg && k == 1) ov = mkBin(KUlt, x, y);
      ret(fromE(lo), 0); ret(fromE(ov), 1); break; }
    case B_MINMAX: { unsigned w = in.w; Val a = A(0), b = A(1); if (!a.e && !b.e) { bool lt = in.sub < 2 ? a.c < b.c : sx64(a.c, w) < sx64(b.c, w); ret((in.sub & 1) ? (lt ? b : a) : (lt ? a : b)); break; } Expr *x = toE(a, w), *y = toE(b, w), *lt = mkBin(in.sub < 2 ? KUlt : KSlt, x, y); ret(fromE((in.sub & 1) ? mkIte(lt, y, x) : mkIte(lt, x, y))); break; }
    case B_SATADD: { unsigned w = in.w; Expr *x = toE(A(0), w), *y = toE(A(1), w); if (in.sub) ret(fromE(mkIte(mkBin(KUlt, x, y), mkConst(w, 0), mkBin(KSub, x, y)))); else { Expr *t = mkBin(KAdd, x, y); ret(fromE(mkIte(mkBin(KUlt, t, x), mkConst(w, ~(u128)0), t))); } break; }
    case B_CTPOP: { uint64_t v = CA(0, "ctpop"); ret(Val{(uint64_t)__builtin_popcountll(v), nullptr}); break; }
    case B_CTLZ: { unsigned w = in.w; Val a = A(0); if (!a.e) { ret(Val{a.c ? (uint64_t)__builtin_clzll(a.c) - (64 - w) : w, nullptr}); break; } Expr *e = mkConst(w, w); for (unsigned i = 0; i < w; i++) e = mkIte(mkExtract(a.e, i, 1), mkConst(w, w - 1 - i), e); ret(fromE(e)); break; }
    case B_CTTZ: { unsigned w = in.w; Val a = A(0); if (!a.e) { ret(Val{a.c ? (uint64_t)__builtin_ctzll(a.c) : w, nullptr}); break; } Expr *e = mkConst(w, w); for (int i = w - 1; i >= 0; i--) e = mkIte(mkExtract(a.e, i, 1), mkConst(w, i), e); ret(fromE(e)); break; }
    case B_BSWAP: { unsigned w = in.w; Expr *x = toE(A(0), w), *r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); ret(fromE(r)); break; }
    case B_ABS: { unsigned w = in.w; Expr *x = toE(A(0), w); ret(fromE(mkIte(mkBin(KSlt, x, mkConst(w, 0)), mkBin(KSub, mkConst(w, 0), x), x))); break; }
    case B_FSHL: { unsigned w = in.w; Expr *x = toE(A(0), w), *y = toE(A(1), w); uint64_t k = CA(2, "shift") % w; Expr *cc = mkConcat(x, y); ret(fromE(in.sub == 0 ? mkExtract(cc, w - k, w) : mkExtract(cc, k, w))); break; }
    case B_FABS: ret(fromE(mkFp(FAbs, in.w2, toE(A(0), in.w2), nullptr))); break;
    case B_COPYSIGN: { unsigned w = in.w2; Expr *x = toE(A(0), w), *y = toE(A(1), w); ret(fromE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); break; }
    case B_FMULADD: ret(fromE(mkFp(FAdd, in.w2, mkFp(FMul, in.w2, toE(A(0), in.w2), toE(A(1), in.w2)), toE(A(2), in.w2)))); break;
    case B_OBJSIZE: ret(Val{~0ull, nullptr}); break;
    case B_CONSTP: ret(Val{0, nullptr}); break;
    case B_STACKSAVE: if (in.dst >= 0) ret(Val{0, nullptr}); break;
    case B_UBTRAP: violate(s, "ub", "undefined behaviour trap (" + std::to_string(ci->args.empty() ? 0 : A(0).c) + ")");
    case B_TYPEID: ret(Val{(uint64_t)typeId(CA(0, "typeid")), nullptr}); break;
    case B_TERMINATE: { std::string m = cstr(s, CA(0, "")); violate(s, "terminate", m); }
    case B_UNWIND: { uint64_t exc = CA(0, ""), ti = CA(1, ""); popFrame(s); unwind(s, exc, ti); f = s->st.back(); return true; }
    case B_SYMBOLIC: { uint64_t p = CA(0, ""), n = CA(1, ""); std::string nm = cstr(s, CA(2, "")); s->names.push_back({nm, s->nsym}); if (n) checkAccess(s, p, n, true, "sx_symbolic");
      for (uint64_t i = 0; i < n; i++) { if (s->nsym >= 128) die("too many symbolic bytes"); uint32_t k = s->nsym++; for (auto &w : s->dom[k].w) w = ~0ull; s->model[k] = 'a'; store(s, p + i, Val{0, mkSym(k)}, 1, 8); } break; }
    case B_CHOOSE: { // a symbolic choice below n, split at once
      uint64_t n = CA(0, ""); std::string nm = cstr(s, CA(1, "")); if (n < 1 || n > 256) die("sx_choose range");
      if (s->nsym >= 128) die("too many symbolic bytes"); uint32_t k = s->nsym; Mask m{{0, 0, 0, 0}}; for (uint64_t i = 0; i < n; i++) m.set(i);
      wTop(s)->pc++; // forks resume after this instruction
      for (uint64_t i = n; i-- > 0;) { State *t = i ? forkState(s) : s; Frame *tf = wTop(t); t->nsym = k + 1; t->names.push_back({nm, k}); t->dom[k] = Mask{{0, 0, 0, 0}}; t->dom[k].set(i); t->model[k] = i; tf->regs[in.dst] = Val{i, nullptr}; if (i) pushFork(t); }
      if (ci->invoke) die("sx_choose invoked"); f = s->st.back(); return true; }
    case B_SXASSUME: { Val c = A(0); if (c.e) { Expr *e = c.e; if (e->w != 1) e = mkNot(mkBin(KEq, e, mkConst(e->w, 0))); if (!decide(s, e)) { sh->assumedOut++; throw PathEnd(); } } else if (!c.c) { sh->assumedOut++; throw PathEnd(); } break; }
    case B_SXASSERT: { Val c = A(0); sh->asserts++; std::string m;
      if (!c.e) { if (!c.c) { m = cstr(s, CA(1, "")); violate(s, "assert", m + " (line " + std::to_string(CA(2, "")) + ")"); } }
      else { Expr *e = c.e; if (e->undef) e = checkUndef(s, e, "an assertion"); if (e->w != 1) e = mkNot(mkBin(KEq, e, mkConst(e->w, 0))); if (!isC(e) || !e->lo) { sh->assertsSolver++; uint8_t md[128]; memcpy(md, s->model, 128); int r = solve(s, {mkNot(e)}, md); if (r) { memcpy(s->model, md, 128); m = cstr(s, CA(1, "")); violate(s, r == 1 ? "assert" : "unknown", m + " (line " + std::to_string(CA(2, "")) + ")"); } } }
      break; }
    case B_REACH: sh->reach[CA(0, "") & 255]++; break;
    case B_OBSERVE: { uint64_t p = CA(0, ""), n = CA(1, ""); for (uint64_t i = 0; i < n; i++) { Val v = load(s, p + i, 1, 8); if (v.e && v.e->undef) v = fromE(checkUndef(s, v.e, "an observed result")); s->obs.push_back(v); } break; }
    case B_ALLOC: { uint64_t n = CA(0, "an allocation size"), k = CA(1, ""); bool mayFail = CA(2, ""); if (n > (1u << 24)) { if (mayFail) { ret(Val{0, nullptr}); break; } violate(s, "memory", "allocation of " + std::to_string(n) + " bytes"); }
      if (mayFail) { s->allocs++; if (s->failAt >= 0) { if (s->failAt == 0) { s->failAt = -1; ret(Val{0, nullptr}); break; } s->failAt--; } }
      Obj *o = newObj(n, K_MALLOC + k, true); o->loc = allocLocStack(s); uint32_t id = addObj(s, o); if (guarded(s)) o->shared = 1; else { s->liveHeap++; s->liveBytes += n; if (s->liveBytes > s->peakBytes) s->peakBytes = s->liveBytes; } ret(Val{addrOf(id), nullptr}); break; }
    case B_FREE: { uint64_t p = CA(0, "an address"), k = CA(1, ""); Obj *o = getObj(s, p >> 32); if (!o || (p & 0xffffffffu) != OFF0) violate(s, "memory", "free of a pointer that is not a heap block"); if (o->kind == K_DEADHEAP) violate(s, "memory", "double free"); if (o->kind != K_MALLOC + k) violate(s, "memory", "deallocation does not match allocation"); if (!o->shared) { s->liveHeap--; s->liveBytes -= o->size; } killObj(s, p >> 32, &g_deadHeap); break; }
    case B_HEAPSIZE: { uint64_t p = CA(0, "an address"); Obj *o = getObj(s, p >> 32); if (!o || (p & 0xffffffffu) != OFF0) violate(s, "memory", "realloc of a pointer that is not a heap block"); if (o->kind == K_DEADHEAP) violate(s, "memory", "realloc of a freed block"); if (o->kind != K_MALLOC) violate(s, "memory", "deallocation does not match allocation"); ret(Val{o->size, nullptr}); break; }
    case B_FAILAT: { Val a = A(0); s->failAt = (int32_t)conc(s, a, ""); break; }
    case B_WORK: ret(Val{s->steps + s->bulk, nullptr}); break;
    case B_PEAK: { uint64_t p = s->peakBytes; s->peakBytes = s->liveBytes; ret(Val{p, nullptr}); break; }
    case B_NALLOC: ret(Val{s->allocs, nullptr}); break;
    case B_NOTE: { std::string m = cstr(s, CA(0, "")); if (!s->note.empty()) s->note += "; "; s->note += m; break; }
    case B_NOLEAK: s->noleak = true; break;
    case B_RESET: for (auto &x : initialStatics) { Chunk *c = wChunk(s, x.first); decObj(c->o[x.first & 31]); x.second->ref++; c->o[x.first & 31] = x.second; } break;
    case B_STOP: while (s->st.size()) popFrame(s); s->noleak = true; return true;
    case B_PICK: { Val a = A(0); ret(Val{conc(s, a, "a choice"), nullptr}); break; }
    case B_ISSYM: ret(Val{A(0).e != nullptr && !isC(A(0).e), nullptr}); break;
    case B_STRTOD: { uint64_t p = CA(0, ""), n = CA(1, ""); int kind = CA(2, ""); std::string str; for (uint64_t i = 0; i < n; i++) { Val v = load(s, p + i, 1, 8); str += (char)conc(s, v, "strtod"); } ret(Val{kind ? (uint64_t)fBits(strtof(str.c_str(), nullptr)) : dBits(strtod(str.c_str(), nullptr)), nullptr}); break; }
    case B_PRINT: { if (optVerbose) fprintf(stderr, "print: %s %ld\n", cstr(s, CA(0, "")).c_str(), (long)CA(1, "")); break; }
    default: violate(s, "external", "call to external function " + ci->name);
  }
  if (ci->invoke) takeEdge(s, ci->normal); else wTop(s)->pc++;
  f = s->st.back(); return true;
}

static void runState(State *s) {
  Frame *f = s->st.back(); Fn *fn = f->fn;
  uint64_t budget = 0;
#define R(i) ((i) >= 0 ? f->regs[i] : fn->consts[-(i)-1])
#define WT() do { if (f->ref > 1) f = wTop(s); } while (0)
#define SET(v) do { Val _v = (v); WT(); f->regs[in.dst] = _v; f->pc++; } while (0)
  while (true) {
    const Ins &in = fn->code[f->pc];
    if (((++s->steps) & 0xfff) == 0) { sh->steps += 4096; if (s->steps > optSteps) violate(s, "hang", "path exceeded the step bound"); if (sh->stop) throw PathEnd(); if (now() - tStart > optTime) { sh->timeouts++; sh->stop = 2; throw PathEnd(); } }
    (void)budget;
    switch (in.op) {
#define BIN(OP, EXPR, KK) case OP: { const Val &a = R(in.a), &b = R(in.b); if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; (void)x; (void)y; uint64_t r = (EXPR) & maskw(in.w); SET((Val{r, nullptr})); } else { Val v = fromE(mkBin(KK, toR(s, a, in.w), toR(s, b, in.w))); SET(v); } break; }
      BIN(O_ADD, x + y, KAdd) BIN(O_SUB, x - y, KSub) BIN(O_MUL, x * y, KMul) BIN(O_AND, x & y, KAnd) BIN(O_OR, x | y, KOr) BIN(O_XOR, x ^ y, KXor)
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val a = R(in.a), b = R(in.b); Expr *y = toE(b, in.w); if (y->undef) y = checkUndef(s, y, "a division"); if (decide(s, mkBin(KEq, y, mkConst(in.w, 0)))) violate(s, "ub", "division by zero"); f = s->st.back(); EK k = in.op == O_UDIV ? KUDiv : in.op == O_SDIV ? KSDiv : in.op == O_UREM ? KURem : KSRem; Val v = fromE(mkBin(k, toE(a, in.w), y)); SET(v); break; }
      case O_SHL: case O_LSHR: case O_ASHR: { Val a = R(in.a), b = R(in.b); unsigned w = in.w; if (!a.e && !b.e && b.c < w && w <= 64) { uint64_t r = in.op == O_SHL ? a.c << b.c : in.op == O_LSHR ? a.c >> b.c : (uint64_t)(sx64(a.c, w) >> b.c); SET((Val{r & maskw(w), nullptr})); break; } Val v = fromE(mkBin(in.op == O_SHL ? KShl : in.op == O_LSHR ? KLShr : KAShr, toR(s, a, w), toR(s, b, w))); SET(v); break; }
      case O_ICMP: { const Val &a = R(in.a), &b = R(in.b); unsigned w = in.w;
        if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t p = sx64(x, w), q = sx64(y, w); bool r = false;
          switch (in.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; }
          SET((Val{r, nullptr})); break; }
        Expr *x = toR(s, a, w), *y = toR(s, b, w), *r = nullptr;
        switch (in.sub) { case CmpInst::ICMP_EQ: r = mkBin(KEq, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(KEq, x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(KUlt, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(KUle, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(KUlt, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(KUle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(KSlt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(KSle, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(KSlt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(KSle, y, x); break; }
        Val v = fromE(r); SET(v); break; }
      case O_SELECT: { Val c = R(in.a); if (!c.e) { SET((c.c & 1) ? R(in.b) : R(in.c)); break; }
        Val t = R(in.b), e = R(in.c);
        if (t.c == e.c && t.e == e.e) { SET(t); break; }
        if (in.w == 64 && !t.e && !e.e) { bool b = decide(s, c.e); f = s->st.back(); SET(b ? t : e); break; }
        if (in.sub) { bool b = decide(s, c.e); f = s->st.back(); SET(b ? t : e); break; }
        Val v = fromE(mkIte(c.e, toE(t, in.w), toE(e, in.w))); SET(v); break; }
      case O_TRUNC: { const Val &a = R(in.a); if (!a.e) { SET((Val{a.c & maskw(in.w), nullptr})); } else { Val v = fromE(mkExtract(a.e, 0, in.w)); SET(v); } break; }
      case O_ZEXT: { const Val &a = R(in.a); if (!a.e && in.w <= 64) { SET(a); } else { Val v = fromE(mkZExt(toR(s, a, in.w2), in.w)); SET(v); } break; }
      case O_SEXT: { const Val &a = R(in.a); if (!a.e && in.w <= 64) { SET((Val{(uint64_t)sx64(a.c, in.w2) & maskw(in.w), nullptr})); } else { Val v = fromE(mkSExt(toE(a, in.w2), in.w)); SET(v); } break; }
      case O_MOV: SET(R(in.a)); break;
      case O_FREEZE: { Val a = R(in.a); if (a.e && a.e->undef) { std::unordered_map<Expr *, Expr *> memo; a = fromE(dropUndef(a.e, memo)); } SET(a); break; }
      case O_FP: { Val a = R(in.a); bool un = in.b == INT32_MIN; Val b = un ? Val{0, nullptr} : R(in.b); 
        if (!a.e && !b.e && in.w2 <= 64) { SET((Val{fpEval(in.sub, in.w, in.w2, a.c, b.c), nullptr})); break; }
        Val v = fromE(mkFp((FpOp)in.sub, in.w, toE(a, in.w2), un ? nullptr : toE(b, in.w2))); SET(v); break; }
      case O_LOAD: { Val a = R(in.a); uint64_t ad;
        if (a.e) {
          Expr *e = a.e; if (e->undef) { e = checkUndef(s, e, "an address"); f = s->st.back(); }
          if (!isC(e) && e->sym >= 0 && e->k == KLut && in.w <= 64) { // table indexed by one symbolic byte
            unsigned sy = e->sym; Obj *o = nullptr; bool ok = true; uint64_t tab[256]; memset(tab, 0, sizeof tab); uint64_t fill = 0; bool hf = false;
            for (int v = 0; v < 256 && ok; v++) if (s->dom[sy].get(v)) { uint64_t p = e->tab[v] + in.w2; Obj *q = getObj(s, p >> 32); int64_t off = (int64_t)(p & 0xffffffffu) - (int64_t)OFF0; if (!q || (o && q != o) || q->kind >= K_DEADSTACK || off < 0 || off + in.imm > q->size) { ok = false; break; } o = q; Val x = loadObj(q, off, in.imm, in.w); if (x.e) { ok = false; break; } tab[v] = x.c; if (!hf) { fill = x.c; hf = true; } }
            if (ok) { for (int v = 0; v < 256; v++) if (!s->dom[sy].get(v)) tab[v] = fill; Val v = fromE(mkLut(sy, in.w, tab)); SET(v); break; }
          }
          ad = concretize(s, e, "an address"); f = s->st.back();
        } else ad = a.c;
        Val v = load(s, ad + in.w2, in.imm, in.w); SET(v); break; }
      case O_STORE: { uint64_t ad; { Val a = R(in.a); ad = conc(s, a, "an address"); f = s->st.back(); } store(s, ad + in.w2, R(in.b), in.imm, in.w); WT(); f->pc++; break; }
      case O_GEPK: { const Val &a = R(in.a); if (!a.e) { SET((Val{a.c + in.imm, nullptr})); } else { Val v = fromE(mkBin(KAdd, toR(s, a, 64), mkConst(64, in.imm))); SET(v); } break; }
      case O_GEPI: { const Val &a = R(in.a), &b = R(in.b); if (!a.e && !b.e) { SET((Val{a.c + (uint64_t)sx64(b.c, in.w) * in.imm, nullptr})); } else { Val v = fromE(mkBin(KAdd, toR(s, a, 64), mkBin(KMul, mkSExt(toR(s, b, in.w), 64), mkConst(64, in.imm)))); SET(v); } break; }
      case O_BR: takeEdge(s, *(Edge *)in.ext); f = s->st.back(); break;
      case O_CBR: { Val c = R(in.a); bool b = c.e ? decide(s, c.e) : (c.c & 1); takeEdge(s, *((Edge **)in.ext)[b ? 0 : 1]); f = s->st.back(); break; }
      case O_SWITCH: { auto *si = (SwitchInfo *)in.ext; Val c = R(in.a); int k = 0;
        if (!c.e) { for (auto &p : si->cases) if (p.first == c.c) { k = p.second; break; } }
        else { for (size_t d = 1; d < si->edges.size(); d++) { Expr *o = mkBool(false); for (auto &p : si->cases) if (p.second == (int)d) o = mkBin(KOr, o, mkBin(KEq, c.e, mkConst(in.w, p.first))); if (decide(s, o)) { k = d; break; } } }
        takeEdge(s, si->edges[k]); f = s->st.back(); break; }
      case O_RET: { auto *rv = (std::vector<int32_t> *)in.ext; Val tmp[32]; size_t n = rv->size(); for (size_t i = 0; i < n; i++) tmp[i] = R((*rv)[i]); popFrame(s); if (s->st.empty()) { return; }
        f = wTop(s); fn = f->fn; const Ins &ci = fn->code[f->pc]; for (size_t i = 0; i < n && ci.dst >= 0; i++) f->regs[ci.dst + i] = tmp[i]; auto *c = (CallInfo *)ci.ext; if (c->invoke) { takeEdge(s, c->normal); f = s->st.back(); } else f->pc++; break; }
      case O_CALL: { auto *ci = (CallInfo *)in.ext; Fn *callee = ci->fn; if (!callee) { Val p = R(ci->fp); uint64_t a = conc(s, p, "a function pointer"); f = s->st.back(); uint64_t id = a >> 32; if (id < FNBASE || id - FNBASE >= fns.size()) violate(s, "memory", "call through an invalid function pointer"); callee = fns[id - FNBASE]; }
        if (!callee->lowered && callee->F->isDeclaration()) violate(s, "external", "call to external function " + callee->name);
        ensure(callee); if (s->st.size() > 200) violate(s, "hang", "call depth exceeded");
        Frame *nf = newFrame(callee); if (ci->args.size() < callee->nargs) die("argument mismatch calling " + callee->name);
        for (size_t i = 0; i < ci->args.size() && i < callee->nargs; i++) { Val v = R(ci->args[i]); if (ci->byval[i]) { Obj *o = newObj(ci->byval[i], K_STACK, true); uint32_t id = addObj(s, o); if (!nf->allocas) nf->allocas = new std::vector<uint32_t>; nf->allocas->push_back(id); memcopy(s, addrOf(id), v.c, ci->byval[i]); v = Val{addrOf(id), nullptr}; } nf->regs[i] = v; }
        for (uint32_t i = callee->nargs; i < callee->nregs; i++) nf->regs[i] = Val{0, nullptr};
        s->st.push_back(nf); f = nf; fn = callee; callee->blockHit[0] = 1; break; }
      case O_BUILTIN: builtin(s, f, in); if (s->st.empty()) return; f = s->st.back(); fn = f->fn; break;
      case O_ALLOCA: { WT(); Obj *o = newObj(in.imm, K_STACK, true); uint32_t id = addObj(s, o); if (!f->allocas) f->allocas = new std::vector<uint32_t>; f->allocas->push_back(id); SET((Val{addrOf(id), nullptr})); break; }
      case O_RESUME: { uint64_t exc = R(in.a).c; auto g = globalAddr.find("sx_resume_type"); (void)g; popFrame(s); uint64_t ti = load(s, exc - 32, 8, 64).c; unwind(s, exc, ti); f = s->st.back(); fn = f->fn; break; }
      case O_UNREACH: violate(s, "ub", "unreachable code reached");
      default: die("bad op");
    }
  }
}

// ---------------------------------------------------------------- output
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jhex(const std::vector<uint8_t> &v) { std::string r = "\""; char b[4]; for (uint8_t c : v) { snprintf(b, 4, "%02x", c); r += b; } return r + "\""; }
static std::string jnames(const std::vector<std::pair<std::string, uint32_t>> &n) { std::string r = "["; for (size_t i = 0; i < n.size(); i++) { if (i) r += ","; r += "[" + jstr(n[i].first) + "," + std::to_string(n[i].second) + "]"; } return r + "]"; }
static void writeWorker(const std::string &path) {
  FILE *o = fopen(path.c_str(), "w"); if (!o) die("cannot write " + path);
  fprintf(o, "{\"violations\":["); for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"note\":%s,\"model\":%s,\"names\":%s}", i ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.where).c_str(), jstr(v.note).c_str(), jhex(v.model).c_str(), jnames(v.names).c_str()); }
  fprintf(o, "],\n\"samples\":["); for (size_t i = 0; i < samples.size(); i++) { auto &v = samples[i]; fprintf(o, "%s{\"note\":%s,\"model\":%s,\"obs\":%s,\"names\":%s}", i ? "," : "", jstr(v.note).c_str(), jhex(v.model).c_str(), jhex(v.obs).c_str(), jnames(v.names).c_str()); }
  std::map<std::string, std::set<uint32_t>> cov; for (auto *f : fns) if (f->lowered) for (size_t b = 0; b < f->blockHit.size(); b++) if (f->blockHit[b]) for (uint32_t i = f->blockPc[b]; i < f->blockEnd[b]; i++) { const Loc &l = locs[f->code[i].loc]; if (l.file.find(optRepo) == 0) cov[l.file + "|" + l.func].insert(l.line); }
  fprintf(o, "],\n\"coverage\":{"); bool first = true; for (auto &c : cov) { fprintf(o, "%s%s:[", first ? "" : ",", jstr(c.first).c_str()); first = false; bool f2 = true; for (auto l : c.second) { fprintf(o, "%s%u", f2 ? "" : ",", l); f2 = false; } fprintf(o, "]"); }
  fprintf(o, "}}\n"); fclose(o);
}
static void explore(std::vector<State *> &wl, bool bfs, size_t limit) {
  size_t head = 0;
  while (head < wl.size()) {
    if (sh->stop) break;
    if (bfs && wl.size() - head >= limit) break;
    State *s; if (bfs) s = wl[head++]; else { s = wl.back(); wl.pop_back(); }
    work.clear(); uint64_t st0 = s->steps & ~0xfffull;
    (void)st0;
    try { runState(s); endPath(s); } catch (PathEnd &) {}
    sh->steps += s->steps & 0xfff; sh->termStates++; freeState(s);
    for (auto *n : work) { wl.push_back(n); } work.clear();
  }
  if (bfs) wl.erase(wl.begin(), wl.begin() + head);
}

int main(int argc, char **argv) {
  std::vector<std::string> files;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") optOut = nx(); else if (a == "-j") optJobs = std::stoi(nx()); else if (a == "-t") optTime = std::stod(nx()); else if (a == "--steps") optSteps = std::stoull(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--seed") optSeed = std::stoull(nx()); else if (a == "-v") optVerbose = true; else if (a == "--all") optAll = true; else if (a == "--shared") optShared = true; else if (a == "--slow") optSlow = std::stod(nx()); else if (a == "--repo") optRepo = nx(); else files.push_back(a); }
  if (files.empty() || optOut.empty()) die("usage: ssx -o OUTDIR file.bc...");
  rng = optSeed * 0x9E3779B97F4A7C15ull + 1; tStart = now();
  LLVMContext ctx; SMDiagnostic err; std::set<std::string> statics, allStatics;
  for (auto &f : files) { auto m = parseIRFile(f, err, ctx); if (!m) die("cannot read " + f + ": " + err.getMessage().str()); if (!M) { M = std::move(m); for (auto &g : M->globals()) if (!g.isDeclaration() && !g.isConstant()) allStatics.insert(g.getName().str()); for (auto &g : M->globals()) if (!g.isDeclaration() && !g.isConstant() && !g.isThreadLocal() && !g.getName().starts_with("_ZGV")) statics.insert(g.getName().str()); } else if (Linker::linkModules(*M, std::move(m))) die("link error " + f); }
  DL = &M->getDataLayout();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  initZ3();
  State *s = initial = new State; { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; s->ch.push_back(c); }
  for (auto &g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; bool ext = g.isDeclaration(); Obj *o = newObj(sz, ext ? K_EXTERN : g.isConstant() ? K_GCONST : K_GLOBAL, false); uint32_t id = addObj(s, o); gvAddr[&g] = addrOf(id); globalAddr[g.getName().str()] = addrOf(id); nameOfAddr[addrOf(id)] = g.getName().str(); if (g.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVt = addrOf(id); if (g.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVt = addrOf(id); }
  for (auto &n : statics) if (auto *g = M->getNamedGlobal(n)) getObj(s, gvAddr[g] >> 32)->shared = 1;
  if (globalAddr.count("sx_guards")) guardsAddr = globalAddr["sx_guards"];
  for (auto &g : M->globals()) if (g.hasInitializer()) initMem(getObj(s, gvAddr[&g] >> 32), 0, g.getInitializer());
  Function *mf = M->getFunction("sx_main"); if (!mf || mf->isDeclaration()) die("no sx_main"); if (auto *e = M->getFunction("sx_entry")) mf = e;
  std::vector<Function *> order;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer() && isa<ConstantArray>(gc->getInitializer())) for (auto &op : cast<ConstantArray>(gc->getInitializer())->operands()) { auto *f = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u)->stripPointerCasts()); if (f) order.push_back(f); }
  for (auto *cf : order) { Fn *fc = getFn(cf); ensure(fc); fc->blockHit[0] = 1; Frame *fr = newFrame(fc); for (uint32_t i = 0; i < fc->nregs; i++) fr->regs[i] = Val{0, nullptr}; s->st.push_back(fr);
    try { runState(s); } catch (PathEnd &) { die("static constructor " + cf->getName().str() + " failed"); } }
  for (auto &n : allStatics) if (auto *g = M->getNamedGlobal(n)) { uint32_t id = gvAddr[g] >> 32; Obj *o = getObj(s, id); o->ref++; initialStatics.push_back({id, o}); }
  started = true; baseHeap = s->liveHeap; s->steps = 0; s->allocs = 0;
  Fn *fm = getFn(mf); ensure(fm); fm->blockHit[0] = 1; Frame *fr = newFrame(fm); for (uint32_t i = 0; i < fm->nregs; i++) fr->regs[i] = Val{0, nullptr}; s->st.push_back(fr); sh->createdStates++;
  double tLoad = now() - tStart;
  std::vector<State *> wl{s}; explore(wl, true, optJobs > 1 ? 128 * optJobs : SIZE_MAX);
  double tPrefix = now() - tStart;
  writeWorker(optOut + "/w0.json");
  int nw = 1;
  if (!wl.empty() && !sh->stop) {
    size_t N = wl.size(); std::vector<pid_t> pids; sh->next = 0;
    for (int j = 0; j < optJobs; j++) { pid_t p = fork(); if (p < 0) die("fork"); if (p == 0) {
        viols.clear(); samples.clear(); sampleSeen = 0; rng += 77 * (j + 1); for (auto *f : fns) std::fill(f->blockHit.begin(), f->blockHit.end(), 0);
        while (!sh->stop) { uint64_t i = sh->next++; if (i >= N) break; std::vector<State *> w{wl[i]}; explore(w, false, 0); }
        writeWorker(optOut + "/w" + std::to_string(j + 1) + ".json"); _exit(0); }
      pids.push_back(p); }
    for (auto p : pids) { int stt; if (waitpid(p, &stt, 0) < 0 || !WIFEXITED(stt) || WEXITSTATUS(stt)) { sh->stop = 3; nw = -1; } }
    if (nw < 0) { fprintf(stderr, "ssx: a worker failed\n"); return 3; } nw = optJobs + 1;
  }
  struct rusage ru; getrusage(RUSAGE_CHILDREN, &ru);
  FILE *o = fopen((optOut + "/summary.json").c_str(), "w");
  fprintf(o, "{\"workers\":%d,\"paths\":%lu,\"states_created\":%lu,\"states_finished\":%lu,\"instructions\":%lu,\"forks\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"query_cache_hits\":%lu,\"domain_decisions\":%lu,\"domain_certificates\":%lu,\"assertions_reached\":%lu,\"assertions_by_solver\":%lu,\"uninit_queries\":%lu,\"concretisations\":%lu,\"assumed_out\":%lu,\"timeouts\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"prefix_s\":%.3f,\"max_symbolic_bytes\":%lu,\"stop\":%lu,\"max_rss_mb\":%ld,\"reach\":{",
    nw, sh->paths.load(), sh->createdStates.load(), sh->termStates.load(), sh->steps.load(), sh->forks.load(), sh->queries.load(), sh->qsat.load(), sh->qunsat.load(), sh->qunknown.load(), sh->cacheHits.load(), sh->domDecisions.load(), sh->certs.load(), sh->asserts.load(), sh->assertsSolver.load(), sh->undefq.load(), sh->concretised.load(), sh->assumedOut.load(), sh->timeouts.load(), sh->usolver.load() / 1e6, now() - tStart, tLoad, tPrefix, sh->maxSym.load(), sh->stop.load(), ru.ru_maxrss / 1024);
  bool first = true; for (int i = 0; i < 256; i++) if (sh->reach[i]) { fprintf(o, "%s\"%d\":%u", first ? "" : ",", i, sh->reach[i].load()); first = false; }
  fprintf(o, "}}\n"); fclose(o);
  _exit(0);
}
