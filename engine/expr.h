// Symbolic expressions: hash-consed bit-vector DAG over symbolic input bytes.
// Every expression that depends on exactly one symbolic byte is kept in canonical form as a 256-entry
// table (KLut) or, if boolean, as a 256-bit set (KSet); everything else is a DAG node translated to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum EK : uint8_t {
  KConst, KSym, KUndef, KLut, KSet,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KSlt, KUle, KSle, KConcat, KExtract, KZExt, KSExt, KIte, KFp
};
enum FpOp : uint8_t {
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FOeq, FOgt, FOge, FOlt, FOle, FOne, FOrd,
  FUno, FUeq, FUgt, FUge, FUlt, FUle, FUne, FSiToFp, FUiToFp, FToSi, FToUi, FExt, FTrunc
};

struct Expr {
  EK k; bool undef; uint16_t w; uint32_t id;
  int16_t sym;              // single support: its index, -1: none, -2: several
  uint64_t s0, s1;          // support bitmap over 128 symbolic bytes
  Expr *a, *b, *c;
  uint64_t lo, hi;          // constant / extract offset / fp opcode / undef id
  uint64_t *tab;            // KLut: 256 values; KSet: 4 words
  Z3_ast z;
  uint32_t ep; u128 ev;     // evaluation memo
};

struct Mask { uint64_t w[4]; 
  bool get(unsigned v) const { return (w[v >> 6] >> (v & 63)) & 1; }
  void set(unsigned v) { w[v >> 6] |= 1ull << (v & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  bool operator==(const Mask &o) const { return !memcmp(w, o.w, 32); }
};
static inline Mask operator&(Mask a, const Mask &b) { for (int i = 0; i < 4; i++) a.w[i] &= b.w[i]; return a; }
static inline Mask operator~(Mask a) { for (int i = 0; i < 4; i++) a.w[i] = ~a.w[i]; return a; }

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
static inline i128 sx128(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }

struct Key { uint64_t h1; Expr *a, *b, *c; uint64_t lo, hi;
  bool operator==(const Key &o) const { return h1 == o.h1 && a == o.a && b == o.b && c == o.c && lo == o.lo && hi == o.hi; } };
struct KeyH { size_t operator()(const Key &k) const {
  uint64_t h = k.h1 * 0x9E3779B97F4A7C15ull;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0); mix(k.lo); mix(k.hi); return h; } };

static std::unordered_map<Key, Expr *, KeyH> g_cons;
static std::unordered_multimap<uint64_t, Expr *> g_luts;
static uint32_t g_eid = 0, g_epoch = 0;
static Z3_context Z;

static Expr *newExpr(EK k, unsigned w) {
  Expr *e = (Expr *)calloc(1, sizeof(Expr)); e->k = k; e->w = w; e->id = g_eid++; e->sym = -1; return e;
}
static inline bool isC(Expr *e) { return e->k == KConst; }
static inline u128 cval(Expr *e) { return ((u128)e->hi << 64) | e->lo; }

static Expr *mkConst(unsigned w, u128 v) {
  v &= maskw128(w);
  Key k{(uint64_t)KConst << 32 | w, nullptr, nullptr, nullptr, (uint64_t)v, (uint64_t)(v >> 64)};
  auto it = g_cons.find(k); if (it != g_cons.end()) return it->second;
  Expr *e = newExpr(KConst, w); e->lo = (uint64_t)v; e->hi = (uint64_t)(v >> 64); g_cons.emplace(k, e); return e;
}
static Expr *mkBool(bool b) { static Expr *t = mkConst(1, 1), *f = mkConst(1, 0); return b ? t : f; }
static Expr *mkSym(unsigned i) {
  Key k{(uint64_t)KSym << 32 | 8, nullptr, nullptr, nullptr, i, 0};
  auto it = g_cons.find(k); if (it != g_cons.end()) return it->second;
  Expr *e = newExpr(KSym, 8); e->lo = i; e->sym = i; if (i < 64) e->s0 = 1ull << i; else e->s1 = 1ull << (i - 64);
  g_cons.emplace(k, e); return e;
}
static Expr *mkUndef(unsigned w) {
  Key k{(uint64_t)KUndef << 32 | w, nullptr, nullptr, nullptr, 0, 0};
  auto it = g_cons.find(k); if (it != g_cons.end()) return it->second;
  Expr *e = newExpr(KUndef, w); e->undef = true; g_cons.emplace(k, e); return e;
}
// canonical node for a function of one symbolic byte
static Expr *mkLut(unsigned sym, unsigned w, const uint64_t *tab) {
  bool allc = true, ident = (w == 8);
  for (int i = 0; i < 256; i++) { if (tab[i] != tab[0]) allc = false; if (tab[i] != (uint64_t)i) ident = false; }
  if (allc) return mkConst(w, tab[0]);
  if (ident) return mkSym(sym);
  uint64_t h = sym * 1315423911u + w;
  for (int i = 0; i < 256; i++) { h ^= tab[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
  auto r = g_luts.equal_range(h);
  if (w == 1) {
    uint64_t m[4] = {0, 0, 0, 0}; for (int i = 0; i < 256; i++) if (tab[i] & 1) m[i >> 6] |= 1ull << (i & 63);
    for (auto it = r.first; it != r.second; ++it) { Expr *e = it->second; if (e->k == KSet && e->sym == (int)sym && !memcmp(e->tab, m, 32)) return e; }
    Expr *e = newExpr(KSet, 1); e->sym = sym; e->tab = (uint64_t *)malloc(32); memcpy(e->tab, m, 32);
    if (sym < 64) e->s0 = 1ull << sym; else e->s1 = 1ull << (sym - 64);
    g_luts.emplace(h, e); return e;
  }
  for (auto it = r.first; it != r.second; ++it) { Expr *e = it->second; if (e->k == KLut && e->w == w && e->sym == (int)sym && !memcmp(e->tab, tab, 2048)) return e; }
  Expr *e = newExpr(KLut, w); e->sym = sym; e->tab = (uint64_t *)malloc(2048); memcpy(e->tab, tab, 2048);
  if (sym < 64) e->s0 = 1ull << sym; else e->s1 = 1ull << (sym - 64);
  g_luts.emplace(h, e); return e;
}
static Expr *mkSet(unsigned sym, const Mask &m) {
  uint64_t t[256]; for (int i = 0; i < 256; i++) t[i] = m.get(i); return mkLut(sym, 1, t);
}
static inline Mask setMask(Expr *e) { Mask m; memcpy(m.w, e->tab, 32); return m; }

static inline double bitsD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float bitsF(uint64_t v) { uint32_t u = v; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t fBits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static uint64_t fpEval(unsigned op, unsigned w, unsigned wa, u128 av, u128 bv) {
  uint64_t a = (uint64_t)av, b = (uint64_t)bv;
  switch (op) {
    case FSiToFp: { i128 v = sx128(av, wa); return w == 64 ? dBits((double)v) : fBits((float)v); }
    case FUiToFp: { u128 v = av; return w == 64 ? dBits((double)v) : fBits((float)v); }
    case FExt: return dBits((double)bitsF(a));
    case FTrunc: return fBits((float)bitsD(a));
    default: break;
  }
  double x = wa == 64 ? bitsD(a) : bitsF(a), y = wa == 64 ? bitsD(b) : bitsF(b);
  bool un = std::isnan(x) || std::isnan(y);
  switch (op) {
    case FToSi: return (uint64_t)(int64_t)x & maskw(w);
    case FToUi: return (uint64_t)x & maskw(w);
    case FNeg: return a ^ (1ull << (wa - 1));
    case FAbs: return a & ~(1ull << (wa - 1));
    case FOeq: return !un && x == y; case FOgt: return !un && x > y; case FOge: return !un && x >= y;
    case FOlt: return !un && x < y; case FOle: return !un && x <= y; case FOne: return !un && x != y;
    case FOrd: return !un; case FUno: return un; case FUeq: return un || x == y; case FUgt: return un || x > y;
    case FUge: return un || x >= y; case FUlt: return un || x < y; case FUle: return un || x <= y; case FUne: return un || x != y;
    default: break;
  }
  if (wa == 64) { double r = 0; switch (op) { case FAdd: r = x + y; break; case FSub: r = x - y; break; case FMul: r = x * y; break; case FDiv: r = x / y; break; case FRem: r = fmod(x, y); break; } return dBits(r); }
  float fx = bitsF(a), fy = bitsF(b), r = 0;
  switch (op) { case FAdd: r = fx + fy; break; case FSub: r = fx - fy; break; case FMul: r = fx * fy; break; case FDiv: r = fx / fy; break; case FRem: r = fmodf(fx, fy); break; }
  return fBits(r);
}

// concrete semantics of one operator
static u128 opEval(EK k, unsigned w, unsigned wa, u128 x, u128 y, u128 z, uint64_t lo, unsigned wb) {
  u128 m = maskw128(w);
  switch (k) {
    case KAdd: return (x + y) & m; case KSub: return (x - y) & m; case KMul: return (x * y) & m;
    case KUDiv: return y ? (x / y) : 0; case KURem: return y ? (x % y) : x;
    case KSDiv: { i128 p = sx128(x, w), q = sx128(y, w); return q ? ((q == -1) ? (u128)(-p) & m : (u128)(p / q) & m) : 0; }
    case KSRem: { i128 p = sx128(x, w), q = sx128(y, w); return q ? ((q == -1) ? 0 : (u128)(p % q) & m) : x; }
    case KAnd: return x & y; case KOr: return x | y; case KXor: return x ^ y;
    case KShl: return y >= w ? 0 : (x << (unsigned)y) & m; case KLShr: return y >= w ? 0 : x >> (unsigned)y;
    case KAShr: { i128 p = sx128(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(p >> s) & m; }
    case KEq: return x == y; case KUlt: return x < y; case KUle: return x <= y;
    case KSlt: return sx128(x, wa) < sx128(y, wa); case KSle: return sx128(x, wa) <= sx128(y, wa);
    case KConcat: return ((x << wb) | y) & m; case KExtract: return (x >> lo) & m;
    case KZExt: return x; case KSExt: return (u128)sx128(x, wa) & m; case KIte: return x ? y : z;
    case KFp: return fpEval(lo, w, wa, x, y);
    default: abort();
  }
}
static u128 evalRec(Expr *e, const uint8_t *model) {
  switch (e->k) {
    case KConst: return cval(e); case KSym: return model[e->lo]; case KUndef: return 0;
    case KLut: return e->tab[model[e->sym]];
    case KSet: return (e->tab[model[e->sym] >> 6] >> (model[e->sym] & 63)) & 1;
    default: break;
  }
  if (e->ep == g_epoch) return e->ev;
  u128 r;
  if (e->k == KIte) r = evalRec(e->a, model) ? evalRec(e->b, model) : evalRec(e->c, model);
  else {
    u128 x = e->a ? evalRec(e->a, model) : 0, y = e->b ? evalRec(e->b, model) : 0;
    r = opEval(e->k, e->w, e->a ? e->a->w : 0, x, y, 0, e->lo, e->b ? e->b->w : 0);
  }
  e->ep = g_epoch; e->ev = r; return r;
}
static u128 evalE(Expr *e, const uint8_t *model) { ++g_epoch; return evalRec(e, model); }

static Expr *mkRaw(EK k, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t lo);
static Expr *mkNot(Expr *a);
static Expr *mkBin(EK k, Expr *a, Expr *b) { unsigned w = (k >= KEq && k <= KSle) ? 1 : a->w; return mkRaw(k, w, a, b, nullptr, 0); }
static Expr *mkExtract(Expr *a, unsigned lo, unsigned w) { return (lo == 0 && w == a->w) ? a : mkRaw(KExtract, w, a, nullptr, nullptr, lo); }
static Expr *mkZExt(Expr *a, unsigned w) { return w == a->w ? a : mkRaw(KZExt, w, a, nullptr, nullptr, 0); }
static Expr *mkSExt(Expr *a, unsigned w) { return w == a->w ? a : mkRaw(KSExt, w, a, nullptr, nullptr, 0); }
static Expr *mkConcat(Expr *hi, Expr *lo) { return mkRaw(KConcat, hi->w + lo->w, hi, lo, nullptr, 0); }
static Expr *mkIte(Expr *c, Expr *a, Expr *b) { return mkRaw(KIte, a->w, c, a, b, 0); }
static Expr *mkNot(Expr *a) { return mkRaw(KXor, 1, a, mkBool(true), nullptr, 0); }
static Expr *mkFp(FpOp op, unsigned w, Expr *a, Expr *b) { return mkRaw(KFp, w, a, b, nullptr, op); }

static Expr *simplify(EK k, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t lo) {
  // returns nullptr if no rewriting applies; operands are not all constant
  switch (k) {
    case KAdd:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (!cval(b)) return a; if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, a->a, mkConst(w, cval(a->b) + cval(b)));
        if (a->k == KIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(KAdd, a->b, b), mkBin(KAdd, a->c, b)); }
      break;
    case KSub: if (isC(b)) return mkBin(KAdd, a, mkConst(w, -cval(b))); if (a == b && !a->undef) return mkConst(w, 0); break;
    case KMul: if (isC(a)) std::swap(a, b); if (isC(b)) { if (cval(b) == 0) return mkConst(w, 0); if (cval(b) == 1) return a; } break;
    case KAnd:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (cval(b) == 0) return mkConst(w, 0); if (cval(b) == maskw128(w)) return a;
        if (a->k == KZExt && (cval(b) & maskw128(a->a->w)) == maskw128(a->a->w)) return a;
        // mask of low bits
        u128 m = cval(b); if ((m & (m + 1)) == 0) { unsigned n = 0; while (m >> n & 1) n++; if (n < w && a->undef) return mkZExt(mkExtract(a, 0, n), w); }
        // mask zeroing a whole concat part
        if (a->k == KConcat) { unsigned lw = a->b->w; u128 ml = cval(b) & maskw128(lw), mh = cval(b) >> lw;
          return mkConcat(mkBin(KAnd, a->a, mkConst(a->a->w, mh)), mkBin(KAnd, a->b, mkConst(lw, ml))); } }
      if (w == 1 && a->k == KXor && isC(a->b) && a->a == b) return mkBool(false);
      if (w == 1 && b->k == KXor && isC(b->b) && b->a == a) return mkBool(false);
      break;
    case KOr:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (cval(b) == 0) return a; if (cval(b) == maskw128(w)) return b; }
      if (w > 1 && a->k == KConcat && isC(a->b) && cval(a->b) == 0 && b->k == KZExt && b->a->w <= a->b->w) return mkConcat(a->a, mkZExt(b->a, a->b->w));
      if (w > 1 && b->k == KConcat && isC(b->b) && cval(b->b) == 0 && a->k == KZExt && a->a->w <= b->b->w) return mkConcat(b->a, mkZExt(a->a, b->b->w));
      break;
    case KXor:
      if (isC(a)) std::swap(a, b);
      if (a == b && !a->undef) return mkConst(w, 0);
      if (isC(b)) { if (cval(b) == 0) return a; if (a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(w, cval(a->b) ^ cval(b)));
        if (w == 1 && a->k == KSet) { Mask m = ~setMask(a); return mkSet(a->sym, m); } }
      break;
    case KShl:
      if (isC(b)) { if (cval(b) == 0) return a; if (cval(b) >= w) return mkConst(w, 0);
        unsigned s = (unsigned)cval(b); return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0)); }
      break;
    case KLShr:
      if (isC(b)) { if (cval(b) == 0) return a; if (cval(b) >= w) return mkConst(w, 0); unsigned s = (unsigned)cval(b); return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case KAShr: if (isC(b) && cval(b) == 0) return a; break;
    case KEq:
      if (a == b && !a->undef) return mkBool(true);
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        u128 v = cval(b);
        if (a->w == 1) return v ? a : mkNot(a);
        if (a->k == KConcat) { unsigned lw = a->b->w; return mkBin(KAnd, mkBin(KEq, a->a, mkConst(a->a->w, v >> lw)), mkBin(KEq, a->b, mkConst(lw, v))); }
        if (a->k == KZExt) { if (v >> a->a->w) return mkBool(false); return mkBin(KEq, a->a, mkConst(a->a->w, v)); }
        if (a->k == KSExt) { u128 t = v & maskw128(a->a->w); if (((u128)sx128(t, a->a->w) & maskw128(a->w)) != v) return mkBool(false); return mkBin(KEq, a->a, mkConst(a->a->w, t)); }
        if (a->k == KAdd && isC(a->b)) return mkBin(KEq, a->a, mkConst(a->w, v - cval(a->b)));
        if (a->k == KXor && isC(a->b)) return mkBin(KEq, a->a, mkConst(a->w, v ^ cval(a->b)));
        if (a->k == KIte && (isC(a->b) || isC(a->c))) {
          Expr *t = mkBin(KEq, a->b, b), *f = mkBin(KEq, a->c, b);
          if (isC(t) && isC(f)) { if (t == f) return t; return cval(t) ? a->a : mkNot(a->a); }
          if (isC(t)) return cval(t) ? mkBin(KOr, a->a, f) : mkBin(KAnd, mkNot(a->a), f);
          return cval(f) ? mkBin(KOr, mkNot(a->a), t) : mkBin(KAnd, a->a, t);
        }
      } else {
        if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkBin(KAnd, mkBin(KEq, a->a, b->a), mkBin(KEq, a->b, b->b));
        if ((a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) || (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w)) return mkBin(KEq, a->a, b->a);
      }
      break;
    case KUlt: if (a == b && !a->undef) return mkBool(false);
      if (isC(b) && cval(b) == 0) return mkBool(false);
      if (isC(b) && a->k == KZExt) { if (cval(b) >> a->a->w) return mkBool(true); return mkBin(KUlt, a->a, mkConst(a->a->w, cval(b))); }
      if (isC(a) && b->k == KZExt) { if (cval(a) >> b->a->w) return mkBool(false); return mkBin(KUlt, mkConst(b->a->w, cval(a)), b->a); }
      break;
    case KUle: return mkNot(mkBin(KUlt, b, a));
    case KSle: return mkNot(mkBin(KSlt, b, a));
    case KSlt: if (a == b && !a->undef) return mkBool(false);
      // comparing with zero of a zero-extended value
      if (a->k == KZExt && b->k == KZExt) return mkBin(KUlt, mkZExt(a->a, std::max(a->a->w, b->a->w)), mkZExt(b->a, std::max(a->a->w, b->a->w)));
      if (a->k == KZExt && isC(b)) { if (cval(b) >> (w = a->w, a->w - 1)) return mkBool(false); return mkBin(KUlt, a, b); }
      if (b->k == KZExt && isC(a)) { if (cval(a) >> (b->w - 1)) return mkBool(true); return mkBin(KUlt, a, b); }
      break;
    case KConcat:
      if (a->k == KExtract && b->k == KExtract && a->a == b->a && a->lo == b->lo + b->w) return mkExtract(a->a, b->lo, a->w + b->w);
      if (b->k == KConcat && a->k == KExtract && b->a->k == KExtract && a->a == b->a->a && a->lo == b->a->lo + b->a->w)
        return mkConcat(mkExtract(a->a, b->a->lo, a->w + b->a->w), b->b);
      if (isC(a) && cval(a) == 0) return mkZExt(b, w);
      if (isC(a) && b->k == KConcat && isC(b->a)) return mkConcat(mkConcat(a, b->a), b->b);
      break;
    case KExtract:
      if (a->k == KUndef) return mkUndef(w);
      if (a->k == KExtract) return mkExtract(a->a, a->lo + lo, w);
      if (a->k == KConcat) { unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
      if (a->k == KZExt) { unsigned iw = a->a->w; if (lo >= iw) return mkConst(w, 0); if (lo + w <= iw) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
      if (a->k == KSExt && lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (a->k == KIte && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      if (a->k == KAnd || a->k == KOr || a->k == KXor) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      if (lo == 0 && (a->k == KAdd || a->k == KSub || a->k == KMul)) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case KZExt: if (a->k == KZExt) return mkZExt(a->a, w);
      if (a->k == KIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w)); break;
    case KSExt: if (a->k == KSExt) return mkSExt(a->a, w); if (a->k == KZExt) return mkZExt(a->a, w);
      if (a->k == KIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w)); break;
    case KIte:
      if (isC(a)) return cval(a) ? b : c;
      if (b == c) return b;
      if (w == 1) { if (isC(b)) return cval(b) ? mkBin(KOr, a, c) : mkBin(KAnd, mkNot(a), c);
        if (isC(c)) return cval(c) ? mkBin(KOr, mkNot(a), b) : mkBin(KAnd, a, b); }
      if (a->k == KXor && isC(a->b)) return mkIte(a->a, c, b);
      break;
    default: break;
  }
  return nullptr;
}

static Expr *mkRaw(EK k, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t lo) {
  if ((!a || isC(a)) && (!b || isC(b)) && (!c || isC(c)))
    return mkConst(w, opEval(k, w, a->w, cval(a), b ? cval(b) : 0, c ? cval(c) : 0, lo, b ? b->w : 0));
  Key key{(uint64_t)k << 32 | w, a, b, c, lo, 0};
  auto it = g_cons.find(key); if (it != g_cons.end()) return it->second;
  bool undef = a->undef || (b && b->undef) || (c && c->undef);
  uint64_t s0 = a->s0 | (b ? b->s0 : 0) | (c ? c->s0 : 0), s1 = a->s1 | (b ? b->s1 : 0) | (c ? c->s1 : 0);
  int cnt = __builtin_popcountll(s0) + __builtin_popcountll(s1);
  Expr *r = nullptr;
  if (cnt == 1 && !undef && w <= 64) {
    unsigned sym = s0 ? __builtin_ctzll(s0) : 64 + __builtin_ctzll(s1);
    uint64_t tab[256]; uint8_t model[128];
    auto val = [&](Expr *e, int v) -> u128 {
      switch (e->k) { case KConst: return cval(e); case KSym: return v; case KLut: return e->tab[v]; case KSet: return (e->tab[v >> 6] >> (v & 63)) & 1;
        default: model[sym] = v; return evalE(e, model); } };
    for (int v = 0; v < 256; v++) tab[v] = (uint64_t)opEval(k, w, a->w, val(a, v), b ? val(b, v) : 0, c ? val(c, v) : 0, lo, b ? b->w : 0);
    r = mkLut(sym, w, tab);
  }
  if (!r) r = simplify(k, w, a, b, c, lo);
  if (!r) {
    if (w == 1 && (k == KAnd || k == KOr || k == KXor) && b->id < a->id && !isC(b)) { r = mkRaw(k, w, b, a, c, lo); }
    else {
      r = newExpr(k, w); r->a = a; r->b = b; r->c = c; r->lo = lo; r->undef = undef; r->s0 = s0; r->s1 = s1;
      r->sym = cnt == 0 ? -1 : cnt == 1 ? (s0 ? __builtin_ctzll(s0) : 64 + __builtin_ctzll(s1)) : -2;
    }
  }
  g_cons.emplace(key, r);
  return r;
}
// replace undefined leaves by zero
static Expr *dropUndef(Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  if (!e->undef) return e;
  if (e->k == KUndef) return mkConst(e->w, 0);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *a = e->a ? dropUndef(e->a, memo) : nullptr, *b = e->b ? dropUndef(e->b, memo) : nullptr, *c = e->c ? dropUndef(e->c, memo) : nullptr;
  Expr *r = mkRaw(e->k, e->w, a, b, c, e->lo); memo[e] = r; return r;
}

// ---- Z3 translation -------------------------------------------------------------------------------------
static Z3_sort bvs(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zsym(unsigned i) {
  static Z3_ast v[128];
  if (!v[i]) { char n[16]; snprintf(n, sizeof n, "b%u", i); v[i] = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), bvs(8))); }
  return v[i];
}
static Z3_ast znum(unsigned w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)v, bvs(w));
  return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (uint64_t)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(Z, (uint64_t)v, bvs(64)));
}
static Z3_ast zset(unsigned sym, const Mask &m) {  // disjunction of ranges
  std::vector<Z3_ast> v; Z3_ast x = zsym(sym);
  for (int i = 0; i < 256;) {
    if (!m.get(i)) { i++; continue; }
    int j = i; while (j < 255 && m.get(j + 1)) j++;
    if (i == j) v.push_back(Z3_mk_eq(Z, x, znum(8, i)));
    else { Z3_ast lo = Z3_mk_bvuge(Z, x, znum(8, i)), hi = Z3_mk_bvule(Z, x, znum(8, j));
      if (i == 0 && j == 255) v.push_back(Z3_mk_true(Z)); else if (i == 0) v.push_back(hi); else if (j == 255) v.push_back(lo);
      else { Z3_ast p[2] = {lo, hi}; v.push_back(Z3_mk_and(Z, 2, p)); } }
    i = j + 1;
  }
  if (v.empty()) return Z3_mk_false(Z);
  return v.size() == 1 ? v[0] : Z3_mk_or(Z, v.size(), v.data());
}
static Z3_ast toBV1(Z3_ast b) { return Z3_mk_ite(Z, b, znum(1, 1), znum(1, 0)); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(Z) : Z3_mk_fpa_sort_32(Z); }

// variant: 0 = no undef allowed to matter (undef := 0), 1/2 = two independent instances of undef
static Z3_ast toZ3(Expr *e, int variant = 0) {
  static std::unordered_map<Expr *, Z3_ast> memo[3];
  if (!e->undef) variant = 0;
  if (variant == 0) { if (e->z) return e->z; } else { auto it = memo[variant].find(e); if (it != memo[variant].end()) return it->second; }
  Z3_ast r = nullptr;
  auto bv = [&](Expr *x) { Z3_ast z = toZ3(x, variant); return x->w == 1 ? toBV1(z) : z; };
  switch (e->k) {
    case KConst: r = e->w == 1 ? (e->lo ? Z3_mk_true(Z) : Z3_mk_false(Z)) : znum(e->w, cval(e)); break;
    case KSym: r = zsym(e->lo); break;
    case KUndef: if (!variant) r = e->w == 1 ? Z3_mk_false(Z) : znum(e->w, 0);
      else { char n[32]; snprintf(n, sizeof n, "u%d_%u", variant, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), e->w == 1 ? Z3_mk_bool_sort(Z) : bvs(e->w)); } break;
    case KSet: r = zset(e->sym, setMask(e)); break;
    case KLut: { // runs of the form value = x + d, or constant
      Z3_ast x = zsym(e->sym); r = nullptr;
      std::vector<std::pair<int, Z3_ast>> runs; // (start, term)
      Z3_ast xw = e->w > 8 ? Z3_mk_zero_ext(Z, e->w - 8, x) : e->w == 8 ? x : Z3_mk_extract(Z, e->w - 1, 0, x);
      for (int i = 0; i < 256;) {
        int j = i; while (j < 255 && e->tab[j + 1] == e->tab[i]) j++;
        int l = i; uint64_t d = (e->tab[i] - i) & maskw(e->w); while (l < 255 && ((e->tab[l + 1] - (l + 1)) & maskw(e->w)) == d) l++;
        if (j >= l) { runs.push_back({i, znum(e->w, e->tab[i])}); i = j + 1; }
        else { runs.push_back({i, d ? Z3_mk_bvadd(Z, xw, znum(e->w, d)) : xw}); i = l + 1; }
      }
      r = runs.back().second;
      for (int i = (int)runs.size() - 2; i >= 0; i--) r = Z3_mk_ite(Z, Z3_mk_bvult(Z, x, znum(8, runs[i + 1].first)), runs[i].second, r);
      break; }
    case KIte: r = Z3_mk_ite(Z, toZ3(e->a, variant), toZ3(e->b, variant), toZ3(e->c, variant)); break;
    case KConcat: r = Z3_mk_concat(Z, bv(e->a), bv(e->b)); break;
    case KExtract: { Z3_ast t = Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, bv(e->a)); r = e->w == 1 ? Z3_mk_eq(Z, t, znum(1, 1)) : t; break; }
    case KZExt: r = Z3_mk_zero_ext(Z, e->w - e->a->w, bv(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(Z, e->w - e->a->w, bv(e->a)); break;
    case KFp: {
      unsigned wa = e->a->w; Z3_ast rm = Z3_mk_fpa_rne(Z);
      auto fp = [&](Expr *x) { return Z3_mk_fpa_to_fp_bv(Z, bv(x), fps(x->w)); };
      auto ret = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(Z, f); };
      auto isn = [&](Expr *x) { return Z3_mk_fpa_is_nan(Z, fp(x)); };
      auto un = [&]() { Z3_ast p[2] = {isn(e->a), isn(e->b)}; return Z3_mk_or(Z, 2, p); };
      auto orun = [&](Z3_ast q) { Z3_ast p[2] = {un(), q}; return Z3_mk_or(Z, 2, p); };
      auto andord = [&](Z3_ast q) { Z3_ast p[2] = {Z3_mk_not(Z, un()), q}; return Z3_mk_and(Z, 2, p); };
      (void)wa;
      switch (e->lo) {
        case FAdd: r = ret(Z3_mk_fpa_add(Z, rm, fp(e->a), fp(e->b))); break; case FSub: r = ret(Z3_mk_fpa_sub(Z, rm, fp(e->a), fp(e->b))); break;
        case FMul: r = ret(Z3_mk_fpa_mul(Z, rm, fp(e->a), fp(e->b))); break; case FDiv: r = ret(Z3_mk_fpa_div(Z, rm, fp(e->a), fp(e->b))); break;
        case FNeg: r = ret(Z3_mk_fpa_neg(Z, fp(e->a))); break; case FAbs: r = ret(Z3_mk_fpa_abs(Z, fp(e->a))); break;
        case FOeq: r = Z3_mk_fpa_eq(Z, fp(e->a), fp(e->b)); break; case FOgt: r = Z3_mk_fpa_gt(Z, fp(e->a), fp(e->b)); break;
        case FOge: r = Z3_mk_fpa_geq(Z, fp(e->a), fp(e->b)); break; case FOlt: r = Z3_mk_fpa_lt(Z, fp(e->a), fp(e->b)); break;
        case FOle: r = Z3_mk_fpa_leq(Z, fp(e->a), fp(e->b)); break; case FOne: r = andord(Z3_mk_not(Z, Z3_mk_fpa_eq(Z, fp(e->a), fp(e->b)))); break;
        case FOrd: r = Z3_mk_not(Z, un()); break; case FUno: r = un(); break;
        case FUeq: r = orun(Z3_mk_fpa_eq(Z, fp(e->a), fp(e->b))); break; case FUgt: r = orun(Z3_mk_fpa_gt(Z, fp(e->a), fp(e->b))); break;
        case FUge: r = orun(Z3_mk_fpa_geq(Z, fp(e->a), fp(e->b))); break; case FUlt: r = orun(Z3_mk_fpa_lt(Z, fp(e->a), fp(e->b))); break;
        case FUle: r = orun(Z3_mk_fpa_leq(Z, fp(e->a), fp(e->b))); break; case FUne: r = Z3_mk_not(Z, Z3_mk_fpa_eq(Z, fp(e->a), fp(e->b))); break;
        case FSiToFp: r = ret(Z3_mk_fpa_to_fp_signed(Z, rm, bv(e->a), fps(e->w))); break; case FUiToFp: r = ret(Z3_mk_fpa_to_fp_unsigned(Z, rm, bv(e->a), fps(e->w))); break;
        case FExt: case FTrunc: r = ret(Z3_mk_fpa_to_fp_float(Z, rm, fp(e->a), fps(e->w))); break;
        case FToSi: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), fp(e->a), e->w); break; case FToUi: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), fp(e->a), e->w); break;
        default: fprintf(stderr, "fp op %d not translated\n", (int)e->lo); exit(3);
      }
      break; }
    default: {
      if (e->w == 1 && (e->k == KAnd || e->k == KOr || e->k == KXor)) {
        Z3_ast p[2] = {toZ3(e->a, variant), toZ3(e->b, variant)};
        r = e->k == KAnd ? Z3_mk_and(Z, 2, p) : e->k == KOr ? Z3_mk_or(Z, 2, p) : Z3_mk_xor(Z, p[0], p[1]); break; }
      if (e->k == KEq) { r = Z3_mk_eq(Z, toZ3(e->a, variant), toZ3(e->b, variant)); break; }
      Z3_ast x = bv(e->a), y = bv(e->b);
      switch (e->k) {
        case KAdd: r = Z3_mk_bvadd(Z, x, y); break; case KSub: r = Z3_mk_bvsub(Z, x, y); break; case KMul: r = Z3_mk_bvmul(Z, x, y); break;
        case KUDiv: r = Z3_mk_bvudiv(Z, x, y); break; case KSDiv: r = Z3_mk_bvsdiv(Z, x, y); break; case KURem: r = Z3_mk_bvurem(Z, x, y); break; case KSRem: r = Z3_mk_bvsrem(Z, x, y); break;
        case KAnd: r = Z3_mk_bvand(Z, x, y); break; case KOr: r = Z3_mk_bvor(Z, x, y); break; case KXor: r = Z3_mk_bvxor(Z, x, y); break;
        case KShl: r = Z3_mk_bvshl(Z, x, y); break; case KLShr: r = Z3_mk_bvlshr(Z, x, y); break; case KAShr: r = Z3_mk_bvashr(Z, x, y); break;
        case KUlt: r = Z3_mk_bvult(Z, x, y); break; case KSlt: r = Z3_mk_bvslt(Z, x, y); break; case KUle: r = Z3_mk_bvule(Z, x, y); break; case KSle: r = Z3_mk_bvsle(Z, x, y); break;
        default: fprintf(stderr, "toZ3: kind %d\n", e->k); exit(3);
      }
      if (e->w == 1 && !(e->k >= KEq && e->k <= KSle)) r = Z3_mk_eq(Z, r, znum(1, 1));
    }
  }
  keep(r);
  if (variant == 0) e->z = r; else memo[variant][e] = r;
  return r;
}
