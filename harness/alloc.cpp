// Any allocation of any call failing: std::bad_alloc is raised by exactly that call, nothing leaks, is freed twice or is
// accessed wrongly, and the object can be used, moved and destroyed afterwards; with a stale errno and no failure, no
// bad_alloc (C26).  The run without a failure comes first and fixes the calls made and the number of allocations.
#include "ask.hpp"
#include <cerrno>
#include <memory>
#ifndef MAXLEN
#define MAXLEN 2
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef FILLS
#define FILLS 1
#endif
#ifndef SRC
#define SRC 2            // 0 buffer, 1 file, 2 both
#endif
#ifndef OPSET
#define OPSET 0, 1       // calls made
#endif
#ifndef CALLS
#define CALLS 3          // at most
#endif
#ifndef FAULTS
#define FAULTS 1
#endif
#ifndef CONV
#define CONV 0
#endif
using U = Use<>; using P = U::parser; using C = U::converter;
struct Tie { char a{}; RS b; auto tied() { return std::tie(a, b); } };
struct Obj { int a{}; RS b; };
static int rem_ = -1, second = -1; static unsigned total, nfailed; static bool quiet_;
// one call of the library; the allocation with index rem_ fails
template <class F> static bool call(F f) {
  int c0 = sx_alloc_count(); bool threw = false; errno = ENOMEM; sx_fail_alloc(rem_);
  try { if constexpr (ERR == 2) { try { f(); } catch (const ss::exception &e) { size_t n = strlen(e.what()); if (!quiet_) sx_observe(&n, sizeof n); } } else f(); } catch (const std::bad_alloc &) { threw = true; }
  sx_fail_alloc(-1); int used = sx_alloc_count() - c0; bool failed = rem_ >= 0 && used > rem_; total += used;
  sx_assert(!threw || failed, "bad_alloc only if an allocation failed"); sx_assert(threw || !failed, "a failed allocation is reported");
  if (failed) { nfailed++; rem_ = second; second = -1; } else if (rem_ >= 0) rem_ -= used;
  return !threw;
}
static std::string delim;
static char *input; static size_t isize; static std::string fname; static bool file;
static void op(std::unique_ptr<P> &q, unsigned k) {
  P &p = *q;
  switch (k) {
    case 0: p.template get_next<RS>(); break;
    case 1: p.template get_next<RS, RS>(); break;
    case 2: p.template get_next<int, RV>(); break;
    case 3: p.template get_next<Tie>(); break;
    case 4: p.template get_object<Obj, int, RS>(); break;
    case 5: p.template get_next<ss::ne<RS>, ss::ir<int, 1, 5>>(); break;
    case 6: p.ignore_next(); break;
#if ERR != 2
    case 7: p.template try_next<int, RS>([](int, const RS &s) { return s.size() != 1; }).on_error([] {}).template or_object<Obj, int>().template or_else<RS, RS>([](const RS &, const RS &) { return true; }).values(); break;
    case 8: { unsigned n = 0; for (auto &x : p.template iterate<RS, RS>()) if (++n > 1) break; break; }
    case 9: { unsigned n = 0; for (auto &x : p.template iterate_object<Obj, int, RS>()) if (++n > 1) break; break; }
#endif
#if !IH
    case 10: p.use_fields("a"); break;
    case 11: p.use_fields("b", "a"); break;
    case 12: p.header(); break;
    case 13: p.raw_header(); break;
    case 14: p.field_exists("b"); break;
#endif
    case 15: { q = std::make_unique<P>(std::move(p)); break; }
    case 16: { P r = file ? P{fname, delim} : P{input, isize, delim}; r.template get_next<RS>(); p = std::move(r); break; }
    default: break;
  }
}
static const unsigned opset[] = {OPSET};
static unsigned char script[16]; static unsigned len;
#if CONV
static void cop(C &c, unsigned k, char *l) {
  switch (k) {
    case 0: c.template convert<RS>(l, delim); break;
    case 1: c.template convert<RS, RS>(l, delim); break;
    case 2: c.template convert<int, RV>(l, delim); break;
    case 3: c.template convert<Tie>(l, delim); break;
    case 4: c.template convert_object<Obj, int, RS>(l, delim); break;
    case 5: c.split(l, delim); break;
    case 6: { auto &s = c.split(l, delim); if (c.valid()) c.template convert<RS, int>(s); break; }
    case 7: c.template convert<RS, RS>(); break;
    case 8: c.template convert<std::optional<int>, ss::ne<RS>>(); break;
    case 9: { C d; d.template convert<RS, RS>(l, delim); c = std::move(d); break; }
    default: { U::splitter s; s.split(l, delim); }
  }
}
static void run(bool first) {
  { C c; char *l = new char[isize + 1]; 
    for (unsigned i = 0; i < (first ? CALLS : len); i++) { if (first) { script[i] = opset[sx_choose(sizeof opset / sizeof *opset, "call")]; len++; } memcpy(l, input, isize + 1); call([&] { cop(c, script[i], l); }); }
    memcpy(l, input, isize + 1); call([&] { c.template convert<RS, RS>(l, delim); }); delete[] l; }
}
#else
static void run(bool first, unsigned after = 0) {
  std::unique_ptr<P> q; bool ok = call([&] { q = file ? std::make_unique<P>(fname, delim) : std::make_unique<P>(input, isize, delim); });
  if (!ok) { ok = call([&] { q = file ? std::make_unique<P>(fname, delim) : std::make_unique<P>(input, isize, delim); }); if (!ok) return; }
  for (unsigned i = 0; i < (first ? CALLS : len); i++) {
    if (first) { if (q->eof()) break; script[i] = opset[sx_choose(sizeof opset / sizeof *opset, "call")]; len++; }
    call([&] { op(q, script[i]); });
    size_t n = q->line() + q->position() + q->eof(); if (!quiet_) sx_observe(&n, sizeof n);
  }
  if (after) call([&] { if (after > 1) q = std::make_unique<P>(std::move(*q)); else P r(std::move(*q)); });
  for (unsigned i = 0; i < 5; i++) { bool e = q->eof(); if (after != 1) call([&] { q->template get_next<RS, RS>(); }); if (e) break; }
  call([&] { q.reset(); });
}
#endif
void sx_main() {
  {
    Cfg c = U::cfg(); delim = c.delim; std::string al = ALPHABET, pre = PRE, post = POST; size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0), n = sx_choose(MAXLEN + 1, "length"); isize = pre.size() + fill + n + post.size();
    input = new char[isize + 1]; memcpy(input, pre.data(), pre.size()); memset(input + pre.size(), 'f', fill); char *q = input + pre.size() + fill;
    if (al.empty()) sx_symbolic(q, n, "input"); else sx_symbolic_in(q, n, "input", al.data(), al.size());
    memcpy(q + n, post.data(), post.size()); input[isize] = 0;
#if !CONV
    file = SRC == 1 || (SRC == 2 && sx_choose(2, "source")); if (file) fname = file_name(input, isize);
#endif
    run(true); sx_reach(1); unsigned N = total; quiet_ = true;
#if !CONV
    unsigned after = sx_choose(3, "afterwards");
#endif
    auto attempt = [&](unsigned k, int k2) {
      rem_ = k; second = k2; nfailed = 0;
#if CONV
      run(false);
#else
      run(false, after);
#endif
      rem_ = second = -1; if (nfailed) sx_reach(2); if (nfailed > 1) sx_reach(3);
    };
#ifdef SX_FAILALLOC
    for (unsigned k = 0; k < N + 8; k++) { attempt(k, -1); if (FAULTS > 1) for (unsigned k2 = 0; k2 < N + 8; k2++) attempt(k, k2); }
#else
    if (N) { unsigned k = sx_choose(N, "failing allocation"); int k2 = FAULTS > 1 ? (int)sx_choose(N, "second failing allocation") : -1; attempt(k, k2); }
#endif
    delete[] input; fname = std::string(); delim = std::string();
  }
}
