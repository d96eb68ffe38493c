// Arbitrary bytes (NUL included) under every setup: no invalid access, no uninitialised read, no leak, no undefined
// operation, termination, constant input untouched (C23).  The engine decides all of these on every path.
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef FILLS
#define FILLS 1
#endif
#ifndef CALLS
#define CALLS 1          // other calls before the reads
#endif
#ifndef CONV
#define CONV 0
#endif
#ifndef FILLCH
#define FILLCH 'f'
#endif
using U = Use<>; using P = U::parser;
static Cfg cfg_() { Cfg c = U::cfg();
#ifdef DELIM
  c.delim = DELIM;
#endif
  return c; }
struct Tie { char a{}; RS b; auto tied() { return std::tie(a, b); } };
template <class X, class F> static void quiet(X &, F f) { if constexpr (ERR == 2) { try { f(); } catch (const ss::exception &e) { size_t n = strlen(e.what()); sx_observe(&n, sizeof n); } } else f(); }
static void put(const RS &s) { sx_observe_str(s); }
static void read(P &p, unsigned k) {
  quiet(p, [&] {
    switch (k) {
      case 0: put(p.template get_next<RS>()); break;
      case 1: { auto [a, b] = p.template get_next<RS, RV>(); put(a); put(RS(b)); break; }
      case 2: { auto v = p.template get_next<int>(); sx_observe(&v, sizeof v); break; }
      case 3: { Tie v = p.template get_next<Tie>(); put(v.b); break; }
#if ERR != 2
      case 4: { auto v = p.template try_next<int, char>([](int, char c) { return c != 'z'; }).template or_else<RS, RS>().template or_else<std::optional<bool>, ss::uint8, RS>([](auto &&...) {}).on_error([] {}).values(); bool h = std::get<1>(v).has_value(); sx_observe(&h, 1); break; }
#endif
      case 5: { auto v = p.template get_next<ss::ir<long, -5, 70>, std::variant<char, bool>>(); long a = std::get<0>(v); sx_observe(&a, 8); break; }
      default: { auto v = p.template get_next<void, ss::ne<RS>, void>(); put(v); } 
    }
  });
  if constexpr (ERR == 1) { size_t n = p.error_msg().size(); sx_observe(&n, sizeof n); }
}
static void other(P &p, unsigned k) {
  quiet(p, [&] {
    switch (k) {
      case 0: p.ignore_next(); break;
#if !IH
      case 1: { size_t n = p.header().size(); sx_observe(&n, sizeof n); break; }
      case 2: p.use_fields("a", "b"); break;
      case 3: { bool e = p.field_exists("a"); sx_observe(&e, 1); put(p.raw_header()); p.use_fields("a"); break; }
#endif
      case 4: { size_t n = p.line() + p.position() + p.eof() + p.valid(); sx_observe(&n, sizeof n); break; }
      case 6: { P &q = p; p = std::move(q); break; }            // onto itself
      default: { size_t n = 0; if (ERR != 2) for (auto &x : p.template iterate<RS, RS>()) { n += std::get<0>(x).size(); if (n > 2) break; } sx_observe(&n, sizeof n); }
    }
  });
}
#if CONV == 2
// extract() on a range of its own: nothing outside it may be read
template <class T> static void one(const char *b, const char *e) { T v{}; bool r = ss::extract(b, e, v); sx_observe(&r, 1); if (r) sx_reach(2); }
void sx_main() {
  std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size(); char *b = new char[t]; memcpy(b, pre.data(), pre.size());
  if (al.empty()) sx_symbolic(b + pre.size(), n, "text"); else sx_symbolic_in(b + pre.size(), n, "text", al.data(), al.size());
  memcpy(b + pre.size() + n, post.data(), post.size()); const char *e = b + t;
  switch (sx_choose(14, "type")) {
    case 0: one<int>(b, e); break; case 1: one<unsigned long long>(b, e); break; case 2: one<short>(b, e); break; case 3: one<bool>(b, e); break; case 4: one<char>(b, e); break; case 5: one<RS>(b, e); break;
    case 6: one<RV>(b, e); break; case 7: one<ss::int8>(b, e); break; case 8: one<ss::uint8>(b, e); break; case 9: one<std::optional<char>>(b, e); break; case 10: one<std::optional<bool>>(b, e); break;
    case 11: one<std::variant<char, bool, int>>(b, e); break; case 12: one<std::variant<ss::int8, bool, char>>(b, e); break;
    default: one<std::optional<unsigned>>(b, e);
  }
  sx_reach(1); delete[] b;
}
#else
void sx_main() {
  Cfg c = cfg_(); std::string al = ALPHABET, pre = PRE, post = POST; size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0), n = MINLEN + sx_choose(MAXLEN - MINLEN + 1, "length"), t = pre.size() + fill + n + post.size();
  char *b = new char[t + CONV], *d = new char[t + CONV]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), FILLCH, fill); char *q = b + pre.size() + fill;
  if (al.empty()) sx_symbolic(q, n, "input"); else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); if (CONV) b[t] = 0; memcpy(d, b, t + CONV);
#if CONV
  { U::converter v; unsigned k = sx_choose(7, "request"); quiet(v, [&] { switch (k) {
      case 0: put(v.template convert<RS>(b, c.delim)); break;
      case 1: { auto [x, y] = v.template convert<RS, RV>(b, c.delim); put(x); put(RS(y)); break; }
      case 2: { auto x = v.template convert<short>(b, c.delim); sx_observe(&x, sizeof x); break; }
      case 3: { auto x = v.template convert<Tie>(b, c.delim); put(x.b); break; }
      case 4: { auto &s = v.split(b, c.delim); size_t m = s.size(); sx_observe(&m, sizeof m); auto x = v.template convert<std::optional<int>, RS>(s); put(std::get<1>(x)); break; }
      case 5: { v.split(b, c.delim); auto x = v.template convert<RS, void, char>(); put(std::get<0>(x)); break; }
      default: { struct O { RS a, b; }; auto x = v.template convert_object<O, RS, RS>(b, c.delim); put(x.b); }
    } });
    U::splitter s; quiet(s, [&] { memcpy(b, d, t + 1); size_t m = s.split(b, c.delim).size(); sx_observe(&m, sizeof m); });
    sx_reach(1); if (t > 1) sx_reach(2);
  }
#else
  {
    bool file = sx_choose(2, "source"); std::string name = file ? file_name(b, t) : std::string(); P *p = file ? new P{name, c.delim} : new P{b, t, c.delim}; int calls = CALLS; size_t k = 0;
    while (!p->eof()) { if (calls && sx_choose(2, "call")) { calls--; other(*p, sx_choose(7, "which")); continue; } read(*p, k == 0 ? sx_choose(7, "request") : k == 1 ? sx_choose(2, "request") : 1); k++; }
    read(*p, sx_choose(5, "request")); if (k > 1) sx_reach(1); if (t > 1) sx_reach(2); delete p;
    sx_assert(memcmp(b, d, t) == 0, "the caller's input is not modified");
  }
#endif
  delete[] b; delete[] d;
}
#endif
