// Flag, message and exception mode in lockstep over the same input and the same calls (C14).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef KSET
#define KSET 0, 1, 3
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef HDR
#define HDR 0            // 1: header queries and field selections among the calls
#endif
#ifndef CONV
#define CONV 0           // 1: converters instead of parsers; 2: opening errors
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
template <int E> using M = Use<SETUP, ML, E, IE, IH>;
static const unsigned kset[] = {KSET}; constexpr unsigned nk = sizeof kset / sizeof *kset;
static void agree(const Out &f, const Out &m, const Out &x) {
  sx_assert(f.ok == m.ok, "flag and message mode agree"); sx_assert(f.ok == x.ok, "flag and exception mode agree"); sx_assert(x.threw == !x.ok, "an error is raised exactly for a rejection");
  same_values(f, m); if (f.ok) same_values(f, x); else sx_assert(same_text(m.msg, x.msg), "the exception carries the message");
  sx_assert(m.ok == m.msg.empty(), "message non-empty exactly when invalid"); observe(m);
}
#if CONV == 0
#if HDR
template <class P> static void sel(P &p, unsigned k) { switch (k) { case 0: p.use_fields("b"); break; case 1: p.use_fields("b", "a"); break; case 2: p.use_fields("a", "a"); break; default: p.use_fields("zz"); } }
#endif
template <int E, class P> static Out op(P &p, unsigned o, unsigned k) {
  if (o == 0) return ask<E>(p, k);
#if HDR
  if (o == 1) return outcome<E>(p, [&] { sel(p, k); return 0; });
  if (o == 2) return outcome<E>(p, [&] { auto h = p.header(); std::string s; for (auto &x : h) { s += x; s += '\1'; } return s; });
  return outcome<E>(p, [&] { return p.field_exists(k ? "a" : ""); });
#else
  return Out();
#endif
}
template <class A, class B, class C> static void drive(A &f, B &m, C &x) {
  size_t n = 0, bad = 0; bool failedAfter = false; int more = HDR ? 2 : 0;
  for (bool last = false; !last;) {
    last = f.eof(); sx_assert(f.eof() == m.eof() && f.eof() == x.eof(), "end of input agrees");
    sx_assert(f.position() == m.position() && f.position() == x.position(), "positions agree"); sx_assert(f.line() == m.line() && f.line() == x.line(), "lines agree");
    unsigned o = more > 0 ? sx_choose(4, "call") : 0, k = o == 0 ? (nk > 1 ? kset[sx_choose(nk, "request")] : kset[0]) : o == 1 ? sx_choose(4, "fields") : o == 3 ? sx_choose(2, "field") : 0;
    if (o) { more--; last = false; }
    Out a = op<0>(f, o, k), b = op<1>(m, o, k), c = op<2>(x, o, k); agree(a, b, c); n++; if (!a.ok) bad++; else if (bad) failedAfter = true;
  }
  sx_assert(f.eof() && m.eof() && x.eof(), "all at the end"); if (failedAfter) sx_reach(1); if (bad > 1) sx_reach(2);
}
void sx_main() {
  Cfg c = M<0>::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = MINLEN + sx_choose(MAXLEN - MINLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size());
  if (SRC) { std::string f = file_name(b, t); M<0>::parser p{f, c.delim}; M<1>::parser m{f, c.delim}; M<2>::parser x{f, c.delim}; drive(p, m, x); }
  else { M<0>::parser p{b, t, c.delim}; M<1>::parser m{b, t, c.delim}; M<2>::parser x{b, t, c.delim}; drive(p, m, x); }
  delete[] b;
}
#elif CONV == 1
void sx_main() {
  Cfg c = M<0>::cfg(); std::string al = ALPHABET; M<0>::converter f; M<1>::converter m; M<2>::converter x; size_t left = MAXLEN; size_t bad = 0, good = 0;
  for (int i = 0; i < 2; i++) {
    size_t n = i ? left : sx_choose(left + 1, "length"); left -= n; char *l[3]; for (auto &y : l) y = new char[n + 1];
    if (al.empty()) { sx_symbolic(l[0], n, "line"); for (size_t j = 0; j < n; j++) sx_assume(l[0][j] != 0); } else sx_symbolic_in(l[0], n, "line", al.data(), al.size());
    l[0][n] = 0; memcpy(l[1], l[0], n + 1); memcpy(l[2], l[0], n + 1); unsigned k = kset[sx_choose(nk, "request")];
    Out a = conv<0>(f, k, l[0], c.delim), b = conv<1>(m, k, l[1], c.delim), d = conv<2>(x, k, l[2], c.delim); agree(a, b, d); bad += !a.ok; good += a.ok && bad;
    for (auto y : l) delete[] y;
  }
  if (good) sx_reach(1); if (bad > 1) sx_reach(2);
}
#else
template <int E, class F> static Out open(F f) {
  Out o; using P = typename M<E>::parser;
  auto use = [&](P &p) { o.ok = p.valid(); if constexpr (E == 1) o.msg = p.error_msg(); sx_assert(p.eof(), "no record"); sx_assert(!p.ignore_next(), "nothing to skip"); 
    Out r = ask<E>(p, 0); sx_assert(!r.ok, "no record is delivered"); for (auto &s : r.s) sx_assert(s.empty(), "no value"); };
  if constexpr (E == 2) { try { P p = f(); o.ok = true; } catch (const ss::exception &e) { o.threw = true; o.msg = e.what(); } } else { P p = f(); use(p); }
  return o;
}
void sx_main() {
  unsigned how = sx_choose(2, "how"); char name[MAXLEN + 8] = "no_"; size_t n = sx_choose(MAXLEN + 1, "length"); sx_symbolic(name + 3, n, "name"); for (size_t i = 0; i < n; i++) sx_assume((name[3 + i] != 0) & (name[3 + i] != '/')); name[3 + n] = 0; std::string nm(name);
  auto mk0 = [&] { return how ? M<0>::parser{nm, ","} : M<0>::parser{nullptr, n, ","}; }; auto mk1 = [&] { return how ? M<1>::parser{nm, ","} : M<1>::parser{nullptr, n, ","}; }; auto mk2 = [&] { return how ? M<2>::parser{nm, ","} : M<2>::parser{nullptr, n, ","}; };
  Out a = open<0>(mk0), b = open<1>(mk1), x = open<2>(mk2); sx_assert(!a.ok && !b.ok && !x.ok, "opening fails"); agree(a, b, x); sx_reach(1); sx_reach(2);
}
#endif
