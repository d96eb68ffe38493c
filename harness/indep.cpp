// A record's outcome equals that of a fresh reader given only that record (C13).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef KSET
#define KSET 0, 1, 3
#endif
#ifndef REUSE
#define REUSE 0          // 1: one converter on unrelated lines instead of a parser
#endif
#ifndef SRC
#define SRC 0
#endif
using U = Use<>;
static const unsigned kset[] = {KSET}; constexpr unsigned nk = sizeof kset / sizeof *kset;
static unsigned pick() { return nk > 1 ? kset[sx_choose(nk, "request")] : kset[0]; }
// a request together with further conversions of the same record and queries that must not matter
template <class P> static Out request(P &p, unsigned k) {
  if constexpr (ERR != 2) if (k == 20) {
    Out o; p.template try_next<int>().template or_else<RS, RS>([&](const RS &a, const RS &b) { add(o, a); add(o, b); }); o.ok = p.valid(); if constexpr (ERR == 1) o.msg = p.error_msg(); return o; }
  return ask<ERR>(p, k);
}
#if !REUSE
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = MINLEN + sx_choose(MAXLEN - MINLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); std::string name = "CSV data buffer";
  {
    if (SRC) name = file_name(b, t);
    auto open = [&](const char *d, size_t m) { if (SRC && d == b && m == t) return U::parser{name, c.delim}; return U::parser{d, m, c.delim}; };
    U::parser p = open(b, t); ModelReader m(b, t, c); size_t k = 0, bad = 0;
    while (m.more()) {
      size_t at = m.position(); Record r = m.next(); size_t end = r.line_end < m.l.off.size() ? m.l.off[r.line_end] : t; unsigned kind = pick();
      Out a = request(p, kind); U::parser f{b + at, end - at, c.delim}; Out e = request(f, kind);
      observe(a); same_outcome(a, e); if (!a.ok) { same_values(a, e); }
      if (ERR) { std::string x = no_line(a.msg, name), y = no_line(e.msg, "CSV data buffer"); if (SRC && x.compare(0, name.size(), name) == 0) x = "CSV data buffer" + x.substr(name.size()); sx_assert(same_text(x, y), "same message apart from the line"); }
      k++; bad += !a.ok; if (k >= 2 && bad && bad < k) sx_reach(1);
    }
    sx_reach(2);
  }
  delete[] b;
}
#else
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET; U::converter cv; size_t left = MAXLEN; bool bad = false;
  for (int i = 0; i < 3; i++) {
    size_t n = i == 2 ? left : sx_choose(left + 1, "length"); left -= n; char *x = new char[n + 1], *y = new char[n + 1];
    if (al.empty()) { sx_symbolic(x, n, "line"); for (size_t j = 0; j < n; j++) sx_assume((x[j] != 0) & (x[j] != '\n')); } else sx_symbolic_in(x, n, "line", al.data(), al.size());
    x[n] = 0; memcpy(y, x, n + 1); unsigned kind = pick(); U::converter f;
    Out a = conv<ERR>(cv, kind, x, c.delim), e = conv<ERR>(f, kind, y, c.delim);
    observe(a); same_outcome(a, e); if (!a.ok) same_values(a, e); if (ERR) sx_assert(same_text(a.msg, e.msg), "same message");
    if (a.ok && bad) sx_reach(1); bad |= !a.ok; delete[] x; delete[] y;
  }
  sx_reach(2);
}
#endif
