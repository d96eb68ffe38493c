// The same bytes from a file and from a buffer (C20).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef KSET
#define KSET 0, 1, 3
#endif
#ifndef HDR
#define HDR 0
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef FILLS
#define FILLS 1
#endif
#ifndef EDGE
#define EDGE 0           // 1: the buffer ends where unreadable memory begins
#endif
using U = Use<>; using P = U::parser; static const unsigned kset[] = {KSET}; constexpr unsigned nk = sizeof kset / sizeof *kset;
static std::string strip(const std::string &m, const std::string &name) { if (m.compare(0, name.size(), name) == 0) return "@" + m.substr(name.size()); return m; }
static Out op(P &p, unsigned o, unsigned k) {
  if (o == 0) return ask<ERR>(p, k);
#if HDR
  if (o == 1) return outcome<ERR>(p, [&] { if (k) p.use_fields("b", "a"); else p.use_fields("a"); return 0; });
  if (o == 2) return outcome<ERR>(p, [&] { std::string s; for (auto &x : p.header()) { s += x; s += '\1'; } s += p.raw_header(); return s; });
  return outcome<ERR>(p, [&] { return p.field_exists("a"); });
#endif
  Out r; return r;
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0), n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + fill + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), 'f', fill); char *q = b + pre.size() + fill;
  if (al.empty()) sx_symbolic(q, n, "input"); else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); std::string name = file_name(b, t);
  {
    P f{name, c.delim}, m{b, t, c.delim}; size_t k = 0, good = 0; int more = HDR ? 2 : 0;
    sx_assert(f.valid() == m.valid(), "both open");
    for (bool last = false; !last;) {
      last = f.eof(); sx_assert(f.eof() == m.eof(), "end of input agrees"); sx_assert(f.position() == m.position(), "positions agree"); sx_assert(f.line() == m.line(), "lines agree");
      unsigned o = more ? sx_choose(5, "call") : 0;
      if (o == 4) { more--; last = false; sx_assert(f.ignore_next() == m.ignore_next(), "skipping agrees"); continue; }
      unsigned kd = o == 0 ? (nk > 1 ? kset[sx_choose(nk, "request")] : kset[0]) : o == 1 ? sx_choose(2, "fields") : 0; if (o) { more--; last = false; }
      Out x = op(f, o, kd), y = op(m, o, kd); observe(x); same_outcome(x, y); if (!x.ok) same_values(x, y); sx_assert(same_text(strip(x.msg, name), strip(y.msg, "CSV data buffer")), "same message apart from the name");
      k++; good += x.ok;
    }
    if (k > 2) sx_reach(1); if (good) sx_reach(2);
  }
  delete[] b;
}
