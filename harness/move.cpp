// A parser that is moved at any moment against one that is not (C22); leaks and double frees are decided by the engine.
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef KSET
#define KSET 0, 1
#endif
#ifndef HDR
#define HDR 0
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef MOVES
#define MOVES 2
#endif
#ifndef FILL
#define FILL 0
#endif
using U = Use<>; using P = U::parser; static const unsigned kset[] = {KSET}; constexpr unsigned nk = sizeof kset / sizeof *kset;
static Out op(P &p, unsigned o, unsigned k) {
  if (o == 0) return ask<ERR>(p, k);
#if HDR
  if (o == 1) return outcome<ERR>(p, [&] { if (k) p.use_fields("b", "a"); else p.use_fields("a"); return 0; });
  if (o == 2) return outcome<ERR>(p, [&] { std::string s; for (auto &x : p.header()) { s += x; s += '\1'; } s += p.raw_header(); return s; });
#endif
  return Out();
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + FILL + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), 'f', FILL); char *q = b + pre.size() + FILL;
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); std::string name = file_name(b, t); static const char other[] = "a,b\n\"q\nr\",1\nx,2\n\n"; std::string oname = file_name(other, sizeof other - 1);
  {
    auto open = [&](bool file) { return file ? new P{name, c.delim} : new P{b, t, c.delim}; }; bool file = SRC == 2 ? sx_choose(2, "source") : SRC;
    P *ref = open(file), *p = open(file); P *old[8]; int nold = 0, moves = MOVES; bool moved = false; size_t k = 0; int more = HDR ? 2 : 0;
    for (bool last = false; !last;) {
      if (moves && sx_choose(2, "move")) {
        moves--; moved = true; P *d = nullptr;
        switch (sx_choose(4, "how")) {
          case 0: d = new P(std::move(*p)); break;
          case 1: d = new P{oname, c.delim}; for (unsigned i = sx_choose(4, "reads"); i > 0; i--) (void)ask<ERR>(*d, 1); *d = std::move(*p); break;
          case 2: d = new P{other, sizeof other - 1, "::"}; for (unsigned i = sx_choose(3, "reads"); i > 0; i--) (void)ask<ERR>(*d, 0);
#if HDR
            if (sx_choose(2, "select")) { if (ERR != 2) d->use_fields("a"); }
#endif
            *d = std::move(*p); break;
          default: { P tmp(std::move(*p)); *p = std::move(tmp); } break;                    // and back into the moved-from object
        }
        if (d) { if (sx_choose(2, "order")) delete p; else old[nold++] = p; p = d; }
      }
      last = p->eof(); sx_assert(p->eof() == ref->eof(), "end of input agrees"); sx_assert(p->position() == ref->position(), "position agrees"); sx_assert(p->line() == ref->line(), "line agrees");
      unsigned o = more ? sx_choose(3, "call") : 0, kd = o == 0 ? (nk > 1 ? kset[sx_choose(nk, "request")] : kset[0]) : o == 1 ? sx_choose(2, "fields") : 0; if (o) { more--; last = false; }
      Out x = op(*p, o, kd), y = op(*ref, o, kd); observe(x); same_outcome(x, y); if (!x.ok) same_values(x, y); sx_assert(same_text(x.msg, y.msg), "same message"); k++;
      if (moved && x.ok && k > 1) sx_reach(1); if (moved && !x.ok) sx_reach(2);
    }
    if (sx_choose(2, "destroy first")) { delete p; while (nold) delete old[--nold]; } else { for (int i = 0; i < nold; i++) delete old[i]; delete p; } delete ref;
  }
  delete[] b;
}
