// Whole inputs: every record, end of input, line, position and message against the reference reader
// (C01, C06, C07, C15, C20, C21).  PRE/POST: concrete text around NSYM..MAXLEN symbolic bytes.
#include "setups.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHA
#define ALPHA 0          // 0: any byte but NUL, 1: the characters special to the setup
#endif
#ifndef SRC
#define SRC 0            // 0: buffer, 1: file, 2: both (split)
#endif
#ifndef SKIP
#define SKIP 0           // 1: at every record choose between reading and skipping a line
#endif
#ifndef FILL
#define FILL 0           // number of fill characters written before the symbolic bytes (after PRE)
#endif
#ifndef FILLS
#define FILLS 1          // fill lengths FILL .. FILL+FILLS-1 are explored
#endif
#ifndef VAL
#define VAL 1            // decide acceptance and values
#endif
#ifndef POS
#define POS 0            // decide position and line
#endif
using U = Use<>;
#define POS_CHECK(c, m) do { if (POS) sx_assert(c, m); } while (0)
template <class P> static void drive(P &p, const char *b, size_t n, const Cfg &c, const std::string &name) {
  ModelReader m(b, n, c); size_t k = 0, bad = 0, many = 0; (void)name;
  while (m.more()) {
    sx_assert(!p.eof(), "a record is left");
    POS_CHECK(p.position() == m.position(), "position is where the next record starts");
    POS_CHECK(p.line() == m.line(), "line is the number of lines before the next record");
    if (SKIP && sx_choose(2, "skip")) { m.skip(); bool more = p.ignore_next(); sx_assert(more == m.more(), "ignore_next tells whether a record is left"); sx_reach(4); continue; }
    Record r = m.next(); Got g; if (VAL) g = read_expect(p, r.row); else { g = next_strings(p, r.row.f.size() ? (r.row.f.size() > MAXCOL ? MAXCOL : r.row.f.size()) : 1); observe(g); } k++; bad += !g.ok; many += r.row.f.size() > 1;
    if (MSG && (ERR == 1 || ERR == 2) && r.row.why != W_NONE) {
      std::string e = name + " " + std::to_string(r.line_end) + ": " + why_msg(r.row);
      if (ML >= 0 && r.row.why == W_MISMATCH) { std::string h = e.substr(0, e.rfind(' ') + 1); sx_assert(g.msg.compare(0, h.size(), h) == 0, "message names input, line and problem"); }
      else sx_assert(g.msg == e, "message names input, line and problem");
    }
    if (k > 0 && r.line_end - r.line_before > 1) sx_reach(5);
  }
  sx_assert(p.eof(), "end of input reported");
  POS_CHECK(p.position() == n, "position at the end");
  POS_CHECK(p.line() == m.line(), "line count at the end");
  Got g = next_strings(p, 2); if (VAL) sx_assert(!g.ok, "no record after the end"); if (VAL) assert_default(g);
  if (MSG && ERR) sx_assert(g.msg == name + ": read on end of file", "message for reading past the end");
  sx_assert(p.eof(), "end of input stays"); POS_CHECK(p.position() == n && p.line() == m.line(), "reading past the end changes nothing");
  if (k == 0) sx_reach(1); if (k >= 2) sx_reach(2); if (bad && k > bad) sx_reach(3); if (many) sx_reach(6);
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = special(c), pre = PRE, post = POST;
  size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0);
  size_t n = MINLEN + sx_choose(MAXLEN - MINLEN + 1, "length");
  unsigned src = SRC == 2 ? sx_choose(2, "source") : SRC;
  size_t total = pre.size() + fill + n + post.size();
  char *b = new char[total ? total : 1]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), 'f', fill); char *q = b + pre.size() + fill;
  if (ALPHA) sx_symbolic_in(q, n, "input", al.data(), al.size()); else { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); }
  memcpy(q + n, post.data(), post.size());
  if (src == 0) { U::parser p{b, total, c.delim}; drive(p, b, total, c, "CSV data buffer"); }
  else { std::string f = file_name(b, total); U::parser p{f, c.delim}; drive(p, b, total, c, f); }
  delete[] b;
}
