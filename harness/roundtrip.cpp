// Write a table of arbitrary strings as CSV, parse it back (C08).
#include "setups.hpp"
#ifndef ROWS
#define ROWS 2
#endif
#ifndef COLS
#define COLS 2
#endif
#ifndef CELL
#define CELL 2
#endif
#ifndef WRITER
#define WRITER 0         // 0: every column quoted, quotes doubled; 1: special characters escaped; 2: quoted, quotes escaped
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef ALPHA
#define ALPHA 0
#endif
#ifndef TOTAL
#define TOTAL 4          // symbolic bytes in all cells together
#endif
using U = Use<>;
void sx_main() {
  Cfg c = U::cfg(); std::string al = special(c); bool crlf = sx_choose(2, "crlf"), last = WRITER == 1 ? true : sx_choose(2, "terminated"); std::string eol = crlf ? "\r\n" : "\n";
  std::string cell[ROWS][COLS], out, esc = std::string(c.delim) + "\r\n" + c.esc + c.tl + c.tr + (c.has_quote ? std::string(1, c.quote) : "");
  unsigned left = TOTAL; size_t fill = FILL ? FILL - 1 + sx_choose(3, "fill") : 0;
  for (int r = 0; r < ROWS; r++) {
    size_t total = 0;
    for (int k = 0; k < COLS; k++) {
      unsigned top = left < CELL ? left : CELL, n = sx_choose(top + 1, "cell length"); left -= n; char v[CELL + 1]; 
      if (ALPHA) sx_symbolic_in(v, n, "cell", al.data(), al.size()); else { sx_symbolic(v, n, "cell"); for (unsigned i = 0; i < n; i++) sx_assume(v[i] != 0); }
      if (WRITER == 1) for (unsigned i = 0; i < n; i++) sx_assume(v[i] != '\r');
      cell[r][k] = (r == 0 && k == 0 ? std::string(fill, 'f') : std::string()) + std::string(v, n); total += cell[r][k].size();
      if (k) out += c.delim;
      if (WRITER == 1) for (char ch : cell[r][k]) { if (one_of(ch, esc.c_str())) out += c.esc[0]; out += ch; }
      else { out += c.quote; for (char ch : cell[r][k]) { if (WRITER == 0) { if (ch == c.quote) out += ch; if (one_of(ch, c.esc)) out += c.esc[0]; } else if ((unsigned)(ch == c.quote) | (unsigned)one_of(ch, c.esc)) out += c.esc[0]; out += ch; } out += c.quote; }
    }
    if (WRITER == 1 && COLS == 1) sx_assume(total > 0);
    if (r + 1 < ROWS || last) out += eol;
  }
  U::parser p{out.data(), out.size(), c.delim}; size_t breaks = 0;
  for (int r = 0; r < ROWS; r++) {
    sx_assert(!p.eof(), "row is there"); Got g = next_strings(p, COLS); observe(g);
    std::vector<std::string> e(cell[r], cell[r] + COLS); assert_row(g, e);
    for (auto &s : e) breaks += s.find('\n') != std::string::npos;
  }
  sx_assert(p.eof(), "no further row"); sx_reach(1); if (breaks) sx_reach(2);
}
