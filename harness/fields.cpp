// Field selection and header queries against the reference (C16, C17).  Input: HDR (concrete or symbolic) + rows.
#include "setups.hpp"
#ifndef HSYM
#define HSYM 0           // symbolic bytes of the header row (after HPRE, before HPOST)
#endif
#ifndef HPRE
#define HPRE "a,b,c\n"
#endif
#ifndef HPOST
#define HPOST ""
#endif
#ifndef DSYM
#define DSYM 3           // symbolic bytes of the data (after DPRE, before DPOST)
#endif
#ifndef DPRE
#define DPRE ""
#endif
#ifndef DPOST
#define DPOST "\n"
#endif
#ifndef ALPHABET
#define ALPHABET "ab,\n"
#endif
#ifndef OPS
#define OPS 3            // 1 read, 2 use_fields, 4 header, 8 raw_header, 16 field_exists, 32 ignore_next, 64 two more field lists with unknown names
#endif
#ifndef SELS
#define SELS 2           // selections
#endif
#ifndef QRS
#define QRS 2            // queries
#endif
#ifndef NAMESYM
#define NAMESYM 2        // length of symbolic field names in queries
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef ANYTYPES
#define ANYTYPES 1       // requests with 1, 2 and 3 types (0: as many as selected)
#endif
#ifndef LAST
#define LAST 0           // 1: selections name the last columns (2: also one from the middle)
#endif
#ifndef GOOD
#define GOOD 0           // 1: only valid selections
#endif
using U = Use<>; using P = U::parser; using Names = std::vector<std::string>;
struct Call { bool ok = false, threw = false; };
template <class F> static Call attempt(P &p, F f) { Call c; if constexpr (ERR == 2) { try { f(); c.ok = true; } catch (const ss::exception &) { c.threw = true; } } else { f(); c.ok = p.valid(); } return c; }
static bool eq(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static int index_of(const Names &h, const std::string &x) { for (size_t i = 0; i < h.size(); i++) if (eq(h[i], x)) return i; return -1; }
static void select(P &p, const Names &s) {
  switch (s.size()) { case 0: p.use_fields(); break; case 1: p.use_fields(s[0]); break; case 2: p.use_fields(s[0], s[1]); break; case 3: p.use_fields(s[0], s[1], s[2]); break; default: p.use_fields(s[0], s[1], s[2], s[3]); }
}
static void drive(P &p, const char *b, size_t t, const Cfg &c) {
  ModelReader m(b, t, c); bool any = m.more(), fresh = true, split = false; std::string raw = any ? m.l.body[m.i] : std::string(); Cfg hc = c; hc.multi = -1;
  Row h = model_split(raw, hc); bool bad = h.why != W_NONE, dup = false, shown = any && !raw.empty(); for (size_t i = 0; i < h.f.size(); i++) for (size_t j = 0; j < i; j++) if (!dup && eq(h.f[i], h.f[j])) dup = true;
  std::vector<size_t> sel; int sels = SELS, qrs = QRS; bool chosen = false, rows = false; Names known = bad || dup ? Names() : h.f;
  for (;;) {
    unsigned ops[7], n = 0; if (OPS & 1) ops[n++] = 1; 
    if ((OPS & 2) && sels > 0 && !(p.eof() && !split)) ops[n++] = 2;
    for (unsigned o = 4; o <= 32; o *= 2) if ((OPS & o) && qrs > 0) ops[n++] = o;
    unsigned op = n > 1 ? ops[sx_choose(n, "call")] : ops[0];
    if (op == 1) {
      if (!m.more()) { sx_assert(p.eof(), "end of input"); break; }
      sx_assert(!p.eof(), "a record is left"); fresh = false; Record r = m.next(); Row e = r.row; size_t k;
      if (!ANYTYPES) k = !sel.empty() ? sel.size() : e.f.size() >= 1 && e.f.size() <= 4 ? e.f.size() : 1; else k = 1 + sx_choose(3, "types");
      if (e.why == W_NONE) { bool fits = sel.empty() ? e.f.size() == k : k == sel.size() && e.f.size() == h.f.size(); if (!fits) e.why = W_MISMATCH; else if (!sel.empty()) { Names v; for (size_t i : sel) v.push_back(e.f[i]); e.f = v; } }
      if (e.why == W_NONE && !sel.empty()) sx_reach(1); if (e.why != W_NONE && !sel.empty()) sx_reach(2); if (rows && e.why == W_NONE && chosen) sx_reach(3); rows = true;
      Got g = next_strings(p, k); observe(g); if (e.why == W_NONE) assert_row(g, e.f); else { sx_assert(!g.ok, "record is rejected"); assert_default(g); }
    } else if (op == 2) {
      sels--; Names s; bool ok = true;
      if (GOOD) { unsigned w = sx_choose(known.size() >= 3 ? 9 : known.size() == 2 ? 4 : 1, "selection"); static const char *perm[9] = {"0", "1", "01", "10", "2", "20", "12", "210", "201"}; if (known.empty()) return; for (const char *q = perm[w]; *q; q++) s.push_back(known[LAST ? known.size() - 1 - (*q - '0') * (LAST == 2 ? known.size() / 3 : 1) : *q - '0']); }
      else {
        unsigned w = sx_choose(8, "selection"); const std::string x = h.f.size() > 0 ? h.f[0] : "a", y = h.f.size() > 1 ? h.f[1] : "b", z = h.f.size() > 2 ? h.f[2] : "c";
        switch (w) { case 0: s = {x}; break; case 1: s = {y, x}; break; case 2: s = {z, x, y}; break; case 3: s = {}; break; case 4: s = {y, y}; break; case 5: s = {x, "zz"}; break; case 6: s = {z, x, y, x}; break; default: s = {"q", y}; }
      }
      bool nowEof = p.eof();
      for (size_t i = 0; i < s.size(); i++) { for (size_t j = 0; j < i; j++) if (ok && eq(s[i], s[j])) ok = false; if (ok && index_of(known, s[i]) < 0) ok = false; } if (s.empty()) ok = false;
      if (!nowEof) split = true;
      Call g = attempt(p, [&] { select(p, s); }); bool empty_name = false; for (auto &x : s) if (x.empty()) empty_name = true;
      if (!shown && empty_name) return;                            // header of one empty name: not specified
      sx_assert(g.ok == ok, ok ? "selection is accepted" : "selection is an error");
      if (ok) { sel.clear(); for (auto &x : s) sel.push_back(index_of(known, x)); chosen = true; if (fresh) { m.skip(); fresh = false; } } else sx_reach(4);
    } else if (op == 4) {
      qrs--; Names r; Call g = attempt(p, [&] { r = p.header(); }); if (!shown) continue;
      sx_assert(g.ok == !bad, bad ? "header cannot be parsed" : "header is parsed"); if (bad) { sx_assert(r.empty(), "no header"); continue; }
      sx_assert(r.size() == h.f.size(), "number of header columns"); for (size_t i = 0; i < r.size(); i++) { sx_assert(eq(r[i], h.f[i]), "header column"); sx_observe_str(r[i]); } sx_reach(5);
    } else if (op == 8) { qrs--; std::string r = p.raw_header(); sx_assert(eq(r, raw), "raw header is the first row"); sx_observe_str(r); sx_reach(6); }
    else if (op == 16) {
      qrs--; size_t far = h.f.size() > 8 ? h.f.size() - 8 : 0; unsigned n_ = sx_choose(NAMESYM + 1 + h.f.size() - far, "name"); std::string x; if (n_ <= NAMESYM) { char v[NAMESYM + 1]; sx_symbolic_in(v, n_, "field", ALPHABET, sizeof ALPHABET - 1); x.assign(v, n_); } else x = h.f[far + n_ - NAMESYM - 1];
      bool r = false; Call g = attempt(p, [&] { r = p.field_exists(x); }); split = true; if (!shown && x.empty()) continue; if (!any) { sx_assert(!r, "no such field"); continue; }
      sx_assert(g.ok == !(bad || dup), "header error is reported"); sx_assert(r == (index_of(known, x) >= 0), "field exists"); if (r) sx_reach(7);
    } else if (op == 32) { qrs--; fresh = fresh && !m.more(); bool had = m.more(); if (had) m.skip(); bool r = p.ignore_next(); sx_assert(r == m.more(), "ignore_next tells whether a record is left"); }
  }
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, hp = HPRE, ho = HPOST, dp = DPRE, po = DPOST; size_t hn = sx_choose(HSYM + 1, "header length"), dn = sx_choose(DSYM + 1, "data length"), t = hp.size() + hn + ho.size() + dp.size() + dn + po.size();
  char *b = new char[t ? t : 1], *q = b; memcpy(q, hp.data(), hp.size()); q += hp.size(); sx_symbolic_in(q, hn, "header", al.data(), al.size()); q += hn; memcpy(q, ho.data(), ho.size()); q += ho.size();
  memcpy(q, dp.data(), dp.size()); q += dp.size(); sx_symbolic_in(q, dn, "data", al.data(), al.size()); q += dn; memcpy(q, po.data(), po.size());
  if (SRC) { std::string f = file_name(b, t); P p{f, c.delim}; drive(p, b, t, c); } else { P p{b, t, c.delim}; drive(p, b, t, c); }
  delete[] b;
}
