// One row, arbitrary bytes: splitter, converter and parser against the model (C02-C05).
#include "setups.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef FILLS            // a long stretch: FILLWITH repeated as often as one of these says, between PRE and the symbolic bytes
#define FILLS 0
#endif
#ifndef FILLWITH
#define FILLWITH "f"
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef DMAX             // > 0: the delimiter is symbolic, 1..DMAX bytes (of DALPHA, if given)
#define DMAX 0
#endif
#ifndef DALPHA
#define DALPHA ""
#endif
using U = Use<>;
static Got split_guarded(U::splitter &s, U::splitter::line_ptr_type b, const std::string &d, ss::split_data &out) {
  Got g;
  if constexpr (ERR == 2) { try { out = s.split(b, d); g.ok = true; } catch (const ss::exception &e) { g.threw = true; g.msg = e.what(); } }
  else { out = s.split(b, d); g.ok = s.valid(); if constexpr (ERR == 1) { g.msg = s.error_msg(); } }
  return g;
}
void sx_main() {
  static const unsigned fills[] = {FILLS}; constexpr unsigned NF = sizeof fills / sizeof *fills; static const char alpha[] = ALPHABET, dalpha[] = DALPHA;
  Cfg c = U::cfg(); std::string delim(c.delim);
  unsigned mode = sx_choose(3, "mode");
  if (DMAX) {
    size_t k = sx_choose(DMAX ? DMAX : 1, "delimiter length") + 1; char d[DMAX + 1];
    if (sizeof dalpha > 1) sx_symbolic_in(d, k, "delimiter", dalpha, sizeof dalpha - 1); else sx_symbolic(d, k, "delimiter");
    for (size_t i = 0; i < k; i++) sx_assume((d[i] != 0) & (d[i] != '\n') & (d[i] != '\r') & !one_of(d[i], c.esc) & !one_of(d[i], c.tl) & !one_of(d[i], c.tr) & !(c.has_quote & (d[i] == c.quote)));
    delim.assign(d, k); c.delim = delim.c_str();
  }
  std::string pre = PRE; if (NF > 1 || fills[0]) { unsigned f = fills[sx_choose(NF, "repeated")]; for (unsigned i = 0; i < f; i++) pre += FILLWITH; }
  const std::string post = POST; size_t m = sx_choose(MAXLEN + 1, "length"), n = pre.size() + m + post.size();
  char *buf = new char[n + 2], *mid = buf + pre.size(); memcpy(buf, pre.data(), pre.size()); memcpy(mid + m, post.data(), post.size());
  if (sizeof alpha > 1) sx_symbolic_in(mid, m, "row", alpha, sizeof alpha - 1); else sx_symbolic(mid, m, "row");
  for (size_t i = 0; i < m; i++) sx_assume(mode == 2 ? (mid[i] != 0) & (mid[i] != '\n') : mid[i] != 0);
  buf[n] = 0; std::string row(buf, n);
  if (mode == 2 && n > 0 && row[n - 1] == '\r') row.pop_back();       // parser: CR LF ends the line
  Row r = model_split(row, c);
  if (r.why == W_NONE) sx_reach(1); else sx_reach(2);
  if (r.f.size() > 1) sx_reach(3);
  if (mode == 0) {
    U::splitter s; ss::split_data d; Got g = split_guarded(s, buf, delim, d);
    if (n == 0) { if (*c.delim) sx_assert(g.ok && d.size() <= 1 && (d.empty() || d[0].first == d[0].second), "empty row"); delete[] buf; return; }
    sx_assert(g.ok == (r.why == W_NONE), "row accepted exactly when well formed");
    if (r.why == W_DELIM) sx_assert(d.empty(), "an empty delimiter yields no columns");
    if (r.why == W_NONE) {
      sx_assert(d.size() == r.f.size(), "number of columns");
      for (size_t i = 0; i < d.size(); i++) { size_t k = d[i].second - d[i].first; sx_assert(k == r.f[i].size(), "length of a column"); sx_assert(memcmp(d[i].first, r.f[i].data(), k) == 0, "bytes of a column"); sx_observe(d[i].first, k); }
    }
  } else if (mode == 1) {
    U::converter cv; Got g;
    auto conv = [&](auto t) { return guarded(cv, [&] { using T = decltype(t); return cv.template convert<T>(buf, delim); }); };
    switch (r.why == W_NONE ? r.f.size() : 9) {
      case 1: g = guarded(cv, [&] { return cv.template convert<S>(buf, delim); }); break;
      case 2: g = conv(V2{}); break; case 3: g = conv(V3{}); break; case 4: g = conv(V4{}); break;
      default: g = guarded(cv, [&] { return cv.template convert<S, S>(buf, delim); }); break; }
    if (r.why == W_NONE && r.f.size() >= 1 && r.f.size() <= 4) { assert_row(g, r.f); sx_reach(4); }
    else if (!(r.why == W_NONE && r.f.size() == 2)) { sx_assert(!g.ok, "row rejected"); assert_default(g); }
    observe(g);
  } else {
    buf[n] = '\n'; U::parser p{buf, n + 1, delim}; sx_assert(!p.eof(), "one record");
    read_expect(p, r, 2); sx_assert(p.eof(), "exactly one record"); sx_reach(5);
  }
  delete[] buf;
}
