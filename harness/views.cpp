// Views handed out for a record are intact until the next read, whatever is queried in between (C28).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef FILLS
#define FILLS 1
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef QRS
#define QRS 2            // queries per record
#endif
#ifndef RECS
#define RECS 1           // records whose views are watched
#endif
#ifndef CONV
#define CONV 0
#endif
using U = Use<>; using P = U::parser; using RV_ = std::string_view;
struct Tie { RV_ a, b; auto tied() { return std::tie(a, b); } };
struct Held { bool ok = false; std::vector<RV_> v; std::vector<std::string> copy; void take(RV_ x) { v.push_back(x); copy.emplace_back(x); } };
static void intact(const Held &h) { for (size_t i = 0; i < h.v.size(); i++) sx_assert(h.v[i].size() == h.copy[i].size() && memcmp(h.v[i].data(), h.copy[i].data(), h.copy[i].size()) == 0, "the view still designates the same text"); }
template <class X> static void pour(Held &h, const X &t) {
  if constexpr (std::is_same_v<X, RV_>) h.take(t); else if constexpr (std::is_same_v<X, Tie>) { h.take(t.a); h.take(t.b); } else std::apply([&](const auto &...x) { (h.take(x), ...); }, t);
}
template <class Q, class F> static Held grab(Q &p, F f) { Held h; if constexpr (ERR == 2) { try { auto t = f(); h.ok = true; pour(h, t); } catch (const ss::exception &) {} } else { auto t = f(); h.ok = p.valid(); if (h.ok) pour(h, t); } return h; }
#if !CONV
template <class F> static void quiet(F f) { if constexpr (ERR == 2) { try { f(); } catch (const ss::exception &) {} } else f(); }
static Held get(P &p, size_t k, unsigned how) {
  if (how == 1 && k == 2) return grab(p, [&] { return p.template get_next<Tie>(); });
  if (how == 1 && k == 1) { bool one = false; Held h = grab(p, [&] { auto x = p.template get_next<std::variant<char, RV_>>(); one = !x.index(); return one ? RV_() : std::get<1>(x); }); return one ? Held() : h; }
  switch (k) { case 1: return grab(p, [&] { return p.template get_next<RV_>(); }); case 2: return grab(p, [&] { return p.template get_next<RV_, RV_>(); }); default: return grab(p, [&] { return p.template get_next<RV_, RV_, RV_>(); }); }
}
static void ask_(P &p, unsigned q) {
  switch (q) {
    case 0: (void)p.eof(); (void)p.line(); (void)p.position(); (void)p.valid(); if constexpr (ERR == 1) (void)p.error_msg().size(); break;
#if !IH
    case 1: quiet([&] { (void)p.header(); }); break;
    case 2: (void)p.raw_header(); break;
    case 3: quiet([&] { (void)p.field_exists("a"); }); break;
    case 4: quiet([&] { p.use_fields("b", "a"); }); break;
    case 5: quiet([&] { p.use_fields("zz"); }); break;
#endif
  }
}
static void drive(P &p, const char *b, size_t t, const Cfg &c) {
  ModelReader m(b, t, c); size_t n = 0, two = 0; bool sel = false; int recs = RECS;
  while (!p.eof() && m.more()) {
    Record r = m.next(); size_t k = r.row.f.size(); if (r.row.why != W_NONE || k == 0 || k > 3) k = 1; if (sel) k = 2;
    bool look = recs > 0 && sx_choose(2, "held"); recs -= look; unsigned how = look ? sx_choose(ERR == 2 ? 2 : 3, "form") : 0; Held h;
#if ERR != 2
    if (how == 2) {
      auto x = p.template try_next<int, int, int, int>(); auto y = x.template or_else<RV_>(); auto v1 = y.values(); if (auto &z = std::get<1>(v1)) { h.ok = true; h.take(*z); }
      auto w = y.template or_else<RV_, RV_>(); intact(h); auto v2 = w.template or_else<RS, RS>().values(); intact(h); if (auto &z = std::get<2>(v2)) { h.ok = true; h.take(std::get<0>(*z)); h.take(std::get<1>(*z)); }
    } else
#endif
      h = get(p, k, how);
    if (h.ok && r.row.why == W_NONE && !sel && r.row.f.size() == h.v.size()) for (size_t i = 0; i < h.v.size(); i++) sx_assert(h.v[i].size() == r.row.f[i].size() && memcmp(h.v[i].data(), r.row.f[i].data(), h.v[i].size()) == 0, "the view is the record's text");
    for (int q = 0; look && q < QRS; q++) { unsigned w = sx_choose(IH ? 2 : 7, "query"); if (w == (IH ? 1 : 6)) break; ask_(p, w); if (w == 4 && p.valid()) sel = true; intact(h); }
    if (h.ok) { n++; for (auto &s : h.copy) sx_observe_str(s); if (h.v.size() > 1) two++; }
  }
  if (n) sx_reach(1); if (two) sx_reach(2);
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0), n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + fill + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), 'f', fill); char *q = b + pre.size() + fill;
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size());
  if (SRC == 1 || (SRC == 2 && sx_choose(2, "source"))) { std::string f = file_name(b, t); P p{f, c.delim}; drive(p, b, t, c); } else { P p{b, t, c.delim}; drive(p, b, t, c); }
  delete[] b;
}
#else
// the converter: views and ranges stay while further conversions are made of the same split
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size(); char *l = new char[t + 1]; memcpy(l, pre.data(), pre.size()); char *q = l + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "line"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "line", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); l[t] = 0; Row r = model_split(std::string(l, t), c);
  { U::converter v; Held h; bool split = sx_choose(2, "split");
    if (split) { const ss::split_data *s = nullptr; if constexpr (ERR == 2) { try { s = &v.split(l, c.delim); } catch (const ss::exception &) {} } else { s = &v.split(l, c.delim); } if (r.why == W_NONE && s) { h.ok = true; for (auto &[b, e] : *s) h.take(RV_(b, e - b)); } }
    else { switch (r.f.size()) { case 1: h = grab(v, [&] { return v.template convert<RV_>(l, c.delim); }); break; case 2: h = grab(v, [&] { return v.template convert<RV_, RV_>(l, c.delim); }); break; default: h = grab(v, [&] { return v.template convert<RV_, RV_, RV_>(l, c.delim); }); } }
    if (h.ok && r.why == W_NONE) { sx_assert(h.v.size() == r.f.size(), "number of columns"); for (size_t i = 0; i < h.v.size(); i++) sx_assert(same_text(h.copy[i], r.f[i]), "the view is the column's text"); }
    if (h.ok) for (int i = 0; i < QRS; i++) { switch (sx_choose(6, "query")) { case 0: grab(v, [&] { (void)v.template convert<RS>(); return RV_(); }); break; case 1: grab(v, [&] { (void)v.template convert<int, std::optional<char>>(); return RV_(); }); break; case 2: grab(v, [&] { return v.template convert<RV_, RV_>(); }); break;
      case 3: (void)v.valid(); if constexpr (ERR == 1) (void)v.error_msg(); break; case 4: grab(v, [&] { (void)v.template convert<RS, RS, bool>(); return RV_(); }); break; default: break; } intact(h); }
    if (h.ok) { sx_reach(1); if (h.v.size() > 1) sx_reach(2); for (auto &s : h.copy) sx_observe_str(s); } }
  delete[] l;
}
#endif
