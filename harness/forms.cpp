// Every form of reading against reading record by record (C19).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef MAPPED
#define MAPPED 0         // 1: header a,b,c; fields c,a selected first
#endif
using U = Use<>; using P = U::parser; using S_ = std::string;
struct Obj { int a; S_ b; };
struct Tie { int a{}; S_ b; auto tied() { return std::tie(a, b); } };
struct Ctor { int n; S_ t; Ctor() : n(0) {} Ctor(int x, S_ y) : n(x), t(std::move(y)) {} };
using T2 = std::tuple<int, S_>;
struct Snap { bool ok = false; int a = 0; S_ b; bool threw = false; };
static void set(Snap &s, const T2 &t) { s.a = std::get<0>(t); s.b = std::get<1>(t); }
static void set(Snap &s, const Obj &t) { s.a = t.a; s.b = t.b; }
static void set(Snap &s, const Tie &t) { s.a = t.a; s.b = t.b; }
static void set(Snap &s, const Ctor &t) { s.a = t.n; s.b = t.t; }
template <class F> static Snap get(P &p, F f) { Snap s; if constexpr (ERR == 2) { try { set(s, f()); s.ok = true; } catch (const ss::exception &) { s.threw = true; } } else { set(s, f()); s.ok = p.valid(); } return s; }
struct Ref_ { std::vector<Snap> r; };
static void cmp(const Ref_ &r, size_t i, const Snap &s) {
  sx_assert(i < r.r.size(), "no record more than there are"); const Snap &e = r.r[i]; sx_assert(s.ok == e.ok, e.ok ? "same record accepted" : "same record rejected");
  if (ERR != 2 || s.ok) { sx_assert(s.a == e.a, "same number"); sx_assert(same_text(s.b, e.b), "same text"); }
  unsigned char k = s.ok; sx_observe(&k, 1); sx_observe(&s.a, 4); sx_observe_str(s.b);
}
template <class It, class V> static void see(P &p, const Ref_ &r, size_t &i, It &it, V *) { Snap s; set(s, *it); s.ok = p.valid(); Snap t; set(t, *it.operator->()); sx_assert(t.a == s.a && same_text(t.b, s.b), "both accesses give the same"); cmp(r, i++, s); }
// iterate by hand; errors raised by an increment count as the record
template <class R> static size_t walk(P &p, const Ref_ &r, R range, unsigned how) {
  size_t i = 0;
  if constexpr (ERR != 2) {
    if (how == 0) { for (auto &v : range) { Snap s; set(s, v); s.ok = p.valid(); cmp(r, i++, s); } return i; }
    auto it = range.begin(); auto end = range.end();
    { auto &self = it; sx_assert(it == self && !(it != self) && end == range.end(), "an iterator equals itself"); }
    while (it != end) { sx_assert(!(it == end), "iterator comparison"); Snap s; set(s, *it); s.ok = p.valid(); cmp(r, i++, s); if (how == 1) ++it; else { auto old = it++; Snap o; set(o, *old); sx_assert(o.a == s.a && same_text(o.b, s.b), "post-increment returns the previous record"); } }
    sx_assert(it == range.end(), "end is reached"); return i;
  } else {
    using It = decltype(range.begin()); std::optional<It> it; while (!it) { bool was = p.eof(); try { it.emplace(range.begin()); } catch (const ss::exception &) { sx_assert(!was, "an increment at the end raises nothing"); Snap s; s.threw = true; cmp(r, i++, s); } }
    auto end = range.end();
    while (*it != end) {
      Snap s; set(s, **it); s.ok = true; cmp(r, i++, s);
      for (;;) { try { if (how == 1) ++*it; else (void)(*it)++; break; } catch (const ss::exception &) { Snap x; x.threw = true; cmp(r, i++, x); } }
    }
    return i;
  }
}
static P open(const char *b, size_t t, const std::string &f, const Cfg &c) { return SRC ? P{f, c.delim} : P{b, t, c.delim}; }
static void prep(P &p) {
#if MAPPED
  p.use_fields("c", "a");
#endif
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); std::string f; if (SRC) f = file_name(b, t);
  {
    Ref_ r; size_t good = 0; { P p = open(b, t, f, c); prep(p); while (!p.eof()) { r.r.push_back(get(p, [&] { return p.template get_next<int, S_>(); })); good += r.r.back().ok; } }
    P p = open(b, t, f, c); prep(p); size_t i = 0; unsigned form = sx_choose(13, "form");
    auto direct = [&](auto fn) { while (!p.eof()) { Snap s = get(p, fn); cmp(r, i++, s); } };
    switch (form) {
      case 0: direct([&] { return p.template get_next<std::tuple<int, S_>>(); }); break;
      case 1: direct([&] { return p.template get_object<Obj, int, S_>(); }); break;
      case 2: direct([&] { return p.template get_next<Tie>(); }); break;
      case 3: direct([&] { return p.template get_object<Ctor, std::tuple<int, S_>>(); }); break;
      case 4: i = walk(p, r, p.template iterate<int, S_>(), ERR == 2 ? 1 : 0); break;
      case 5: i = walk(p, r, p.template iterate<int, S_>(), 1); break;
      case 6: i = walk(p, r, p.template iterate<std::tuple<int, S_>>(), 2); break;
      case 7: i = walk(p, r, p.template iterate_object<Obj, int, S_>(), ERR == 2 ? 2 : 0); break;
      case 8: i = walk(p, r, p.template iterate_object<Ctor, int, S_>(), 1); break;
      case 9: i = walk(p, r, p.template iterate_object<Obj, int, S_>(), 2); break;
      case 10: i = walk(p, r, p.template iterate<Tie>(), 2); break;
      case 11: if constexpr (ERR != 2) { while (!p.eof()) { Snap s; auto v = std::get<0>(p.template try_next<int, S_>().values()); s.ok = v.has_value(); if (v) set(s, *v); cmp(r, i++, s); } break; } else { direct([&] { return p.template get_object<Ctor, int, S_>(); }); break; }
      default: { bool one = sx_choose(2, "first"); if (one && !p.eof()) { Snap s = get(p, [&] { return p.template get_next<int, S_>(); }); cmp(r, i++, s); } size_t k = i; // reading and iterating mixed
        if constexpr (ERR != 2) { for (auto &v : p.template iterate<int, S_>()) { Snap s; set(s, v); s.ok = p.valid(); cmp(r, k++, s); if (!p.eof() && k < 4) { Snap y = get(p, [&] { return p.template get_next<Tie>(); }); cmp(r, k++, y); } } } else k = r.r.size(), (void)0;
        if (ERR == 2) { while (!p.eof()) { Snap s = get(p, [&] { return p.template get_next<Tie>(); }); cmp(r, i++, s); } k = i; } i = k; }
    }
    sx_assert(i == r.r.size(), "every record once"); sx_assert(p.eof(), "at the end"); if (r.r.empty()) sx_reach(1); if (good >= 2) sx_reach(2); if (r.r.size() > good + 1) sx_reach(3);
  }
  delete[] b;
}
