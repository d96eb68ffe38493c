// Chains of alternative conversions (C18).
#include "cols.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef CHAIN
#define CHAIN 0
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef READS
#define READS 0          // 1: plain reads between the chains
#endif
using U = Use<>; using P = U::parser; using S_ = std::string;
struct Obj { int a; S_ b; };
struct Pt { char a{}; int b{}; auto tied() { return std::tie(a, b); } };
static void same(const Obj &x, const Obj &y) { same(x.a, y.a); same(x.b, y.b); }
static void same(const Pt &x, const Pt &y) { same(x.a, y.a); same(x.b, y.b); }
static void obs(const Obj &x) { obs(x.a); obs(x.b); }
static void obs(const Pt &x) { obs(x.a); obs(x.b); }
template <class V, class... R> static bool expect(const Row &r, V &v) {
  if (r.why != W_NONE || r.f.size() != sizeof...(R)) return false;
  if constexpr (std::is_same_v<V, Obj>) { std::tuple<int, S_> t; if (!fill<0, 0, decltype(t), int, S_>(r.f, t)) return false; v.a = std::get<0>(t); v.b = std::get<1>(t); return true; }
  else if constexpr (std::is_same_v<V, Pt>) { std::tuple<char, int> t; if (!fill<0, 0, decltype(t), char, int>(r.f, t)) return false; v.a = std::get<0>(t); v.b = std::get<1>(t); return true; }
  else return fill<0, 0, V, R...>(r.f, v);
}
// what a callback saw
template <class V> struct Log { int calls = 0; bool accept = true; std::optional<V> v; };
struct Sim { const Row &r; bool done = false, called = false;
  template <class V, class... R> void alt(const std::optional<V> &got, const Log<V> &l, bool cb) {
    V e{}; bool c = !done && expect<V, R...>(r, e);
    if (cb) { sx_assert(l.calls == (c ? 1 : 0), "callback runs once, and only for its own successful conversion"); if (c && l.v) ::same(*l.v, e); }
    bool acc = c && (!cb || l.accept); sx_assert(got.has_value() == acc, acc ? "first alternative that fits holds a value" : "other alternatives are empty");
    if (acc) { ::same(*got, e); obs(*got); done = true; }
  } };
static void errs(int n, const Row &r, bool done) { sx_assert(n == (done ? 0 : 1), "error callback runs exactly when nothing fitted so far"); }
// an error callback that is handed the message (only with string errors)
template <class C> static auto fail(C &c, P &p, int &n) {
  if constexpr (ERR == 1) return c.on_error([&](const std::string &m) { n++; sx_assert(!m.empty() && m == p.error_msg(), "error callback is handed the message"); });
  else return c.on_error([&] { n++; }); }
static void look(P &p) { (void)p.eof(); (void)p.line(); (void)p.position(); if constexpr (ERR == 1) (void)p.error_msg(); }
static bool pass() { return sx_choose(2, "accept"); }
// verdicts of other types, all convertible to bool
struct Yes { bool y; explicit operator bool() const { return y; } };
static int verdict_int(bool a) { return a ? 256 : 0; }
static const char *verdict_ptr(bool a) { return a ? "y" : nullptr; }
static std::optional<int> verdict_opt(bool a) { return a ? std::optional<int>(0) : std::nullopt; }
static bool chain(P &p, const Row &r) {
  Sim s{r}; int e0 = 0, e1 = 0;
#if CHAIN == 0
  using A = int; using B = std::tuple<char, int>; using C = std::tuple<S_, S_>; Log<A> la; Log<B> lb; Log<C> lc; size_t len = 0;
  auto v0 = p.try_next<int>([&](const int &x) { la.calls++; la.v = x; return verdict_int(la.accept = pass()); }).or_else<char, int>([&](char a, int b) { lb.calls++; lb.v = B{a, b}; }).on_error([&] { e0++; })
            .or_else<S_, S_>([&](S_ a, S_ b) { lc.calls++; lc.v = C{a, b}; return verdict_opt(lc.accept = pass()); }); auto w = fail(v0, p, e1).values(); auto &v = w;
  s.alt<A, int>(std::get<0>(v), la, true); s.alt<B, char, int>(std::get<1>(v), lb, true); errs(e0, r, s.done); s.alt<C, S_, S_>(std::get<2>(v), lc, true); errs(e1, r, s.done); (void)len;
#elif CHAIN == 1
  Log<Obj> la; Log<Pt> lb; Log<S_> lc;
  auto v = p.try_object<Obj, int, S_>([&](const Obj &o) { la.calls++; la.v = o; return verdict_ptr(la.accept = pass()); }).on_error([&] { e0++; }).or_else<Pt>([&](const Pt &o) { lb.calls++; lb.v = o; }).or_else<S_>([&] { lc.calls++; return lc.accept = pass(); }).on_error([&] { e1++; }).values();
  s.alt<Obj, int, S_>(std::get<0>(v), la, true); errs(e0, r, s.done); s.alt<Pt, char, int>(std::get<1>(v), lb, true); s.alt<S_, S_>(std::get<2>(v), lc, true); errs(e1, r, s.done);
#elif CHAIN == 2
  using A = std::tuple<int, int>; using B = std::tuple<std::optional<int>, S_>; using C = char; Log<A> la; Log<B> lb; Log<C> lc; Log<Obj> ld;
  auto v = p.try_next<ss::ax<int, 1>, int>([&](const A &t) { la.calls++; la.v = t; return la.accept = pass(); }).or_object<Obj, int, ss::ne<S_>>([&](const Obj &o) { ld.calls++; ld.v = o; return Yes{ld.accept = pass()}; }).or_else<char>().or_else<std::optional<int>, S_>([&](const B &t) { lb.calls++; lb.v = t; }).on_error([&] { e1++; }).values();
  s.alt<A, ss::ax<int, 1>, int>(std::get<0>(v), la, true); { Obj e{}; (void)e; std::tuple<int, S_> t; bool c = !s.done && r.why == W_NONE && r.f.size() == 2 && fill<0, 0, decltype(t), int, ss::ne<S_>>(r.f, t); sx_assert(ld.calls == (c ? 1 : 0), "callback runs once, and only for its own successful conversion");
    bool acc = c && ld.accept; sx_assert(std::get<1>(v).has_value() == acc, "object alternative"); if (acc) { same(std::get<1>(v)->a, std::get<0>(t)); same(std::get<1>(v)->b, std::get<1>(t)); s.done = true; } }
  s.alt<C, char>(std::get<2>(v), lc, false); s.alt<B, std::optional<int>, S_>(std::get<3>(v), lb, true); errs(e1, r, s.done);
#else
  // stored between the steps, with the state of the parser queried in between
  using A = std::tuple<S_, int>; Log<A> la; Log<int> lb; Log<S_> lc; auto c1 = p.try_next<S_, int>([&](const S_ &a, const int &b) { la.calls++; la.v = A{a, b}; }); look(p);
  auto c2 = c1.or_else<int>([&](int x) { lb.calls++; lb.v = x; return lb.accept = pass(); }); look(p); auto v1 = c2.values(); c2.on_error([&] { e0++; }); auto v = c2.or_else<S_>([&](const S_ &x) { lc.calls++; lc.v = x; return lc.accept = pass(); }).on_error([&] { e1++; }).values();
  s.alt<A, S_, int>(std::get<0>(v1), la, true); s.alt<int, int>(std::get<1>(v1), lb, true); errs(e0, r, s.done); bool had = s.done; s.alt<S_, S_>(std::get<2>(v), lc, true); errs(e1, r, s.done); (void)had;
#endif
  sx_assert(p.valid() == s.done, s.done ? "record is valid" : "record is invalid when nothing fits");
  unsigned char k = s.done; sx_observe(&k, 1); return s.done;
}
static void drive(P &p, const char *b, size_t n, const Cfg &c) {
  ModelReader m(b, n, c); size_t k = 0, good = 0; bool badrow = false;
  for (;;) {
    bool more = m.more(); sx_assert(p.eof() == !more, "end of input"); size_t pos = m.position(); (void)pos;
    Record r; if (more) r = m.next(); else r.row.why = W_QUOTE;
    if (READS && more && sx_choose(2, "plain read")) { read_expect(p, r.row); continue; }
    if (r.row.why != W_NONE && more) badrow = true;
    bool ok = chain(p, r.row); k++; good += ok; sx_assert(p.eof() == !m.more(), "one record is consumed");
    if (!more) break;
  }
  if (good) sx_reach(1); if (k > good + 1) sx_reach(2); if (good > 1) sx_reach(3); if (badrow) sx_reach(4);
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size());
  if (SRC) { std::string f = file_name(b, t); P p{f, c.delim}; drive(p, b, t, c); } else { P p{b, t, c.delim}; drive(p, b, t, c); }
  delete[] b;
}
