// Two builds of the same parser driven in lockstep: the single-header copy against the modular headers (C24), or the
// same options in another order or nesting (C27).  Every observable result has to be the same.
#include "ask.hpp"
#include <iterator>
#include <memory>
#ifndef TWIN
#define TWIN 0           // 0: single header; k > 0: packing k of the options
#endif
#if TWIN == 0
#ifndef OPTS
#define OPTS(N)
#endif
#define ss ssp1
#pragma push_macro("ASSERT_MSG")
#undef ASSERT_MSG
#include <ssp.hpp>
#pragma pop_macro("ASSERT_MSG")
#undef ss
#endif
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef FILLS
#define FILLS 1
#endif
#ifndef KSET
#define KSET 0, 1
#endif
#ifndef OPSET
#define OPSET 0          // extra calls allowed: 1 skip, 2 fields, 3 header, 4 field_exists, 5 chain, 6 iteration, 7 move
#endif
#ifndef CALLS
#define CALLS 0
#endif
#ifndef SRC
#define SRC 0            // 0 buffer, 1 file, 2 both
#endif
#ifndef CONV
#define CONV 0           // 1: converters, 2: opening errors
#endif
#ifndef DELIM
#define DELIM ","
#endif
#define SIDE(NAME, N)                                                                                                   \
  struct NAME##_ns {                                                                                                    \
    using X = N::exception; using int8 = N::int8; using uint8 = N::uint8;                                                \
    template <class T, auto... V> using ax = N::ax<T, V...>; template <class T, auto... V> using nx = N::nx<T, V...>;    \
    template <class T, auto V> using gt = N::gt<T, V>; template <class T, auto V> using gte = N::gte<T, V>;              \
    template <class T, auto V> using lt = N::lt<T, V>; template <class T, auto V> using lte = N::lte<T, V>;              \
    template <class T, auto A, auto B> using ir = N::ir<T, A, B>; template <class T, auto A, auto B> using oor = N::oor<T, A, B>; \
    template <class T> using ne = N::ne<T>; template <class T> static bool ext(const char *b, const char *e, T &v) { return N::extract(b, e, v); } \
  };
SIDE(A, ss)
#if TWIN == 0
SIDE(B, ssp1)
struct A : A_ns { using parser = ss::parser<OPTS(ss)>; using converter = ss::converter<OPTS(ss)>; };
struct B : B_ns { using parser = ssp1::parser<OPTS(ssp1)>; using converter = ssp1::converter<OPTS(ssp1)>; };
#else
// further packings: 4 rotated into a tuple, 5 rotated into a setup of a setup, 6 reversed into a setup of a tuple, 7 reversed, three setups deep, 8 reversed, 9 rotated, 10 first two swapped
template <class P> struct as_tuple; template <class... O> struct as_tuple<Pack<O...>> { using type = std::tuple<O...>; };
template <int K, class P> struct twist; template <int K, class... O> struct twist<K, Pack<O...>> { using type = typename pack_<K, O...>::type; };
template <class A, class... O> struct twist<4, Pack<A, O...>> { using type = Pack<std::tuple<O..., A>>; };
template <class A, class... O> struct twist<5, Pack<A, O...>> { using type = Pack<ss::setup<ss::setup<O..., A>>>; };
template <class... O> struct twist<6, Pack<O...>> { using type = Pack<ss::setup<typename as_tuple<typename rev_<O...>::type>::type>>; };
template <class... O> struct twist<7, Pack<O...>> { using type = Pack<ss::setup<ss::setup<typename as_setup<typename rev_<O...>::type>::type>>>; };
template <class... O> struct twist<8, Pack<O...>> { using type = typename rev_<O...>::type; };
template <class A, class... O> struct twist<9, Pack<A, O...>> { using type = Pack<O..., A>; };
template <class A, class B, class... O> struct twist<10, Pack<A, B, O...>> { using type = Pack<B, A, O...>; };
// 20+k: rotated by k, 40+k: reversed and rotated by k
template <int N, class P> struct turn { using type = P; };
template <int N, class A, class... O> struct turn<N, Pack<A, O...>> : std::conditional_t<(N > 0), turn<(N > 0 ? N - 1 : 0), Pack<O..., A>>, turn<-1, void>> {};
template <class A, class... O> struct turn<0, Pack<A, O...>> { using type = Pack<A, O...>; };
template <class P> struct back; template <class... O> struct back<Pack<O...>> { using type = typename rev_<O...>::type; };
template <int K, class P> struct order { using type = std::conditional_t<(K >= 40), typename turn<(K >= 40 ? K - 40 : 0), typename back<P>::type>::type, typename turn<(K >= 20 && K < 40 ? K - 20 : 0), P>::type>; };
template <int K, class P, bool = (K >= 20)> struct chosen : order<K, P> {};
template <int K, class P> struct chosen<K, P, false> : twist<K, P> {};
using O_ = Use<>::opts;
struct A : A_ns { using parser = to_parser0<O_>::type; using converter = to_parser0<O_>::conv; };
struct B : A_ns { using parser = to_parser0<chosen<TWIN, O_>::type>::type; using converter = to_parser0<chosen<TWIN, O_>::type>::conv; };
#endif
struct Obj { int a{}; RS b; };
struct Tie { char a{}; RS b; auto tied() { return std::tie(a, b); } };
template <class T> struct Odd { bool ss_valid(const T &v) const { return v % 2; } const char *error() const { return "not odd"; } };
static void add(Out &o, const Obj &x) { add(o, x.a); add(o, x.b); }
static void add(Out &o, const Tie &x) { add(o, x.a); add(o, x.b); }
template <class S, class T> struct num_of { static const T &get(const T &v) { return v; } };
template <class W> static auto val(const W &w) -> decltype(w.value) { return w.value; }
template <class Sd, class Ask> static Out req(unsigned k, Ask a) {
  using int8 = typename Sd::int8; using uint8 = typename Sd::uint8;
  switch (k) {
    case 9: return a(tag<typename Sd::template ax<int, 1, 7>, RS>{}, [](auto x) { return x; });
    case 10: return a(tag<typename Sd::template ne<RS>, typename Sd::template ir<int, 3, 12>>{}, [](auto x) { return x; });
    case 11: return a(tag<int8, uint8>{}, [](auto x) { return std::make_tuple(val(std::get<0>(x)), val(std::get<1>(x))); });
    case 12: return a(tag<typename Sd::template oor<short, -1, 5>, typename Sd::template gte<long, 4>>{}, [](auto x) { return x; });
    case 13: return a(tag<void, typename Sd::template lt<unsigned, 9>, typename Sd::template lte<char, 'b'>>{}, [](auto x) { return x; });
    case 14: return a(tag<typename Sd::template nx<int, 1, 2>, typename Sd::template gt<int, 0>>{}, [](auto x) { return x; });
    case 15: return a(tag<Odd<int>, RS>{}, [](auto x) { return x; });
    case 16: return a(tag<Tie>{}, [](auto x) { return x; });
    case 17: return a(tag<std::optional<char>, std::variant<bool, char>>{}, [](auto x) { return x; });
    case 18: return a(tag<typename Sd::template ir<uint8, 3, 200>, bool>{}, [](auto x) { return std::make_tuple(val(std::get<0>(x)), std::get<1>(x)); });
    case 19: return a(tag<typename Sd::template ax<char, 'a', '1'>, unsigned long long>{}, [](auto x) { return x; });
    case 20: return a(tag<double, float>{}, [](auto x) { return x; });
    default: return by_kind(k, [&](auto t) { return a(t, [](auto x) { return x; }); });
  }
}
template <class Sd, class P, class... T, class F> static Out one(P &p, tag<T...>, F f) { return outcome<ERR, typename Sd::X>(p, [&] { return f(p.template get_next<T...>()); }); }
template <class Sd> static Out read(typename Sd::parser &p, unsigned k) {
  using X = typename Sd::X;
  if (k == 30) return outcome<ERR, X>(p, [&] { return p.template get_object<Obj, int, RS>(); });
  return req<Sd>(k, [&](auto t, auto f) { return one<Sd>(p, t, f); });
}
static unsigned pick(unsigned n, const char *what) { return n > 1 ? sx_choose(n, what) : 0; }
template <class Sd> static Out other(std::unique_ptr<typename Sd::parser> &q, unsigned o, unsigned k) {
  using X = typename Sd::X; using P = typename Sd::parser; P &p = *q;
  switch (o) {
    case 1: { Out r = outcome<ERR, X>(p, [&] { return p.ignore_next(); }); if constexpr (ERR != 2) { r.ok = true; r.msg.clear(); } return r; }
#if !IH && !defined(NOHDR)
    case 2: return outcome<ERR, X>(p, [&] { switch (k) { case 0: p.use_fields("a"); break; case 1: p.use_fields("b", "a"); break; case 2: p.use_fields("b", "zz"); break; default: p.use_fields("a", "a"); } return 0; });
    case 3: return outcome<ERR, X>(p, [&] { std::string s = p.raw_header() + "|"; for (auto &x : p.header()) { s += x; s += '|'; } return s; });
    case 4: return outcome<ERR, X>(p, [&] { return p.field_exists(k ? "b" : "a"); });
#endif
#if ERR != 2
    case 5: { Out r; int e = 0; auto v = p.template try_next<int, RS>([&](int x, const RS &) { r.v.push_back(x); return x != 2; }).on_error([&] { e++; }).template or_object<Obj, int>([&](const Obj &y) { r.v.push_back(y.a); }).template or_else<Tie>([&] { r.v.push_back(77); }).template or_else<RS, RS, RS>().on_error([&] { e += 10; }).values();
      r.ok = p.valid(); r.v.push_back(e); if (auto &x = std::get<0>(v)) add(r, *x); if (auto &x = std::get<1>(v)) add(r, *x); if (auto &x = std::get<2>(v)) add(r, *x); if (auto &x = std::get<3>(v)) add(r, *x); if constexpr (ERR == 1) r.msg = p.error_msg(); return r; }
    case 6: { Out r; int n = 0; if (k) { for (auto &x : p.template iterate<int, RS>()) { add(r, x); r.v.push_back(p.valid()); if (++n > 2) break; } } else { auto i = p.template iterate_object<Obj, int, RS>(); for (auto it = i.begin(); it != i.end() && n < 3; it++, n++) { add(r, *it); r.v.push_back(p.valid()); } } r.ok = true; return r; }
#endif
    default: q = std::make_unique<P>(std::move(p)); return Out();
  }
}
static void agree(const Out &a, const Out &b) { sx_assert(a.ok == b.ok, "same verdict"); sx_assert(a.threw == b.threw, "same error raised"); same_values(a, b); sx_assert(same_text(a.msg, b.msg), "same message"); observe(a); }
#if CONV == 0
static const unsigned kset[] = {KSET}, opset[] = {OPSET};
static void drive(std::unique_ptr<A::parser> a, std::unique_ptr<B::parser> b) {
  int calls = CALLS; size_t k = 0, bad = 0, good = 0;
  for (bool last = false; !last;) {
    last = a->eof(); sx_assert(a->eof() == b->eof(), "same end of input"); sx_assert(a->line() == b->line(), "same line"); sx_assert(a->position() == b->position(), "same position"); if constexpr (ERR != 2) sx_assert(a->valid() == b->valid(), "same validity");
    if (calls && sx_choose(2, "call")) { calls--; last = false; unsigned o = opset[pick(sizeof opset / sizeof *opset, "which")], w = o == 2 ? sx_choose(4, "fields") : o == 4 || o == 6 ? sx_choose(2, "variant") : 0; Out x = other<A>(a, o, w), y = other<B>(b, o, w); agree(x, y); continue; }
    unsigned q = kset[pick(sizeof kset / sizeof *kset, "request")]; Out x = read<A>(*a, q), y = read<B>(*b, q); agree(x, y); k++; (x.ok ? good : bad)++;
  }
  if (good) sx_reach(1); if (bad > 1) sx_reach(2);
}
void sx_main() {
  std::string al = ALPHABET, pre = PRE, post = POST, de = DELIM; size_t fill = FILL + (FILLS > 1 ? sx_choose(FILLS, "fill") : 0), n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + fill + n + post.size();
#if TWIN
  de = Use<>::cfg().delim;
#endif
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); memset(b + pre.size(), 'f', fill); char *q = b + pre.size() + fill;
  if (al.empty()) sx_symbolic(q, n, "input"); else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size());
  if (SRC == 1 || (SRC == 2 && sx_choose(2, "source"))) { std::string f = file_name(b, t); drive(std::make_unique<A::parser>(f, de), std::make_unique<B::parser>(f, de)); }
  else drive(std::make_unique<A::parser>(b, t, de), std::make_unique<B::parser>(b, t, de));
  delete[] b;
}
#elif CONV == 1
static const unsigned kset[] = {KSET};
template <class Sd, class C, class... T, class F> static Out cv(C &c, tag<T...>, F f, unsigned how, char *l, const std::string &d) {
  using X = typename Sd::X;
  if (how == 0) return outcome<ERR, X>(c, [&] { return f(c.template convert<T...>(l, d)); });
  if (how == 1) return outcome<ERR, X>(c, [&] { c.split(l, d); return f(c.template convert<T...>()); });
  return outcome<ERR, X>(c, [&] { auto &s = c.split(l, d); if (!c.valid()) return decltype(f(c.template convert<T...>(s))){}; return f(c.template convert<T...>(s)); });
}
template <class Sd> static Out go(typename Sd::converter &c, unsigned k, unsigned how, char *l, const std::string &d) {
  if (k == 30) return outcome<ERR, typename Sd::X>(c, [&] { return c.template convert_object<Obj, int, RS>(l, d); });
  return req<Sd>(k, [&](auto t, auto f) { return cv<Sd>(c, t, f, how, l, d); });
}
void sx_main() {
  std::string al = ALPHABET, pre = PRE, post = POST, de = DELIM; A::converter a; B::converter b; size_t left = MAXLEN, bad = 0, good = 0;
#if TWIN
  de = Use<>::cfg().delim;
#endif
  for (int i = 0; i < 2; i++) {
    size_t n = i ? left : sx_choose(left + 1, "length"), t = pre.size() + n + post.size(); left -= n; char *x = new char[t + 1], *y = new char[t + 1]; memcpy(x, pre.data(), pre.size()); char *q = x + pre.size();
    if (al.empty()) sx_symbolic(q, n, "line"); else sx_symbolic_in(q, n, "line", al.data(), al.size());
    memcpy(q + n, post.data(), post.size()); x[t] = 0; memcpy(y, x, t + 1); unsigned k = kset[pick(sizeof kset / sizeof *kset, "request")], how = sx_choose(3, "how");
    Out u = go<A>(a, k, how, x, de), v = go<B>(b, k, how, y, de); agree(u, v); (u.ok ? good : bad)++;
    delete[] x; delete[] y;
  }
  if (good) sx_reach(1); if (bad) sx_reach(2);
}
#endif
