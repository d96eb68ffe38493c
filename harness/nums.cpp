// One column of arbitrary bytes converted to a type: reference conversion vs converter (C09, C10).
#include "ref.hpp"
#ifndef TYPE
#define TYPE int
#endif
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef DIGITS
#define DIGITS 0
#endif
#ifndef MODES
#define MODES 3
#endif
using U = Use<0>; using T = TYPE;
// what the caller's variable holds before: nothing of it may remain after a success, and an optional that fails becomes empty
template <class V> struct Old { static void put(V &v) { v = V{}; } };
template <class V> struct Old<std::optional<V>> { static void put(std::optional<V> &v) { v = V{}; } };
template <class... V> struct Old<std::variant<V...>> { static void put(std::variant<V...> &v) { v.template emplace<sizeof...(V) - 1>(); } };
template <> struct Old<std::string> { static void put(std::string &v) { v = "old"; } };
template <> struct Old<std::string_view> { static void put(std::string_view &v) { v = "old"; } };
template <> struct Old<bool> { static void put(bool &v) { v = sx_choose(2, "old value"); } };
template <class V> static void verdict(const std::string &s, const Res &g, const V &v) {
  V e{}; bool ok = Ref<V>::conv(s, e);
  sx_assert(g.ok == ok, ok ? "column converts" : "column fails to convert");
  if (ok) { same(v, e); sx_reach(1); } else { V d{}; same(v, d); sx_reach(2); }
  unsigned char k = g.ok; sx_observe(&k, 1); if (ok) obs(v);
}
void sx_main() {
  unsigned mode = sx_choose(MODES, "mode"); size_t n = sx_choose(MAXLEN + 1, "length");
  std::string pre = PRE, post = POST; size_t t = pre.size() + n + post.size();
  char *b = new char[t + 8]; size_t at = mode == 1 ? 2 : 0; if (mode == 1) memcpy(b, "x,", 2);
  memcpy(b + at, pre.data(), pre.size()); char *q = b + at + pre.size();
  if (DIGITS) sx_symbolic_in(q, n, "column", "0123456789", 10); else { sx_symbolic(q, n, "column"); for (size_t i = 0; i < n; i++) sx_assume((q[i] != 0) & (q[i] != ',')); }
  memcpy(q + n, post.data(), post.size()); std::string s(b + at, t); char *e = q + n + post.size();
  if (mode == 1) { memcpy(e, ",9", 3);
    ss::converter<> c; std::tuple<std::string, T, std::string> v; Res g = call(c, v, [&] { return c.convert<std::string, T, std::string>(b); }); verdict(s, g, std::get<1>(v));
    if (g.ok) sx_assert(std::get<0>(v) == "x" && std::get<2>(v) == "9", "neighbouring columns"); }
  else if (mode == 0) { *e = 0; if (t > 0) { ss::converter<> c; T v{}; Res g = call(c, v, [&] { return c.convert<T>(b); }); verdict(s, g, v); } }
  else { T v{}; Old<T>::put(v); Res g; *e = '7'; g.ok = ss::extract(b, e, v); if (!g.ok) v = T{}; verdict(s, g, v); }
  delete[] b;
}
