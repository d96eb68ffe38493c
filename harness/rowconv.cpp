// A row of arbitrary bytes requested as a list of types (C12), and as converter reuse / stored splits (C29).
#include "cols.hpp"
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef GROUP
#define GROUP 0
#endif
#ifndef PRE
#define PRE ""
#endif
using U = Use<>;
template <class V> static void check(const Res &g, bool ok, const V &v, V e, const Row &r);
template <class... R> static void run() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE; unsigned mode = sx_choose(3, "mode"); size_t n = 1 + sx_choose(MAXLEN, "length"), t = pre.size() + n;
  char *b = new char[t + 2]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "row"); for (size_t i = 0; i < n; i++) sx_assume((q[i] != 0) & (q[i] != '\n')); if (n) sx_assume(q[n - 1] != '\r'); }
  else sx_symbolic_in(q, n, "row", al.data(), al.size());
  b[t] = 0; std::string s(b, t); Row r = model_split(s, c); using V = ss::no_void_validator_tup_t<R...>;
  V e{}, v{}; Res g; bool ok = r.why == W_NONE && r.f.size() == sizeof...(R) && fill<0, 0, V, R...>(r.f, e);
  if (mode == 0) { b[t] = '\n'; U::parser p{b, t + 1, c.delim}; g = call(p, v, [&] { return p.template get_next<R...>(); }); check(g, ok, v, e, r); }
  else if (mode == 1) { U::converter cv; g = call(cv, v, [&] { return cv.template convert<R...>(b, c.delim); }); check(g, ok, v, e, r); }
  else { U::converter cv; Res sp; ss::split_data none; ss::split_data d; sp = call(cv, none, [&] { d = cv.split(b, c.delim); return ss::split_data{}; });
    if (r.why == W_NONE) { g = call(cv, v, [&] { return cv.template convert<std::tuple<R...>>(d); }); check(g, ok, v, e, r); } }
  delete[] b;
}
template <class V> static void check(const Res &g, bool ok, const V &v, V e, const Row &r) {
  sx_assert(g.ok == ok, ok ? "row converts" : "row fails to convert");
  if (ok) { same(v, e); sx_reach(1); } else { V d{}; same(v, d); sx_reach(r.why != W_NONE ? 2 : 3); }
  unsigned char k = g.ok; sx_observe(&k, 1); obs(v);
}
void sx_main() {
  using S_ = std::string;
#if GROUP == 0
  switch (sx_choose(3, "request")) { case 0: run<int, S_>(); break; case 1: run<char, int, bool>(); break; default: run<S_, S_, S_>(); }
#elif GROUP == 1
  switch (sx_choose(3, "request")) { case 0: run<void, int>(); break; case 1: run<int, void, char>(); break; default: run<void, void, S_>(); }
#elif GROUP == 2
  switch (sx_choose(3, "request")) { case 0: run<std::optional<int>, char>(); break; case 1: run<S_, std::variant<int, char>, S_>(); break; default: run<std::string_view, ss::int8>(); }
#elif GROUP == 3
  switch (sx_choose(3, "request")) { case 0: run<ss::ax<int, 1, 2>, S_>(); break; case 1: run<S_, ss::ne<S_>>(); break; default: run<char, char, char, char>(); }
#elif GROUP == 4
  switch (sx_choose(3, "request")) { case 0: run<int, S_, char, int, S_, char, int, S_, char, int, S_, char>(); break; case 1: run<int, char, S_, int, S_, char, int, S_, char, int>(); break; default: run<void, S_, char, int, S_, void, int, S_, S_, int, char>(); }
#endif
}
