// Restrictions on an arbitrary column (C11): delivered iff the plain conversion succeeds and the predicate holds.
#include "ref.hpp"
#ifndef MAXLEN
#define MAXLEN 3
#endif
#ifndef GROUP
#define GROUP 0
#endif
struct even { bool ss_valid(const int &v) const { return v % 2 == 0; } const char *error() const { return "odd"; } };
struct has_a { bool ss_valid(const std::string &s) const { for (char c : s) if (c == 'a') return true; return false; } };
struct three { static bool seen; bool ss_valid(const char &c) const { return c >= 'k'; } };
struct Case { bool accept; };
template <class R, class T, class Pred> static void run(Pred pred, const char *errtext) {
  using P = Use<0, -1, ERR>; unsigned mode = sx_choose(2, "mode"); size_t n = sx_choose(MAXLEN + 1, "length");
  char *b = new char[n + 8]; size_t at = mode ? 2 : 0; if (mode) memcpy(b, "x,", 2);
  sx_symbolic(b + at, n, "column"); for (size_t i = 0; i < n; i++) sx_assume((b[at + i] != 0) & (b[at + i] != ',') & (b[at + i] != '\n'));
  if (n) sx_assume(b[at + n - 1] != '\r'); if (!mode && n == 0) { delete[] b; return; }
  size_t t = at + n; if (mode) { memcpy(b + t, ",7", 2); t += 2; } b[t] = '\n';
  std::string s(b + at, n); P::parser p{b, t + 1, ","}; T e{}, v{}; bool conv = Ref<T>::conv(s, e), ok = conv && pred(e); Res g;
  if (!mode) g = call(p, v, [&] { return p.template get_next<R>(); });
  else { std::tuple<std::string, T, int> o{}; g = call(p, o, [&] { return p.template get_next<std::string, R, int>(); }); v = std::get<1>(o); sx_assert(std::get<0>(o) == (ok ? "x" : "") && std::get<2>(o) == (ok ? 7 : 0), "all or nothing"); }
  sx_assert(g.ok == ok, ok ? "accepted value is delivered" : "rejected value fails");
  if (ok) { same(v, e); sx_reach(1); } else { T d{}; same(v, d); sx_reach(conv ? 2 : 3); }
  if (MSG && ERR && !ok) { std::string m = std::string("CSV data buffer 1: ") + (conv ? errtext + std::string(" ") : std::string("invalid conversion for parameter ")) + "at column " + (mode ? "2" : "1") + ": '" + s + "'"; sx_assert(g.msg == m, "message of a rejected value"); }
  unsigned char k = g.ok; sx_observe(&k, 1); sx_observe_str(g.msg);
  delete[] b;
}
void sx_main() {
  using namespace ss; using S_ = std::string;
  switch (sx_choose(5, "restriction")) {
#if GROUP == 0
    case 0: run<ir<int, -2, 15>, int>([](int v) { return (unsigned)(v >= -2) & (unsigned)(v <= 15); }, "validation error"); break;
    case 1: run<oor<int, 3, 40>, int>([](int v) { return (unsigned)(v < 3) | (unsigned)(v > 40); }, "validation error"); break;
    case 2: run<gt<int, 7>, int>([](int v) { return v > 7; }, "validation error"); break;
    case 3: run<gte<int, 7>, int>([](int v) { return v >= 7; }, "validation error"); break;
    case 4: run<lt<int, -3>, int>([](int v) { return v < -3; }, "validation error"); break;
#endif
#if GROUP == 1
    case 0: run<lte<int, -3>, int>([](int v) { return v <= -3; }, "validation error"); break;
    case 1: run<ax<int, 1, 20, -5>, int>([](int v) { return ((unsigned)(v == 1) | (unsigned)(v == 20) | (unsigned)(v == -5)) == 0; }, "value excluded"); break;
    case 2: run<nx<int, 1, 20, -5>, int>([](int v) { return (unsigned)(v == 1) | (unsigned)(v == 20) | (unsigned)(v == -5); }, "value excluded"); break;
    case 3: run<ne<S_>, S_>([](const S_ &v) { return !v.empty(); }, "empty field"); break;
    case 4: run<even, int>([](int v) { return (v & 1) == 0; }, "odd"); break;
#endif
#if GROUP == 2
    case 0: run<nx<char, 'A', 'z'>, char>([](char v) { return (unsigned)(v == 'A') | (unsigned)(v == 'z'); }, "value excluded"); break;
    case 1: run<ax<char, 'A', 'z', ' '>, char>([](char v) { return ((unsigned)(v == 'A') | (unsigned)(v == 'z') | (unsigned)(v == ' ')) == 0; }, "value excluded"); break;
    case 2: run<ir<unsigned char, 10, 200>, unsigned char>([](unsigned char v) { return (unsigned)(v >= 10) & (unsigned)(v <= 200); }, "validation error"); break;
    case 3: run<has_a, S_>([](const S_ &v) { return v.find('a') != S_::npos; }, "validation error"); break;
    case 4: run<three, char>([](char v) { return v >= 'k'; }, "validation error"); break;
#endif
#if GROUP == 4
#define IS(x) (unsigned)(v == (x))
    case 0: run<ax<int, 1, 2, 3, 4>, int>([](int v) { return (IS(1) | IS(2) | IS(3) | IS(4)) == 0; }, "value excluded"); break;
    case 1: run<nx<int, 1, 2, 3, 4>, int>([](int v) { return IS(1) | IS(2) | IS(3) | IS(4); }, "value excluded"); break;
    case 2: run<ax<char, 'a', 'b', 'c', 'd', 'e', 'f', '1'>, char>([](char v) { return (IS('a') | IS('b') | IS('c') | IS('d') | IS('e') | IS('f') | IS('1')) == 0; }, "value excluded"); break;
    case 3: run<nx<char, 'a', 'b', 'c', 'd', 'e', 'f', '1'>, char>([](char v) { return IS('a') | IS('b') | IS('c') | IS('d') | IS('e') | IS('f') | IS('1'); }, "value excluded"); break;
    case 4: run<ax<long, -9, 0, 7, 12, 100, 999, -99, 55, 31>, long>([](long v) { return (IS(-9) | IS(0) | IS(7) | IS(12) | IS(100) | IS(999) | IS(-99) | IS(55) | IS(31)) == 0; }, "value excluded"); break;
#endif
#if GROUP == 5
    case 0: run<ir<int, 5, 5>, int>([](int v) { return v == 5; }, "validation error"); break;
    case 1: run<oor<long, -5, -5>, long>([](long v) { return v != -5; }, "validation error"); break;
    case 2: run<lt<unsigned, 100>, unsigned>([](unsigned v) { return v < 100; }, "validation error"); break;
    case 3: run<gt<char, 'm'>, char>([](char v) { return v > 'm'; }, "validation error"); break;
    case 4: run<nx<bool, true>, bool>([](bool v) { return v; }, "value excluded"); break;
#endif
#if GROUP == 6
    case 0: run<nx<int, 7>, int>([](int v) { return v == 7; }, "value excluded"); break;
    case 1: run<ax<int, 0>, int>([](int v) { return v != 0; }, "value excluded"); break;
    case 2: run<lte<unsigned, 0>, unsigned>([](unsigned v) { return v == 0; }, "validation error"); break;
    case 3: run<oor<unsigned char, 0, 254>, unsigned char>([](unsigned char v) { return v == 255; }, "validation error"); break;
    case 4: run<ir<short, -32768, -1>, short>([](short v) { return v < 0; }, "validation error"); break;
#endif
#if GROUP == 3
    case 0: run<ir<char, 'b', 'y'>, char>([](char v) { return (unsigned)(v >= 'b') & (unsigned)(v <= 'y'); }, "validation error"); break;
    case 1: run<oor<char, 'b', 'y'>, char>([](char v) { return (unsigned)(v < 'b') | (unsigned)(v > 'y'); }, "validation error"); break;
    case 2: run<gte<long, 100>, long>([](long v) { return v >= 100; }, "validation error"); break;
    case 3: run<ax<bool, true>, bool>([](bool v) { return !v; }, "value excluded"); break;
    case 4: run<ne<std::string_view>, std::string_view>([](const std::string_view &v) { return !v.empty(); }, "empty field"); break;
#endif
  }
}
