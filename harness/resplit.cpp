// A line split once and converted many times against converting the line directly (C29).
#include "ask.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef KSET
#define KSET 0, 1, 3
#endif
#ifndef NCONV
#define NCONV 2          // conversions of one split
#endif
#ifndef LINES
#define LINES 2          // lines for the same converter
#endif
using U = Use<>; using C = U::converter;
static const unsigned kset[] = {KSET}; constexpr unsigned nk = sizeof kset / sizeof *kset;
struct Obj { int a{}; RS b; };
struct Tie { char a{}; RS b; auto tied() { return std::tie(a, b); } };
static void add(Out &o, const Obj &x) { add(o, x.a); add(o, x.b); }
static void add(Out &o, const Tie &x) { add(o, x.a); add(o, x.b); }
template <class C_, class... T> static Out stored(C_ &c, tag<T...>) { return outcome<ERR>(c, [&] { return c.template convert<T...>(); }); }
template <class C_, class... T> static Out given(C_ &c, tag<T...>, const ss::split_data &s) { return outcome<ERR>(c, [&] { return c.template convert<T...>(s); }); }
template <class C_, class... T> static Out direct(C_ &c, tag<T...>, char *l, const Cfg &g) { return outcome<ERR>(c, [&] { return c.template convert<T...>(l, g.delim); }); }
template <class G> static Out req(unsigned k, G g) { if (k == 16) return g(tag<Tie>{}); if (k == 17) return g(tag<ss::ax<int, 1>, ss::ne<RS>>{}); if (k == 18) return g(tag<void, RS>{}); return by_kind(k, g); }
static void same(const Out &a, const Out &b, bool text) { sx_assert(a.ok == b.ok, "same verdict as converting the line directly"); same_values(a, b); if (text) sx_assert(same_text(a.msg, b.msg), "same error as converting the line directly"); observe(a); }
struct Line { char *l; size_t n; std::string text; char *fresh() const { char *x = new char[n + 1]; memcpy(x, text.data(), n); x[n] = 0; return x; } };
static size_t good, bad, empty_after;
static void use(C &c, const Line &ln, const Cfg &g, int nconv, bool brief) {
  Row r = model_split(ln.text, g); bool plain = !g.has_quote && !*g.esc; bool failed = false; const ss::split_data *s = nullptr;
  if constexpr (ERR == 2) { try { s = &c.split(ln.l, g.delim); } catch (const ss::exception &) { failed = true; } } else s = &c.split(ln.l, g.delim);
  if (plain) sx_assert(memcmp(ln.l, ln.text.data(), ln.n) == 0 && ln.l[ln.n] == 0, "the line is not modified");
  if (r.why == W_NONE) {
    sx_assert(!failed, "the line splits"); sx_assert(s->size() == r.f.size(), "one range per column");
    for (size_t i = 0; i < r.f.size(); i++) {
      auto [b, e] = (*s)[i]; sx_assert(b >= ln.l && b <= e && e <= ln.l + ln.n, "a range lies in the line"); sx_assert(!i || (*s)[i - 1].second <= b, "ranges are in order");
      sx_assert((size_t)(e - b) == r.f[i].size() && memcmp(b, r.f[i].data(), e - b) == 0, "the ranges are the columns");
    }
  }
  std::vector<std::pair<const char *, const char *>> was; if (r.why == W_NONE) was = *s;
  for (int i = 0; i < nconv; i++) {
    unsigned k = nk > 1 ? kset[sx_choose(nk, "request")] : kset[0], how = brief || r.why != W_NONE ? 0 : i == 0 ? sx_choose(4, "how") : i % 2; Out d, o;
    { C f; char *x = ln.fresh(); d = k == 30 ? outcome<ERR>(f, [&] { return f.template convert_object<Obj, int, RS>(x, g.delim); }) : req(k, [&](auto t) { return direct(f, t, x, g); }); delete[] x; }
    if (how == 0) o = k == 30 ? outcome<ERR>(c, [&] { return c.template convert_object<Obj, int, RS>(); }) : req(k, [&](auto t) { return stored(c, t); });
    else if (how == 1) o = k == 30 ? outcome<ERR>(c, [&] { return c.template convert_object<Obj, int, RS>(*s); }) : req(k, [&](auto t) { return given(c, t, *s); });
    else if (how == 2) { C other; o = k == 30 ? outcome<ERR>(other, [&] { return other.template convert_object<Obj, int, RS>(*s); }) : req(k, [&](auto t) { return given(other, t, *s); }); }
    else { C again; char *x = ln.fresh(); { Line y{x, ln.n, ln.text}; if constexpr (ERR == 2) { try { again.split(x, g.delim); } catch (const ss::exception &) {} } else again.split(x, g.delim); } o = k == 30 ? outcome<ERR>(again, [&] { return again.template convert_object<Obj, int, RS>(); }) : req(k, [&](auto t) { return stored(again, t); }); delete[] x; }
    same(o, d, !failed); (o.ok ? good : bad)++;
    if (r.why == W_NONE) { sx_assert(s->size() == was.size(), "a conversion leaves the split as it is"); for (size_t j = 0; j < was.size(); j++) sx_assert(((*s)[j].first == was[j].first) & ((*s)[j].second == was[j].second) & (memcmp(was[j].first, r.f[j].data(), r.f[j].size()) == 0), "a conversion leaves the columns as they are"); }
  }
  if (plain) sx_assert(memcmp(ln.l, ln.text.data(), ln.n) == 0 && ln.l[ln.n] == 0, "the line is not modified");
}
void sx_main() {
  Cfg g = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; C c; size_t left = MAXLEN;
  for (int i = 0; i < LINES; i++) {
    size_t n = i + 1 < LINES ? sx_choose(left + 1, "length") : left, t; left -= n; bool frame = LINES == 1 || i == 0; t = n + (frame ? pre.size() + post.size() : 0); char *x = new char[t + 1], *q = x + (frame ? pre.size() : 0);
    if (frame) memcpy(x, pre.data(), pre.size());
    if (al.empty()) { sx_symbolic(q, n, "line"); for (size_t j = 0; j < n; j++) sx_assume(q[j] != 0); } else sx_symbolic_in(q, n, "line", al.data(), al.size());
    if (frame) memcpy(q + n, post.data(), post.size()); x[t] = 0; Line ln{x, t, std::string(x, t)}; use(c, ln, g, i + 1 < LINES ? 1 : NCONV, i + 1 < LINES); delete[] x;
  }
  if (good) sx_reach(1); if (bad > 1) sx_reach(2);
}
