// Messages: input name, physical line, column position and text, column counts, kind of quoting problem (C15).
#include "ref.hpp"
#ifndef MAXLEN
#define MAXLEN 5
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef REQS
#define REQS 0
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef MAPPED
#define MAPPED 0         // 1: header a,b,c with fields c,a selected
#endif
using U = Use<>; using RS = std::string;
struct odd { bool ss_valid(const int &v) const { return v & 1; } const char *error() const { return "even 77"; } };
template <class R> struct Col { using value = R; static bool conv(const std::string &s, R &o) { return Ref<R>::conv(s, o); } };
template <> struct Col<odd> { using value = int; static bool conv(const std::string &s, int &o) { return Ref<int>::conv(s, o) && (o & 1); } };
template <class T, auto... V> struct Col<ss::ax<T, V...>> { using value = T; static bool conv(const std::string &s, T &o) { if (!Ref<T>::conv(s, o)) return false; for (T v : {T(V)...}) if (o == v) return false; return true; } };
// position of the first failing column, or the number of columns
template <class... R, size_t... I> static size_t first_bad(const std::vector<std::string> &f, const size_t *at, std::index_sequence<I...>) {
  size_t k = sizeof...(R); auto one = [&](auto *t, size_t i) { using C = std::remove_pointer_t<decltype(t)>; typename C::value v{}; if (k == sizeof...(R) && !C::conv(f[at[i]], v)) k = i; };
  (one(static_cast<Col<R> *>(nullptr), I), ...); return k;
}
static bool eq_at(const std::string &m, size_t o, const std::string &t) { unsigned r = 1; for (size_t i = 0; i < t.size(); i++) r &= (unsigned)(m[o + i] == t[i]); return r; }
static bool contains(const std::string &m, const std::string &t) { if (t.size() > m.size()) return false; unsigned r = 0; for (size_t o = 0; o + t.size() <= m.size(); o++) r |= (unsigned)eq_at(m, o, t); return r; }
struct Cursor { const std::string &m; size_t i; bool num(size_t &v) { while (i < m.size() && !(m[i] >= '0' && m[i] <= '9')) i++; if (i == m.size()) return false; v = 0; while (i < m.size() && m[i] >= '0' && m[i] <= '9') v = v * 10 + (m[i++] - '0'); return true; } };
static size_t ident[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, mapped[] = {2, 0};
template <class P, class... R> static void request(P &p, const Record &r, const std::string &name) {
  ss::no_void_validator_tup_t<R...> v{}; Res g = call(p, v, [&] { return p.template get_next<R...>(); }); unsigned char k = g.ok; sx_observe(&k, 1); sx_observe_str(g.msg);
  if (g.ok) { sx_reach(1); return; }
  const std::string &m = g.msg; sx_assert(m.compare(0, name.size(), name) == 0, "message names the input");
  Cursor c{m, name.size()}; size_t n; sx_assert(c.num(n), "message has a line number"); sx_assert(n == r.line_end, "line number is that of the line the record ends at");
  std::string rest = m.substr(c.i); auto has = [&](const char *w) { return rest.find(w) != std::string::npos; };
  switch (r.row.why) {
    case W_MISMATCH: sx_assert(has("mismatched") && has("quote"), "mismatched quote is named"); sx_reach(2); return;
    case W_QUOTE: sx_assert(has("unterminated") && has("quote"), "unterminated quote is named"); sx_reach(3); return;
    case W_ESCAPE: sx_assert(has("unterminated") && has("escape"), "unterminated escape is named"); sx_reach(4); return;
    case W_LIMIT: sx_assert(has("limit"), "multiline limit is named"); sx_reach(5); return;
    case W_DELIM: sx_assert(has("delim"), "empty delimiter is named"); return;
    default: break;
  }
  size_t nf = r.row.f.size(), nr = sizeof...(R), want = MAPPED ? 2 : nf; size_t a, b;
  if (nr != want || (MAPPED && nf != 3)) {
    sx_assert(c.num(a) && c.num(b), "message has the column counts");
    if (!MAPPED) sx_assert(a == nr && b == nf, "expected and actual column counts"); else if (nr == 2) sx_assert(a == 3 && b == nf, "expected and actual column counts"); else if (nf == 3) sx_assert(a == 2 && b == nr, "expected and actual type counts");
    sx_reach(6); return;
  }
  size_t at = first_bad<R...>(r.row.f, MAPPED ? mapped : ident, std::index_sequence_for<R...>{});
  if (at == nr) return;                                             // acceptance is decided elsewhere
  const std::string &t = r.row.f[(MAPPED ? mapped : ident)[at]];
  if (rest.size() >= 7 && rest.find("even 77") != std::string::npos) c.i = m.find("even 77") + 7;
  sx_assert(c.num(a), "message has the position of the column"); sx_assert(a == at + 1, "position of the first failing column"); sx_assert(contains(m.substr(c.i), t), "message has the text of the column"); sx_reach(7); if (at) sx_reach(8);
}
template <class P> static void drive(P &p, const char *b, size_t n, const Cfg &c, const std::string &name) {
  ModelReader m(b, n, c);
#if MAPPED
  p.use_fields("c", "a"); m.next();
#endif
  while (m.more()) {
    Record r = m.next();
    switch (sx_choose(3, "request")) {
#if REQS == 0
      case 0: request<P, int>(p, r, name); break; case 1: request<P, std::string, std::string>(p, r, name); break; default: request<P, int, char>(p, r, name);
#elif REQS == 1
      case 0: request<P, std::string>(p, r, name); break; case 1: request<P, char, int, bool>(p, r, name); break; default: request<P, std::string, odd>(p, r, name);
#elif REQS == 2
      case 0: request<P, ss::ax<int, 1, 2>, ss::ax<char, 'a'>>(p, r, name); break; case 1: request<P, std::variant<int, bool>, ss::int8>(p, r, name); break; default: request<P, odd>(p, r, name);
#elif REQS == 3
      case 0: request<P, int, char, int, char, int, char, int, char, int, char, int, char>(p, r, name); break; case 1: request<P, RS, RS, RS, RS, RS, RS, RS, RS, RS, RS, RS, odd>(p, r, name); break; default: request<P, RS, RS, RS, RS, RS, RS, RS, RS, RS, RS>(p, r, name);
#endif
    }
  }
  std::string v; Res g = call(p, v, [&] { return p.template get_next<std::string>(); }); if (!g.ok) sx_assert(g.msg.compare(0, name.size(), name) == 0 && g.msg.size() > name.size(), "reading past the end names the input");
}
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = MINLEN + sx_choose(MAXLEN - MINLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t ? t : 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) { sx_symbolic(q, n, "input"); for (size_t i = 0; i < n; i++) sx_assume(q[i] != 0); } else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size());
  if (SRC) { std::string f = file_name(b, t); U::parser p{f, c.delim}; drive(p, b, t, c, f); }
  else { U::parser p{b, t, c.delim}; drive(p, b, t, c, "CSV data buffer"); }
  delete[] b;
}
