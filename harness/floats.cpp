// One column converted to a floating point type: accepted exactly if it is one number as a whole, with the value the
// number parser gives for exactly those characters (C25).
#include "ref.hpp"
#include <cmath>
#include <cstdlib>
#ifndef TYPE
#define TYPE double
#endif
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
using U = Use<0>; using T = TYPE;
template <class V> struct inner { using type = V; }; template <class V> struct inner<std::optional<V>> { using type = V; };
using F = inner<T>::type;
// [-] digits [. digits] [e [+-] digits], [-] inf | infinity | nan [(letters digits _)], any case
static bool number(const std::string &s) {
  size_t i = 0, n = s.size(); auto at = [&](size_t k) { return k < n ? s[k] : '\0'; }; auto low = [&](size_t k) { char c = at(k); return (char)(c + ((unsigned)(c - 'A') < 26 ? 32 : 0)); };
  auto word = [&](size_t k, const char *w) { for (; *w; w++, k++) if (k >= n || low(k) != *w) return false; return true; };
  if (i < n && s[i] == '-') i++;
  if (word(i, "inf")) return n == i + 3 || (n == i + 8 && word(i, "infinity"));
  if (word(i, "nan")) { i += 3; if (i == n) return true; if (s[i] != '(' || s[n - 1] != ')' || n < i + 2) return false; for (size_t k = i + 1; k + 1 < n; k++) { char c = low(k); if (!(is_digit_(c) || (unsigned)(c - 'a') < 26 || c == '_')) return false; } return true; }
  size_t d = 0; while (i < n && is_digit_(s[i])) i++, d++;
  if (i < n && s[i] == '.') { i++; while (i < n && is_digit_(s[i])) i++, d++; }
  if (!d) return false;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; if (i == n) return false; while (i < n && is_digit_(s[i])) i++; }
  return i == n;
}
#ifdef SX_NATIVE
static bool same_float(F v, const std::string &s) { F w = sizeof(F) == 4 ? (F)strtof(s.c_str(), nullptr) : (F)strtod(s.c_str(), nullptr); return memcmp(&v, &w, sizeof v) == 0 || (std::isnan(v) && std::isnan(w)); }
#else
extern "C" bool sx_value_text(uint64_t v, int kind, const char **p, size_t *n) noexcept;
static bool same_float(F v, const std::string &s) { uint64_t x = 0; memcpy(&x, &v, sizeof v); const char *p; size_t n; return sx_value_text(x, sizeof(F) == 4, &p, &n) && n == s.size() && memcmp(p, s.data(), n) == 0; }
#endif
static bool zero(F v) { uint64_t x = 0; memcpy(&x, &v, sizeof v); return x == 0; }
template <class R> static void verdict(const std::string &s, bool got, const R &v) {
  bool ok = number(s);
  if constexpr (std::is_same_v<R, F>) { sx_assert(got == ok, ok ? "a number converts" : "anything else fails"); sx_assert(ok ? same_float(v, s) : zero(v), "value"); }
  else { sx_assert(got, "an optional column always converts"); sx_assert(v.has_value() == ok, "empty exactly if no number"); if (ok && v) sx_assert(same_float(*v, s), "value"); }
  if (ok) sx_reach(1); else sx_reach(2); unsigned char k = ok; sx_observe(&k, 1);
}
void sx_main() {
  unsigned mode = sx_choose(3, "mode"); size_t n = sx_choose(MAXLEN + 1, "length"); std::string al = ALPHABET;
  std::string pre = PRE, post = POST; size_t t = pre.size() + n + post.size();
  char *b = new char[t + 12]; size_t at = mode == 1 ? 2 : 0; if (mode == 1) memcpy(b, "x,", 2);
  memcpy(b + at, pre.data(), pre.size()); char *q = b + at + pre.size();
  if (!al.empty()) sx_symbolic_in(q, n, "column", al.data(), al.size()); else sx_symbolic(q, n, "column");
  if (mode != 2) for (size_t i = 0; i < n; i++) sx_assume((q[i] != 0) & (q[i] != ','));
  memcpy(q + n, post.data(), post.size()); std::string s(b + at, t); char *e = q + n + post.size();
  if (mode == 1) { memcpy(e, ",9", 3); ss::converter<> c; auto [x, v, y] = c.convert<std::string, T, std::string>(b); bool ok = c.valid(); verdict(s, ok, v); if (ok) sx_assert(x == "x" && y == "9", "neighbouring columns"); }
  else if (mode == 0) { *e = 0; if (t > 0) { ss::converter<> c; T v = c.convert<T>(b); verdict(s, c.valid(), v); } }
  else { char *x = new char[t ? t : 1]; memcpy(x, b, t); T v{}; bool ok = ss::extract(x, x + t, v); if (!ok) v = T{}; verdict(s, ok, v); delete[] x; }
  delete[] b;
}
