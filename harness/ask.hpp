// Typed requests, chosen by number, whose outcome is kept in comparable form (used for comparing two runs).
#pragma once
#include "setups.hpp"
#include <optional>
#include <variant>
struct Out { bool ok = false, threw = false; std::vector<std::string> s; std::vector<uint64_t> v; std::string msg; };
static inline void add(Out &o, const std::string &s) { o.s.push_back(s); }
static inline void add(Out &o, std::string_view s) { o.s.emplace_back(s); }
template <class T> std::enable_if_t<std::is_arithmetic_v<T>> add(Out &o, T v) {
#ifdef SSP_DISABLE_FAST_FLOAT
  if (std::is_floating_point_v<T>) { o.v.push_back(1); return; }      // the value strtod gives is not modelled
#endif
  uint64_t x = 0; memcpy(&x, &v, sizeof v < 8 ? sizeof v : 8); o.v.push_back(x); }
template <class T> void add(Out &o, const std::optional<T> &v) { o.v.push_back(v.has_value()); if (v) add(o, *v); }
template <class... T> void add(Out &o, const std::variant<T...> &v) { o.v.push_back(v.index()); std::visit([&](const auto &x) { add(o, x); }, v); }
template <class... T> void add(Out &o, const std::tuple<T...> &t) { std::apply([&](const auto &...x) { (add(o, x), ...); }, t); }
// run f on p under error mode E
template <int E, class X = ss::exception, class P, class F> Out outcome(P &p, F f) {
  Out o;
  if constexpr (E == 2) { try { add(o, f()); o.ok = true; } catch (const X &e) { o = Out(); o.threw = true; o.msg = e.what(); } }
  else { add(o, f()); o.ok = p.valid(); if constexpr (E == 1) { o.msg = p.error_msg(); MSG_CHECK(o.ok == o.msg.empty(), "message is non-empty exactly when invalid"); } }
  return o;
}
static inline void observe(const Out &o) { unsigned char k = o.ok; sx_observe(&k, 1); for (auto &s : o.s) sx_observe_str(s); for (auto v : o.v) sx_observe(&v, 8); sx_observe_str(o.msg); }
static inline bool same_text(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static inline void same_values(const Out &a, const Out &b) {
  sx_assert(a.s.size() == b.s.size() && a.v.size() == b.v.size(), "same shape of the result");
  for (size_t i = 0; i < a.s.size(); i++) sx_assert(same_text(a.s[i], b.s[i]), "same text value");
  for (size_t i = 0; i < a.v.size(); i++) sx_assert(a.v[i] == b.v[i], "same value");
}
static inline void same_outcome(const Out &a, const Out &b) { sx_assert(a.ok == b.ok, "same verdict"); if (a.ok) same_values(a, b); }
// the text of a message with its first number (the line) taken out
static inline std::string no_line(const std::string &m, const std::string &name) {
  if (m.compare(0, name.size() + 1, name + " ") != 0) return m;
  size_t i = name.size() + 1, j = i; while (j < m.size() && m[j] >= '0' && m[j] <= '9') j++;
  return m.substr(0, i) + "#" + m.substr(j);
}
template <class... T> struct tag {};
using RS = std::string; using RV = std::string_view;
template <class T> struct OddV { bool ss_valid(const T &v) const { return v % 2; } };                                       // a predicate without a message
template <class T> struct LowV { bool ss_valid(const T &v) const { return v < 3; } const char *error() const { return "not low"; } };
struct TiedV { int a{}; RS b; auto tied() { return std::tie(a, b); } };
template <class T> void add(Out &o, const ss::numeric_wrapper<T> &x) { add(o, x.value); }
static inline void add(Out &o, const TiedV &x) { add(o, x.a); add(o, x.b); }
// requests: g is called with a tag of the requested types
template <class G> Out by_kind(unsigned k, G g) {
  switch (k) {
    case 0: return g(tag<RS>{});
    case 1: return g(tag<RS, RS>{});
    case 2: return g(tag<int>{});
    case 3: return g(tag<int, RS>{});
    case 4: return g(tag<RS, char, void>{});
    case 5: return g(tag<RS, std::optional<int>>{});
    case 6: return g(tag<std::tuple<RS, bool>>{});
    case 7: return g(tag<std::variant<int, RS>, RV>{});
#if MORE
    case 9: return g(tag<ss::ir<int, 2, 5>, ss::ne<RS>>{});
    case 10: return g(tag<ss::ax<char, 'a', '1'>>{});
    case 11: return g(tag<OddV<int>, ss::nx<char, 'a', 'b'>>{});
    case 12: return g(tag<TiedV>{});
    case 13: return g(tag<void, LowV<int>, ss::int8>{});
    case 14: return g(tag<double>{});
    case 15: return g(tag<std::optional<float>, std::variant<double, RS>>{});
#endif
    default: return g(tag<RS, RS, RS>{});
  }
}
// 8: three strings
template <int E, class X, class P, class... T> Out ask_(P &p, tag<T...>) { return outcome<E, X>(p, [&] { return p.template get_next<T...>(); }); }
template <int E, class X = ss::exception, class P> Out ask(P &p, unsigned kind) {
  return by_kind(kind, [&](auto t) { return ask_<E, X>(p, t); });
}
template <int E, class X, class P, class... T> Out conv_(P &c, tag<T...>, char *line, const char *delim) { return outcome<E, X>(c, [&] { return c.template convert<T...>(line, delim); }); }
template <int E, class X = ss::exception, class P> Out conv(P &c, unsigned kind, char *line, const char *delim) {
  return by_kind(kind, [&](auto t) { return conv_<E, X>(c, t, line, delim); });
}
