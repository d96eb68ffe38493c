// Reference conversions of one column, written from the documentation.
#pragma once
#include "setups.hpp"
#include <limits>
#include <optional>
#include <variant>
#include <string_view>
static inline bool is_digit_(char c) { return ((unsigned)(c >= '0') & (unsigned)(c <= '9')) != 0; }
static std::string dec_(unsigned long long v) { char b[32]; int i = 32; do { b[--i] = '0' + v % 10; v /= 10; } while (v); return std::string(b + i, 32 - i); }
// integers: [-]digits+, compared as digit strings with the limits of the type
template <class T> bool ref_int(const std::string &s, T &out) {
  using L = std::numeric_limits<T>; size_t i = 0, n = s.size(); bool neg = false;
  if (L::is_signed && n > 0 && s[0] == '-') { neg = true; i = 1; }
  if (i == n) return false;
  for (size_t k = i; k < n; k++) if (!is_digit_(s[k])) return false;
  while (i < n && s[i] == '0') i++;
  unsigned long long top = (unsigned long long)L::max() + (neg ? 1 : 0); std::string lim = dec_(top); size_t d = n - i;
  if (d > lim.size()) return false;
  if (d == lim.size()) for (size_t k = 0; k < d; k++) { if (s[i + k] < lim[k]) break; if (s[i + k] > lim[k]) return false; }
  unsigned long long v = 0; for (; i < n; i++) v = v * 10 + (unsigned long long)(s[i] - '0');
  out = (T)(neg ? 0 - v : v); return true;
}
template <class T, class = void> struct Ref;
template <class T> struct Ref<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> { static bool conv(const std::string &s, T &o) { return ref_int<T>(s, o); } };
template <class B> struct Ref<ss::numeric_wrapper<B>> { static bool conv(const std::string &s, ss::numeric_wrapper<B> &o) { B b; if (!ref_int<B>(s, b)) return false; o = b; return true; } };
template <> struct Ref<bool> { static bool conv(const std::string &s, bool &o) { if (s == "1" || s == "true") { o = true; return true; } if (s == "0" || s == "false") { o = false; return true; } return false; } };
template <> struct Ref<char> { static bool conv(const std::string &s, char &o) { if (s.size() != 1) return false; o = s[0]; return true; } };
template <> struct Ref<std::string> { static bool conv(const std::string &s, std::string &o) { o = s; return true; } };
template <> struct Ref<std::string_view> { static bool conv(const std::string &s, std::string_view &o) { o = s; return true; } };
template <class T> struct Ref<std::optional<T>> { static bool conv(const std::string &s, std::optional<T> &o) { T t{}; if (Ref<T>::conv(s, t)) o = t; else o.reset(); return true; } };
template <class... T> struct Ref<std::variant<T...>> {
  template <size_t I> static bool at(const std::string &s, std::variant<T...> &o) {
    if constexpr (I == sizeof...(T)) return false;
    else { using A = std::variant_alternative_t<I, std::variant<T...>>; A a{}; if (Ref<A>::conv(s, a)) { o.template emplace<I>(a); return true; } return at<I + 1>(s, o); }
  }
  static bool conv(const std::string &s, std::variant<T...> &o) { return at<0>(s, o); }
};
// comparison without forking on values
template <class T> void same(const T &a, const T &b) { sx_assert(a == b, "value"); }
template <class B> void same(const ss::numeric_wrapper<B> &a, const ss::numeric_wrapper<B> &b) { sx_assert(a.value == b.value, "value"); }
static inline void same(const std::string &a, const std::string &b) { sx_assert(a.size() == b.size(), "length of text"); sx_assert(memcmp(a.data(), b.data(), a.size()) == 0, "text"); }
static inline void same(const std::string_view &a, const std::string_view &b) { sx_assert(a.size() == b.size(), "length of text"); sx_assert(memcmp(a.data(), b.data(), a.size()) == 0, "text"); }
template <class T> void same(const std::optional<T> &a, const std::optional<T> &b) { sx_assert(a.has_value() == b.has_value(), "optional holds a value"); if (a) same(*a, *b); }
template <class... T> void same(const std::variant<T...> &a, const std::variant<T...> &b) {
  sx_assert(a.index() == b.index(), "alternative");
  std::visit([&](const auto &x) { same(x, std::get<std::decay_t<decltype(x)>>(b)); }, a);
}
template <class... T> void same(const std::tuple<T...> &a, const std::tuple<T...> &b);
template <size_t I, class T> void same_at(const T &a, const T &b) { same(std::get<I>(a), std::get<I>(b)); if constexpr (I + 1 < std::tuple_size_v<T>) same_at<I + 1>(a, b); }
template <class... T> void same(const std::tuple<T...> &a, const std::tuple<T...> &b) { same_at<0>(a, b); }
template <class T> void obs(const T &a) { sx_observe(&a, sizeof a); }
static inline void obs(const std::string &a) { sx_observe_str(a); }
static inline void obs(const std::string_view &a) { sx_observe_str(std::string(a)); }
template <class T> void obs(const std::optional<T> &a) { unsigned char k = a.has_value(); sx_observe(&k, 1); if (a) obs(*a); }
template <class... T> void obs(const std::variant<T...> &a) { unsigned char k = a.index(); sx_observe(&k, 1); std::visit([](const auto &x) { obs(x); }, a); }
template <class... T> void obs(const std::tuple<T...> &t) { std::apply([](const auto &...x) { (obs(x), ...); }, t); }
// call f, noting acceptance, in any error mode
struct Res { bool ok = false, threw = false; std::string msg; };
template <class P, class V, class F> Res call(P &p, V &out, F f) {
  Res r;
  if constexpr (throws_v<P>) { try { out = f(); r.ok = true; } catch (const ss::exception &e) { r.threw = true; r.msg = e.what(); } }
  else { out = f(); r.ok = p.valid(); if constexpr (smsg_v<P>) { r.msg = p.error_msg(); MSG_CHECK(r.ok == r.msg.empty(), "message is non-empty exactly when invalid"); } }
  return r;
}
