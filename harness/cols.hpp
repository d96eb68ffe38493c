// Reference conversion of a row to a request (list of types).
#pragma once
#include "ref.hpp"
// reference: types of the request -> values, in order
template <class R> struct Col { using value = R; static bool conv(const std::string &s, R &o) { return Ref<R>::conv(s, o); } };
template <> struct Col<void> { using value = void; };
template <class T, auto... V> struct Col<ss::ax<T, V...>> { using value = T; static bool conv(const std::string &s, T &o) { if (!Ref<T>::conv(s, o)) return false; for (T v : {T(V)...}) if (o == v) return false; return true; } };
template <class T> struct Col<ss::ne<T>> { using value = T; static bool conv(const std::string &s, T &o) { Ref<T>::conv(s, o); return !s.empty(); } };
template <class T> struct is_tup : std::false_type {}; template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <size_t K, size_t I, class Tup, class... R> static bool fill(const std::vector<std::string> &f, Tup &out) {
  if constexpr (I == sizeof...(R)) return true;
  else {
    using X = std::tuple_element_t<I, std::tuple<R...>>;
    if constexpr (std::is_void_v<X>) return fill<K, I + 1, Tup, R...>(f, out);
    else if constexpr (is_tup<Tup>::value) return Col<X>::conv(f[I], std::get<K>(out)) && fill<K + 1, I + 1, Tup, R...>(f, out);
    else return Col<X>::conv(f[I], out) && fill<K + 1, I + 1, Tup, R...>(f, out);
  }
}
