// The setups the checks range over: SETUP picks options + reference configuration; IE/IH/ML/ERR add
// ignore_empty, ignore_header, multiline (0 unlimited, n limit) and the error mode (0 flag, 1 message, 2 exception).
#pragma once
#include "common.hpp"
#ifndef SETUP
#define SETUP 0
#endif
#ifndef ERR
#define ERR 0
#endif
#ifndef ML
#define ML -1
#endif
#ifndef IE
#define IE 0
#endif
#ifndef IH
#define IH 0
#endif
template <class... O> struct Pack {};
template <class A, class B> struct cat_;
template <class... A, class... B> struct cat_<Pack<A...>, Pack<B...>> { using type = Pack<A..., B...>; };
template <class A, class B> using cat_t = typename cat_<A, B>::type;
#ifndef PACKED
#define PACKED 0         // 1: the options packed into a setup, 2: into a tuple of setups, 3: reversed into a setup
#endif
template <class... O> struct rev_ { using type = Pack<>; };
template <class A, class... O> struct rev_<A, O...> { using type = cat_t<typename rev_<O...>::type, Pack<A>>; };
template <class P> struct as_setup; template <class... O> struct as_setup<Pack<O...>> { using type = ss::setup<O...>; };
template <int K, class... O> struct pack_ { using type = Pack<O...>; };
template <class... O> struct pack_<1, O...> { using type = Pack<ss::setup<O...>>; };
template <class... O> struct pack_<2, O...> { using type = Pack<std::tuple<O...>>; };
template <class... O> struct pack_<3, O...> { using type = Pack<typename as_setup<typename rev_<O...>::type>::type>; };
template <class P> struct to_parser0; template <class... O> struct to_parser0<Pack<O...>> { using type = ss::parser<O...>; using conv = ss::converter<O...>; using split = ss::splitter<O...>; };
template <class P> struct to_parser; template <class... O> struct to_parser<Pack<O...>> : to_parser0<typename pack_<PACKED, O...>::type> {};
template <class P> using parser_of = typename to_parser<P>::type;
template <class P> using converter_of = typename to_parser<P>::conv;
template <class P> using splitter_of = typename to_parser<P>::split;
using Qd = ss::quote<'"'>; using Es = ss::escape<'\\'>; using Tr = ss::trim<' '>;
static Cfg mk(const char *d, char q = 0, const char *e = "", const char *tl = "", const char *tr = "") { Cfg c; c.delim = d; c.has_quote = q; c.quote = q; c.esc = e; c.tl = tl; c.tr = tr; return c; }
template <int> struct SetupDef;
#define SETUP_DEF(k, cfg_, ...) template <> struct SetupDef<k> { using opts = Pack<__VA_ARGS__>; static Cfg cfg() { return cfg_; } };
SETUP_DEF(0, mk(","))
SETUP_DEF(1, mk("::"))
SETUP_DEF(2, mk("aab"))
SETUP_DEF(3, mk("\t"))
SETUP_DEF(4, mk(",,,,"))
SETUP_DEF(5, mk(""))
SETUP_DEF(6, mk(",", '"'), Qd)
SETUP_DEF(7, mk(",", '"', "", " ", " "), Qd, Tr)
SETUP_DEF(8, mk("::", '"'), Qd)
SETUP_DEF(9, mk(";", '\''), ss::quote<'\''>)
SETUP_DEF(10, mk(",", '"', "\\"), Qd, Es)
SETUP_DEF(11, mk(",", 0, "\\"), Es)
SETUP_DEF(12, mk(",", 0, "\\", " ", " "), Es, Tr)
SETUP_DEF(13, mk(",", '"', "\\^"), ss::escape<'\\', '^'>, Qd)
SETUP_DEF(14, mk(",", '"', "\\", " ", " "), Qd, Es, Tr)
SETUP_DEF(15, mk("::", 0, "\\"), Es)
SETUP_DEF(16, mk(",", 0, "", " ", " "), Tr)
SETUP_DEF(17, mk(",", 0, "", " ", ""), ss::trim_left<' '>)
SETUP_DEF(18, mk(",", 0, "", "", " "), ss::trim_right<' '>)
SETUP_DEF(19, mk(",", 0, "", " ", "\t-"), ss::trim_left<' '>, ss::trim_right<'\t', '-'>)
SETUP_DEF(20, mk(";", '"', "", "_ ", " "), Qd, ss::trim_left<'_', ' '>, ss::trim_right<' '>)
SETUP_DEF(21, mk(",", '"', "\\", " \t", " \t"), Qd, Es, ss::trim<' ', '\t'>)
SETUP_DEF(22, mk("::", 0, "", " ", " "), Tr)
SETUP_DEF(23, mk("::", '"', "\\", " ", " "), Qd, Es, Tr)
SETUP_DEF(24, mk(",", '"', "\\^", " _", "-"), Qd, ss::escape<'\\', '^'>, ss::trim_left<' ', '_'>, ss::trim_right<'-'>)
SETUP_DEF(25, mk(",", 0, "", " \t_-+", " \t_-+"), ss::trim<' ', '\t', '_', '-', '+'>)
SETUP_DEF(26, mk(",", 0, "\\^~!$%", " \t_-+x", ""), ss::escape<'\\', '^', '~', '!', '$', '%'>, ss::trim_left<' ', '\t', '_', '-', '+', 'x'>)
#undef SETUP_DEF
struct no_opt {};
template <bool B, class T> using opt_if = std::conditional_t<B, Pack<T>, Pack<>>;
template <int Setup = SETUP, int Ml = ML, int Err = ERR, int Ie = IE, int Ih = IH> struct Use {
  using P1 = cat_t<typename SetupDef<Setup>::opts, std::conditional_t<(Ml >= 0), Pack<ss::multiline_restricted<(Ml > 0 ? Ml : 0)>>, Pack<>>>;
  using P2 = cat_t<P1, cat_t<opt_if<Err == 1, ss::string_error>, opt_if<Err == 2, ss::throw_on_error>>>;
  using opts = cat_t<P2, cat_t<opt_if<Ie, ss::ignore_empty>, opt_if<Ih, ss::ignore_header>>>;
  using parser = parser_of<opts>; using converter = converter_of<opts>; using splitter = splitter_of<opts>;
  static Cfg cfg() { Cfg c = SetupDef<Setup>::cfg(); c.multi = Ml; c.ignore_empty = Ie; c.ignore_header = Ih; return c; }
  static constexpr int err = Err;
};
// the characters that matter to a setup, plus one ordinary letter and the line ends
static inline std::string special(const Cfg &c) {
  std::string s = "a\n\r"; for (const char *d = c.delim; *d; d++) s += *d;
  if (c.has_quote) s += c.quote;
  s += c.esc; s += c.tl; s += c.tr;
  std::string r; for (char x : s) if (r.find(x) == std::string::npos) r += x;
  return r;
}
