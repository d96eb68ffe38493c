#pragma once
#ifdef SX_SINGLE
#include <ssp.hpp>
#else
#include <ss/parser.hpp>
#endif
#include "model.hpp"
#include <tuple>
#ifndef MSG
#define MSG 0            // 1: the harness decides messages (C14, C15)
#endif
#if MSG
#define MSG_CHECK(c, m) sx_assert(c, m)
#else
#define MSG_CHECK(c, m) (void)0
#endif

template <class T, class = void> struct has_err : std::false_type {};
using V1 = std::string; using V2 = std::tuple<std::string, std::string>; using V3 = std::tuple<std::string, std::string, std::string>;
using V4 = std::tuple<std::string, std::string, std::string, std::string>;

// how a parser is opened
template <class P> struct Opened { P p; };
enum Src { BUF, FILE_ };
static inline std::string file_name(const char *b, size_t n) { return sx_file(b, n); }

struct Got { bool ok = false, threw = false; std::vector<std::string> f; std::string msg; };
template <class P> constexpr bool throws_v = false;
template <class P> constexpr bool smsg_v = false;
template <class... O> constexpr bool throws_v<ss::parser<O...>> = ss::setup<O...>::throw_on_error;
template <class... O> constexpr bool smsg_v<ss::parser<O...>> = ss::setup<O...>::string_error;
template <class... O> constexpr bool throws_v<ss::converter<O...>> = ss::setup<O...>::throw_on_error;
template <class... O> constexpr bool smsg_v<ss::converter<O...>> = ss::setup<O...>::string_error;

static inline void put(Got &g, const std::string &s) { g.f.push_back(s); }
template <class... T> void put(Got &g, const std::tuple<T...> &t) { std::apply([&](const auto &...x) { (g.f.push_back(x), ...); }, t); }

template <class P, class F> Got guarded(P &p, F f) {
  Got g;
  if constexpr (throws_v<P>) {
    try { put(g, f()); g.ok = true; } catch (const ss::exception &e) { g.threw = true; g.msg = e.what(); g.f.clear(); }
  } else {
    put(g, f()); g.ok = p.valid();
    if constexpr (smsg_v<P>) { g.msg = p.error_msg(); MSG_CHECK(g.ok == g.msg.empty(), "message is non-empty exactly when invalid"); }
  }
  return g;
}
using S = std::string;
template <class P> Got next_strings(P &p, size_t n) {
  switch (n) {
    case 1: return guarded(p, [&] { return p.template get_next<S>(); });
    case 2: return guarded(p, [&] { return p.template get_next<S, S>(); });
    case 3: return guarded(p, [&] { return p.template get_next<S, S, S>(); });
    case 4: return guarded(p, [&] { return p.template get_next<S, S, S, S>(); });
    case 5: return guarded(p, [&] { return p.template get_next<S, S, S, S, S>(); });
    case 6: return guarded(p, [&] { return p.template get_next<S, S, S, S, S, S>(); });
    default: return guarded(p, [&] { return p.template get_next<S, S, S, S, S, S, S>(); });
  }
}
constexpr size_t MAXCOL = 7;

static inline void assert_default(const Got &g) { if (g.threw) return; for (auto &s : g.f) sx_assert(s.empty(), "no values are delivered for a rejected record"); }
static inline void assert_row(const Got &g, const std::vector<std::string> &e) {
  sx_assert(g.ok, "record is accepted");
  sx_assert(g.f.size() == e.size(), "number of values");
  for (size_t i = 0; i < e.size(); i++) {
    sx_assert(g.f[i].size() == e[i].size(), "length of a value");
    sx_assert(memcmp(g.f[i].data(), e[i].data(), e[i].size()) == 0, "bytes of a value");
  }
}
static inline void observe(const Got &g) { unsigned char k = g.ok; sx_observe(&k, 1); for (auto &s : g.f) sx_observe_str(s); sx_observe_str(g.msg); }

// read the next record, knowing what the model expects
template <class P> Got read_expect(P &p, const Row &r, size_t onerr = 1) {
  if (r.why == W_NONE && r.f.size() >= 1 && r.f.size() <= MAXCOL) { Got g = next_strings(p, r.f.size()); observe(g); assert_row(g, r.f); return g; }
  Got g = next_strings(p, onerr); observe(g); sx_assert(!g.ok, "record is rejected"); assert_default(g); return g;
}
static inline const char *why_text(Why w) { switch (w) { case W_MISMATCH: return "mismatched quote"; case W_QUOTE: return "unterminated quote"; case W_ESCAPE: return "unterminated escape"; case W_LIMIT: return "multiline limit reached"; case W_DELIM: return "empty delimiter"; default: return ""; } }
static inline std::string why_msg(const Row &r) {
  switch (r.why) { case W_MISMATCH: return "mismatched quote at position: " + std::to_string(r.pos); case W_ESCAPE: return "unterminated escape at the end of the line"; default: return why_text(r.why); }
}
