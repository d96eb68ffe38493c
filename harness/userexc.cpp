// Exceptions of user code: any call into user code (validator, own extraction, object constructor, callback) made by any
// read may throw; the exception reaches the caller, nothing leaks, and the next read delivers the next record (C30).
#include "ask.hpp"
#include <memory>
#ifndef MAXLEN
#define MAXLEN 2
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET ""
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef OPSET
#define OPSET 0, 1
#endif
#ifndef CONV
#define CONV 0
#endif
using U = Use<>; using P = U::parser; using C = U::converter;
struct Boom { int at; RS text; };
static int countdown = -1; static unsigned calls;
static void user() { calls++; if (countdown >= 0 && countdown-- == 0) throw Boom{(int)calls, RS(40, 'x')}; }
template <class T> struct Vd { bool ss_valid(const T &v) const { user(); return v % 2; } const char *error() const { user(); return "even"; } };
struct Own { RS t; bool operator==(const Own &o) const { return t == o.t; } };
namespace ss { template <> inline bool extract(const char *b, const char *e, Own &o) { user(); if (b == e) return false; o.t.assign(b, e); user(); return true; } }
struct Made { int a{}; RS b; Made() = default; Made(int x, RS y) : a(x), b(std::move(y)) { user(); } };
struct Tie { Own a; RS b; auto tied() { return std::tie(a, b); } };
static void add(Out &o, const Own &x) { add(o, x.t); }
static void add(Out &o, const Made &x) { add(o, x.a); add(o, x.b); }
static void add(Out &o, const Tie &x) { add(o, x.a); add(o, x.b); }
#if !CONV
// an iterator that is kept between the reads and incremented once per read
template <class R> struct Walk {
  using It = decltype(std::declval<R &>().begin()); std::optional<R> r; std::optional<It> it;
  template <class F> Out step(P &p, F range) {
    Out o; auto next = [&] { if (!it) { if (!r) r.emplace(range()); it.emplace(r->begin()); } else ++*it; };
    if constexpr (ERR == 2) { try { next(); o.ok = true; } catch (const ss::exception &e) { o.threw = true; o.msg = e.what(); return o; } }
    else { next(); o.ok = p.valid(); if constexpr (ERR == 1) o.msg = p.error_msg(); }
    bool end = *it == r->end(); add(o, end); if (!end) { o.msg = o.ok ? "" : o.msg; add(o, **it); } else { o.ok = true; o.msg.clear(); } return o;
  }
};
struct Walks { Walk<decltype(std::declval<P &>().template iterate<Vd<int>, RS>())> a; Walk<decltype(std::declval<P &>().template iterate_object<Made, int, RS>())> b; };
static Out op(P &p, unsigned k, Walks &w) {
  switch (k) {
    case 10: return w.a.step(p, [&] { return p.template iterate<Vd<int>, RS>(); });
    case 11: return w.b.step(p, [&] { return p.template iterate_object<Made, int, RS>(); });
    case 0: return outcome<ERR>(p, [&] { return p.template get_next<Vd<int>, RS>(); });
    case 1: return outcome<ERR>(p, [&] { return p.template get_next<RS, Own>(); });
    case 2: return outcome<ERR>(p, [&] { return p.template get_object<Made, int, RS>(); });
    case 3: return outcome<ERR>(p, [&] { return p.template get_next<Tie>(); });
    case 4: return outcome<ERR>(p, [&] { return p.template get_next<std::optional<Own>, std::variant<int, Own>>(); });
#if ERR != 2
    case 5: { Out r; auto v = p.template try_next<Vd<int>, RS>([](int, const RS &) { user(); return true; }).on_error([] { user(); }).template or_object<Made, int, RS>([](const Made &m) { user(); return m.a > 1; }).template or_else<RS, Own>([](const RS &, const Own &) { user(); }).on_error([] { user(); }).values();
      r.ok = p.valid(); if (auto &x = std::get<0>(v)) add(r, *x); if (auto &x = std::get<1>(v)) add(r, *x); if (auto &x = std::get<2>(v)) add(r, *x); if constexpr (ERR == 1) r.msg = p.error_msg(); return r; }
    case 6: { Out r; for (auto &x : p.template iterate<Vd<int>, RS>()) { add(r, x); r.ok = p.valid(); break; } return r; }
    case 7: { Out r; for (auto &x : p.template iterate_object<Made, int, RS>()) { add(r, x); r.ok = p.valid(); break; } return r; }
#endif
    case 8: return outcome<ERR>(p, [&] { return p.template get_next<Own>(); });
    default: { Out o = outcome<ERR>(p, [&] { return p.ignore_next(); }); if constexpr (ERR != 2) { o.ok = true; o.msg.clear(); } return o; }
  }
}
#else
static Out op(C &c, unsigned k, char *l, const std::string &d) {
  switch (k) {
    case 0: return outcome<ERR>(c, [&] { return c.template convert<Vd<int>, RS>(l, d); });
    case 1: return outcome<ERR>(c, [&] { return c.template convert<RS, Own>(l, d); });
    case 2: return outcome<ERR>(c, [&] { return c.template convert_object<Made, int, RS>(l, d); });
    case 3: return outcome<ERR>(c, [&] { return c.template convert<Tie>(l, d); });
    case 4: return outcome<ERR>(c, [&] { return c.template convert<std::optional<Own>, std::variant<int, Own>>(l, d); });
    default: return outcome<ERR>(c, [&] { c.split(l, d); return c.template convert<Own, RS>(); });
  }
}
#endif
struct Step { unsigned op; Out o; size_t line, pos; bool eof; };
static const unsigned opset[] = {OPSET};
static void same(const Out &a, const Out &b) { sx_assert(a.ok == b.ok && a.threw == b.threw, "same verdict as without the exception"); same_values(a, b); sx_assert(same_text(a.msg, b.msg), "same message as without the exception"); }
void sx_main() {
  Cfg c = U::cfg(); std::string al = ALPHABET, pre = PRE, post = POST; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size();
  char *b = new char[t + 1]; memcpy(b, pre.data(), pre.size()); char *q = b + pre.size();
  if (al.empty()) sx_symbolic(q, n, "input"); else sx_symbolic_in(q, n, "input", al.data(), al.size());
  memcpy(q + n, post.data(), post.size()); b[t] = 0;
  {
    std::vector<Step> steps; bool file = SRC == 1 || (SRC == 2 && sx_choose(2, "source")); std::string name = file ? file_name(b, t) : std::string();
    auto pass = [&](bool first) {
      size_t i = 0; bool thrown = false;
#if CONV
      C cv; char *l = new char[t + 1];
      for (; i < 2; i++) {
        if (first) steps.push_back(Step{opset[sx_choose(sizeof opset / sizeof *opset, "call")], Out(), 0, 0, false});
        Step &s = steps[i]; memcpy(l, b, t + 1);
        try { Out o = op(cv, s.op, l, c.delim); if (first) { s.o = o; observe(o); } else same(o, s.o); } catch (const Boom &e) { sx_assert(!first && !thrown && e.text.size() == 40, "the exception of the user code"); thrown = true; }
      }
      delete[] l;
#else
      auto p = file ? std::make_unique<P>(name, c.delim) : std::make_unique<P>(b, t, c.delim); Walks w;
      for (bool last = false; !last; i++) {
        last = p->eof(); 
        if (first) steps.push_back(Step{opset[sx_choose(sizeof opset / sizeof *opset, "call")], Out(), 0, 0, false});
        sx_assert(i < steps.size(), "no more records than without the exception"); Step &s = steps[i];
        try { Out o = op(*p, s.op, w); if (first) { s.o = o; observe(o); } else same(o, s.o); } catch (const Boom &e) { sx_assert(!first && !thrown && e.text.size() == 40, "the exception of the user code"); thrown = true; }
        if (first) { s.line = p->line(); s.pos = p->position(); s.eof = p->eof(); }
        else { sx_assert(s.line == p->line() && s.pos == p->position(), "same place as without the exception"); sx_assert(s.eof == p->eof(), "same end of input as without the exception"); }
      }
#endif
      if (!first) { sx_assert(thrown, "the exception reaches the caller"); sx_assert(i == steps.size(), "same number of records"); sx_reach(2); if (i > 2) sx_reach(3); }
    };
    calls = 0; countdown = -1; pass(true); sx_reach(1); unsigned N = calls;
    if (N) { countdown = sx_choose(N, "throwing call"); pass(false); }
  }
  delete[] b;
}
