// Nothing but the data is borrowed (C32): names, delimiters and field names are overwritten or destroyed right after the
// call that received them, and every owning result is compared again when everything it came from is gone.
#include "ask.hpp"
#include <memory>
#ifndef KIND
#define KIND 0           // 0 parser, 1 converter
#endif
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET "a1,\n"
#endif
#ifndef KSET
#define KSET 0, 3
#endif
#ifndef OPSET
#define OPSET 0          // 0 read, 1 select, 2 field_exists, 3 header and raw header, 4 chain, 5 iterate, 6 move, 7 object
#endif
#ifndef CALLS
#define CALLS 3
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef DELIM
#define DELIM U::cfg().delim
#endif
using U = Use<>; using P = U::parser; using C = U::converter;
static void put(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); }
static void put(std::string &s, const std::string &x) { size_t n = x.size(); put(s, &n, sizeof n); s += x; }
static std::string flat(const Out &o) { std::string s; char k[2] = {(char)o.ok, (char)o.threw}; put(s, k, 2); for (auto &x : o.s) put(s, x); if (o.v.size()) put(s, o.v.data(), 8 * o.v.size()); put(s, o.msg); return s; }
// a result that is kept, and what it said when it was delivered
struct Kept { virtual ~Kept() {} virtual std::string now() = 0; std::string then; };
template <class V> struct Keep : Kept { V v; Keep(V &&x) : v(std::move(x)) { then = now(); } std::string now() override { Out o; add(o, v); return flat(o); } };
struct KeptError : Kept { ss::exception e; KeptError(const ss::exception &x) : e(x) { then = e.what(); } std::string now() override { return e.what(); } };
static std::vector<std::unique_ptr<Kept>> *kept;
template <class V> static void keep(V &&v) { if (kept) kept->push_back(std::make_unique<Keep<std::decay_t<V>>>(std::forward<V>(v))); }
static void add(Out &o, const std::vector<std::string> &v) { for (auto &x : v) add(o, x); }
struct Obj { int a{}; RS b; };
static void add(Out &o, const Obj &x) { add(o, x.a); add(o, x.b); }
// like outcome(), but the value and the exception are kept
template <class Q, class F> static Out result(Q &p, F f) {
  Out o;
  if constexpr (ERR == 2) { try { auto v = f(); add(o, v); keep(std::move(v)); o.ok = true; } catch (const ss::exception &e) { o = Out(); o.threw = true; o.msg = e.what(); if (kept) kept->push_back(std::make_unique<KeptError>(e)); } }
  else { auto v = f(); add(o, v); keep(std::move(v)); o.ok = p.valid(); if constexpr (ERR == 1) { RS m = p.error_msg(); o.msg = m; keep(std::move(m)); } }
  return o;
}
// an argument that is gone after the call: destroyed, or the same object used again with other contents
static std::string *slots; static unsigned nslot;
struct Arg {
  std::string *s; bool wipe; Arg(const std::string &x, bool w, bool lasting = false) : wipe(w || lasting) { if (wipe) s = new std::string(x); else { s = &slots[nslot++]; *s = x; } }
  void gone() { if (!s) return; for (auto &c : *s) c = 'Z'; if (wipe) { delete s; s = nullptr; } }
  ~Arg() { if (wipe) delete s; else nslot--; }
};
struct Chars { char *p; Chars(const std::string &x) : p(new char[x.size() + 1]) { memcpy(p, x.c_str(), x.size() + 1); } void gone() { for (char *q = p; *q; q++) *q = 'Z'; delete[] p; p = nullptr; } ~Chars() { delete[] p; } };
static const unsigned kset[] = {KSET}, opset[] = {OPSET};
template <size_t N> static unsigned pick(const unsigned (&s)[N], const char *n) { return N > 1 ? s[sx_choose(N, n)] : s[0]; }
template <class Q, class... T> static Out next_(Q &p, tag<T...>) { return result(p, [&] { return p.template get_next<T...>(); }); }
template <class G> static Out owning(unsigned k, G g) {
  switch (k) {
    case 0: return g(tag<RS>{});
    case 1: return g(tag<RS, RS>{});
    case 3: return g(tag<int, RS>{});
    case 5: return g(tag<RS, std::optional<RS>>{});
    case 6: return g(tag<std::tuple<RS, char>>{});
    case 7: return g(tag<std::variant<int, RS>>{});
    default: return g(tag<RS, RS, RS>{});
  }
}
#if KIND == 0
static Out call(std::unique_ptr<P> &q, unsigned op, unsigned k, unsigned how, bool lasting) {
  P &p = *q; bool w = how & 1;
  switch (op) {
#if !IH
    case 1: { Arg a("a", w, lasting), b("b", w, lasting); Chars x("b"), y("a"); Out o;
      if (k == 0) o = result(p, [&] { p.use_fields(*b.s); return 0; }); else if (k == 1) o = result(p, [&] { p.use_fields(*b.s, *a.s); return 0; }); else if (k == 2) o = result(p, [&] { p.use_fields(x.p, y.p); return 0; }); else o = result(p, [&] { p.use_fields(*a.s, "zz"); return 0; });
      if (!lasting) { a.gone(); b.gone(); x.gone(); y.gone(); } return o; }
    case 2: { Arg a(k ? "b" : "q", w, lasting); Out o = result(p, [&] { return p.field_exists(*a.s); }); if (!lasting) a.gone(); return o; }
    case 3: return k ? result(p, [&] { return p.header(); }) : result(p, [&] { return RS(p.raw_header()); });
#endif
#if ERR != 2
    case 4: { Out o; { auto v = p.template try_next<int>([&](int x) { o.v.push_back(x); }).template or_else<RS, RS>().template or_object<Obj, int, RS>().template or_else<RS>([&](const RS &x) { add(o, x); }).on_error([&] { o.v.push_back(99); }).values();
        add(o, v); o.ok = p.valid(); keep(std::move(v)); } if constexpr (ERR == 1) o.msg = p.error_msg(); return o; }
#endif
    case 5: { Out o; auto f = [&] { for (auto &x : p.template iterate<RS, RS>()) { add(o, x); keep(std::tuple<RS, RS>(x)); break; } return 0; }; Out r = result(p, f); o.ok = r.ok; o.threw = r.threw; o.msg = r.msg; return o; }
    case 6: q = std::make_unique<P>(std::move(p)); return Out();
    case 7: return result(p, [&] { return p.template get_object<Obj, int, RS>(); });
  }
  return owning(k, [&](auto t) { return next_(p, t); });
}
void sx_main() {
  std::string al = ALPHABET, pre = PRE, post = POST, de = DELIM; size_t n = sx_choose(MAXLEN + 1, "length"), t = pre.size() + n + post.size(); unsigned how = sx_choose(2, "destroy"); slots = new std::string[3]; nslot = 0;
  char *b = new char[t + 1], *c = new char[t + 1]; memcpy(b, pre.data(), pre.size()); sx_symbolic_in(b + pre.size(), n, "input", al.data(), al.size()); memcpy(b + pre.size() + n, post.data(), post.size()); memcpy(c, b, t);
  std::vector<std::unique_ptr<Kept>> all; size_t good = 0, bad = 0;
  {
    std::string fn; if (SRC) fn = file_name(b, t); std::unique_ptr<P> p, q;
    if (SRC) q = std::make_unique<P>(fn, de); else q = std::make_unique<P>(c, t, de);
    { Arg d(de, how), f(fn, how); if (SRC) p = std::make_unique<P>(*f.s, *d.s); else p = std::make_unique<P>(b, t, *d.s); d.gone(); f.gone(); }
    for (int i = 0; i < CALLS; i++) {
      unsigned op = pick(opset, "call"), k = op == 0 ? pick(kset, "request") : op == 1 ? sx_choose(4, "fields") : op == 2 || op == 3 ? sx_choose(2, "variant") : 0;
      kept = &all; Out x = call(p, op, k, how, false); kept = nullptr; Out y = call(q, op, k, how, true); observe(x);
      sx_assert(same_text(flat(x), flat(y)), "same result as with lasting arguments"); (x.ok ? good : bad)++;
      sx_assert((p->eof() == q->eof()) & (p->line() == q->line()) & (p->position() == q->position()), "same place as with lasting arguments");
    }
  }
  memset(b, 'Z', t); delete[] b; delete[] c; delete[] slots;
  for (auto &x : all) sx_assert(same_text(x->then, x->now()), "a kept result is what was delivered");
  if (good > 1) sx_reach(1); if (bad && good) sx_reach(2);
}
#elif KIND == 1
template <class... T> static Out direct(C &c, tag<T...>, char *l, const std::string &d) { return result(c, [&] { return c.template convert<T...>(l, d); }); }
template <class... T> static Out stored(C &c, tag<T...>) { return result(c, [&] { return c.template convert<T...>(); }); }
void sx_main() {
  std::string al = ALPHABET, pre = PRE, post = POST, de = DELIM; unsigned how = sx_choose(2, "destroy"); slots = new std::string[3]; nslot = 0; std::vector<std::unique_ptr<Kept>> all; size_t good = 0, bad = 0, left = MAXLEN;
  {
    C c, e;
    for (int i = 0; i < CALLS; i++) {
      size_t n = i == CALLS - 1 ? left : sx_choose(left + 1, "length"), t = pre.size() + n + post.size(); left -= n; char *x = new char[t + 1], *y = new char[t + 1];
      memcpy(x, pre.data(), pre.size()); sx_symbolic_in(x + pre.size(), n, "line", al.data(), al.size()); memcpy(x + pre.size() + n, post.data(), post.size()); x[t] = 0; memcpy(y, x, t + 1);
      unsigned k = pick(kset, "request"), via = sx_choose(2, "how"); kept = &all;
#ifdef DELIMS
      de = std::string(1, DELIMS[sx_choose(sizeof DELIMS - 1, "delimiter")]);
#endif
      Arg d(de, how); Out u;
      if (via == 0) u = owning(k, [&](auto g) { return direct(c, g, x, *d.s); });
      else { bool ok = true; if constexpr (ERR == 2) { u = result(c, [&] { c.split(x, *d.s); return 0; }); ok = u.ok; } else c.split(x, *d.s); d.gone(); if (ok) u = owning(k, [&](auto g) { return stored(c, g); }); }
      d.gone(); memset(x, 'Z', t); kept = nullptr;
      Out v = owning(k, [&](auto g) { return direct(e, g, y, de); }); observe(u); (u.ok ? good : bad)++; sx_assert(same_text(flat(u), flat(v)), "same result as with lasting arguments");
      delete[] x; delete[] y;
    }
  }
  delete[] slots;
  for (auto &x : all) sx_assert(same_text(x->then, x->now()), "a kept result is what was delivered");
  if (good > 1) sx_reach(1); if (bad && good) sx_reach(2);
}
#endif
