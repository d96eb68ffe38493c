// Two objects with their own inputs: each delivers, used in turns, exactly what it delivers alone, and a call on one
// changes nothing that the other reports (C31).  With THREADS (native confirmation of a write to shared storage) each
// object is used by its own thread instead.
#include "ask.hpp"
#include <memory>
#ifdef SX_NATIVE
#include <unistd.h>
#include <sys/wait.h>
#endif
#ifdef THREADS
#include <thread>
#endif
#ifndef KIND
#define KIND 0           // 0 two parsers, 1 two converters, 2 a parser and a converter, 3 two parsers reading the same file, 4 parsers of different setups
#endif
#ifndef LENA
#define LENA 2
#endif
#ifndef LENB
#define LENB 2
#endif
#ifndef STEPS
#define STEPS 2          // calls on each object
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef PREB
#define PREB PRE
#endif
#ifndef POST
#define POST ""
#endif
#ifndef ALPHABET
#define ALPHABET "a1,\n"
#endif
#ifndef KSET
#define KSET 0, 3
#endif
#ifndef KSETB
#define KSETB KSET
#endif
#ifndef OPSET
#define OPSET 0          // 0 read, 1 skip, 2 select, 3 header, 4 chain, 5 move, 6 iterate
#endif
#ifndef SRC
#define SRC 0            // 0 buffer, 1 file
#endif
#ifndef DELIMB
#define DELIMB U::cfg().delim
#endif
#ifndef OTHER
#define OTHER 16
#endif
struct Text { char *b; size_t n; std::string file; };
struct What { unsigned op, k; };
// everything a call delivers, or an object reports, as one text
static void put(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); }
static void put(std::string &s, const std::string &x) { size_t n = x.size(); put(s, &n, sizeof n); s += x; }
static std::string flat(const Out &o) { std::string s; char k[2] = {(char)o.ok, (char)o.threw}; put(s, k, 2); for (auto &x : o.s) put(s, x); if (o.v.size()) put(s, o.v.data(), 8 * o.v.size()); put(s, o.msg); return s; }
static std::string seen(bool eof, bool valid, size_t line, size_t pos, const std::string &m) { std::string s; size_t k[4] = {eof, valid, line, pos}; put(s, k, sizeof k); put(s, m); return s; }
static Text copy(const Text &t) { Text c{new char[t.n + 1], t.n, t.file}; memcpy(c.b, t.b, t.n + 1); return c; }
template <class U> struct Reader {                                            // a parser on its own input
  using P = typename U::parser; Text t; std::unique_ptr<P> p;
  Reader(const Text &x, const std::string &d) : t(copy(x)) { p = t.file.empty() ? std::make_unique<P>(t.b, t.n, d) : std::make_unique<P>(t.file, d); }
  ~Reader() { p.reset(); delete[] t.b; }
  Out step(What w) {
    switch (w.op) {
      case 1: { Out r = outcome<U::err>(*p, [&] { return p->ignore_next(); }); return r; }
#if !IH
      case 2: return outcome<U::err>(*p, [&] { if (w.k) p->use_fields("b"); else p->use_fields("b", "a"); return 0; });
      case 3: return outcome<U::err>(*p, [&] { std::string s = p->raw_header() + "|"; for (auto &x : p->header()) { s += x; s += '|'; } return s; });
#endif
      case 4: if constexpr (U::err != 2) { Out o; p->template try_next<int>([&](int x) { o.v.push_back(x); }).template or_else<RS, RS>([&](const RS &a, const RS &b) { add(o, a); add(o, b); }).on_error([&] { o.v.push_back(99); }); o.ok = p->valid(); if constexpr (U::err == 1) o.msg = p->error_msg(); return o; } else break;
      case 5: p = std::make_unique<P>(std::move(*p)); return Out();
      case 6: { Out o; for (auto &x : p->template iterate<RS>()) { add(o, x); o.v.push_back(1); break; } return o; }
    }
    return ask<U::err>(*p, w.k);
  }
  std::string report() { bool v = true; std::string m; if constexpr (U::err != 2) v = p->valid(); if constexpr (U::err == 1) m = p->error_msg(); return seen(p->eof(), v, p->line(), p->position(), m); }
};
template <class U> struct Line {                                              // a converter on the lines of its input
  typename U::converter c; Text t; char *q; std::string d;
  Line(const Text &x, const std::string &y) : t(copy(x)), q(t.b), d(y) {}
  ~Line() { delete[] t.b; }
  Out step(What w) { char *e = q; while (*e && *e != '\n') e++; bool more = *e; *e = 0; char *l = q; q = more ? e + 1 : e; return conv<U::err>(c, w.k, l, d.c_str()); }
  std::string report() { bool v = true; std::string m; if constexpr (U::err != 2) v = c.valid(); if constexpr (U::err == 1) m = c.error_msg(); return seen(false, v, 0, 0, m); }
};
using Texts = std::vector<std::string>;
// what the object delivers in a program of its own
template <class X> static Texts alone(const Text &t, const std::string &d, const What *w) {
  Texts r; auto run = [&] { X x(t, d); r.push_back(x.report()); for (int i = 0; i < STEPS; i++) { r.push_back(flat(x.step(w[i]))); r.push_back(x.report()); } };
#ifndef SX_NATIVE
  sx_fresh(); run();
#else
  int fd[2]; if (pipe(fd)) abort(); pid_t p = fork();
  if (p == 0) { run(); for (auto &s : r) { size_t n = s.size(); if (write(fd[1], &n, sizeof n) != sizeof n || write(fd[1], s.data(), n) != (ssize_t)n) _exit(1); } _exit(0); }
  close(fd[1]); size_t n; while (read(fd[0], &n, sizeof n) == sizeof n) { std::string s(n, 0); for (size_t i = 0; i < n;) { ssize_t k = read(fd[0], &s[i], n - i); if (k <= 0) abort(); i += k; } r.push_back(s); }
  close(fd[0]); waitpid(p, nullptr, 0); sx_assert(r.size() == 2 * STEPS + 1, "alone");
#endif
  return r;
}
template <class X, class Y> static void both(const Text &t, const Text &u, const std::string &d, const std::string &e, const What *w, const What *v) {
#ifdef THREADS
  auto one = [](auto *tag_, const Text &x, const std::string &f, const What *y) { using Z = std::remove_pointer_t<decltype(tag_)>; Z z(x, f); for (int j = 0; j < STEPS; j++) z.step(y[j]); };
  auto run = [&] { for (int i = 0; i < 3; i++) { one((X *)nullptr, t, d, w); one((Y *)nullptr, u, e, v); } };
  std::thread a(run), b(run); a.join(); b.join();
#else
  Texts o = alone<X>(t, d, w), r = alone<Y>(u, e, v); size_t good = 0, bad = 0; bool turn = false, last = false;
#ifndef SX_NATIVE
  sx_fresh();
#endif
  { X x(t, d); Y y(u, e); int i = 0, j = 0;
    while (i < STEPS || j < STEPS) {
      bool first = j == STEPS || (i < STEPS && sx_choose(2, "turn") == 0); if (i + j && first != last) turn = true; last = first;
      Out g; if (first) { g = x.step(w[i]); sx_assert(same_text(flat(g), o[2 * i + 1]), "a call delivers what it delivers alone"); i++; } else { g = y.step(v[j]); sx_assert(same_text(flat(g), r[2 * j + 1]), "a call delivers what it delivers alone"); j++; }
      observe(g); (g.ok ? good : bad)++; sx_assert(same_text(x.report(), o[2 * i]), "the first object reports what it reports alone"); sx_assert(same_text(y.report(), r[2 * j]), "the second object reports what it reports alone");
    } }
  if (good > 1 && turn) sx_reach(1); if (bad && good) sx_reach(2);
#endif
}
static const unsigned kset[] = {KSET}, ksetb[] = {KSETB}, opset[] = {OPSET};
template <size_t N> static unsigned pick(const unsigned (&s)[N], const char *n) { return N > 1 ? s[sx_choose(N, n)] : s[0]; }
template <size_t N> static void plan(What *w, const unsigned (&ks)[N], bool reader) { for (int i = 0; i < STEPS; i++) { w[i].op = reader ? pick(opset, "call") : 0; w[i].k = w[i].op == 2 ? sx_choose(2, "fields") : w[i].op ? 0 : pick(ks, "request"); } }
static Text text(const char *name, const std::string &pre, size_t m, bool file) {
  std::string al = ALPHABET, post = POST; size_t n = sx_choose(m + 1, "length"); Text t{new char[pre.size() + n + post.size() + 1], pre.size() + n + post.size(), ""};
  memcpy(t.b, pre.data(), pre.size()); sx_symbolic_in(t.b + pre.size(), n, name, al.data(), al.size()); memcpy(t.b + pre.size() + n, post.data(), post.size()); t.b[t.n] = 0;
  if (file) t.file = file_name(t.b, t.n);
  return t;
}
void sx_main() {
  using U = Use<>; std::string d = U::cfg().delim, e = DELIMB; What w[STEPS], v[STEPS]; Text t = text("first", PRE, LENA, KIND == 3 || SRC); Text u = KIND == 3 ? copy(t) : text("second", PREB, LENB, SRC); plan(w, kset, KIND != 1); plan(v, ksetb, KIND != 1 && KIND != 2);
  if constexpr (KIND == 1) both<Line<U>, Line<U>>(t, u, d, e, w, v); else if constexpr (KIND == 2) both<Reader<U>, Line<U>>(t, u, d, e, w, v); else if constexpr (KIND == 4) both<Reader<U>, Reader<Use<OTHER>>>(t, u, d, e, w, v); else both<Reader<U>, Reader<U>>(t, u, d, e, w, v);
  delete[] t.b; delete[] u.b;
}
