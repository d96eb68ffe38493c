// Work and memory (C33): the input is PRE, REPS repetitions of a unit with symbolic bytes, POST.  The work of reading
// all of it is at most proportional to its length, the memory in use at any time to the longest record.
#include "setups.hpp"
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef UPRE
#define UPRE ""          // the unit: UPRE, NSYM symbolic bytes, UPOST
#endif
#ifndef UPOST
#define UPOST "\n"
#endif
#ifndef NSYM
#define NSYM 2
#endif
#ifndef ALPHABET
#define ALPHABET "a1,\n"
#endif
#ifndef REPS
#define REPS 200
#endif
#ifndef SRC
#define SRC 0
#endif
#ifndef LINES
#define LINES 0          // 1: a record is a unit, of more lines than one
#endif
#ifndef FORMS
#define FORMS 0
#endif
#ifdef SX_NATIVE         // basic blocks and bytes moved
#define WORK 100
#else                    // instructions and bytes moved
#define WORK 600
#endif
#define PER_LINE 20      // a line costs as much as so many bytes
#define MEM 96
#define MEM0 100000
using U = Use<>;
struct Pair { std::string a, b; Pair() = default; Pair(std::string x, std::string y) : a(std::move(x)), b(std::move(y)) {} };
template <class F> static void guard(F f) { try { f(); } catch (const ss::exception &) {} }
template <class P> static void drive(P &p, unsigned form) {
  switch (form) {
  case 0: while (!p.eof()) guard([&] { (void)p.template get_next<std::string>(); }); break;
  case 1: while (!p.eof()) guard([&] { (void)p.template get_next<int, std::string>(); }); break;
#if ERR != 2
  case 2: while (!p.eof()) guard([&] { (void)p.template try_next<std::string, std::string>().template or_else<int>().values(); }); break;
  case 7: while (!p.eof()) { auto c = p.template try_next<int, int>([](const auto &) { return true; }).template or_object<Pair, std::string, std::string>([](const auto &) {}).template or_else<std::optional<std::string>>(); if constexpr (ERR == 1) c.on_error([](const std::string &) {}); else c.on_error([] {}); } break;
#endif
  case 6: while (!p.eof()) guard([&] { (void)p.template get_object<Pair, std::string, std::string>(); }); break;
  case 8: guard([&] { p.use_fields("b", "a"); for (auto &o : p.template iterate_object<Pair, std::string, std::string>()) (void)o; }); while (!p.eof()) guard([&] { (void)p.template get_next<std::string, std::string>(); }); break;
  case 3: while (!p.eof()) p.ignore_next(); break;
  case 4: while (!p.eof()) guard([&] { for (auto s : p.template iterate<std::string_view>()) (void)s; }); break;
  case 5: while (!p.eof()) { guard([&] { (void)p.template get_next<std::optional<int>, std::string_view>(); }); (void)p.position(); (void)p.line(); } break;
  }
  sx_observe_val(p.line()); sx_observe_val(p.position());
}
struct Cost { uint64_t work, mem, bytes, lines, longest; };
static Cost cost(unsigned form, const Cfg &c, const char *q, int reps) {
  std::string pre = PRE, post = POST, up = UPRE, uq = UPOST; Cost r{};
  size_t ul = up.size() + NSYM + uq.size(); r.bytes = pre.size() + reps * ul + post.size(); char *b = new char[r.bytes], *w = b;
  memcpy(w, pre.data(), pre.size()); w += pre.size();
  for (int i = 0; i < reps; i++) { memcpy(w, up.data(), up.size()); w += up.size(); memcpy(w, q, NSYM); w += NSYM; memcpy(w, uq.data(), uq.size()); w += uq.size(); }
  memcpy(w, post.data(), post.size());
  size_t run = 0;
  for (size_t i = 0; i < r.bytes; i++) { run++; if (b[i] == '\n' || i + 1 == r.bytes) { r.lines++; if (run > r.longest) r.longest = run; run = 0; } }
  std::string f = SRC ? file_name(b, r.bytes) : std::string();
  sx_peak(); uint64_t base = sx_peak(), w0 = sx_work();
  if (SRC) { U::parser p{f, c.delim}; drive(p, form); } else { U::parser p{b, r.bytes, c.delim}; drive(p, form); }
  r.work = sx_work() - w0; r.mem = sx_peak() - base; delete[] b;
#ifdef MEASURE
  sx_print("total", r.bytes); sx_print("lines", r.lines); sx_print("longest", r.longest); sx_print("work", r.work); sx_print("b", r.work / (r.bytes + PER_LINE * r.lines)); sx_print("mem", r.mem);
#endif
  return r;
}
void sx_main() {
  static const unsigned forms[] = {FORMS}; unsigned form = forms[sizeof forms / sizeof *forms > 1 ? sx_choose(sizeof forms / sizeof *forms, "form") : 0];
  Cfg c = U::cfg(); char q[NSYM + 1]; sx_symbolic_in(q, NSYM, "unit", ALPHABET, sizeof ALPHABET - 1);
  if (ERR == 2) try { throw ss::exception("first"); } catch (const ss::exception &) {}
  { Cost w = cost(form, c, q, 2); (void)w; }                          // whatever the program allocates once is there
  Cost one = cost(form, c, q, REPS), two = cost(form, c, q, 2 * REPS);
  sx_assert(one.mem <= MEM * one.longest + MEM0 || LINES, "the memory in use is bounded by the longest record");
  if (LINES || one.longest == two.longest) sx_assert(two.mem <= one.mem + 512, "the memory in use does not grow with the number of records");
  sx_assert(one.work <= WORK * (one.bytes + PER_LINE * one.lines), "the work is proportional to the input");
  sx_assert(two.work <= one.work * 9 / 4, "the work is proportional to the length of the input");
  sx_reach(1);
}
