// Harness interface. The same harness is executed symbolically by ssx (LLVM IR) and, with the native runtime
// (native.cpp), as an ordinary program that takes the symbolic bytes from a model file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name) noexcept;   // n fresh arbitrary bytes
unsigned sx_choose(unsigned n, const char *name) noexcept;        // arbitrary value below n (split)
void sx_assume(bool c) noexcept;
void sx_assert_at(bool c, const char *msg, int line) noexcept;
void sx_reach(int id) noexcept;                                   // vacuity witness
void sx_observe(const void *p, size_t n) noexcept;                // recorded result, compared with the native run
void sx_note(const char *s) noexcept;
void sx_noleak() noexcept;                                        // do not require all heap blocks to be freed
void sx_fail_alloc(int k) noexcept;                               // the k-th next allocation fails (-1: none)
int sx_alloc_count() noexcept;
uint64_t sx_work() noexcept;                                        // instructions executed so far plus bytes moved in bulk
uint64_t sx_peak() noexcept;                                        // most heap bytes in use at a time since the last call
void sx_stop() noexcept;
uint64_t sx_concretize(uint64_t v) noexcept;
bool sx_is_symbolic(uint64_t v) noexcept;
const char *sx_file(const char *data, size_t n) noexcept;         // name of a (virtual) file with this content
void sx_print(const char *s, long v) noexcept;
void sx_fresh() noexcept;                                          // objects with static storage are as at the start of the program
void sx_main();
}
#define sx_assert(c, msg) sx_assert_at((c), msg, __LINE__)
// membership in a set of characters, as one expression (no branching)
static inline bool sx_in(char c, const char *set, size_t n) { unsigned r = 0; for (size_t i = 0; i < n; i++) r |= (unsigned)(c == set[i]); return r; }
static inline void sx_symbolic_in(char *p, size_t n, const char *name, const char *set, size_t m) { sx_symbolic(p, n, name); for (size_t i = 0; i < n; i++) sx_assume(sx_in(p[i], set, m)); }
static inline void sx_observe_str(const std::string &s) { size_t n = s.size(); sx_observe(&n, sizeof n); sx_observe(s.data(), n); }
template <class T> static inline void sx_observe_val(const T &v) { sx_observe(&v, sizeof v); }
