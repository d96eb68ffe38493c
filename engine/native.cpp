// Native runtime for harnesses: replays models (values of the symbolic bytes) against the real compiled code.
// usage: prog MODELFILE   (one hex string per line); prints "R <index> <status> <observations hex> <detail>"
#include "sx.h"
#include <cstdlib>
#include <vector>
#include <new>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <exception>
static std::vector<uint8_t> model; static size_t used; static std::string obs; static int ofd = 1; static int nfiles = 0;
static void out(const char *tag, const std::string &detail) {
  static const char *hx = "0123456789abcdef"; std::string s = std::string(tag) + " "; for (unsigned char c : obs) { s += hx[c >> 4]; s += hx[c & 15]; } s += "| " + detail + "\n";
  size_t i = 0; while (i < s.size()) { ssize_t k = write(ofd, s.data() + i, s.size() - i); if (k <= 0) break; i += k; }
}
#ifdef SX_FAILALLOC
static int failAt = -1; static int allocs = 0; static bool active = false;
static bool fails() { if (!active) return false; allocs++; if (failAt < 0) return false; if (failAt == 0) { failAt = -1; return true; } failAt--; return false; }
extern "C" { void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { if (fails()) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (fails()) { errno = ENOMEM; return nullptr; } if (!p) return __real_malloc(n); return __real_realloc(p, n); }
// getline with the growth policy of the model
ssize_t __wrap_getline(char **lp, size_t *n, FILE *f) {
  if (!*lp || !*n) { *n = 120; if (fails()) { errno = ENOMEM; return -1; } char *q = (char *)__real_malloc(120); if (*lp) free(*lp); *lp = q; }
  size_t cur = 0; int c = 0; static char piece[4096];
  while (c != '\n') {
    size_t len = 0, pos = ftell(f), room = 4096 - pos % 4096; while (len < room && (c = fgetc(f)) != EOF) { piece[len++] = c; if (c == '\n') break; }
    if (!len) break;
    size_t need = cur + len + 1; if (need > *n) { if (need < 2 * *n) need = 2 * *n; if (fails()) { fseek(f, pos, SEEK_SET); errno = ENOMEM; return -1; } *lp = (char *)__real_realloc(*lp, need); *n = need; }
    memcpy(*lp + cur, piece, len); cur += len; if (c == EOF) break; }
  if (!cur) return -1; (*lp)[cur] = 0; return cur; }
ssize_t __wrap___getdelim(char **lp, size_t *n, int, FILE *f) { return __wrap_getline(lp, n, f); }
}
void *operator new(size_t n) { if (fails()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#ifdef SX_COUNT
#define NOCOV __attribute__((no_sanitize_coverage))
// basic blocks executed, bytes moved in bulk, heap bytes in use
#include <malloc.h>
static uint64_t blocks; static int64_t live, peak;
extern "C" { NOCOV void __sanitizer_cov_trace_pc() { blocks++; }
NOCOV static void took(void *p) { if (p) { live += malloc_usable_size(p); if (live > peak) peak = live; } }
NOCOV static void left(void *p) { if (p) live -= malloc_usable_size(p); }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
NOCOV void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); took(p); return p; }
NOCOV void *__wrap_calloc(size_t k, size_t n) { void *p = __real_calloc(k, n); took(p); return p; }
NOCOV void *__wrap_realloc(void *p, size_t n) { size_t old = p ? malloc_usable_size(p) : 0; blocks += old < n ? old : n; void *q = __real_realloc(p, n); if (q) { live -= old; took(q); } return q; }
NOCOV void __wrap_free(void *p) { left(p); __real_free(p); }
#define BULK(r, f, par, arg, n) r __real_##f par; NOCOV r __wrap_##f par { blocks += (n); return __real_##f arg; }
BULK(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n), n)
BULK(void *, memmove, (void *a, const void *b, size_t n), (a, b, n), n)
BULK(void *, memset, (void *a, int b, size_t n), (a, b, n), n)
BULK(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), n)
void *__real_memchr(const void *, int, size_t); NOCOV void *__wrap_memchr(const void *a, int b, size_t n) { void *r = __real_memchr(a, b, n); blocks += r ? (const char *)r - (const char *)a : n; return r; }
size_t __real_strlen(const char *); NOCOV size_t __wrap_strlen(const char *a) { size_t n = __real_strlen(a); blocks += n; return n; }
uint64_t sx_work() noexcept { return blocks; }
uint64_t sx_peak() noexcept { int64_t p = peak; peak = live; return p; }
}
NOCOV void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
NOCOV void *operator new[](size_t n) { return operator new(n); }
NOCOV void operator delete(void *p) noexcept { free(p); } NOCOV void operator delete(void *p, size_t) noexcept { free(p); }
NOCOV void operator delete[](void *p) noexcept { free(p); } NOCOV void operator delete[](void *p, size_t) noexcept { free(p); }
#else
extern "C" { uint64_t sx_work() noexcept { return 0; } uint64_t sx_peak() noexcept { return 0; } }
#endif
extern "C" {
void sx_symbolic(void *p, size_t n, const char *) noexcept { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = used < model.size() ? model[used] : 'a', used++; }
unsigned sx_choose(unsigned n, const char *) noexcept { unsigned v = used < model.size() ? model[used] : 0; used++; return v < n ? v : 0; }
void sx_assume(bool c) noexcept { if (!c) { out("ASSUME", ""); _exit(0); } }
void sx_assert_at(bool c, const char *m, int line) noexcept { if (!c) { out("ASSERT", std::string(m) + " (line " + std::to_string(line) + ")"); _exit(0); } }
void sx_reach(int) noexcept {}
void sx_observe(const void *p, size_t n) noexcept {
#ifdef SX_FAILALLOC
  bool a = active; active = false;
#endif
  obs.append((const char *)p, n);
#ifdef SX_FAILALLOC
  active = a;
#endif
}
void sx_note(const char *) noexcept {}
void sx_noleak() noexcept {}
void sx_fail_alloc(int k) noexcept {
#ifdef SX_FAILALLOC
  failAt = k;
#endif
}
int sx_alloc_count() noexcept {
#ifdef SX_FAILALLOC
  return allocs;
#else
  return 0;
#endif
}
uint64_t sx_concretize(uint64_t v) noexcept { return v; }
bool sx_is_symbolic(uint64_t) noexcept { return false; }
void sx_print(const char *s, long v) noexcept { if (getenv("SX_PRINT")) fprintf(stderr, "%s=%ld ", s, v); }
const char *sx_file(const char *d, size_t n) noexcept {
  static const char *names[4] = {"sx0.csv", "sx1.csv", "sx2.csv", "sx3.csv"};
#ifdef SX_FAILALLOC
  bool a = active; active = false;
#endif
  FILE *f = fopen(names[nfiles], "wb"); if (!f) _exit(9); if (n && fwrite(d, 1, n, f) != n) _exit(9); fclose(f);
#ifdef SX_FAILALLOC
  active = a;
#endif
  return names[nfiles++];
}
}
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
extern "C" const char *__asan_default_options() { return "detect_leaks=1:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=1024"; }
extern "C" const char *__lsan_default_options() { return "exitcode=77"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=1"; }
#endif
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); if (!f) return 9; std::vector<std::vector<uint8_t>> all; char *lp = nullptr; size_t ln = 0; ssize_t k;
  while ((k = getline(&lp, &ln, f)) >= 0) { std::vector<uint8_t> m; for (ssize_t i = 0; i + 1 < k && lp[i] != '\n'; i += 2) { char t[3] = {lp[i], lp[i + 1], 0}; m.push_back(strtoul(t, nullptr, 16)); } all.push_back(m); }
  free(lp); fclose(f);
  for (size_t i = 0; i < all.size(); i++) {
    int pd[2]; if (pipe(pd)) return 9; fflush(stdout); pid_t c = fork();
    if (c == 0) {
      close(pd[0]); ofd = pd[1]; model = all[i]; used = 0; obs.reserve(1 << 16); alarm(20);
      std::vector<std::vector<uint8_t>>().swap(all);
      std::set_terminate([] { out("TERMINATE", ""); _exit(0); });
#ifdef SX_FAILALLOC
      active = true;
#endif
      sx_main();
#ifdef SX_FAILALLOC
      active = false;
#endif
      std::vector<uint8_t>().swap(model);
#if defined(__SANITIZE_ADDRESS__)
      if (__lsan_do_recoverable_leak_check()) { out("LEAK", ""); _exit(0); }
#endif
      out("OK", ""); _exit(0); }
    close(pd[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(pd[0], b, sizeof b)) > 0) r.append(b, n); close(pd[0]); int st = 0; waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) printf("R %zu %s | signal %d\n", i, WTERMSIG(st) == SIGALRM ? "TIMEOUT" : "CRASH", WTERMSIG(st));
    else if (WEXITSTATUS(st)) printf("R %zu CRASH | exit %d\n", i, WEXITSTATUS(st));
    else { if (r.empty()) r = "CRASH | no output\n"; printf("R %zu %s", i, r.c_str()); }
  }
}
