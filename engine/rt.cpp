// Environment model linked into every symbolic harness: allocation, exceptions, C library pieces, virtual files.
// Everything here is interpreted; it stands for libc / libstdc++ / libc++abi behaviour.
#include <cstddef>
#include <cstdint>
typedef unsigned char u8;
extern "C" {
void *sx_alloc(size_t n, int kind, bool mayFail) noexcept;   // kind 0 malloc, 1 new, 2 new[]
void sx_free(void *p, int kind) noexcept;
[[noreturn]] void sx_unwind(void *exc, void *ti);
[[noreturn]] void sx_terminate(const char *m) noexcept;
void sx_assume(bool) noexcept;
extern void *_ZTISt16invalid_argument, *_ZTISt13runtime_error, *_ZTISt17bad_function_call, *_ZTISt12system_error;
extern void *_ZTISt9bad_alloc, *_ZTISt12length_error, *_ZTISt11logic_error, *_ZTISt12out_of_range, *_ZTISt20bad_array_new_length;

void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t);

int sx_errno = 0;
int *__errno_location() { return &sx_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8)*a - (u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (u8)*a < (u8)*b ? -1 : 1; if (!*a) return 0; } return 0; }
void *memchr(const void *p, int c, size_t n) { const u8 *q = (const u8 *)p; for (; n; n--, q++) if (*q == (u8)c) return (void *)q; return nullptr; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return nullptr; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
void *memrchr(const void *p, int c, size_t n) { const u8 *q = (const u8 *)p; while (n--) if (q[n] == (u8)c) return (void *)(q + n); return nullptr; }
void *rawmemchr(const void *p, int c) { const u8 *q = (const u8 *)p; while (*q != (u8)c) q++; return (void *)q; }
void *mempcpy(void *d, const void *a, size_t n) { memcpy(d, a, n); return (char *)d + n; }
void *memccpy(void *d, const void *a, int c, size_t n) { u8 *x = (u8 *)d; const u8 *y = (const u8 *)a; while (n--) { *x = *y; if (*y == (u8)c) return x + 1; x++, y++; } return nullptr; }
void *memmem(const void *h, size_t n, const void *a, size_t m) { const u8 *x = (const u8 *)h, *y = (const u8 *)a; for (size_t i = 0; i + m <= n; i++) { size_t j = 0; while (j < m && x[i + j] == y[j]) j++; if (j == m) return (void *)(x + i); } return nullptr; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strstr(const char *h, const char *a) { size_t m = strlen(a); for (;; h++) { size_t j = 0; while (j < m && h[j] == a[j]) j++; if (j == m) return (char *)h; if (!*h) return nullptr; } }
char *stpcpy(char *d, const char *a) { while ((*d = *a)) d++, a++; return d; }
char *strcpy(char *d, const char *a) { stpcpy(d, a); return d; }
char *stpncpy(char *d, const char *a, size_t n) { while (n && *a) *d++ = *a++, n--; char *r = d; while (n--) *d++ = 0; return r; }
char *strncpy(char *d, const char *a, size_t n) { stpncpy(d, a, n); return d; }
char *strcat(char *d, const char *a) { stpcpy(d + strlen(d), a); return d; }
char *strncat(char *d, const char *a, size_t n) { char *e = d + strlen(d); while (n-- && *a) *e++ = *a++; *e = 0; return d; }
int isspace(int c) { return (unsigned)(c == ' ') | (unsigned)(c >= 9 && c <= 13); }
int isdigit(int c) { return (unsigned)(c - '0') < 10; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26; }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int tolower(int c) { return c + ((unsigned)(c - 'A') < 26 ? 32 : 0); }
int toupper(int c) { return c - ((unsigned)(c - 'a') < 26 ? 32 : 0); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') < 6); }
int isblank(int c) { return (unsigned)(c == ' ') | (unsigned)(c == 9); }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int isgraph(int c) { return (unsigned)(c - 33) < 94; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return (unsigned)((unsigned)c < 32) | (unsigned)(c == 127); }
int strcasecmp(const char *a, const char *b) { for (; *a && tolower((u8)*a) == tolower((u8)*b); a++, b++) {} return tolower((u8)*a) - tolower((u8)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((u8)*a), y = tolower((u8)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
struct CTab { int lo[384], up[384]; unsigned short b[384]; constexpr CTab() : lo(), up(), b() { for (int i = -128; i < 256; i++) { int c = i; lo[i + 128] = c >= 'A' && c <= 'Z' ? c + 32 : c; up[i + 128] = c >= 'a' && c <= 'z' ? c - 32 : c; unsigned v = 0;
  bool U = c >= 'A' && c <= 'Z', L = c >= 'a' && c <= 'z', D = c >= '0' && c <= '9', S = c == ' ' || (c >= 9 && c <= 13), P = c >= 32 && c < 127; auto bit = [](int k) { return k < 8 ? (1 << k) << 8 : (1 << k) >> 8; };
  if (U) v |= bit(0); if (L) v |= bit(1); if (U || L) v |= bit(2); if (D) v |= bit(3); if (D || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) v |= bit(4); if (S) v |= bit(5); if (P) v |= bit(6); if (P && c != 32) v |= bit(7); if (c == 32 || c == 9) v |= bit(8); if ((c >= 0 && c < 32) || c == 127) v |= bit(9); if (P && c != 32 && !U && !L && !D) v |= bit(10); if (U || L || D) v |= bit(11); b[i + 128] = v; } } };
static constexpr CTab ctab;
static const int *ctLo = ctab.lo + 128, *ctUp = ctab.up + 128; static const unsigned short *ctB = ctab.b + 128;
const int **__ctype_tolower_loc() { return &ctLo; }
const int **__ctype_toupper_loc() { return &ctUp; }
const unsigned short **__ctype_b_loc() { return &ctB; }
// strto[u]l[l]
static uint64_t strInt(const char *s, char **e, int base, bool uns) {
  const char *p = s; while (isspace((u8)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((u8)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t v = 0; bool any = false, ov = false;
  for (;; p++) { int c = (u8)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; uint64_t w; if (__builtin_mul_overflow(v, (uint64_t)base, &w) || __builtin_add_overflow(w, (uint64_t)d, &v)) ov = true; }
  if (e) *e = (char *)(any ? p : s); if (!any) return 0;
  if (uns) { if (ov) { sx_errno = 34; return ~0ull; } return neg ? -v : v; }
  uint64_t lim = neg ? 1ull << 63 : (1ull << 63) - 1; if (ov || v > lim) { sx_errno = 34; return lim; } return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return strInt(s, e, b, false); }
long long strtoll(const char *s, char **e, int b) { return strInt(s, e, b, false); }
unsigned long strtoul(const char *s, char **e, int b) { return strInt(s, e, b, true); }
unsigned long long strtoull(const char *s, char **e, int b) { return strInt(s, e, b, true); }
long __isoc23_strtol(const char *s, char **e, int b) { return strInt(s, e, b, false); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strInt(s, e, b, false); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strInt(s, e, b, true); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strInt(s, e, b, true); }
int atoi(const char *s) { return (int)strInt(s, nullptr, 10, false); }
long atol(const char *s) { return strInt(s, nullptr, 10, false); }
long long atoll(const char *s) { return strInt(s, nullptr, 10, false); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }

void *malloc(size_t n) { void *p = sx_alloc(n, 0, true); if (!p) sx_errno = 12; return p; }
void *calloc(size_t a, size_t b) { u8 *p = (u8 *)malloc(a * b); if (p) for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
void free(void *p) { if (p) sx_free(p, 0); }
size_t sx_heap_size(void *p) noexcept;
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  void *q = sx_alloc(n, 0, true); if (!q) { sx_errno = 12; return nullptr; }   // always moves: the old pointer dies
  size_t m = sx_heap_size(p); memcpy(q, p, m < n ? m : n); sx_free(p, 0); return q;
}
[[noreturn]] void __cxa_throw(void *e, void *ti, void (*d)(void *));
void *__cxa_allocate_exception(size_t n);

// exceptions; the header lies just below the exception object
struct Hdr { void *ti; void (*dtor)(void *); long handlers; Hdr *next; };
static Hdr *caught = nullptr;
void *__cxa_allocate_exception(size_t n) { Hdr *h = (Hdr *)sx_alloc(sizeof(Hdr) + n, 0, false); h->ti = nullptr; h->dtor = nullptr; h->handlers = 0; h->next = nullptr; return h + 1; }
void __cxa_free_exception(void *e) { sx_free((Hdr *)e - 1, 0); }
void __cxa_throw(void *e, void *ti, void (*d)(void *)) { Hdr *h = (Hdr *)e - 1; h->ti = ti; h->dtor = d; sx_unwind(e, ti); }
void *__cxa_get_exception_ptr(void *e) { return e; }
void *__cxa_begin_catch(void *e) { Hdr *h = (Hdr *)e - 1; if (h->handlers < 0) h->handlers = -h->handlers; h->handlers++; if (caught != h) { h->next = caught; caught = h; } return e; }
void __cxa_end_catch() {
  Hdr *h = caught; if (!h) return;
  if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; return; }   // being rethrown
  if (--h->handlers == 0) { caught = h->next; if (h->dtor) h->dtor(h + 1); sx_free(h, 0); }
}
[[noreturn]] void __cxa_rethrow() { Hdr *h = caught; if (!h) sx_terminate("rethrow without exception"); h->handlers = -h->handlers; sx_unwind(h + 1, h->ti); }
[[noreturn]] void _ZSt9terminatev() { sx_terminate("std::terminate called"); }
[[noreturn]] void abort() { sx_terminate("abort called"); }
[[noreturn]] void __cxa_pure_virtual() { sx_terminate("pure virtual call"); }
[[noreturn]] void __cxa_bad_cast() { sx_terminate("bad cast"); }
// objects with static or thread storage: initialised under a guard, destroyed after the harness
u8 sx_guards = 0;
int __cxa_guard_acquire(u8 *g) { if (*g) return 0; sx_guards++; return 1; }
void __cxa_guard_release(u8 *g) { *g = 1; sx_guards--; }
void __cxa_guard_abort(u8 *) { sx_guards--; }
static struct { void (*f)(void *); void *o; } exits[64]; static int nexits = 0; static bool running = false;
int __cxa_atexit(void (*f)(void *), void *o, void *) { if (running) { if (nexits == 64) sx_terminate("too many objects with static storage"); exits[nexits].f = f; exits[nexits].o = o; nexits++; } return 0; }
int __cxa_thread_atexit(void (*f)(void *), void *o, void *d) { return __cxa_atexit(f, o, d); }
void sx_reset() noexcept;
static void leave() { sx_guards = 1; while (nexits) { nexits--; exits[nexits].f(exits[nexits].o); } sx_guards = 0; }
void sx_fresh() { leave(); sx_reset(); }
void sx_main();
void sx_entry() { running = true; sx_main(); leave(); }
int __gxx_personality_v0(...) { return 0; }

[[noreturn]] static void throwStd(void *ti, const char *) { void *e = __cxa_allocate_exception(16); *(void **)e = nullptr; __cxa_throw(e, ti, nullptr); }
[[noreturn]] void _ZSt17__throw_bad_allocv() { throwStd(&_ZTISt9bad_alloc, ""); }
[[noreturn]] void _ZSt28__throw_bad_array_new_lengthv() { throwStd(&_ZTISt20bad_array_new_length, ""); }
[[noreturn]] void _ZSt20__throw_length_errorPKc(const char *m) { throwStd(&_ZTISt12length_error, m); }
[[noreturn]] void _ZSt19__throw_logic_errorPKc(const char *m) { throwStd(&_ZTISt11logic_error, m); }
[[noreturn]] void _ZSt20__throw_out_of_rangePKc(const char *m) { throwStd(&_ZTISt12out_of_range, m); }
[[noreturn]] void _ZSt24__throw_out_of_range_fmtPKcz(const char *m, ...) { throwStd(&_ZTISt12out_of_range, m); }
void _ZNSt9bad_allocD1Ev(void *) {}
void _ZNSt9bad_allocD2Ev(void *) {}
void _ZNSt9exceptionD2Ev(void *) {}
void _ZNSt9exceptionD1Ev(void *) {}
const char *_ZNKSt9exception4whatEv(const void *) { return "std::exception"; }
const char *_ZNKSt9bad_alloc4whatEv(const void *) { return "std::bad_alloc"; }

void *_Znwm(size_t n) { void *p = sx_alloc(n, 1, true); if (!p) _ZSt17__throw_bad_allocv(); return p; }
void *_Znam(size_t n) { void *p = sx_alloc(n, 2, true); if (!p) _ZSt17__throw_bad_allocv(); return p; }
void *_ZnwmRKSt9nothrow_t(size_t n, const void *) { return sx_alloc(n, 1, true); }
void _ZdlPv(void *p) { if (p) sx_free(p, 1); }
void _ZdlPvm(void *p, size_t) { if (p) sx_free(p, 1); }
void _ZdaPv(void *p) { if (p) sx_free(p, 2); }
void _ZdaPvm(void *p, size_t) { if (p) sx_free(p, 2); }
// std::string::_M_create
char *_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm(void *, size_t *cap, size_t old) {
  if (*cap > 0x3fffffffffffffffull) _ZSt20__throw_length_errorPKc("basic_string::_M_create");
  if (*cap > old && *cap < 2 * old) *cap = 2 * old;
  return (char *)_Znwm(*cap + 1);
}

[[noreturn]] void _ZSt24__throw_invalid_argumentPKc(const char *m) { throwStd(&_ZTISt16invalid_argument, m); }
[[noreturn]] void _ZSt21__throw_runtime_errorPKc(const char *m) { throwStd(&_ZTISt13runtime_error, m); }
[[noreturn]] void _ZSt25__throw_bad_function_callv() { throwStd(&_ZTISt17bad_function_call, ""); }
[[noreturn]] void _ZSt20__throw_system_errori(int) { throwStd(&_ZTISt12system_error, ""); }
// classes derived from the standard exceptions: vptr and one owned C string
struct StdExc { void *vt; char *msg; };
char *sx_dup(const char *m) { if (!m) return nullptr; size_t n = strlen(m) + 1; char *p = (char *)sx_alloc(n, 0, false); memcpy(p, m, n); return p; }
char *strdup(const char *m) { size_t n = strlen(m) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, m, n); return p; }
char *strndup(const char *m, size_t k) { size_t n = strnlen(m, k); char *p = (char *)malloc(n + 1); if (p) { memcpy(p, m, n); p[n] = 0; } return p; }
#define STDEXC(N) \
  void _ZNSt##N##C2EPKc(StdExc *e, const char *m) { e->msg = sx_dup(m); } \
  void _ZNSt##N##C1EPKc(StdExc *e, const char *m) { e->msg = sx_dup(m); } \
  void _ZNSt##N##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(StdExc *e, char **m) { e->msg = sx_dup(*m); } \
  void _ZNSt##N##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(StdExc *e, char **m) { e->msg = sx_dup(*m); } \
  void _ZNSt##N##C2ERKS_(StdExc *e, StdExc *o) { e->msg = sx_dup(o->msg); } \
  void _ZNSt##N##C2EOS_(StdExc *e, StdExc *o) { e->msg = sx_dup(o->msg); } \
  void _ZNSt##N##D2Ev(StdExc *e) { if (e->msg) sx_free(e->msg, 0); } \
  void _ZNSt##N##D1Ev(StdExc *e) { if (e->msg) sx_free(e->msg, 0); } \
  const char *_ZNKSt##N##4whatEv(StdExc *e) { return e->msg; }
STDEXC(13runtime_error)
STDEXC(11logic_error)
STDEXC(16invalid_argument)
STDEXC(12out_of_range)
STDEXC(12domain_error)
STDEXC(12length_error)
STDEXC(11range_error)
void _ZNSt8ios_base4InitC1Ev(void *) {}
void _ZNSt8ios_base4InitD1Ev(void *) {}
// std::list, std::map / std::set (kept unbalanced), std::unordered_*
struct LN { LN *n, *p; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN *a, LN *pos) { a->n = pos; a->p = pos->p; pos->p->n = a; pos->p = a; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN *a) { a->p->n = a->n; a->n->p = a->p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN *pos, LN *f, LN *l) { if (pos != l) { l->p->n = pos; f->p->n = l; pos->p->n = f; LN *t = pos->p; pos->p = l->p; l->p = f->p; f->p = t; } }
void _ZNSt8__detail15_List_node_base10_M_reverseEv(LN *a) { LN *t = a; do { LN *n = t->n; t->n = t->p; t->p = n; t = n; } while (t != a); }
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(LN *a, LN *b) {
  LN x = *a, y = *b; bool ea = x.n == a, eb = y.n == b;
  if (eb) b->n = b->p = b; if (ea) { b->n = b->p = b; } else { b->n = x.n; b->p = x.p; x.n->p = b; x.p->n = b; }
  if (eb) { a->n = a->p = a; } else { a->n = y.n; a->p = y.p; y.n->p = a; y.p->n = a; }
}
struct RB { int color; RB *par, *l, *r; };                         // header: color 0 (red), parent root, left/right extremes
RB *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RB *x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } RB *y = x->par; while (x == y->r) { x = y; y = y->par; } return x->r != y ? y : x; }
RB *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(RB *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
RB *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RB *x) { if (x->color == 0 && x->par && x->par->par == x) return x->r; if (x->l) { x = x->l; while (x->r) x = x->r; return x; } RB *y = x->par; while (x == y->l) { x = y; y = y->par; } return y; }
RB *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(RB *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RB *x, RB *p, RB *h) {
  x->par = p; x->l = x->r = nullptr; x->color = 1;
  if (left) { p->l = x; if (p == h) { h->par = x; h->r = x; } else if (p == h->l) h->l = x; } else { p->r = x; if (p == h->r) h->r = x; }
}
RB *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB *z, RB *h) {
  RB *nx = nullptr;
  auto put = [&](RB *o, RB *v) { if (h->par == o) h->par = v; else if (o->par->l == o) o->par->l = v; else o->par->r = v; if (v) v->par = o->par; };
  if (!z->l) { nx = z->r; put(z, nx); } else if (!z->r) { nx = z->l; put(z, nx); }
  else { RB *y = z->r; while (y->l) y = y->l; if (y->par != z) { put(y, y->r); y->r = z->r; y->r->par = y; } put(z, y); y->l = z->l; y->l->par = y; }
  RB *m = h->par; if (!m) { h->l = h->r = h; } else { while (m->l) m = m->l; h->l = m; m = h->par; while (m->r) m = m->r; h->r = m; }
  return z;
}
struct Pol { float f; size_t next; };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const Pol *p, size_t n) { const_cast<Pol *>(p)->next = n < 13 ? 13 : 2 * n + 1; return const_cast<Pol *>(p)->next; }
struct RH { bool b; size_t n; };
RH _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const Pol *p, size_t bkt, size_t el, size_t ins) { if (el + ins > p->next) { size_t n = 2 * (el + ins) + 13; const_cast<Pol *>(p)->next = n; return RH{true, n}; } return RH{false, 0}; }
size_t _ZSt11_Hash_bytesPKvmm(const void *, size_t, size_t) { return 0; }     // any hash function will do
size_t _ZSt15_Fnv_hash_bytesPKvmm(const void *, size_t, size_t) { return 0; }

// virtual files
struct VF { const char *data; size_t size; };
static VF vfiles[4]; static int nvf = 0;
struct FILE_ { const char *data; size_t size, pos; long err, eof; };
const char *sx_file(const char *data, size_t n) noexcept {
  static const char *names[4] = {"sx0.csv", "sx1.csv", "sx2.csv", "sx3.csv"};
  vfiles[nvf].data = data; vfiles[nvf].size = n; return names[nvf++];
}
void *fopen(const char *name, const char *) {
  if (name[0] == 's' && name[1] == 'x' && name[2] >= '0' && name[2] < '0' + nvf && !strcmp(name + 3, ".csv")) {
    FILE_ *f = (FILE_ *)sx_alloc(sizeof(FILE_), 0, false); VF &v = vfiles[name[2] - '0']; f->data = v.data; f->size = v.size; f->pos = 0; f->err = f->eof = 0; return f; }
  sx_errno = 2; return nullptr;
}
int fclose(FILE_ *f) { f->pos = f->pos; sx_free(f, 0); return 0; }
int feof(FILE_ *f) { return f->eof; }
int ferror(FILE_ *f) { return f->err; }
void clearerr(FILE_ *f) { f->eof = f->err = 0; }
int fgetc(FILE_ *f) { if (f->pos >= f->size) { f->eof = 1; return -1; } return (u8)f->data[f->pos++]; }
int getc(FILE_ *f) { return fgetc(f); }
int ungetc(int c, FILE_ *f) { if (c < 0 || !f->pos) return -1; f->pos--; f->eof = 0; return c; }
char *fgets(char *b, int n, FILE_ *f) { int i = 0; while (i + 1 < n) { int c = fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
size_t fread(void *p, size_t a, size_t b, FILE_ *f) { u8 *q = (u8 *)p; size_t n = a * b, i = 0; while (i < n) { int c = fgetc(f); if (c < 0) break; q[i++] = c; } return a ? i / a : 0; }
long ftell(FILE_ *f) { return f->pos; }
int fseek(FILE_ *f, long o, int w) { long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->size; if (b + o < 0) return -1; f->pos = b + o; f->eof = 0; return 0; }
void rewind(FILE_ *f) { f->pos = 0; f->eof = f->err = 0; }
// glibc's getdelim: 120 byte first allocation, then at least doubled for each piece taken from the 4 K stream buffer
long __getdelim(char **lp, size_t *n, int d, FILE_ *f) {
  if (!lp || !n) { sx_errno = 22; return -1; }
  if (f->eof) return -1;                                           // sticky, as in glibc (_IO_EOF_SEEN)
  if (!*lp || !*n) { *n = 120; char *q = (char *)malloc(120); if (!q) { return -1; } if (*lp) sx_free(*lp, 0); *lp = q; }
  if (f->pos >= f->size) { f->eof = 1; return -1; }
  size_t cur = 0;
  while (f->pos < f->size) {
    size_t len = 0, end = (f->pos / 4096 + 1) * 4096; bool hit = false; if (end > f->size) end = f->size;
    while (f->pos + len < end && !hit) hit = f->data[f->pos + len++] == (char)d;
    size_t need = cur + len + 1;
    if (need > *n) { if (need < 2 * *n) need = 2 * *n; char *q = (char *)realloc(*lp, need); if (!q) return -1; *lp = q; *n = need; }
    memcpy(*lp + cur, f->data + f->pos, len); f->pos += len; cur += len; (*lp)[cur] = 0; if (hit) return cur;
  }
  f->eof = 1; return cur;
}
long getdelim(char **lp, size_t *n, int d, FILE_ *f) { return __getdelim(lp, n, d, f); }
long getline(char **lp, size_t *n, FILE_ *f) { return __getdelim(lp, n, '\n', f); }

// strtod / strtof: the accepted grammar is modelled here; the value returned stands for exactly the characters parsed
// (a number naming a copy of them), so that two values are told apart exactly if their texts differ
static char tvText[1 << 14]; static size_t tvAt[129]; static unsigned tvN = 0;
uint64_t sx_text_value(const char *p, size_t n, int kind) noexcept {
  if (tvN >= 128 || tvAt[tvN] + n > sizeof tvText) sx_terminate("table of number texts is full");
  memcpy(tvText + tvAt[tvN], p, n); tvAt[tvN + 1] = tvAt[tvN] + n; tvN++; return kind ? 0x40000000u + tvN : 0x4000000000000000ull + tvN;
}
bool sx_value_text(uint64_t v, int kind, const char **p, size_t *n) noexcept {
  v -= kind ? 0x40000001u : 0x4000000000000001ull; if (v >= tvN) return false; *p = tvText + tvAt[v]; *n = tvAt[v + 1] - tvAt[v]; return true;
}
static size_t numLen(const char *s) {
  size_t i = 0; while (isspace((u8)s[i])) i++;
  if (s[i] == '+' || s[i] == '-') i++;
  auto ci = [&](size_t k, const char *w) { size_t j = 0; for (; w[j]; j++) if (tolower((u8)s[k + j]) != w[j]) return false; return true; };
  if (ci(i, "inf")) return i + (ci(i, "infinity") ? 8 : 3);
  if (ci(i, "nan")) { size_t k = i + 3; if (s[k] == '(') { size_t j = k + 1; while (isalnum((u8)s[j]) || s[j] == '_') j++; if (s[j] == ')') return j + 1; } return k; }
  bool hex = s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X'); size_t start = i;
  auto dig = [&](char c) { return isdigit((u8)c) || (hex && (unsigned)((c | 32) - 'a') < 6); };
  if (hex) i += 2;
  size_t nd = 0; while (dig(s[i])) i++, nd++;
  if (s[i] == '.') { size_t k = i + 1, m = 0; while (dig(s[k])) k++, m++; if (nd || m) { i = k; nd += m; } }
  if (!nd) return hex ? start + 1 : 0;
  if (s[i] == (hex ? 'p' : 'e') || s[i] == (hex ? 'P' : 'E')) { size_t k = i + 1; if (s[k] == '+' || s[k] == '-') k++; if (isdigit((u8)s[k])) { while (isdigit((u8)s[k])) k++; i = k; } }
  return i;
}
double strtod(const char *s, char **e) { size_t n = numLen(s); if (e) *e = (char *)s + n; if (!n) return 0.0; uint64_t v = sx_text_value(s, n, 0); double d; memcpy(&d, &v, 8); return d; }
float strtof(const char *s, char **e) { size_t n = numLen(s); if (e) *e = (char *)s + n; if (!n) return 0.0f; uint64_t v = sx_text_value(s, n, 1); uint32_t u = v; float d; memcpy(&d, &u, 4); return d; }
}
