// Stands for fast_float in symbolic runs: the grammar of from_chars, with the value an arbitrary fixed function of exactly
// the characters parsed (sx_text_value).  Native runs use the real library.
#pragma once
#include <system_error>
#include <type_traits>
#include <cstdint>
#include <cstring>
extern "C" uint64_t sx_text_value(const char *p, size_t n, int kind) noexcept;
#ifndef FASTFLOAT_ALLOWS_LEADING_PLUS
#define FASTFLOAT_ALLOWS_LEADING_PLUS 0
#endif
#ifndef FASTFLOAT_SKIP_WHITE_SPACE
#define FASTFLOAT_SKIP_WHITE_SPACE 0
#endif
namespace fast_float {
enum chars_format { scientific = 1 << 0, fixed = 1 << 2, hex = 1 << 3, general = fixed | scientific };
struct from_chars_result { const char *ptr; std::errc ec; };
struct parse_options { constexpr explicit parse_options(chars_format f = chars_format::general, char d = '.') : format(f), decimal_point(d) {} chars_format format; char decimal_point; };
namespace sx {
inline bool dig(const char *p, const char *e) { return p != e && (unsigned)(*p - '0') < 10; }
inline bool word(const char *p, const char *e, const char *w) { for (; *w; w++, p++) { if (p == e) return false; unsigned char c = *p, u = (unsigned char)*w; if ((unsigned)(c == u) + (unsigned)(c == u - 32) == 0) return false; } return true; }
}
template <class T> from_chars_result from_chars_advanced(const char *first, const char *last, T &value, parse_options o) noexcept {
  static_assert(std::is_same<T, double>::value || std::is_same<T, float>::value, "only float and double are supported");
  from_chars_result bad{first, std::errc::invalid_argument}; const char *p = first;
  if (FASTFLOAT_SKIP_WHITE_SPACE) while (p != last && (*p == ' ' || (*p >= 9 && *p <= 13))) p++;
  if (p == last) return bad;
  const char *start = p; bool sign = *p == '-' || (FASTFLOAT_ALLOWS_LEADING_PLUS && *p == '+'); if (sign) p++;
  auto done = [&](const char *q) { uint64_t v = sx_text_value(start, q - start, sizeof(T) == 4); if (sizeof(T) == 4) { uint32_t u = v; memcpy(&value, &u, sizeof value); } else memcpy(&value, &v, sizeof value); return from_chars_result{q, std::errc()}; };
  if (sx::word(p, last, "nan")) { const char *q = p + 3; if (q != last && *q == '(') for (const char *r = q + 1; r != last; r++) { if (*r == ')') { q = r + 1; break; } if (!((unsigned)((*r | 32) - 'a') < 26 || (unsigned)(*r - '0') < 10 || *r == '_')) break; } return done(q); }
  if (sx::word(p, last, "inf")) return done(sx::word(p + 3, last, "inity") ? p + 8 : p + 3);
  size_t n = 0; while (sx::dig(p, last)) p++, n++;
  if (p != last && *p == o.decimal_point) { p++; while (sx::dig(p, last)) p++, n++; }
  if (!n) return bad;
  if ((o.format & scientific) && p != last && (*p == 'e' || *p == 'E')) {
    const char *q = p + 1; if (q != last && (*q == '-' || *q == '+')) q++;
    if (!sx::dig(q, last)) { if (!(o.format & fixed)) return bad; } else { while (sx::dig(q, last)) q++; p = q; }
  } else if ((o.format & scientific) && !(o.format & fixed)) return bad;
  return done(p);
}
template <class T> from_chars_result from_chars(const char *first, const char *last, T &value, chars_format f = chars_format::general) noexcept { return from_chars_advanced(first, last, value, parse_options{f}); }
}
