// Reference model: what the documentation promises, written independently of the implementation.
#pragma once
#include "sx.h"
#include <string>
#include <vector>

struct Cfg {
  const char *delim = ",";
  bool has_quote = false; char quote = 0;
  const char *esc = "";            // escape characters
  const char *tl = "", *tr = "";   // characters trimmed on the left / on the right
  bool ignore_empty = false;
  int multi = -1;                  // -1: no multiline, 0: unlimited, n: at most n further lines
  bool ignore_header = false;
};

enum Why { W_NONE, W_MISMATCH, W_QUOTE, W_ESCAPE, W_LIMIT, W_DELIM };
struct Row { Why why = W_NONE; size_t pos = 0; std::vector<std::string> f; bool open_quote = false; };

static inline bool one_of(char c, const char *set) { unsigned r = 0; for (; *set; ++set) r |= (unsigned)(c == *set); return r; }
static inline bool has_at(const std::string &s, size_t i, const char *d, size_t m) {
  if (s.size() - i < m) return false;
  for (size_t k = 0; k < m; k++) if (s[i + k] != d[k]) return false;
  return true;
}

// one logical row (line breaks in it are ordinary characters)
static Row model_split(const std::string &s, const Cfg &c, const char *delim, size_t dl) {
  Row r; size_t n = s.size();
  if (n == 0) return r;
  if (dl == 0) { r.why = W_DELIM; return r; }
  size_t i = 0;
  for (;;) {                                                       // one column per iteration
    std::string v; bool more = false;
    while (i < n && one_of(s[i], c.tl)) i++;
    if (c.has_quote && i < n && s[i] == c.quote) {
      for (i++;;) {
        if (i == n) { r.why = W_QUOTE; r.open_quote = true; return r; }
        if (one_of(s[i], c.esc)) { if (i + 1 == n) { r.why = W_ESCAPE; return r; } v += s[i + 1]; i += 2; continue; }
        if (s[i] != c.quote) { v += s[i++]; continue; }
        if (i + 1 < n && s[i + 1] == c.quote) { v += c.quote; i += 2; continue; }
        size_t j = i + 1; while (j < n && one_of(s[j], c.tr)) j++;
        if (j == n) break;
        if (has_at(s, j, delim, dl)) { i = j + dl; more = true; break; }
        r.why = W_MISMATCH; r.pos = i; return r;
      }
    } else {
      for (;;) {
        size_t j = i; while (j < n && one_of(s[j], c.tr)) j++;
        if (j == n) break;
        if (has_at(s, j, delim, dl)) { i = j + dl; more = true; break; }
        v.append(s, i, j - i); i = j;                              // spacing followed by text is kept
        if (one_of(s[i], c.esc)) { if (i + 1 == n) { r.why = W_ESCAPE; return r; } v += s[i + 1]; i += 2; }
        else v += s[i++];
      }
    }
    r.f.push_back(std::move(v));
    if (!more) return r;
  }
}
static Row model_split(const std::string &s, const Cfg &c) { return model_split(s, c, c.delim, strlen(c.delim)); }

struct Record { Row row; size_t start = 0, line_before = 0, line_end = 0; std::string raw; };   // start: byte offset; line_end: 1-based physical line it ends on

static bool escaped_end(const std::string &s, const char *esc) { bool e = false; for (size_t i = s.size(); i > 0 && one_of(s[i - 1], esc); i--) e = !e; return e; }

struct Lines { std::vector<std::string> body, eol; std::vector<size_t> off; };
static Lines model_lines(const char *b, size_t n) {
  Lines l; size_t i = 0;
  while (i < n) {
    l.off.push_back(i); std::string t; bool nl = false;
    while (i < n) { if (b[i] == '\n') { i++; nl = true; break; } t += b[i++]; }
    std::string e;
    if (nl) { e = "\n"; if (!t.empty() && t.back() == '\r') { t.pop_back(); e = "\r\n"; } }
    l.body.push_back(t); l.eol.push_back(e);
  }
  return l;
}
// reads the records one after the other; skip() drops one physical line
struct ModelReader {
  Lines l; Cfg c; size_t i = 0, n;
  ModelReader(const char *b, size_t n_, const Cfg &cfg) : l(model_lines(b, n_)), c(cfg), n(n_) { blanks(); if (c.ignore_header) skip(); }
  void blanks() { if (c.ignore_empty) while (i < l.body.size() && l.body[i].empty()) i++; }
  bool more() const { return i < l.body.size(); }
  size_t position() const { return more() ? l.off[i] : n; }
  size_t line() const { return i; }
  void skip() { if (more()) i++; blanks(); }
  Record next() {
    size_t L = l.body.size(); Record r; r.start = l.off[i]; r.line_before = i; std::string text = l.body[i], eol = l.eol[i]; i++; int extra = 0;
    auto extend = [&](Why end) -> bool {                           // take one more physical line, or fail
      if (c.multi > 0 && extra >= c.multi) { r.row = Row(); r.row.why = W_LIMIT; return false; }
      if (i >= L) { r.row = Row(); r.row.why = end; return false; }
      extra++; text += eol; text += l.body[i]; eol = l.eol[i]; i++; return true;
    };
    bool ok = true;
    for (;;) {
      while (ok && c.multi >= 0 && *c.esc && escaped_end(text, c.esc)) ok = extend(W_ESCAPE);
      if (!ok) break;
      r.row = model_split(text, c);
      if (c.multi >= 0 && r.row.open_quote) { ok = extend(W_QUOTE); if (ok) continue; }
      break;
    }
    r.line_end = i; r.raw = text; blanks(); return r;
  }
};
