#pragma once
#include "common.hpp"
static const char* const plural_headers[] = {
#include "plural_headers.inc"
};
static const unsigned NHEADERS = sizeof plural_headers / sizeof *plural_headers;
// evaluator of the C expression of a Plural-Forms header, on a symbolic n (no path splits: both sides are computed)
struct PluralExpr {
  const std::string& s; size_t i; uint32_t n; bool ok;
  PluralExpr(const std::string& s_, size_t i_, uint32_t n_) : s(s_), i(i_), n(n_), ok(true) {}
  bool is(const char* t) { size_t k = 0; while (t[k]) { if (i + k >= s.size() || s[i + k] != t[k]) return false; ++k; } return true; }
  bool eat(const char* t) { if (!is(t)) return false; i += std::string(t).size(); return true; }
  static uint32_t b(bool x) { return sv_select32(x, 1, 0); }
  uint32_t prim() {
    if (eat("(")) { uint32_t v = cond(); if (!eat(")")) ok = false; return v; }
    if (eat("n")) return n;
    if (i >= s.size() || s[i] < '0' || s[i] > '9') { ok = false; return 0; }
    uint32_t v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && v < 100000) v = v * 10 + (uint32_t)(s[i++] - '0'); return v;
  }
  uint32_t mul() { uint32_t v = prim(); while (ok && eat("%")) { uint32_t w = prim(); if (!ok) break; if (w == 0) { ok = false; break; } v = v % w; } return v; }
  uint32_t rel() { uint32_t v = mul(); for (;;) { if (!ok) return v; if (eat("<=")) { uint32_t w = mul(); v = b(v <= w); } else if (eat(">=")) { uint32_t w = mul(); v = b(v >= w); } else if (eat("<")) { uint32_t w = mul(); v = b(v < w); } else if (eat(">")) { uint32_t w = mul(); v = b(v > w); } else return v; } }
  uint32_t eq() { uint32_t v = rel(); for (;;) { if (!ok) return v; if (eat("==")) { uint32_t w = rel(); v = b(v == w); } else if (eat("!=")) { uint32_t w = rel(); v = b(v != w); } else return v; } }
  uint32_t land() { uint32_t v = eq(); while (ok && eat("&&")) { uint32_t w = eq(); v = b(sv_and(v != 0, w != 0)); } return v; }
  uint32_t lor() { uint32_t v = land(); while (ok && eat("||")) { uint32_t w = land(); v = b(sv_or(v != 0, w != 0)); } return v; }
  uint32_t cond() { uint32_t c = lor(); if (ok && eat("?")) { uint32_t x = cond(); if (!eat(":")) { ok = false; return 0; } uint32_t y = cond(); return sv_select32(c != 0, x, y); } return c; }
};
// value of the header's plural expression at n and its nplurals; false when it is not a header of that shape
static inline bool plural_reference(const std::string& header, uint32_t n, uint32_t& nplurals, uint32_t& value) {
  const std::string p = "Plural-Forms:nplurals=", q = ";plural="; nplurals = value = 0;
  if (header.compare(0, p.size(), p) != 0) return false;
  size_t i = p.size(); if (i >= header.size() || header[i] < '0' || header[i] > '9') return false;
  while (i < header.size() && header[i] >= '0' && header[i] <= '9') nplurals = nplurals * 10 + (uint32_t)(header[i++] - '0');
  if (header.compare(i, q.size(), q) != 0) return false;
  PluralExpr e(header, i + q.size(), n); value = e.cond(); if (!e.ok) return false;
  const std::string tail = header.substr(e.i); // a stray ")" and a missing ";" occur in published headers; any other text is no such header
  return tail == ";" || tail == "" || tail == ");" || tail == ")";
}
