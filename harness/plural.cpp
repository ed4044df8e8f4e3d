// C04: plural rules against the C expression in their own header
#include "plural.hpp"
#include "iconv_model.hpp"
static void warm() { quiet(); PluralForms::from_string("x"); }
// every header, every n >= 0
SV_ENTRY c04_value() {
  warm(); unsigned h = sv_range(0, NHEADERS - 1, "header"); std::string s = plural_headers[h];
  PluralForms pf = PluralForms::from_string(s); sv_check((bool)pf, "the header is recognised");
  uint32_t n = sv_u32("n") & 0x7fffffffu;
  uint32_t np, v; bool ok = plural_reference(s, n, np, v); sv_check(ok, "reference parses the header");
  sv_check(pf.get_nplural() == np, "the number of forms is the header's nplurals");
  unsigned got = pf.get_plural((int)n);
  sv_check(got == v, "the selected index is the value of the header's expression");
  sv_observe_int(got); sv_reach("value");
}
static void same(const PluralForms& pf, const std::string& canon) {
  sv_check((bool)pf && pf == PluralForms::from_string(canon), "white space in the header does not matter"); 
}
static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// white space (any kind, any amount up to K) at any position of any header
SV_ENTRY c04_space() {
  warm(); unsigned h = sv_range(0, NHEADERS - 1, "header"); std::string s = plural_headers[h], t;
  size_t at = sv_range(0, (uint32_t)s.size(), "at"); size_t k = sv_range(1, (uint32_t)sv_param("K", 2), "k"); std::string w = sv_str(k, "space");
  for (char c : w) { bool ok = sv_or(c == ' ', sv_and(c >= '\t', c <= '\r')); sv_assume(ok); }
  t = s.substr(0, at) + w + s.substr(at); same(PluralForms::from_string(t), s);
  std::string u; for (char c : s) { u += ' '; u += c; } u += w; same(PluralForms::from_string(u), s); sv_reach("spaced");
}
// any header with K bytes replaced, dropped or inserted: unrecognised, or exactly the rule its text states
SV_ENTRY c04_other() {
  warm(); unsigned h = sv_range(0, NHEADERS - 1, "header"); std::string s = plural_headers[h]; size_t k = sv_param("K", 1);
  size_t at = sv_range(0, (uint32_t)s.size(), "at"); unsigned op = sv_range(0, 2, "op");
  std::string t; size_t cut = op == 0 ? k : op == 1 ? 0 : k; std::string w = op == 2 ? std::string() : sv_str(k, "bytes");
  t = s.substr(0, at) + w + (at + cut < s.size() ? s.substr(at + cut) : std::string());
  PluralForms pf = PluralForms::from_string(t);
  if (!pf) { sv_check(pf.get_plural(3) == 0, "an undefined rule selects index 0"); sv_reach("unrecognised"); return; }
  std::string c; for (char x : t) { x = (char)sv_concretize8((uint8_t)x); if (!space(x)) c += x; }
  uint32_t n = sv_u32("n") & 0x7fffffffu, np, v;
  bool ok = plural_reference(c, n, np, v); sv_check(ok, "only a header that states a rule is recognised"); if (!ok) return;
  sv_check(pf.get_nplural() == np && pf.get_plural((int)n) == v, "a recognised header gets exactly the rule its text states"); sv_reach("recognised");
}
// any short string, and any string with the header prefix: never crashes, never some rule it does not state
SV_ENTRY c04_any() {
  warm(); unsigned p = sv_range(0, 3, "prefix"); static const char* pre[] = { "", "Plural-Forms:", "Plural-Forms: nplurals=2; plural=", "Plural-Forms: nplurals=" };
  std::string t = pre[p] + sv_str_upto(0, sv_param("N", 4), "rest"); PluralForms pf = PluralForms::from_string(t);
  if (!pf) { sv_reach("unrecognised"); sv_check(pf.get_plural(7) == 0 && pf == PluralForms(), "an unrecognised header gives the undefined rule"); return; }
  std::string c; for (char x : t) { x = (char)sv_concretize8((uint8_t)x); if (!space(x)) c += x; }
  uint32_t n = sv_u32("n") & 0x7fffffffu, np, v; bool ok = plural_reference(c, n, np, v); sv_check(ok && pf.get_nplural() == np && pf.get_plural((int)n) == v, "a recognised header gets exactly the rule its text states");
}
// equality of rules: equal iff same header text up to the listed aliases, different headers give their own rules after any order of lookups
SV_ENTRY c04_order() {
  warm(); unsigned a = sv_range(0, NHEADERS - 1, "a"), b = sv_range(0, NHEADERS - 1, "b");
  PluralForms x = PluralForms::from_string(plural_headers[a]), y = PluralForms::from_string(plural_headers[b]), x2 = PluralForms::from_string(plural_headers[a]);
  sv_check(x == x2 && !(x != x2), "the same header gives the same rule every time"); sv_check((x == y) == !(x != y), "inequality negates equality");
  uint32_t n = sv_u32("n") & 0x7fffffffu;
  if (x == y) { uint32_t p, v, q, w; plural_reference(plural_headers[a], n, p, v); plural_reference(plural_headers[b], n, q, w); sv_check(p == q && v == w, "equal rules state the same thing"); sv_reach("equal"); }
}
// long runs of white space anywhere, and long tails
SV_ENTRY c04_long() {
  quiet(); unsigned h = sv_range(0, NHEADERS - 1, "header"); size_t n = telling(sv_param("L", 1100), "length"); std::string s = plural_headers[h]; unsigned where = sv_range(0, 3, "where"), c = sv_range(0, 3, "with"); static const char fill[] = { ' ', '\t', ';', '0' }; size_t at = where == 0 ? 0 : where == 1 ? 13 : where == 2 ? s.size() / 2 : s.size(); std::string x(n, fill[c]); if (c < 2) { char b = (char)sv_u8("white space"); sv_assume(sv_or(sv_or(b == ' ', b == '\v'), sv_and(b >= '\t', b <= '\r'))); x[n / 2] = b; } else x[n / 2] = (char)sv_u8("byte"); PluralForms p = PluralForms::from_string(s), q = PluralForms::from_string(s.substr(0, at) + x + s.substr(at)); if (c < 2) { sv_check((bool)q && q == p, "white space does not matter, however much there is of it"); sv_reach("spaced"); } else if (n > 1) { sv_check(!q, "a header with anything else added is not recognised"); sv_reach("unrecognised"); }
}
