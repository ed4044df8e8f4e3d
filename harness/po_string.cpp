// C01: quoted strings and escape sequences in PO files
#include "common.hpp"
#include "iconv_model.hpp"

// reference decoder of what follows the opening quote of a PO string on one line (no '\n' inside)
// returns false when the string is not terminated on its line
static bool ref_decode(const std::string& s, std::string& out) {
  out.clear();
  size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    if (c == '"') return true;
    if (c == '\\') {
      if (i + 1 >= s.size()) return false;
      char e = s[i + 1];
      if (e == 'n') out += '\n'; else if (e == 't') out += '\t'; else if (e == 'r') out += '\r';
      else if (e == 'a') out += '\a'; else if (e == 'b') out += '\b'; else if (e == 'v') out += '\v';
      else if (e == '"') out += '"'; else if (e == '\\') out += '\\';
      else { out += '\\'; out += e; }          // unknown escapes are kept literally
      i += 2;
    } else { out += c; i += 1; }
  }
  return false;
}
static void no_newline(const std::string& s) { bool ok = true; for (char c : s) ok = sv_and(ok, c != '\n'); sv_assume(ok); }

// any bytes after the opening quote of msgstr
SV_ENTRY c01_raw() {
  quiet();
  std::string body = sv_str(sv_param("N", 4), "body"); no_newline(body);
  std::string want; bool term = ref_decode(body, want);
  Dictionary d; parse("msgid \"k\"\nmsgstr \"" + body + "\n\nmsgid \"z\"\nmsgstr \"Z\"\n\n", d);
  std::string got = d.translate("k"); sv_obs(got);
  if (term && !want.empty()) { sv_reach("terminated"); sv_check(sv_eq(got, want), "translation equals the decoded msgstr"); }
  else { sv_reach("untranslated"); sv_check(got == "k", "a broken or empty msgstr leaves the message untranslated"); }
  sv_check(d.translate("z") == "Z", "the following entry is unaffected");
}

static std::string encode(const std::string& v) {
  std::string o;
  for (char c : v) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c == '\r') o += "\\r"; else if (c == '\a') o += "\\a"; else if (c == '\b') o += "\\b"; else if (c == '\v') o += "\\v"; else o += c;
  }
  return o;
}
// an arbitrary value, escaped and split over continuation lines, comes back unchanged, in every string position
SV_ENTRY c01_roundtrip() {
  quiet();
  size_t n = sv_param("N", 3);
  unsigned where = sv_range(0, 4, "where");
  std::string v = sv_str(n, "value");
  size_t cut = sv_range(0, (uint32_t)n, "cut"); unsigned ind = sv_range(0, 2, "indent"); unsigned lead = sv_range(0, 1, "lead");
  std::string sep = ind == 0 ? "" : ind == 1 ? " " : "\t  ";
  std::string q = lead ? "\"\"\n" + sep : std::string();
  q += "\"" + encode(v.substr(0, cut)) + "\"\n" + sep + "\"" + encode(v.substr(cut)) + "\"\n";
  Dictionary d; std::string got, exp;
  std::string tail = "msgstr \"T\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n\n";
  if (where == 0) { parse("msgid \"k\"\nmsgstr " + q + "\nmsgid \"z\"\nmsgstr \"Z\"\n\n", d); got = d.translate("k"); exp = n ? v : "k"; }
  else if (where == 1) { parse("msgid \"#\"" "\n" + ("\"p\"\n" + q.substr(0)) + tail, d); got = d.translate("#p" + v); exp = "T"; }
  else if (where == 2) { parse("msgctxt " + q + "msgid \"k\"\n" + tail, d); got = d.translate_ctxt(v, "k"); exp = "T"; }
  else if (where == 3) { parse("msgid \"k\"\nmsgid_plural " + q + "msgstr[0] \"T\"\nmsgstr[1] \"U\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n\n", d); got = d.translate("k"); exp = "T"; }
  else { parse("msgid \"k\"\nmsgid_plural \"ks\"\nmsgstr[0] " + q + "msgstr[1] \"U\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n\n", d); got = d.translate("k"); exp = n ? v : "k"; }
  sv_obs(got);
  sv_check(sv_eq(got, exp), "a string written with PO escapes over continuation lines reads back unchanged");
  sv_check(d.translate("z") == "Z", "the following entry is unaffected");
  if (where == 4) sv_reach("plural");
  if (where == 2) sv_reach("context");
}
// long strings: every length up to L, one arbitrary byte anywhere
SV_ENTRY c01_long() {
  quiet();
  size_t L = sv_param("L", 64); size_t n = sv_range(1, (uint32_t)L, "n");
  size_t at = sv_range(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  std::string v(n, 'x'); for (size_t i = 0; i < n; ++i) v[i] = (char)('a' + i % 26);
  char c; sv_symbolic(&c, 1, "byte"); v[at] = c;
  size_t lines = sv_range(1, (uint32_t)sv_param("LINES", 3), "lines");
  std::string q; for (size_t k = 0; k < lines; ++k) q += "\"" + encode(v.substr(k * n / lines, (k + 1) * n / lines - k * n / lines)) + "\"\n";
  unsigned where = sv_range(0, 1, "where"); Dictionary d; std::string got;
  if (where == 0) { parse("msgid \"k\"\nmsgstr " + q + "\n", d); got = d.translate("k"); sv_check(sv_eq(got, v), "long translation reads back unchanged"); }
  else { parse("msgid \"#\"\n" + q + "msgstr \"T\"\n\n", d); got = d.translate("#" + v); sv_check(got == "T", "long msgid reads back unchanged"); }
  sv_obs(got); sv_reach("long");
}
// very long lines: every length around the powers of two that an index type could wrap at
SV_ENTRY c01_huge() {
  quiet(); static const size_t around[] = { 127, 255, 32767, 65535, 70000 }; unsigned ar = sv_range(0, (uint32_t)sv_param("A", 4), "around"); size_t n = around[ar] - 12; if (ar < 4) n += sv_range(0, 13, "offset"); unsigned where = sv_range(0, 2, "where"), lines = ar < 2 ? sv_range(1, 2, "lines") : 1 + where % 2;
  std::string v(n, 'x'); for (size_t i = 0; i < n; i += 97) v[i] = (char)('a' + i / 97 % 26); v[n - 1] = '!'; char c; sv_symbolic(&c, 1, "byte"); v[lines == 1 ? n / 2 : n - 2] = c;
  std::string q; for (size_t k = 0; k < lines; ++k) q += "\"" + encode(k + 1 == lines ? v.substr(k ? n / 16 : 0) : v.substr(0, n / 16)) + "\"\n";
  Dictionary d; std::string got, exp; if (where == 0) { parse("msgid \"k\"\nmsgstr " + q + "\nmsgid \"z\"\nmsgstr \"Z\"\n", d); got = d.translate("k"); exp = v; } else if (where == 1) { parse("msgid " + q + "msgstr \"T\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n", d); got = d.translate(v); exp = "T"; } else { parse("msgctxt " + q + "msgid \"k\"\nmsgstr \"T\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n", d); got = d.translate_ctxt(v, "k"); exp = "T"; }
  sv_check(sv_eq(got, exp), "a very long string reads back unchanged"); sv_check(d.translate("z") == "Z", "the following entry is unaffected"); sv_observe_int(got.size()); sv_reach("long");
}
