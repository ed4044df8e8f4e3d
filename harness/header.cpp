// C19 what the .po header controls, C22 Big5
#include "plural.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); IM.keyed = true; }
static unsigned char up(unsigned char c) { return (unsigned char)sv_select32(sv_and(c >= 'a', c <= 'z'), c - 32u, c); }
static bool ieq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = sv_and(r, up((unsigned char)a[i]) == up((unsigned char)b[i])); return r; }
static const unsigned PF_A = 9, PF_B = 2; // two rules that differ
static const char* const others[] = { "Project-Id-Version: x Plural-Forms: nplurals=1; plural=0;", "X-Generator: Content-Type: text/plain; charset=KOI8-R", "Language: de", "MIME-Version: 1.0", "", "Content-Transfer-Encoding: 8bit", "X-charset=LATIN1", " Content-Type: text/plain; charset=EBCDIC" };
static std::string po(const std::vector<std::string>& lines, bool oneline) {
  std::string t = "msgid \"\"\nmsgstr "; if (oneline) { t += "\""; for (auto& l : lines) t += l + "\\n"; t += "\"\n"; } else { t += "\"\"\n"; for (auto& l : lines) t += "\"" + l + "\\n\"\n"; } return t + "\n";
}
struct Want { std::string from, to; };
static std::string conv(const std::string& v, const Want& w) { return ieq(w.from, w.to) ? v : im_keyed(v, w.from, w.to); }
static void entries_check(Dictionary& d, const std::string& v, const Want& w) {
  sv_check(sv_eq(d.translate("id"), conv(v, w)), "translations are converted from the header's charset to the dictionary's"); sv_check(sv_eq(d.translate_ctxt("ctx", "id"), conv(v + "c", w)), "translations with a context are converted");
  std::vector<std::string> f; unsigned c = 0; d.foreach([&](const std::string& k, const std::vector<std::string>& x) { if (k == "pl") f = x; ++c; }); unsigned cc = 0; bool ids = true; d.foreach_ctxt([&](const std::string& x, const std::string& k, const std::vector<std::string>&) { ++cc; if (x != "ctx" || k != "id") ids = false; });
  sv_check(f.size() == 2 && sv_eq(f[0], conv(v + "0", w)) && sv_eq(f[1], conv(v + "1", w)), "every plural form is converted"); sv_check(c == 2 && cc == 1 && ids, "msgids and contexts are not converted, and the header is not a message");
}
static std::string body(const std::string& v) { return "msgid \"id\"\nmsgstr \"" + v + "\"\n\nmsgid \"pl\"\nmsgid_plural \"pls\"\nmsgstr[0] \"" + v + "0\"\nmsgstr[1] \"" + v + "1\"\n\nmsgctxt \"ctx\"\nmsgid \"id\"\nmsgstr \"" + v + "c\"\n"; }
static std::string value() { std::string v = sv_str(1, "value"); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), v[0] != '\n')); return v; }
// any order and presence of the header's lines, any letter case of the charset
SV_ENTRY c19_lines() {
  warm(); static const char* const charsets[] = { "UTF-8", "ISO-8859-1", "CHARSET", "koi8-r", "Utf-8", "x" }; static const char* const dictcs[] = { "UTF-8", "utf-8", "ISO-8859-1" };
  unsigned ct = sv_range(0, 9, "content-type"), pf = sv_range(0, 3, "plural-forms"), order = sv_range(0, 5, "order"), other = sv_range(0, COUNT(others) - 1, "other"), dc = sv_range(0, 2, "dictionary charset"); bool oneline = sv_bool("oneline"), preset = sv_bool("rule already set");
  Want w{ "UTF-8", dictcs[dc] }; std::string ctl;
  if (ct < 6) { ctl = std::string("Content-Type: text/plain; charset=") + charsets[ct]; if (ct != 2) w.from = charsets[ct]; }
  else if (ct == 6) ctl = "Content-Type: text/html; charset=KOI8-R"; else if (ct == 7) ctl = "Content-Type:text/plain; charset=KOI8-R"; else if (ct == 8) ctl = "Content-Type: text/plain; charset="; // 9: none
  std::string pfl = pf == 0 ? "" : pf == 1 ? plural_headers[PF_A] : pf == 2 ? plural_headers[PF_B] : "Plural-Forms: nplurals=7; plural=n;";
  std::vector<std::string> l; std::string part[3] = { ctl, pfl, others[other] }; static const unsigned perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  for (unsigned k = 0; k < 3; ++k) { unsigned i = perm[order][k]; if (!part[i].empty()) l.push_back(part[i]); }
  if (l.empty()) l.push_back("X: y"); std::string v = value(); Dictionary d(dictcs[dc]); PluralForms set; if (preset) { set = PluralForms::from_string(plural_headers[PF_B]); d.set_plural_forms(set); }
  parse(po(l, oneline) + body(v), d); entries_check(d, v, w);
  PluralForms got = d.get_plural_forms(), want = preset ? set : pf == 1 || pf == 2 ? PluralForms::from_string(pfl) : PluralForms();
  sv_check((bool)got == (bool)want && (!want || got == want), preset ? "an existing plural rule stays" : "the header's Plural-Forms line, and only it, sets the rule"); sv_reach("header");
  sv_check(IM.live == 0 && IM.bad_use == 0, "the converter is closed");
}
// any charset name of up to N bytes
SV_ENTRY c19_name() {
  warm(); std::string cs = sv_str_upto(1, (size_t)sv_param("N", 4), "charset"), tail = sv_bool("known") ? "8859-1" : ""; for (char c : cs) sv_assume(sv_and(sv_and(c != '"', c != '\\'), sv_and(c != '\n', c != 0)));
  cs += tail; Want w{ cs, "ISO8859-1" }; Dictionary d(w.to); if (ieq(cs, "CHARSET")) return; bool same = ieq(cs, w.to); parse(po({ "Content-Type: text/plain; charset=" + cs }, false) + body("v"), d);
  if (!same) { sv_check(IM.opens == 1 && ieq(IM.from, cs) && ieq(IM.to, w.to), "the converter is opened once, from the named charset to the dictionary's"); sv_reach("converted"); } else { sv_check(IM.opens == 0, "equal charsets need no conversion"); sv_reach("equal"); }
  if (same) entries_check(d, "v", w);
}
// letter case of UTF-8 / CHARSET / the dictionary's own charset does not matter
SV_ENTRY c19_case() {
  warm(); static const char* const names[] = { "utf-8", "charset", "iso-8859-15", "big5" }; unsigned i = sv_range(0, 3, "name"); std::string cs = names[i]; for (char& c : cs) if (c >= 'a' && c <= 'z') { char b = (char)sv_u8("letter"); sv_assume(sv_or(b == c, b == c - 32)); c = b; }
  bool same = sv_bool("same"); Want w{ i == 1 ? "UTF-8" : names[i], same ? (i == 1 ? "utf-8" : names[i]) : "koi8-u" }; Dictionary d(w.to); parse(po({ "Content-Type: text/plain; charset=" + cs }, false) + body("v"), d); entries_check(d, "v", w); sv_reach(same ? "equal" : "converted");
}
// one byte of the Content-Type or Plural-Forms line changed
SV_ENTRY c19_window() {
  warm(); bool which = sv_bool("which"); std::string a = "Content-Type: text/plain; charset=KOI8-R", b = plural_headers[PF_A]; std::string& x = which ? a : b; size_t at = sv_range(0, (uint32_t)(which ? 33 : 20), "at"); std::string c = sv_str(1, "byte"); std::string was = x.substr(at, 1);
  sv_assume(sv_and(sv_and(c[0] != '"', c[0] != '\\'), c[0] != '\n')); x[at] = c[0]; bool same = c[0] == was[0]; if (!which && (c[0] == ' ' || c[0] == '\t' || c[0] == '\r' || c[0] == '\v' || c[0] == '\f')) return;
  if (!which && at >= 12) return; // C04 covers the body of the header
  Want w{ which && !same ? "UTF-8" : "KOI8-R", "UTF-8" }; Dictionary d("UTF-8"); parse(po({ b, a, "X: y" }, false) + body("v"), d); entries_check(d, "v", w);
  sv_check((bool)d.get_plural_forms() == (which || same), "only a Plural-Forms line sets the rule"); sv_reach("window");
}
// the rule already in force stays, whichever it is and whichever the header names
SV_ENTRY c19_rule() {
  warm(); unsigned i = sv_range(0, NHEADERS, "set"), j = sv_range(0, NHEADERS, "header"); Dictionary d; PluralForms a, b; if (i < NHEADERS) { a = PluralForms::from_string(plural_headers[i]); d.set_plural_forms(a); } std::vector<std::string> l{ "Language: x" }; if (j < NHEADERS) { b = PluralForms::from_string(plural_headers[j]); l.push_back(plural_headers[j]); }
  parse(po(l, false) + "msgid \"a\"\nmsgstr \"b\"\n", d); PluralForms g = d.get_plural_forms(), want = a ? a : b; sv_check((bool)g == (bool)want && (!want || g == want), "the existing rule stays, otherwise the header's rule is taken"); sv_check(d.translate("a") == "b", "other entries are unaffected"); sv_reach("rule");
}

// ---------------------------------------------------------------- C22
static int big_decode(const std::string& s, std::string& out, bool big5) { // 1 decoded, 0 not terminated on its line, -1 an escaped lead byte (not decided)
  out.clear(); size_t i = 0;
  while (i < s.size()) {
    unsigned char c = (unsigned char)s[i]; bool lead = big5 && c >= 0x81 && c <= 0xfe;
    if (lead) { if (i + 1 >= s.size()) return 0; out += (char)c; out += s[i + 1]; i += 2; continue; }
    if (c == '"') return 1;
    if (c == '\\') { if (i + 1 >= s.size()) return 0; unsigned char e = (unsigned char)s[i + 1]; if (big5 && e >= 0x81 && e <= 0xfe) return -1;
      if (e == 'n') out += '\n'; else if (e == 't') out += '\t'; else if (e == 'r') out += '\r'; else if (e == 'a') out += '\a'; else if (e == 'b') out += '\b'; else if (e == 'v') out += '\v'; else if (e == '"') out += '"'; else if (e == '\\') out += '\\'; else { out += '\\'; out += (char)e; } i += 2; }
    else { out += (char)c; ++i; }
  }
  return 0;
}
static const char* const bigcs[] = { "Big5", "BIG5", "big5", "UTF-8", "BIG5-HKSCS", "GBK", "", "Big55", "Big" };
SV_ENTRY c22_raw() {
  warm(); unsigned cs = sv_range(0, COUNT(bigcs) - 1, "charset"); bool big5 = cs < 3; unsigned to = sv_range(0, 2, "target"); bool same = to == 0; std::string from = bigcs[cs]; Want w{ from.empty() ? "UTF-8" : from, same ? (from.empty() ? "UTF-8" : from) : to == 1 ? "X-OTHER" : big5 ? "KOI8-U" : "BIG5" };
  std::string b = sv_str((size_t)sv_param("N", 4), "body"); for (char c : b) sv_assume(c != '\n'); std::string want; int r = big_decode(b, want, big5); if (r < 0) return;
  Dictionary d(w.to); std::string head = from.empty() ? po({ "X: y" }, false) : po({ "Content-Type: text/plain; charset=" + from }, false);
  parse(head + "msgid \"k\"\nmsgstr \"" + b + "\n\nmsgid \"z\"\nmsgstr \"Z\"\n", d); std::string got = d.translate("k");
  if (r == 1 && !want.empty()) { sv_check(sv_eq(got, conv(want, w)), "both bytes of a two-byte character are kept, whatever the second one is"); sv_reach(big5 ? "big5" : "other charset"); }
  else { sv_check(got == "k", "a cut off string defines nothing"); sv_reach("cut off"); }
  sv_check(sv_eq(d.translate("z"), conv("Z", w)), "the following entry is unaffected");
}
// several files of different charsets one after the other in one process, into the same or other dictionaries
SV_ENTRY c22_files() {
  warm(); unsigned k = (unsigned)sv_param("K", 2); static const char* const fc[] = { "Big5", "UTF-8", "big5", "GBK" }; Dictionary one("KOI8-U");
  for (unsigned i = 0; i < k; ++i) { unsigned c = sv_range(0, 4, "charset"); bool big5 = c == 0 || c == 2, shared = sv_bool("shared dictionary"); std::string from = c < 4 ? fc[c] : "UTF-8"; Want w{ from, shared ? "KOI8-U" : from }; Dictionary own(w.to); Dictionary& d = shared ? one : own; std::string id = "k" + std::to_string(i);
    std::string b = sv_str(i + 1 == k ? (size_t)sv_param("N", 3) : 1, "body"), want; for (char x : b) sv_assume(x != '\n'); int r = big_decode(b + "\"", want, big5); if (r < 0) return; bool fuzzy = sv_bool("broken entry before");
    parse((c < 4 ? po({ "Content-Type: text/plain; charset=" + from }, false) : std::string("# no header\n")) + (fuzzy ? "msgid \"x\"\nmsgstr \"\x81\n\n" : "") + "msgid \"" + id + "\"\nmsgstr \"" + b + "\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n", d); Want cw = c < 4 ? w : Want{ "A", "A" }; std::string got = d.translate(id);
    if (r == 1 && !want.empty()) { sv_check(sv_eq(got, conv(want, cw)), "a file is read by its own charset, whatever was read before"); sv_reach(big5 ? "big5" : "other charset"); } else sv_check(got == id, "a cut off string defines nothing"); sv_check(sv_eq(d.translate("z"), conv("Z", cw)), "the following entry is unaffected"); }
}
static std::string bigenc(const std::string& v, size_t& i) { std::string o; unsigned char c = (unsigned char)v[i]; if (c >= 0x81 && c <= 0xfe) { o = v.substr(i, 2); i += 2; return o; } ++i; if (c == '"' || c == '\\') return std::string("\\") + (char)c; if (c == '\n') return "\\n"; return std::string(1, (char)c); }
// values made of double-byte and single-byte characters in every string position, split between characters
SV_ENTRY c22_roundtrip() {
  warm(); unsigned where = sv_range(0, 4, "where"), chars = (unsigned)sv_param("C", 2); std::string v; for (unsigned i = 0; i < chars; ++i) { if (sv_bool("double")) { unsigned char l = sv_u8("lead"), t = sv_u8("trail"); sv_assume(l >= 0x81 && l <= 0xfe); sv_assume(t != '\n'); v += (char)l; v += (char)t; } else { unsigned char c = sv_u8("char"); sv_assume(c < 0x81 || c == 0xff); v += (char)c; } }
  unsigned cut = sv_range(0, chars, "cut"); std::string q = "\""; size_t i = 0; for (unsigned k = 0; k < chars; ++k) { if (k == cut) q += "\"\n\""; q += bigenc(v, i); } q += "\"\n"; Want w{ "Big5", "BIG5" }; Dictionary d(w.to); std::string h = po({ "Content-Type: text/plain; charset=Big5", plural_headers[PF_B] }, false), got, exp = "T";
  if (where == 0) { parse(h + "msgid \"k\"\nmsgstr " + q, d); got = d.translate("k"); exp = v; }
  else if (where == 1) { parse(h + "msgid \"#\"\n" + q + "msgstr \"T\"\n", d); got = d.translate("#" + v); }
  else if (where == 2) { parse(h + "msgctxt " + q + "msgid \"k\"\nmsgstr \"T\"\n", d); got = d.translate_ctxt(v, "k"); }
  else if (where == 3) { parse(h + "msgid \"k\"\nmsgid_plural \"ks\"\nmsgstr[0] \"a\"\nmsgstr[1] " + q, d); got = d.translate_plural("k", "ks", 2); exp = v; }
  else { parse(h + "msgid \"k\"\nmsgid_plural " + q + "msgstr[0] \"a\"\nmsgstr[1] \"T\"\n", d); got = d.translate_plural("k", v, 2); }
  sv_check(sv_eq(got, exp), "double-byte characters survive in every string"); sv_reach("roundtrip");
}
// headers without Content-Type, entries before the header, no header at all: the text is left as it is
SV_ENTRY c19_absent() {
  warm(); unsigned h = sv_range(0, 5, "header"); std::string v = value(), early = "msgid \"early\"\nmsgstr \"" + v + "\"\n\n"; static const char* const hs[] = { "", "msgid \"\"\nmsgstr \"X: y\\n\"\n\n", "msgid \"\"\nmsgstr \"\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\n", "msgctxt \"c\"\nmsgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\n", "#~ msgid \"\"\n#~ msgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\n" };
  Dictionary d("UTF-8"); parse(early + hs[h] + "msgid \"late\"\nmsgstr \"" + v + "\"\n", d); sv_check(sv_eq(d.translate("early"), v), "entries before the header are left as they are"); sv_check(sv_eq(d.translate("late"), h == 3 ? im_keyed(v, "KOI8-R", "UTF-8") : v), "without a header that names a charset the text is left as it is"); sv_check(!d.get_plural_forms(), "no rule without a header"); sv_reach("absent");
}
// headers of telling sizes: a long line, or many lines, before, between and behind the lines that count
SV_ENTRY c19_long() {
  warm(); size_t n = telling(sv_param("L", 5000), "size"); bool many = sv_bool("many lines"), oneline = sv_bool("one line"); unsigned at = sv_range(0, 2, "where"); if (many && n > 600) return; std::vector<std::string> l, fill; if (many) for (size_t i = 0; i < n; ++i) fill.push_back("X-Line: " + std::to_string(i)); else fill.push_back("X-Long: " + std::string(n, 'l'));
  auto put = [&](unsigned w) { if (at == w) for (auto& x : fill) l.push_back(x); }; put(0); l.push_back("Content-Type: text/plain; charset=KOI8-R"); put(1); l.push_back(plural_headers[PF_A]); put(2); std::string v = value(); Want w{ "KOI8-R", "UTF-8" }; Dictionary d("UTF-8"); parse(po(l, oneline) + body(v), d); entries_check(d, v, w); PluralForms p = d.get_plural_forms(); sv_check((bool)p && p == PluralForms::from_string(plural_headers[PF_A]), "the header's rule is found wherever it stands"); sv_reach("long");
}
// two lines of the same name
SV_ENTRY c19_twice() {
  warm(); static const char* const cs[] = { "KOI8-R", "UTF-8", "CHARSET", "utf-16" }; unsigned i = sv_range(0, 3, "first"), j = sv_range(0, 3, "second"); bool between = sv_bool("between"), oneline = sv_bool("one line"); std::vector<std::string> l{ "Content-Type: text/plain; charset=" + std::string(cs[i]) }; if (between) l.push_back("Language: de"); l.push_back("Content-Type: text/plain; charset=" + std::string(cs[j])); std::string v = value(); Want w{ j == 2 ? "UTF-8" : cs[j], "UTF-8" }; Dictionary d("UTF-8"); parse(po(l, oneline) + body(v), d); entries_check(d, v, w); sv_reach("twice");
}
// Big5 text far along a line or many lines down
SV_ENTRY c22_far() {
  warm(); size_t n = telling(sv_param("L", 5000), "distance"); bool lines = sv_bool("lines"); if (lines && n > 1100) return; std::string c = sv_str(2, "character"), v; sv_assume(sv_and(sv_and((unsigned char)c[0] >= 0x81, (unsigned char)c[0] <= 0xfe), c[1] != '\n')); static const char* const fill[] = { "x", "\xa4\\", "\xa4\"", "\\n" }, * const means[] = { "x", "\xa4\\", "\xa4\"", "\n" }; unsigned f = sv_range(0, 3, "filler"); std::string t = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\nmsgid \"m\"\nmsgstr \"";
  for (size_t i = 0; i < n; ++i) { t += fill[f]; v += means[f]; if (lines) t += "\"\n\""; } t += c + "\"\n\nmsgid \"after\"\nmsgstr \"y\"\n"; Dictionary d("big5"); parse(t, d); sv_check(sv_eq(d.translate("m"), v + c), "a two-byte character is kept as it is wherever it stands"); sv_check(d.translate("after") == "y", "what follows is read"); sv_reach("far");
}
