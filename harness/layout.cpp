// C24: line ends, byte-order mark, comments and spacing do not change content
#include "common.hpp"
#include "plural.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); }
// a file as tokens, written with any layout
struct Line { const char* kw; std::string s; }; // kw "" = continuation line; kw nullptr = end of entry
static std::vector<Line> base() {
  return { { "msgid", "" }, { "msgstr", "" }, { "", "Content-Type: text/plain; charset=UTF-8\\n" }, { "", "Plural-Forms: nplurals=2; plural=n!=1;\\n" }, { nullptr, "" },
           { "msgid", "one" }, { "msgstr", "eins" }, { nullptr, "" },
           { "msgctxt", "ctx" }, { "msgid", "" }, { "", "long " }, { "", "id" }, { "msgstr", "" }, { "", "a\\\"" }, { "", "#b" }, { nullptr, "" },
           { "msgid", "pl" }, { "msgid_plural", "pls" }, { "msgstr[0]", "p" }, { "", "0" }, { "msgstr[1]", "p1" }, { nullptr, "" },
           { "msgid", "last" }, { "msgstr", "letzt" }, { nullptr, "" } };
}
static const unsigned ENTRIES = 5, LINES = 20; // string lines of base()
static void content(Dictionary& d) {
  unsigned plain = 0, ctx = 0; bool ok = true, okc = true;
  d.foreach([&](const std::string& k, const std::vector<std::string>& f) { ++plain; if (k == "one") { if (!(f.size() == 1 && f[0] == "eins")) ok = false; } else if (k == "pl") { if (!(f.size() == 2 && f[0] == "p0" && f[1] == "p1")) ok = false; } else if (k == "last") { if (!(f.size() == 1 && f[0] == "letzt")) ok = false; } else ok = false; });
  d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& f) { ++ctx; if (!(c == "ctx" && k == "long id" && f.size() == 1 && f[0] == "a\"#b")) okc = false; });
  sv_check(plain == 3 && ok && ctx == 1 && okc, "the layout of a file does not change what it defines"); sv_check((bool)d.get_plural_forms() && d.get_plural_forms().get_nplural() == 2, "the layout of the header does not change its effect"); sv_reach("content");
}
struct Layout { std::string eol = "\n"; bool bom = false; std::vector<std::string> gap, sep, lead, comment; std::string last; Layout() : gap(ENTRIES, "\n"), sep(LINES, " "), lead(LINES), comment(ENTRIES + 1) {} };
static std::string write(const Layout& l) {
  std::string t = l.bom ? "\xef\xbb\xbf" : ""; unsigned e = 0, n = 0; t += l.comment[0];
  std::vector<Line> b = base(); for (size_t i = 0; i < b.size(); ++i) { const Line& x = b[i];
    if (!x.kw) { if (i + 1 < b.size()) t += l.gap[e]; ++e; t += l.comment[e]; continue; }
    if (!*x.kw) t += l.lead[n]; else t += x.kw + l.sep[n]; t += "\"" + x.s + "\"" + (i + 2 < b.size() || l.last.empty() ? l.eol : l.last == "-" ? "" : l.last); ++n; }
  return t;
}
static std::string blanks(size_t n, const char* name) { std::string s = sv_str(n, name); for (char c : s) sv_assume(sv_or(c == ' ', c == '\t')); return s; }
// line ends, mark, end of file and the number of blank lines
SV_ENTRY c24_ends() {
  warm(); Layout l; l.eol = sv_bool("crlf") ? "\r\n" : "\n"; l.bom = sv_bool("mark"); unsigned e = sv_range(0, ENTRIES - 1, "entry"), g = sv_range(1, (uint32_t)sv_param("G", 4), "blank lines"); unsigned c = sv_range(0, 4, "comment"), last = sv_range(0, 3, "end");
  for (unsigned i = 0; i < ENTRIES; ++i) { l.gap[i] = l.eol; if (i == e) { l.gap[i] = ""; for (unsigned k = 0; k < g; ++k) l.gap[i] += l.eol; } }
  static const char* const cm[] = { "", "#", "# text", "#: file.c:12", "#~ msgid \"one\"" }; if (c) l.comment[e] = cm[c] + l.eol; if (sv_bool("leading blank lines")) l.comment[0] = l.eol + l.eol + l.comment[0]; l.last = last == 0 ? "" : last == 1 ? "-" : last == 2 ? l.eol + l.eol + l.eol : "\r\n";
  Dictionary d; parse(write(l), d); content(d);
}
// files of one entry or two of any kind under every ending, mark and line end
SV_ENTRY c24_small() {
  warm(); std::string eol = sv_bool("crlf") ? "\r\n" : "\n", t = sv_bool("mark") ? "\xef\xbb\xbf" : ""; unsigned n = sv_range(1, 2, "entries"), end = sv_range(0, 5, "end"), lead = sv_range(0, 4, "lead"); static const char* const leads[] = { "", "E", "#E", "# cE#, c-formatE", "#~ msgid \"o\"E#~ msgstr \"O\"EE" };
  for (const char* p = leads[lead]; *p; ++p) { if (*p == 'E') t += eol; else t += *p; } Dictionary d; unsigned kinds[2]; std::string v[2];
  for (unsigned i = 0; i < n; ++i) { unsigned kind = kinds[i] = sv_range(0, 5, "kind"); std::string id = "m" + std::to_string(i); v[i] = sv_str(1, "value"); sv_assume(sv_and(sv_and(v[i][0] != '"', v[i][0] != '\\'), v[i][0] != '\n')); if (i) t += eol + eol;
    if (kind & 1) t += "msgctxt \"c\"" + eol; t += "msgid \"" + id + "\"" + eol; if (kind < 2) t += "msgstr \"" + v[i] + "\""; else if (kind < 4) t += "msgid_plural \"ps\"" + eol + "msgstr[0] \"" + v[i] + "\""; else t += "msgid_plural \"ps\"" + eol + "msgstr[0] \"\"" + eol + "\"" + v[i] + "\"" + eol + "msgstr[1] \"s\"" + eol + "\"" + v[i] + "\""; }
  t += end == 0 ? "" : end == 1 ? eol : end == 2 ? eol + eol : end == 3 ? eol + "# end" : end == 4 ? eol + eol + "#~ msgid \"x\"" + eol + "#~ msgstr \"y\"" : "\r\n\n"; parse(t, d);
  unsigned total = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++total; }); d.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++total; }); sv_check(total == n, "every entry is defined, and nothing else");
  for (unsigned i = 0; i < n; ++i) { unsigned kind = kinds[i]; std::string id = "m" + std::to_string(i), got = kind & 1 ? d.translate_ctxt("c", id) : d.translate(id); sv_check(sv_eq(got, v[i]), "an entry is defined whatever the end of its file looks like"); if (kind >= 4) { std::vector<std::string> f; auto take = [&](const std::string& k, const std::vector<std::string>& x) { if (k == id) f = x; }; d.foreach(take); d.foreach_ctxt([&](const std::string&, const std::string& k, const std::vector<std::string>& x) { take(k, x); }); sv_check(f.size() == 2 && sv_eq(f[1], "s" + v[i]), "the last form is defined whatever the end of its file looks like"); } } sv_reach("content");
}
// any comment lines before any entry
static std::string comment_bytes(size_t n) { std::string s = sv_str(n, "comment"); for (char c : s) sv_assume(c != '\n'); return s; }
SV_ENTRY c24_comments() {
  warm(); Layout l; l.eol = sv_bool("crlf") ? "\r\n" : "\n"; for (auto& g : l.gap) g = l.eol; unsigned e = sv_range(0, ENTRIES, "entry"); static const char* const head[] = { "#", "# ", "#,", "#, c-format", "#~ msgid \"one", "#| msgid \"", "#.", "#~ msgstr \"x\\", "# fuzzy", "#: fuzzy" }; unsigned h = sv_range(0, COUNT(head) - 1, "head");
  std::string c = head[h] + comment_bytes(sv_range(0, (uint32_t)sv_param("N", 4), "len")) + l.eol; bool twice = sv_bool("twice"); l.comment[e] = twice ? "#, no-wrap" + l.eol + c + "#" + l.eol + c : c; if (e == ENTRIES) { l.comment[e] = l.eol + l.comment[e]; }
  Dictionary d; { std::istringstream in(write(l)); POParser::parse("t.po", in, d, h == 2 || h == 3 ? true : sv_bool("use_fuzzy")); } content(d);
}
// any spacing between keyword and string, before continuation lines
SV_ENTRY c24_spacing() {
  warm(); Layout l; if (sv_bool("crlf")) { l.eol = "\r\n"; for (auto& g : l.gap) g = l.eol; } unsigned at = sv_range(0, LINES - 1, "line"); size_t n = sv_range(0, (uint32_t)sv_param("N", 5), "len"); bool all = sv_bool("everywhere"); std::string s = blanks(n, "space");
  for (unsigned i = 0; i < LINES; ++i) if (all || i == at) l.sep[i] = l.lead[i] = s;
  if (sv_bool("pedantic off")) POParser::pedantic = false; Dictionary d; parse(write(l), d); content(d);
}
SV_ENTRY c24_long() {
  warm(); Layout l; size_t n = sv_range(0, 3, "len") * 100 + sv_range(0, 1, "odd"); std::string s(n, sv_bool("tab") ? '\t' : ' '); for (auto& x : l.sep) x = s; for (auto& x : l.lead) x = s; unsigned e = sv_range(0, ENTRIES, "entry"); for (unsigned k = 0; k < sv_param("M", 40); ++k) l.comment[e] += "# comment \"number\" \\" + std::to_string(k) + std::string(k, '#') + "\n"; if (e == ENTRIES) l.comment[e] = "\n" + l.comment[e]; else if (e) for (unsigned k = 0; k < 30; ++k) l.gap[e - 1] += "\n";
  Dictionary d; parse(write(l), d); content(d);
}
// obsolete entries define nothing, wherever they stand
SV_ENTRY c24_obsolete() {
  warm(); Layout l; l.eol = sv_bool("crlf") ? "\r\n" : "\n"; for (auto& g : l.gap) g = l.eol; unsigned e = sv_range(0, ENTRIES, "entry"), shape = sv_range(0, 4, "shape"); std::string v = comment_bytes((size_t)sv_param("N", 2)), o; bool plural = sv_bool("plural");
  const std::string& n = l.eol; if (shape == 1) o += "#, c-format" + n; if (shape == 2) o += "#~| msgid \"old\"" + n; if (shape == 3) o += "#~ msgctxt \"ctx\"" + n;
  o += "#~ msgid \"one" + std::string(sv_bool("same") ? "" : "x") + "\"" + n + (plural ? "#~ msgid_plural \"ones\"" + n + "#~ msgstr[0] \"" + v + "\"" + n + "#~ msgstr[1] \"q\"" + n : "#~ msgstr \"" + v + "\"" + n + (shape == 4 ? "#~ \"more\"" + n : std::string()));
  if (sv_bool("own block")) { o += n; } l.comment[e] = o; if (e == ENTRIES) l.comment[e] = n + o;
  Dictionary d; parse(write(l), d); content(d); sv_reach("obsolete");
}
// comment lines, runs of blanks, runs of blank lines and of comment lines of telling sizes
SV_ENTRY c24_sizes() {
  warm(); Layout l; unsigned what = sv_range(0, 5, "what"), e = sv_range(0, ENTRIES - 1, "entry"); size_t n = telling(sv_param("L", 70000), "size"); if (what >= 3 && n > sv_param("M", 3000)) return; if (sv_bool("crlf")) { l.eol = "\r\n"; for (auto& g : l.gap) g = l.eol; }
  static const char* const h[] = { "# ", "#: ", "#, ", "#~ ", "#. " }; if (what == 0) { std::string c(n, sv_bool("quotes") ? '"' : 'x'); c[n / 2] = sv_str(1, "byte")[0]; sv_assume(c[n / 2] != '\n'); l.comment[e] = h[sv_range(0, 4, "kind")] + c + l.eol; } else if (what == 1) l.sep[e * 4] = std::string(n, ' '); else if (what == 2) l.lead[e < 3 ? 2 : e == 3 ? 8 : 15] = std::string(n, '\t'); else if (what == 3) for (size_t i = 0; i < n; ++i) l.gap[e] += l.eol; else if (what == 4) for (size_t i = 0; i < n; ++i) l.comment[e] += "# c" + l.eol; else for (size_t i = 0; i < n; ++i) l.comment[e] += "#~ msgid \"o\"" + l.eol + "#~ msgstr \"p\"" + l.eol + l.eol;
  Dictionary d; parse(write(l), d); content(d);
}
