// C18: callbacks never change results; diagnostics are accurate
#include "plural.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
struct Msg { int sev; std::string s; }; // 0 info, 1 warning, 2 error
static std::vector<Msg>* seen; static unsigned alt;
static void on_info(const std::string& s) { seen->push_back({ 0, s }); }
static void on_warning(const std::string& s) { seen->push_back({ 1, s }); }
static void on_error(const std::string& s) { seen->push_back({ 2, s }); }
static void other_info(const std::string&) { ++alt; } static void other_warning(const std::string&) { ++alt; } static void other_error(const std::string&) { ++alt; }
static void record() { Log::set_log_info_callback(on_info); Log::set_log_warning_callback(on_warning); Log::set_log_error_callback(on_error); }
static void warm() { quiet(); PluralForms::from_string("x"); seen = new std::vector<Msg>; }
static void done() { quiet(); delete seen; seen = nullptr; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
// text after the "file:line:" of a parser diagnostic; its line number
static bool located(const std::string& s, const std::string& file, unsigned long& line) { if (!starts(s, file + ":")) return false; size_t i = file.size() + 1; line = 0; size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && line < 1000000) line = line * 10 + (unsigned long)(s[i++] - '0'); return i > b && i < s.size() && s[i] == ':'; }
static bool whole(const std::string& s) { return !s.empty() && s[s.size() - 1] == '\n'; }

// ---- results do not depend on the callbacks
static const char* pre[] = { "", "msgid \"m\"\nmsgstr \"", "msgid \"m\"\nmsgstr \"a\\", "msgid \"id\"\nmsgstr \"", "msgid", "msgctxt \"c\"\nmsgid \"id\"\nmsgstr \"x\"", "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"", "msgid \"\"\nmsgstr \"Plural-Forms: ", "msgid \"\"\nmsgstr \"Content-Type: " };
static std::string dump(Dictionary& d) {
  std::string o; d.foreach([&](const std::string& k, const std::vector<std::string>& f) { o += "<" + k + ">"; for (auto& x : f) o += "[" + x + "]"; }); d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& f) { o += "{" + c + "}<" + k + ">"; for (auto& x : f) o += "[" + x + "]"; });
  for (const char* m : { "id", "m", "absent" }) { o += d.translate(m) + "|"; for (int n = 0; n < 3; ++n) o += d.translate_plural(m, "ids", n) + "|" + d.translate_ctxt_plural("c", m, "ids", n) + "|"; o += d.translate_ctxt("c", m) + "|" + d.translate_ctxt("none", m) + "\n"; }
  o += d.get_plural_forms() ? "P" : "-"; return o;
}
static void install(unsigned how) { // base 3 digits: null, recorder, another callback
  Log::set_log_info_callback(how % 3 == 0 ? nullptr : how % 3 == 1 ? on_info : other_info); Log::set_log_warning_callback(how / 3 % 3 == 0 ? nullptr : how / 3 % 3 == 1 ? on_warning : other_warning); Log::set_log_error_callback(how / 9 == 0 ? nullptr : how / 9 == 1 ? on_error : other_error);
}
static std::string one_run(const std::string& text, Dictionary& d) { std::string r; try { parse(text, d); } catch (std::exception&) { r = "threw "; } return r + dump(d); }
SV_ENTRY c18_results() {
  warm(); unsigned p = sv_range(0, COUNT(pre) - 1, "prefix"), how = sv_range(1, 26, "callbacks"); std::string text = pre[p] + sv_str((size_t)sv_param("N", 2), "bytes") + "\n\nmsgid \"id\"\nmsgstr \"first\"\n\nmsgid \"id\"\nmsgstr \"\\q second\"\n\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"a\"\nmsgstr[2] \"b\"\n\nmsgctxt \"c\"\nmsgid \"id\"\nmsgstr \"ctx\"\n\nmsgctxt \"c\"\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"q\"\n";
  Dictionary a, b; install(0); std::string ra = one_run(text, a); install(how); std::string rb = one_run(text, b); sv_check(sv_eq(ra, rb), "installing, replacing or removing callbacks does not change what is parsed or returned"); unsigned changed = (how + 1 + sv_range(0, 1, "then") * 12) % 27; install(changed); sv_check(sv_eq(dump(b), rb.compare(0, 6, "threw ") == 0 ? rb.substr(6) : rb), "nor does changing them between lookups"); sv_reach("same"); done();
}
// the manager: messages of every kind, null callbacks in any combination
struct BadFS : MemFS { std::unique_ptr<std::istream> open_file(const std::string& f) override { if (f == "two/de.po") throw std::runtime_error("no"); return MemFS::open_file(f); } std::vector<std::string> open_directory(const std::string& p) override { if (p == "three") throw std::runtime_error("no"); return MemFS::open_directory(p); } };
static std::string managed() {
  BadFS* fs = new BadFS; fs->dirs["one"] = { "de.po", "xx-unknown.po", "de_AT.po", "readme" }; fs->dirs["two"] = { "de.po" }; fs->dirs["four"] = { "de.po" }; fs->files["one/de.po"] = "msgid \"m\"\nmsgstr \"\\q\"\n\njunk\n\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"a\"\n\nmsgid \"a\"\nmsgstr \"1\"\n\nmsgid \"a\"\nmsgstr \"2\"\n"; fs->files["one/de_AT.po"] = "msgid \"id\"\nmsgstr \"at\"\n";
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (const char* d : { "one", "two", "three", "four" }) m.add_directory(d); std::string r = dump(m.get_dictionary(Language::from_name("de_AT"))) + dump(m.get_dictionary(Language::from_name("de"))); for (const Language& l : m.get_languages()) r += l.str() + ","; return r;
}
SV_ENTRY c18_manager() {
  warm(); Language::from_name("x"); install(0); std::string a = managed(); unsigned how = sv_range(1, 26, "callbacks"); install(how); std::string b = managed(); sv_check(a == b, "callbacks do not change what the manager loads"); sv_reach("same"); done();
}
// ---- accurate diagnostics
struct Diag { const char* text; unsigned line; int sev; const char* quote; }; // the offending line (0-based in the block), and a piece of it
static const Diag diags[] = {
  { "msgid \"m\"\nmsgstr \"a\\qb\"\n", 1, 1, "a\\qb" }, { "msgid \"m\"\nmsgstr \"a\"\n\"\\q\"\n", 2, 1, "\\q" }, { "msgid \"m\"\nmsgstr  \"a\"\n", 1, 1, "msgstr  \"a\"" }, { "msgid\t\"m\"\nmsgstr \"a\"\n", 0, 1, "\"m\"" }, { "msgid \"m\"\nmsgstr \"a\" junk\n", 1, 1, "junk" },
  { "msgid \"m\"\n \"n\"\nmsgstr \"a\"\n", 1, 1, "\"n\"" }, { "msgctxt\"c\"\nmsgid \"m\"\nmsgstr \"a\"\n", 0, 1, "msgctxt" }, { "# c\n#: f:1\nmsgid \"m\"\nmsgid_plural \"p\"\nmsgstr[0]\"a\"\n", 4, 1, "msgstr[0]" },
  { "junk line\n", 0, 2, "junk line" }, { "msgid \"m\n", 0, 2, "msgid \"m" }, { "msgid \"m\"\nmsgstr \"unclosed\n", 1, 2, "unclosed" }, { "# x\nmsgid \"m\"\nmsgstr \"a\"\n\"unclosed2\n\"b\"\n", 3, 2, "unclosed2" }, { "msgid \"m\"\nmsgstr \"a\\\n", 1, 2, "a\\" }, { "msgid \"m\"\nmsgstr x\n", 1, 2, "msgstr x" }, { "msgid\nmsgstr \"x\"\n", 0, 2, "msgid" },
  { "msgid \"m\"\nnonsense\nmsgstr \"x\"\n", 1, 2, "nonsense" }, { "msgid \"m\"\nmsgid_plural \"p\"\nmsgstr \"x\"\n", 2, 2, "msgstr \"x\"" }, { "msgid \"m\"\nmsgid_plural \"p\"\nmsgstr[0] \"x\"\nmsgstr[1 \"y\"\n", 3, 2, "msgstr[1 " }, { "msgid \"m\"\nmsgstr \"x\"\nmsgid \"n\"\nmsgstr \"y\"\n", 2, 2, "msgid \"n\"" }, { "msgctxt \"c\"\nmsgstr \"x\"\n", 1, 2, "msgstr \"x\"" }, { "msgid \"a\"\n\"b\"\n\"c\"\nmsgstr[0] x\n\n", 3, 2, "" },
};
static const char* above[] = { "", "msgid \"ok\"\nmsgstr \"fine\"\n\n", "# comment\n#, fuzzy\n\n", "\n\n \t\n", "bad block\nof three\nlines\n\n", "msgid \"ok2\"\nmsgid_plural \"ok2s\"\nmsgstr[0] \"\"\n\"a\"\nmsgstr[1] \"b\"\n\n", "msgid \"ok\"\nmsgstr \"fine\"\r\n\r\n", "#~ msgid \"o\"\n#~ msgstr \"p\"\nmsgid \"q\"\nmsgstr \"\"\n\"r\"\n\n", "msgid \"bad\nmsgstr \"x\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n", "msgid \"m\"\nmsgstr \"m\" # \"x\"\n\n" };
static unsigned lines(const std::string& s) { unsigned n = 0; for (char c : s) n += c == '\n'; return n; }
SV_ENTRY c18_lines() {
  warm(); unsigned i = sv_range(0, COUNT(diags) - 1, "diagnostic"), k = (unsigned)sv_param("K", 2); const Diag& g = diags[i]; std::string text = sv_bool("mark") ? "\xef\xbb\xbf" : ""; if (!text.empty()) text += "# first\n"; unsigned noisy = 0, clean = 0; (void)clean;
  for (unsigned j = 0; j < k; ++j) { unsigned a = sv_range(0, COUNT(above) - 1, "above"); text += above[a]; }
  unsigned quietly = lines(text); { Dictionary d; record(); parse(text, d); noisy = (unsigned)seen->size(); quiet(); seen->clear(); }
  text += g.text; if (sv_bool("followed")) text += "\nmsgid \"tail\"\nmsgstr \"t\"\n"; std::string file = sv_bool("long name") ? "some/dir:x/de_DE.po" : "f.po";
  Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); record(); { std::istringstream in(text); POParser::parse(file, in, d); } quiet();
  unsigned long want = quietly + g.line + 1, at; unsigned hits = 0; bool form = true;
  for (const Msg& m : *seen) { if (!whole(m.s)) form = false; if (!located(m.s, file, at)) { if (!starts(m.s, "collision")) form = false; continue; } if (at == want && m.sev == g.sev) ++hits; if (at == want && m.sev != g.sev && g.line) { if (m.sev > g.sev) form = false; } }
  sv_check(form, "each diagnostic is one complete message that names its file and line"); sv_check(hits >= 1, "a diagnostic names the offending line"); (void)noisy; sv_reach(g.sev == 2 ? "error" : "warning"); done();
}
// symbolic: where an arbitrary byte makes a line malformed, the error is at that line, on the error callback
SV_ENTRY c18_byte() {
  warm(); std::string c = sv_str(1, "byte"); unsigned at = sv_range(0, 4, "line"); static const char* const good[] = { "msgctxt \"c\"", "msgid \"m\"", "msgid_plural \"ms\"", "msgstr[0] \"x\"", "msgstr[1] \"y\"" }; static const unsigned pos[] = { 7, 5, 12, 9, 9 }; sv_assume(c[0] != '\n');
  std::string text = "\n# c\n"; for (unsigned i = 0; i < 5; ++i) { std::string l = good[i]; if (i == at) l[pos[i]] = c[0]; text += l + "\n"; } bool space = c[0] == ' ' || c[0] == '\t' || c[0] == '\r' || c[0] == '\v' || c[0] == '\f'; bool plain = c[0] == ' ', quote = c[0] == '"';
  Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); record(); parse(text, d); quiet(); unsigned long ln = 0; 
  if (plain) { sv_check(seen->empty(), "a well-formed entry causes no diagnostic"); sv_reach("none"); }
  else if (space) { sv_check(seen->size() == 1 && (*seen)[0].sev == 1 && located((*seen)[0].s, "t.po", ln) && ln == 3 + at, "one warning, at the line with the odd spacing"); sv_reach("warning"); }
  else { unsigned errors = 0; for (const Msg& m : *seen) { sv_check(located(m.s, "t.po", ln) && ln == 3 + at && whole(m.s), "diagnostics name the offending line"); if (m.sev == 2) ++errors; sv_check(m.sev != 0, "parser diagnostics are warnings or errors"); } if (!quote) sv_check(errors == 1, "one error per malformed entry"); sv_reach("error"); }
  done();
}
// severities of dictionary and manager messages; one message per event, only on its own callback
SV_ENTRY c18_severity() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); std::string v = sv_str(1, "v"), w = sv_str(1, "w"); unsigned op = sv_range(0, 8, "op"), how = sv_range(0, 7, "installed"); d.add_translation("id", v); d.add_translation("c", "id", v); { std::vector<std::string> one(1, "x"); d.add_translation("short", "shorts", one); }
  record(); if (!(how & 1)) Log::set_log_info_callback(nullptr); if (!(how & 2)) Log::set_log_warning_callback(nullptr); if (!(how & 4)) Log::set_log_error_callback(nullptr); bool diff = v[0] != w[0]; int sev = -1; std::string a(w), b("y"); std::vector<std::string> two{ a, b };
  if (op == 0) { d.add_translation("id", w); sev = diff ? 1 : -1; } else if (op == 1) { d.add_translation("c", "id", w); sev = diff ? 1 : -1; } else if (op == 2) { d.add_translation("id", "ids", two); sev = 1; } else if (op == 3) { d.add_translation("c", "id", "ids", two); sev = 1; }
  else if (op == 4) { d.translate("absent"); sev = 0; } else if (op == 5) { d.translate_ctxt("no", "id"); sev = 0; } else if (op == 6) { d.translate_plural("short", "shorts", 2); sev = 2; } else if (op == 7) { d.translate_plural("absent", "x", 1); sev = 0; } else { d.translate_ctxt("c", "id"); d.add_translation("new", w); sev = v.empty() ? 0 : -1; }
  quiet(); bool only = true, comp = true; for (const Msg& m : *seen) { if (m.sev != sev) only = false; if (!whole(m.s)) comp = false; } sv_check(only && comp, "a diagnostic goes to the callback of its own severity only, as complete messages");
  if (sev >= 0 && (how >> sev & 1)) { sv_check(!seen->empty(), "an installed callback receives its diagnostics"); if (sev == 1) sv_check(seen->size() == 1, "one message per collision"); sv_reach("message"); } else { sv_check(seen->empty(), "a removed callback receives nothing, and nobody else does"); sv_reach("none"); } done();
}
// diagnostics about lines far down and about long lines
SV_ENTRY c18_far() {
  warm(); size_t n = telling(sv_param("L", 5000), "distance"); bool down = sv_bool("down"); unsigned i = sv_range(0, 3, "diagnostic"), fill = sv_range(0, 3, "filler"); static const char* const fills[] = { "\n", "# c\n", "msgid \"ok\"\nmsgstr \"fine\"\n\n", "#~ msgid \"o\"\n" }; if (down && n > 1100) return; std::string pad = down ? std::string() : std::string(n, '%'), text; if (down) for (size_t k = 0; k < n; ++k) text += fills[fill]; unsigned before = lines(text);
  static const Diag dg[] = { { "junk line", 0, 2, "junk line" }, { "msgid \"m\"\nmsgstr \"unclosed", 1, 2, "unclosed" }, { "msgid \"m\"\nmsgstr \"a\\q", 1, 1, "a\\q" }, { "msgid  \"m", 0, 1, "msgid  \"m" } }; text += dg[i].text + pad + (i == 0 || i == 1 ? "\n" : i == 2 ? "\"\n" : "\"\nmsgstr \"x\"\n"); Dictionary d; record(); { std::istringstream in(text); POParser::parse("100%s.po", in, d); } quiet(); unsigned long want = before + dg[i].line + 1, at; unsigned hits = 0; bool quoted = false;
  for (const Msg& m : *seen) { sv_check(whole(m.s) && located(m.s, "100%s.po", at), "each diagnostic is one complete message that names its file and line"); if (at == want && m.sev == dg[i].sev) { ++hits; if (m.s.find(dg[i].quote + pad) != std::string::npos) quoted = true; } } sv_check(hits >= 1, "a diagnostic names the offending line, however far down it is"); sv_check(quoted, "a diagnostic quotes the offending line, however long it is"); sv_reach(dg[i].sev == 2 ? "error" : "warning"); done();
}
// many malformed blocks: each is reported, the last like the first
SV_ENTRY c18_many() {
  warm(); size_t n = telling(sv_param("N", 520), "count"); unsigned kind = sv_range(0, 4, "kind"); std::string b = plain_byte("byte"); sv_assume(b[0] != '%'); static const char* const blocks[] = { "junk\n\n", "msgid \"m\"\nmsgstr \"unclosed\n\n", "msgid \"m\"\nmsgid \"x\"\n\n", "msgid \"m\"\nmsgstr \"a\\q\"\n\n", "msgid  \"m\"\nmsgstr \"x\"\n\n" }; static const unsigned off[] = { 0, 1, 1, 1, 0 }, per[] = { 2, 3, 3, 3, 3 }; int sev = kind < 3 ? 2 : 1; std::string text; for (size_t i = 0; i < n; ++i) text += blocks[kind]; text += "msgid \"v\"\nmsgstr \"" + b + "\"\n";
  Dictionary d; if (sv_bool("read before")) parse(text, d); record(); { std::istringstream in(text); POParser::parse("f.po", in, d); } quiet(); std::vector<unsigned> hit(n, 0); bool form = true; for (const Msg& m : *seen) { unsigned long at; if (!whole(m.s)) form = false; if (!located(m.s, "f.po", at)) { if (!starts(m.s, "collision")) form = false; continue; } if (m.sev != sev || at < 1 || (at - 1) / per[kind] >= n || (at - 1) % per[kind] != off[kind]) form = false; else ++hit[(at - 1) / per[kind]]; }
  bool all = true; for (unsigned h : hit) if (!h) all = false; sv_check(form, "each diagnostic is one complete message that names its file and line"); sv_check(all, "every malformed entry is reported, however many there are"); sv_check(sv_eq(d.translate("v"), b), "what is well-formed is read"); sv_reach(sev == 2 ? "error" : "warning"); done();
}
