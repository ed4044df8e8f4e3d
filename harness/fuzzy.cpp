// C09: fuzzy entries are used exactly when fuzzy use is enabled
#include "common.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static const char* header = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n";
static std::string entry(unsigned kind, const std::string& id, const std::string& v) { // 0 singular, 1 plural, 2 with context, 3 plural with context
  std::string t = kind >= 2 ? "msgctxt \"ctx\"\n" : ""; t += "msgid \"" + id + "\"\n";
  if (kind & 1) return t + "msgid_plural \"" + id + "s\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"" + v + "s\"\n";
  return t + "msgstr \"" + v + "\"\n";
}
static std::string ask(Dictionary& d, unsigned kind, const std::string& id, int n) {
  if (kind == 0) return d.translate(id); if (kind == 1) return d.translate_plural(id, id + "s", n);
  if (kind == 2) return d.translate_ctxt("ctx", id); return d.translate_ctxt_plural("ctx", id, id + "s", n);
}
static void expect(Dictionary& d, unsigned kind, const std::string& id, const std::string& v, bool on, const char* msg) {
  for (int n = 1; n <= 2; ++n) { std::string s = (kind & 1) && n != 1 ? "s" : ""; sv_check(sv_eq(ask(d, kind, id, n), on ? v + s : id + s), msg); }
  unsigned c = 0; d.foreach([&](const std::string& k, const std::vector<std::string>&) { if (k == id) ++c; });
  d.foreach_ctxt([&](const std::string&, const std::string& k, const std::vector<std::string>&) { if (k == id) ++c; });
  sv_check(c == (on ? 1u : 0u), msg);
}
static const char* USED = "a fuzzy entry is used exactly when fuzzy use is enabled"; static const char* OTHER = "an entry that is not fuzzy is always used";
static void run(const std::string& text, Dictionary& d, bool fz) { std::istringstream in(text); POParser::parse("t.po", in, d, fz); }
static bool delim(unsigned char c) { return c == ',' || c == ' ' || c == '\t' || c == '\r'; }
// 1: the flag list names fuzzy, 0: it does not, -1: it has the letters inside of something else (not decided)
static int names_fuzzy(const std::string& l) {
  bool part = false; for (size_t i = 0; i + 5 <= l.size(); ++i) { if (!sv_eq(l.substr(i, 5), "fuzzy")) continue; part = true; if ((i == 0 || delim((unsigned char)l[i - 1])) && (i + 5 == l.size() || delim((unsigned char)l[i + 5]))) return 1; }
  return part ? -1 : 0;
}
// one comment line with arbitrary bytes, any comment lines around it
SV_ENTRY c09_line() {
  quiet(); unsigned kind = sv_range(0, 3, "kind"); bool fz = sv_bool("use_fuzzy"); unsigned shape = sv_range(0, 5, "shape");
  size_t n = (size_t)sv_param("N", 2); std::string l; int f = 0;
  if (shape == 0) { std::string a = sv_str_upto(0, n, "before"), b = sv_str_upto(0, n, "after"); l = a + "fuzzy" + b; f = names_fuzzy(l); l = "#," + l; }
  else if (shape == 1) { std::string w = "fuzzy"; w[sv_range(0, 4, "at")] = sv_str(1, "byte")[0]; l = " " + w; f = names_fuzzy(l); l = "#," + l; }
  else if (shape == 2) { std::string k = sv_str(1, "kind byte"); l = "#" + k + " fuzzy"; f = k[0] == ','; }      // any other kind of comment
  else if (shape == 3) { std::string k = sv_str(1, "kind byte"); l = "#" + k + ", fuzzy"; sv_assume(k[0] != ','); f = 0; }
  else if (shape == 4) { std::string a = sv_str(n, "flags"); l = " c-format," + a + "no-wrap"; f = names_fuzzy(l); l = "#," + l; }
  else { std::string a = sv_str(1, "sep"); std::string b = sv_str(1, "sep2"); l = " c-format" + a + "fuzzy" + b + "range: 0..3"; f = names_fuzzy(l); l = "#," + l; }
  for (char c : l) sv_assume(c != '\n'); if (f < 0) return;
  static const char* around[] = { "", "# translator: fuzzy?\n", "#: src/fuzzy.c:1\n", "#. fuzzy\n", "#, c-format\n", "#| msgid \"fuzzy\"\n" };
  unsigned above = sv_range(0, 5, "above"), below = sv_range(0, 2, "below") * 2;
  std::string text = std::string(header) + entry(kind, "vor", "before") + "\n" + around[above] + l + "\n" + around[below] + entry(kind, "entry", "value") + "\n" + entry(kind, "nach", "after");
  Dictionary d; run(text, d, fz);
  expect(d, kind, "entry", "value", fz || !f, f ? USED : OTHER); expect(d, kind, "vor", "before", true, OTHER); expect(d, kind, "nach", "after", true, OTHER); if (f) sv_reach("fuzzy"); else sv_reach("not fuzzy");
}
// sequences of blocks; the flag belongs to its own entry only
static const char* const bad[] = { "#, fuzzy\nmsgid \"bad\"\nmsgstr \"x\n", "#, fuzzy\nmsgid \"bad\"\nmsgid_plural \"bads\"\nmsgstr[0] \"x\"\nmsgstr[9\n", "#, fuzzy\njunk\n", "#, fuzzy\nmsgid \"bad\"\n", "#, fuzzy\nmsgctxt \"ctx\"\nmsgid \"bad\"\nmsgstr bad\n", "#, fuzzy\nmsgid \"bad\"\nmsgstr \"x\"\ngarbage\n", "#, fuzzy\nmsgid \"bad", "#, fuzzy\nmsgid \"bad\"\nmsgid_plural \"bads\"\n" };
SV_ENTRY c09_carry() {
  quiet(); bool fz = sv_bool("use_fuzzy"); unsigned k = (unsigned)sv_param("K", 3); std::string text = header;
  struct B { int kind; bool fuzzy; std::string id, v; }; std::vector<B> want; unsigned flavour = sv_range(0, COUNT(bad) - 1, "bad shape"), kind = sv_range(0, 3, "kind");
  for (unsigned i = 0; i < k; ++i) {
    unsigned b = sv_range(0, 6, "block"); std::string id = "entry" + std::to_string(i), v = sv_str(1, "value"); sv_assume(v[0] != '"' && v[0] != '\\' && v[0] != '\n'); B w{ (int)((kind + i) & 3), false, id, v };
    if (b <= 1) { w.fuzzy = b == 1; text += std::string(w.fuzzy ? "#, fuzzy\n" : "") + entry((unsigned)w.kind, id, v) + "\n"; want.push_back(w); }
    else if (b == 2) text += "#, fuzzy\n\n";                                            // a comment block of its own
    else if (b == 3) text += std::string(bad[flavour]) + "\n\n";                         // malformed fuzzy entry
    else if (b == 4) text += "#, fuzzy\n#~ msgid \"old\"\n#~ msgstr \"fuzzy\"\n\n";      // obsolete
    else if (b == 5) text += "#, fuzzy\nmsgid \"\"\nmsgstr \"X-Other: header\\n\"\n\n";  // fuzzy header
    else { w.fuzzy = true; text += "#, c-format, fuzzy\n#: a.c:1\n" + entry((unsigned)w.kind, id, v); text += "\n"; want.push_back(w); }
  }
  text += entry(kind, "last", "letzter"); Dictionary d; run(text, d, fz);
  for (const B& w : want) { expect(d, (unsigned)w.kind, w.id, w.v, fz || !w.fuzzy, w.fuzzy ? USED : OTHER); sv_reach(w.fuzzy ? "fuzzy" : "not fuzzy"); }
  expect(d, kind, "last", "letzter", true, "the flag never carries over to another entry");
}
// the header stays in force, fuzzy or not
SV_ENTRY c09_header() {
  quiet(); bool fz = sv_bool("use_fuzzy"), mark = sv_bool("mark"); unsigned kind = sv_range(0, 3, "kind"); std::string c = sv_str((size_t)sv_param("N", 2), "comment"); for (char x : c) sv_assume(x != '\n');
  std::string text = "#" + c + "\n" + (mark ? "#, fuzzy\n" : "") + "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);\\n\"\n\n" + entry(kind, "a", "x") + "\n#, fuzzy\n" + entry(kind, "b", "y");
  Dictionary d; run(text, d, fz); sv_check((bool)d.get_plural_forms() && d.get_plural_forms().get_nplural() == 3, "a fuzzy header stays in force");
  expect(d, kind, "a", "x", true, OTHER); expect(d, kind, "b", "y", fz, USED); sv_reach("header");
}
// the manager: switching any number of times, before and after requests, with other directories and the bare language behind
SV_ENTRY c09_toggle() {
  quiet(); MemFS* fs = new MemFS; std::string v = sv_str(1, "value"); sv_assume(v[0] != '"' && v[0] != '\\' && v[0] != '\n');
  fs->dirs["one"] = { "de.po", "pt_BR.po" }; fs->dirs["two"] = { "de.po", "pt.po" };
  fs->files["one/de.po"] = std::string("#, fuzzy\n") + header + "#, fuzzy\n" + entry(0, "a", v) + "\n" + entry(1, "b", "bb") + "\n#, fuzzy\n" + entry(3, "c", "cc") + "\n#, fuzzy\n" + entry(2, "d", "dd");
  fs->files["two/de.po"] = std::string(header) + entry(0, "a", "aus zwei") + "\n#, fuzzy\n" + entry(1, "b", "no") + "\n" + entry(2, "d", "zwei");
  fs->files["one/pt_BR.po"] = std::string(header) + "#, fuzzy\n" + entry(0, "p", "br"); fs->files["two/pt.po"] = std::string(header) + "# fuzzy\n" + entry(0, "p", "pt") + "\n#, fuzzy\n" + entry(0, "q", "pt");
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("one"); m.add_directory("two"); bool on = true; m.set_language(Language::from_name("de"));
  unsigned k = (unsigned)sv_param("K", 3);
  for (unsigned i = 0; i < k; ++i) {
    unsigned op = sv_range(0, 4, "op");
    if (op == 0) { m.set_use_fuzzy(false); on = false; } else if (op == 1) { m.set_use_fuzzy(true); on = true; } else if (op == 2) m.get_dictionary(); else if (op == 3) m.get_dictionary(Language::from_name("pt_BR")); else m.set_language(Language::from_name(sv_bool("pt") ? "pt_BR" : "de"));
    sv_check(m.get_use_fuzzy() == on, "get_use_fuzzy() returns what was set");
  }
  Dictionary& d = m.get_dictionary(Language::from_name("de"));
  sv_check(sv_eq(d.translate("a"), on ? v : std::string("aus zwei")), "a fuzzy entry gives way to the next directory exactly when fuzzy use is disabled");
  sv_check(d.translate_plural("b", "bs", 2) == "bbs" && d.translate_plural("b", "bs", 1) == "bb", OTHER);
  sv_check(d.translate_ctxt_plural("ctx", "c", "cs", 2) == (on ? "ccs" : "cs"), USED); sv_check(d.translate_ctxt("ctx", "d") == (on ? "dd" : "zwei"), USED);
  Dictionary& p = m.get_dictionary(Language::from_name("pt_BR")); sv_check(p.translate("p") == (on ? "br" : "pt"), "a fuzzy regional entry gives way to the bare language exactly when fuzzy use is disabled"); sv_check(p.translate("q") == (on ? "pt" : "q"), USED);
  sv_reach("toggled");
}
// the flag far inside of a long comment line, or far above the entry
SV_ENTRY c09_far() {
  quiet(); unsigned kind = sv_range(0, 3, "kind"); bool fz = sv_bool("use_fuzzy"), many = sv_bool("many lines"); size_t n = telling(sv_param("L", 5000), "distance"); static const char* const fill[] = { " c-format,", " ", " no-c-format,range: 0..3," }; std::string t = header, f = fill[sv_range(0, 2, "filler")], v = plain_byte("value");
  t += entry(kind, "vor", "before") + "\n"; if (many) { t += "#, fuzzy\n"; static const char* const below[] = { "# t\n", "#: f.c:1\n", "#, c-format\n", "#| msgid \"old\"\n", "#~ msgid \"o\"\n", "#\n" }; std::string l = below[sv_range(0, 5, "below")]; if (n > 1100) return; for (size_t i = 0; i < n; ++i) t += l; } else { std::string l = "#,"; while (l.size() < n) l += f; t += l + (l[l.size() - 1] == ',' ? " fuzzy" : ", fuzzy") + (sv_bool("more") ? ", no-wrap\n" : "\n"); }
  t += entry(kind, "entry", v) + "\n" + entry(kind, "nach", "after"); Dictionary d; run(t, d, fz); expect(d, kind, "entry", v, fz, USED); expect(d, kind, "vor", "before", true, OTHER); expect(d, kind, "nach", "after", true, OTHER); sv_reach("fuzzy");
}
