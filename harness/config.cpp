// C14 precedence, C15 cache, C16 regional fallback, C20 faults
#include "plural.hpp"
#include "iconv_model.hpp"
#include <deque>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); Language::from_name("x"); IM.keyed = true; }
static const char* const HEAD = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n";
static std::string msg(const std::string& id, const std::string& v) { return "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n\n"; }
struct LogFS : MemFS { unsigned lists = 0, opens = 0; std::vector<std::string> open_directory(const std::string& p) override { ++lists; return MemFS::open_directory(p); } std::unique_ptr<std::istream> open_file(const std::string& f) override { ++opens; return MemFS::open_file(f); } };
static std::string sym_value(const char* name) { std::string v = sv_str(1, name); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), v[0] != '\n')); return v; }

static std::string V[4]; // arbitrary translations
// ------------------------------------------------------------------ C14
// reference search path
struct Path { std::deque<unsigned> p; int at(unsigned d) { for (size_t i = 0; i < p.size(); ++i) if (p[i] == d) return (int)i; return -1; }
  void add(unsigned d, bool front) { if (at(d) >= 0) return; if (front) p.push_front(d); else p.push_back(d); } void remove(unsigned d) { int i = at(d); if (i >= 0) p.erase(p.begin() + i); } };
static const char* const DN[] = { "a", "a/b", "A", "" };
SV_ENTRY c14_history() {
  warm(); unsigned nd = (unsigned)sv_param("D", 3), k = (unsigned)sv_param("K", 3); LogFS* fs = new LogFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Language de = Language::from_env("de"); for (unsigned d = 0; d < nd; ++d) V[d] = sym_value("value");
  for (unsigned d = 0; d < nd; ++d) { fs->dirs[DN[d]] = { "de.po" }; std::string t = HEAD; for (unsigned s = 1; s < (1u << nd); ++s) if (s >> d & 1) { std::string id = "m" + std::to_string(s), v = V[d]; if (s & 1) t += msg(id, v); else t += "msgctxt \"c\"\n" + msg(id, v); t += "msgid \"p" + id + "\"\nmsgid_plural \"x\"\nmsgstr[0] \"s" + v + "\"\nmsgstr[1] \"p" + v + "\"\n\n"; } fs->files[std::string(DN[d]) + "/de.po"] = t; }
  Path ref; unsigned look = sv_range(0, k, "lookup before");
  for (unsigned i = 0; i < k; ++i) { if (i == look) m.get_dictionary(de); unsigned op = sv_range(0, 3 * nd - 1, "op"), d = op % nd; if (op < nd) { m.add_directory(DN[d]); ref.add(d, false); } else if (op < 2 * nd) { m.add_directory(DN[d], true); ref.add(d, true); } else { m.remove_directory(DN[d]); ref.remove(d); } }
  Dictionary& dict = m.get_dictionary(de);
  for (unsigned s = 1; s < (1u << nd); ++s) { int w = -1; for (unsigned d : ref.p) if (s >> d & 1) { w = (int)d; break; } std::string id = "m" + std::to_string(s), v = w < 0 ? std::string() : V[w];
    std::string one = s & 1 ? dict.translate(id) : dict.translate_ctxt("c", id), sg = dict.translate_plural("p" + id, "x", 1), pl = dict.translate_plural("p" + id, "x", 5);
    if (w >= 0) { sv_check(sv_and(sv_eq(one, v), sv_and(sv_eq(sg, "s" + v), sv_eq(pl, "p" + v))), "the earliest directory of the search path that has a message supplies it"); sv_reach("found"); } else { sv_check(one == id && sg == "p" + id && pl == "x", "a directory that was removed or never added supplies nothing"); sv_reach("absent"); } }
}
// arbitrary values, equal and empty ones included: what the earliest directory leaves untranslated, a later one supplies
SV_ENTRY c14_values() {
  warm(); LogFS* fs = new LogFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); unsigned nd = 3, kind = sv_range(0, 3, "kind"), order = sv_range(0, 5, "order"); std::string v[3]; bool has[3]; static const unsigned perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  for (unsigned d = 0; d < nd; ++d) { fs->dirs[DN[d]] = { "de.po" }; has[d] = sv_bool("has"); if (has[d]) { unsigned len = sv_range(0, 2, "length"); for (unsigned j = 0; j < len; ++j) v[d] += sym_value("value"); } std::string t = HEAD; if (has[d]) t += kind == 0 ? msg("m", v[d]) : kind == 1 ? "msgctxt \"c\"\n" + msg("m", v[d]) : std::string(kind == 3 ? "msgctxt \"c\"\n" : "") + "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"" + v[d] + "\"\nmsgstr[1] \"" + v[d] + "\"\n"; t += "\n" + msg("only" + std::to_string(d), "yes"); fs->files[std::string(DN[d]) + "/de.po"] = t; }
  for (unsigned i = 0; i < nd; ++i) m.add_directory(DN[perm[order][i]]); Dictionary& d = m.get_dictionary(Language::from_env("de")); std::string want = kind >= 2 ? "ms" : "m"; for (unsigned i = nd; i-- > 0;) if (!v[perm[order][i]].empty()) want = v[perm[order][i]];
  std::string got = kind == 0 ? d.translate("m") : kind == 1 ? d.translate_ctxt("c", "m") : kind == 2 ? d.translate_plural("m", "ms", 7) : d.translate_ctxt_plural("c", "m", "ms", 7); sv_check(sv_eq(got, want), "the earliest directory that translates a message wins, whatever the translations are"); for (unsigned i = 0; i < nd; ++i) sv_check(d.translate("only" + std::to_string(i)) == "yes", "messages of later directories are found"); sv_reach("values");
}
// any directory names
SV_ENTRY c14_names() {
  warm(); LogFS* fs = new LogFS; std::string a = sv_str_upto(0, (size_t)sv_param("N", 2), "a"), b = sv_str_upto(0, (size_t)sv_param("N", 2), "b"); bool same = sv_eq(a, b); fs->dirs[a] = { "de.po" }; fs->dirs[b] = { "de.po" }; fs->files[a + "/de.po"] = msg("m", "of a") + msg("x", "x"); if (!same) fs->files[b + "/de.po"] = msg("m", "of b") + msg("y", "y"); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); bool front = sv_bool("front"), again = sv_bool("again"), gone = sv_bool("remove"); Language de = Language::from_env("de");
  m.add_directory(a); m.add_directory(b, front); if (again) m.add_directory(a, true); if (gone) m.remove_directory(a); std::string got = m.get_dictionary(de).translate("m");
  if (same) sv_check(got == (gone ? "m" : "of a"), "a directory is present once"); else if (gone) sv_check(got == "of b", "exactly the named directory is removed"); else sv_check(got == (front ? "of b" : "of a"), "precedence decides between any two directories"); sv_reach(same ? "same" : "different");
}
// many directories
SV_ENTRY c14_many() {
  warm(); LogFS* fs = new LogFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); unsigned n = (unsigned)sv_param("M", 12); unsigned drop = sv_range(0, n - 1, "drop"), front = sv_range(0, n - 1, "front"); Path ref; auto name = [](unsigned i) { return "/long/directory/name/number/" + std::to_string(i); };
  for (unsigned i = 0; i < n; ++i) { fs->dirs[name(i)] = { "fr.po", "de.po" }; fs->files[name(i) + "/de.po"] = msg("all", std::to_string(i)) + msg("own" + std::to_string(i), "o") + (i % 2 ? msg("odd", std::to_string(i)) : std::string()); m.add_directory(name(i), i == front); ref.add(i, i == front); } m.remove_directory(name(drop)); ref.remove(drop); m.add_directory(name(drop)); ref.add(drop, false);
  Dictionary& d = m.get_dictionary(Language::from_env("de_AT")); sv_check(d.translate("all") == std::to_string(ref.p[0]), "the first of many directories wins"); unsigned odd = 0; for (unsigned i : ref.p) if (i % 2) { odd = i; break; } sv_check(d.translate("odd") == std::to_string(odd), "the first of many directories wins"); for (unsigned i = 0; i < n; ++i) sv_check(d.translate("own" + std::to_string(i)) == "o", "messages of later directories are found"); sv_reach("many");
}

// ------------------------------------------------------------------ C15
static std::string show(const Dictionary& d) {
  std::string o; static const char* ids[] = { "m", "n", "fz", "only pt", "p" }; for (const char* i : ids) { o += d.translate(i) + "|" + d.translate_ctxt("c", i) + "|" + d.translate_plural(i, "pl", 1) + "|" + d.translate_plural(i, "pl", 2) + "|" + d.translate_ctxt_plural("c", i, "pl", 3) + ";"; }
  o += d.get_charset(); return o;
}
static LogFS* world() {
  LogFS* fs = new LogFS; fs->dirs["one"] = { "de.po", "pt.po" }; fs->dirs["two"] = { "de.po", "pt_BR.po", "sr@latin.po" }; fs->dirs["three"] = { "de_AT.po", "pt.po" };
  fs->files["one/de.po"] = std::string(HEAD) + msg("m", V[0]) + "#, fuzzy\n" + msg("fz", "unscharf"); fs->files["two/de.po"] = std::string(HEAD) + msg("m", V[1]) + msg("n", "nur zwei") + "msgctxt \"c\"\n" + msg("m", "kontext");
  fs->files["three/de_AT.po"] = msg("m", "drei") + msg("fz", "scharf"); fs->files["one/pt.po"] = std::string(HEAD) + msg("m", "um") + msg("only pt", "pt"); fs->files["two/pt_BR.po"] = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + msg("m", V[2]) + "#, fuzzy\n" + msg("n", "fz br"); fs->files["three/pt.po"] = std::string(HEAD) + msg("m", "tres") + msg("n", "pt tres") + "msgid \"p\"\nmsgid_plural \"pl\"\nmsgstr[0] \"p0\"\nmsgstr[1] \"p1\"\n\n"; fs->files["two/sr@latin.po"] = msg("m", "dva");
  return fs;
}
static const char* const LG[] = { "de", "pt_BR", "de_AT", "sr_RS@latin", "" };
struct Conf { Path path; std::string charset = "UTF-8"; bool fuzzy = true; unsigned lang = 4; };
static const char* const WD[] = { "one", "two", "three" };
static void configure(DictionaryManager& m, const Conf& c) { for (unsigned d : c.path.p) m.add_directory(WD[d]); m.set_charset(c.charset); m.set_use_fuzzy(c.fuzzy); m.set_language(c.lang == 4 ? Language() : Language::from_env(LG[c.lang])); }
static std::string fresh(const Conf& c, unsigned lang) { // what a manager that was just configured like this returns
  DictionaryManager m(std::unique_ptr<FileSystem>(world()), c.charset); configure(m, c); return lang == 4 ? show(m.get_dictionary()) : show(m.get_dictionary(Language::from_env(LG[lang]))); }
// K operations of any kind, a lookup possibly in between
static void op_step(DictionaryManager& m, LogFS* fs, Conf& c, unsigned op) {
  if (op < 3) { m.add_directory(WD[op]); c.path.add(op, false); } else if (op < 6) { m.add_directory(WD[op - 3], true); c.path.add(op - 3, true); } else if (op < 9) { m.remove_directory(WD[op - 6]); c.path.remove(op - 6); }
  else if (op < 14) { c.lang = op - 9; m.set_language(c.lang == 4 ? Language() : Language::from_env(LG[c.lang])); } else if (op == 14) { c.charset = "KOI8R"; m.set_charset(c.charset); } else if (op == 15) { c.charset = "UTF-8"; m.set_charset(c.charset); } else if (op == 16) { c.fuzzy = false; m.set_use_fuzzy(false); } else if (op == 17) { c.fuzzy = true; m.set_use_fuzzy(true); }
  else if (op == 18) m.get_dictionary(); else if (op < 22) m.get_dictionary(Language::from_env(LG[op - 19])); else m.get_languages(); (void)fs;
}
SV_ENTRY c15_history() {
  warm(); for (unsigned i = 0; i < 3; ++i) V[i] = sym_value("value"); unsigned k = (unsigned)sv_param("K", 2); Conf c; LogFS* fs = world(); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); bool start = sv_bool("start configured"); if (start) { c.path.p = { 0, 1 }; c.lang = 1; configure(m, c); }
  for (unsigned i = 0; i < k; ++i) { if (sv_bool("lookup")) { m.get_dictionary(); m.get_dictionary(Language::from_env("de")); } op_step(m, fs, c, sv_range(0, 22, "op")); }
  Language want = c.lang == 4 ? Language() : Language::from_env(LG[c.lang]); sv_check(m.get_language() == want, "the current language is the one set last");
  Dictionary* cur = &m.get_dictionary(); sv_check(sv_eq(show(*cur), fresh(c, c.lang)), "the current dictionary translates like that of a fresh manager with the same configuration"); unsigned l = sv_range(0, 3, "asked"); Dictionary* d = &m.get_dictionary(Language::from_env(LG[l])); sv_check(sv_eq(show(*d), fresh(c, l)), "a dictionary translates like that of a fresh manager with the same configuration");
  unsigned before = fs->lists + fs->opens; sv_check(&m.get_dictionary() == cur && &m.get_dictionary(Language::from_env(LG[l])) == d && (c.lang != l || cur == d), "repeated requests return the same dictionary"); m.set_language(Language::from_env("de")); m.set_language(want); sv_check(&m.get_dictionary() == cur, "switching the language and back returns the same dictionary"); sv_check(fs->lists + fs->opens == before, "repeated requests do not read files again");
  if (c.lang == 4) { unsigned n = 0; cur->foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); sv_check(n == 0 && cur->translate("m") == "m", "without a language the dictionary is empty"); sv_reach("no language"); } else sv_reach("language");
}
// longer histories of fewer operations on smaller files
SV_ENTRY c15_deep() {
  warm(); std::string v = sym_value("value"); auto build = [&] { LogFS* fs = new LogFS; fs->dirs["one"] = { "de.po", "pt_BR.po" }; fs->dirs["two"] = { "de.po", "pt.po" }; fs->files["one/de.po"] = msg("m", v) + "#, fuzzy\n" + msg("fz", "f"); fs->files["one/pt_BR.po"] = msg("m", "br"); fs->files["two/de.po"] = msg("m", "zwei") + msg("n", "n2"); fs->files["two/pt.po"] = msg("n", "pt"); return fs; };
  auto look = [](Dictionary& d) { std::string o = d.get_charset(); for (const char* i : { "m", "n", "fz" }) o += "|" + d.translate(i); return o; }; static const char* const lg[] = { "de", "pt_BR", "" }; LogFS* fs = build(); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Path path; unsigned lang = 2, k = (unsigned)sv_param("K", 4); bool fuzzy = true, latin = false; path.p = { 0, 1 }; m.add_directory("one"); m.add_directory("two"); if (sv_bool("loaded")) { lang = 0; m.set_language(Language::from_env("de")); m.get_dictionary(); }
  for (unsigned i = 0; i < k; ++i) { unsigned op = sv_range(0, 9, "op"); switch (op) { case 0: case 1: m.add_directory(WD[op], op == 1); path.add(op, op == 1); break; case 2: m.remove_directory("one"); path.remove(0); break; case 3: case 4: case 5: lang = op - 3; m.set_language(Language::from_env(lg[lang])); break; case 6: fuzzy = !fuzzy; m.set_use_fuzzy(fuzzy); break; case 7: latin = !latin; m.set_charset(latin ? "KOI8R" : "UTF-8"); break; case 8: m.get_dictionary(); break; default: m.get_dictionary(Language::from_env("de")); } }
  DictionaryManager f(std::unique_ptr<FileSystem>(build()), latin ? "KOI8R" : "UTF-8"); for (unsigned d : path.p) f.add_directory(WD[d]); f.set_use_fuzzy(fuzzy); f.set_language(Language::from_env(lg[lang])); unsigned l = sv_range(0, 1, "asked"); bool first = sv_bool("current first"); std::string a, b;
  if (first) a = look(m.get_dictionary()); b = look(m.get_dictionary(Language::from_env(lg[l]))); if (!first) a = look(m.get_dictionary()); sv_check(sv_eq(a, look(f.get_dictionary())), "the current dictionary translates like that of a fresh manager with the same configuration"); sv_check(sv_eq(b, look(f.get_dictionary(Language::from_env(lg[l])))), "a dictionary translates like that of a fresh manager with the same configuration");
  unsigned n = fs->lists + fs->opens; Dictionary *p = &m.get_dictionary(), *q = &m.get_dictionary(Language::from_env(lg[l])); sv_check(&m.get_dictionary() == p && &m.get_dictionary(Language::from_env(lg[l])) == q && (lang != l || p == q), "repeated requests return the same dictionary"); sv_check(fs->lists + fs->opens == n, "repeated requests do not read files again"); sv_reach(lang == 2 ? "no language" : "language");
}
// a configuration change after many others of one kind
SV_ENTRY c15_repeat() {
  warm(); std::string v = sym_value("value"); auto build = [&] { LogFS* fs = new LogFS; fs->dirs["one"] = { "de.po", "pt_BR.po" }; fs->dirs["two"] = { "de.po", "pt.po" }; fs->dirs["three"] = { "de.po" }; fs->files["one/de.po"] = msg("m", v) + "#, fuzzy\n" + msg("fz", "f"); fs->files["one/pt_BR.po"] = msg("m", "br"); fs->files["two/de.po"] = msg("m", "zwei") + msg("n", "n2"); fs->files["two/pt.po"] = msg("n", "pt"); fs->files["three/de.po"] = msg("x", "drei"); return fs; };
  auto look = [](Dictionary& d) { std::string o = d.get_charset(); for (const char* i : { "m", "n", "fz", "x" }) o += "|" + d.translate(i); return o; }; static const char* const lg[] = { "de", "pt_BR" }; LogFS* fs = build(); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Path path; unsigned lang = sv_range(0, 1, "language"), many = sv_range(0, 5, "many"), last = sv_range(0, 5, "last"); size_t n = telling(sv_param("N", 300), "count"); bool fuzzy = true, latin = false, between = n < 40 && sv_bool("lookups between"), three = false;
  path.p = { 0 }; m.add_directory("one"); m.set_language(Language::from_env(lg[lang])); m.get_dictionary(); m.get_dictionary(Language::from_env(lg[!lang]));
  auto step = [&](unsigned op) { switch (op) { case 0: fuzzy = !fuzzy; m.set_use_fuzzy(fuzzy); break; case 1: latin = !latin; m.set_charset(latin ? "KOI8R" : "UTF-8"); break; case 2: three = !three; if (three) { m.add_directory("three"); path.add(2, false); } else { m.remove_directory("three"); path.remove(2); } break; case 3: if (path.at(1) < 0) { m.add_directory("two", true); path.add(1, true); } else { m.remove_directory("two"); path.remove(1); } break; case 4: lang = !lang; m.set_language(Language::from_env(lg[lang])); break; default: m.get_languages(); } };
  for (size_t i = 1; i < n; ++i) { step(many); if (between) m.get_dictionary(); } step(last); DictionaryManager f(std::unique_ptr<FileSystem>(build()), latin ? "KOI8R" : "UTF-8"); for (unsigned d : path.p) f.add_directory(WD[d]); f.set_use_fuzzy(fuzzy); f.set_language(Language::from_env(lg[lang]));
  sv_check(sv_eq(look(m.get_dictionary()), look(f.get_dictionary())), "the current dictionary translates like that of a fresh manager with the same configuration, however often the configuration changed"); for (unsigned l = 0; l < 2; ++l) sv_check(sv_eq(look(m.get_dictionary(Language::from_env(lg[l]))), look(f.get_dictionary(Language::from_env(lg[l])))), "a dictionary translates like that of a fresh manager with the same configuration"); unsigned reads = fs->lists + fs->opens; for (unsigned i = 0; i < n; ++i) m.get_dictionary(); sv_check(fs->lists + fs->opens == reads, "repeated requests do not read files again"); sv_reach("repeated");
}
// no dictionary of another language leaks into the current one, for any known languages
static const struct { const char *l, *c, *m; } known[] = {
#include "languages.inc"
};
SV_ENTRY c15_languages() {
  warm(); unsigned i = sv_range(0, COUNT(known) - 1, "i"), j = (i + 1 + sv_range(0, (uint32_t)sv_param("J", 3), "j") * 7) % COUNT(known); Language a = Language::from_spec(known[i].l, known[i].c, known[i].m), b = Language::from_spec(known[j].l, known[j].c, known[j].m); LogFS* fs = new LogFS; fs->dirs["d"] = { a.str() + ".po", b.str() + ".po" }; fs->files["d/" + a.str() + ".po"] = msg("m", "A"); fs->files["d/" + b.str() + ".po"] = msg("m", "B");
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("d"); m.set_language(a); Dictionary* da = &m.get_dictionary(); sv_check(da->translate("m") == "A", "the current dictionary belongs to the language set last"); m.set_language(b); Dictionary* db = &m.get_dictionary(); sv_check(db->translate("m") == "B" && db != da, "the current dictionary belongs to the language set last"); unsigned n = fs->opens; m.set_language(a); sv_check(&m.get_dictionary() == da && fs->opens == n, "both dictionaries are kept"); sv_check(m.get_dictionary(b).translate("m") == "B", "asking for another language does not change the current one"); sv_check(&m.get_dictionary() == da, "asking for another language does not change the current one"); m.set_language(Language()); sv_check(m.get_dictionary().translate("m") == "m", "without a language the dictionary is empty"); sv_reach("languages");
}

// ------------------------------------------------------------------ C16
static const unsigned RULES[] = { 2, 3, 9, NHEADERS }; // n!=1, n>1, three forms, none
static std::string hdr(unsigned r) { return std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n") + (r < NHEADERS ? "\"" + std::string(plural_headers[r]) + "\\n\"\n" : std::string()) + "\n"; }
static unsigned forms_of(unsigned r) { return r == 9 ? 3 : 2; }
// what one file has: 0 nothing, 1 translation, 2 empty entry, 3 only under another context, 4 only of the other kind (context or not), 5 translation with the last form missing
static std::string entry(unsigned state, bool ctx, bool plural, unsigned r, const std::string& tag) {
  if (state == 0) return ""; std::string t; bool c = state == 4 ? !ctx : ctx; if (state == 3) t = "msgctxt \"other\"\n"; else if (c) t = "msgctxt \"c\"\n"; t += "msgid \"id\"\n"; if (!plural) return t + "msgstr \"" + (state == 2 ? "" : tag) + "\"\n\n";
  t += "msgid_plural \"ids\"\n"; unsigned n = forms_of(r); for (unsigned i = 0; i < n; ++i) t += "msgstr[" + std::to_string(i) + "] \"" + (state == 2 ? "" : state == 5 && i + 1 == n ? "" : tag + std::to_string(i)) + "\"\n"; return t + "\n";
}
static uint32_t rule_index(unsigned r, uint32_t n) { if (r >= NHEADERS) return 0; uint32_t np, v; plural_reference(plural_headers[r], n, np, v); return v; }
static bool supplies(unsigned state, unsigned r, bool plural, uint32_t n, const std::string& tag, std::string& out) { if (state != 1 && state != 5) return false; if (!plural) { out = tag; return true; } uint32_t k = (uint32_t)sv_concretize(rule_index(r, n)); if (k >= forms_of(r) || (state == 5 && k + 1 == forms_of(r))) return false; out = tag + std::to_string(k); return true; }
SV_ENTRY c16_matrix() {
  warm(); static const char* const pairs[][3] = { { "pt_BR", "pt_BR.po", "pt.po" }, { "de_AT", "de_at.po", "de.po" }, { "en_US@piglatin", "en_US@piglatin.po", "en.po" } }; unsigned pr = sv_range(0, 2, "pair"); bool ctx = sv_bool("ctx"), plural = sv_bool("plural"); unsigned rs = sv_range(0, 5, "regional"), bs = sv_range(0, 5, "bare"), rr = RULES[sv_range(0, 3, "regional rule")], br = RULES[sv_range(0, 3, "bare rule")]; if (!plural && (rs == 5 || bs == 5)) return; bool otherdir = sv_bool("other directory");
  LogFS* fs = new LogFS; std::string d2 = otherdir ? "two" : "one"; if (otherdir) { fs->dirs["one"] = { pairs[pr][1] }; fs->dirs["two"] = { pairs[pr][2] }; } else fs->dirs["one"] = { pairs[pr][1], pairs[pr][2] };
  std::string extra = "msgid \"ids\"\nmsgstr \"decoy\"\n\n"; fs->files[std::string("one/") + pairs[pr][1]] = hdr(rr) + entry(rs, ctx, plural, rr, "reg") + extra; fs->files[d2 + "/" + pairs[pr][2]] = hdr(br) + entry(bs, ctx, plural, br, "bare") + extra;
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("one"); if (otherdir) m.add_directory("two"); if (sv_bool("bare requested first")) m.get_dictionary(Language::from_env(std::string(pairs[pr][0]).substr(0, 2)));
  Dictionary& d = m.get_dictionary(Language::from_env(pairs[pr][0])); uint32_t n = sv_u32("n") & 0x7fffffffu; std::string got = plural ? (ctx ? d.translate_ctxt_plural("c", "id", "ids", (int)n) : d.translate_plural("id", "ids", (int)n)) : ctx ? d.translate_ctxt("c", "id") : d.translate("id"), want;
  if (otherdir) { // the bare file is the best of its directory for the regional request too: regional entries on top, one rule
    bool exists = rs == 1 || rs == 5; unsigned rule = br < NHEADERS ? br : rr; bool bexists = bs == 1 || bs == 5; unsigned state = exists ? rs : bexists ? bs : 0; unsigned forms = exists ? rr : br; std::string tag = exists ? "reg" : "bare"; bool have = false;
    if (state) { if (!plural) { want = tag; have = true; } else { uint32_t k = (uint32_t)sv_concretize(rule_index(rule, n)); if (k < forms_of(forms) && !(state == 5 && k + 1 == forms_of(forms))) { want = tag + std::to_string(k); have = true; } } }
    if (have) { sv_check(got == want, "a regional translation takes precedence"); sv_reach("regional"); return; }
    // the bare language's dictionary is made of the same two files
  } else { if (supplies(rs, rr, plural, n, "reg", want)) { sv_check(got == want, "a regional translation takes precedence"); sv_reach("regional"); return; }
    if (supplies(bs, br, plural, n, "bare", want)) { sv_check(got == want, "what the regional dictionary lacks, the bare language's supplies by the same kind of lookup and its own rule"); sv_reach("fallback"); return; } }
  bool one = n == 1; sv_check(got == (plural && !one ? "ids" : "id"), "nothing is taken from another context or kind"); sv_reach("untranslated");
}
// arbitrary translations, those equal to the msgid or the plural included
SV_ENTRY c16_values() {
  warm(); bool ctx = sv_bool("ctx"), plural = sv_bool("plural"), otherdir = sv_bool("other directory"); auto val = [&](const char* tag) { static const char* const vals[] = { "", "id", "ids", "c" }; unsigned k = sv_range(0, 4, tag); return k < 4 ? std::string(vals[k]) : sym_value("value"); };
  std::string r[2], b[2]; unsigned nf = plural ? 2 : 1; for (unsigned i = 0; i < nf; ++i) { r[i] = val("regional"); b[i] = val("bare"); }
  auto file = [&](const std::string* v) { std::string t = HEAD; if (ctx) t += "msgctxt \"c\"\n"; t += "msgid \"id\"\n"; if (plural) t += "msgid_plural \"ids\"\nmsgstr[0] \"" + v[0] + "\"\nmsgstr[1] \"" + v[1] + "\"\n"; else t += "msgstr \"" + v[0] + "\"\n"; return t; };
  LogFS* fs = new LogFS; fs->dirs["one"] = { "pt_BR.po" }; std::string d2 = otherdir ? "two" : "one"; fs->dirs[d2].push_back("pt.po"); fs->files["one/pt_BR.po"] = file(r); fs->files[d2 + "/pt.po"] = file(b); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("one"); if (otherdir) m.add_directory("two"); Dictionary& d = m.get_dictionary(Language::from_env("pt_BR"));
  bool rempty = r[0].empty() && r[nf - 1].empty(); for (unsigned k = 0; k < nf; ++k) { int n = k == 0 ? 1 : 7; std::string got = plural ? (ctx ? d.translate_ctxt_plural("c", "id", "ids", n) : d.translate_plural("id", "ids", n)) : ctx ? d.translate_ctxt("c", "id") : d.translate("id");
    if (otherdir && plural && !rempty && r[k].empty()) continue; // two directories are merged by message: c14
    std::string want = !r[k].empty() ? r[k] : !b[k].empty() ? b[k] : k ? "ids" : "id"; sv_check(sv_eq(got, want), "a regional translation takes precedence whatever its text, otherwise the bare language's is used"); } sv_reach("values");
}
// every known language, with any of its files present: terminates, and the bare language's messages are found
SV_ENTRY c16_known() {
  warm(); unsigned i = sv_range(0, COUNT(known) - 1, "i"), set = sv_range(0, 3, "files"); Language l = Language::from_spec(known[i].l, known[i].c, known[i].m); std::string bare = known[i].l; LogFS* fs = new LogFS; if (set & 1) { fs->dirs["d"].push_back(l.str() + ".po"); fs->files["d/" + l.str() + ".po"] = msg("m", "own"); } if (set & 2) { if (l.str() != bare || !(set & 1)) fs->dirs["d"].push_back(bare + ".po"); fs->files["d/" + bare + ".po"] = (l.str() == bare ? msg("m", "own") : msg("m", "bare")) + "msgctxt \"c\"\n" + msg("q", "bare q"); }
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("d"); Dictionary& d = m.get_dictionary(l); std::string got = d.translate("m"), q = d.translate_ctxt("c", "q"), pl = d.translate_plural("no", "nos", 2), x = d.translate("q"), y = d.translate_ctxt_plural("c", "no", "nos", 1);
  Language b = Language::from_spec(known[i].l); bool hasbare = (set & 2) && b && b.str() == bare; bool own = (set & 1) || (l.str() == bare && (set & 2)); sv_check(pl == "nos" && x == "q" && y == "no", "requesting any known language and looking up what nobody has terminates"); if (own) sv_check(got == "own", "a language's own file is used"); if (hasbare && *known[i].c) { sv_check(got == (own ? "own" : "bare"), "the bare language's dictionary is the fallback of every language with a country"); sv_check(q == "bare q", "with the same context"); sv_reach("fallback"); } else sv_reach("no fallback");
}
// the fallback is the bare language, not another region
SV_ENTRY c16_siblings() {
  warm(); static const char* const rq[] = { "de_AT", "pt_BR", "en_US@piglatin", "de", "sr@latin", "ca_ES@valencia" }; static const char* const pool[] = { "de.po", "de_DE.po", "de_AT.po", "de_CH.po", "pt.po", "pt_PT.po", "pt_BR.po", "sr.po", "sr_RS.po", "sr@latin.po", "sr_YU.po", "en.po", "en_US.po", "en_GB.po", "ca.po", "ca@valencia.po", "ca_ES@valencia.po" }; LogFS* fs = new LogFS; unsigned a = sv_range(0, COUNT(pool) - 1, "a"), b = sv_range(0, COUNT(pool) - 1, "b"), c = sv_range(0, COUNT(pool) - 1, "c"); if (!(a < b && b < c)) return;
  std::vector<std::string> f{ pool[a], pool[b], pool[c] }; fs->dirs["d"] = f; for (auto& n : f) fs->files["d/" + n] = msg("m", n) + msg("only " + n, "x"); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("d"); Language l = Language::from_env(rq[sv_range(0, 5, "request")]); Dictionary& d = m.get_dictionary(l);
  auto best = [&](const Language& q) { int s = 0; std::string r; for (auto& n : f) { int x = Language::match(q, Language::from_env(n.substr(0, n.size() - 3))); if (x > s) { s = x; r = n; } } return r; }; std::string own = best(l), bare = l.get_country().empty() ? "" : best(Language::from_spec(l.get_language()));
  std::string want = !own.empty() ? own : !bare.empty() ? bare : "m"; auto sc = [&](const std::string& n) { return Language::match(l, Language::from_env(n.substr(0, n.size() - 3))); }; std::string got = d.translate("m"); sv_check(got == want || (got != "m" && !own.empty() && sc(got) == sc(own)), "the regional dictionary's translation takes precedence"); for (auto& n : f) { bool reach = n == bare || (own.empty() ? false : sc(n) == sc(own)); if (!reach) sv_check(d.translate("only " + n) == "only " + n, "only the language's own file and the bare language's file are used"); if (n == bare) { sv_check(d.translate("only " + n) == "x" || (Language::match(Language::from_spec(l.get_language()), Language::from_env(n.substr(0, n.size() - 3))) < 9), "the bare language's messages are found"); } } sv_reach("siblings");
}

// ------------------------------------------------------------------ C20
struct Bad : std::istream { struct Buf : std::streambuf {} b; Bad(std::ios::iostate s) : std::istream(nullptr) { rdbuf(&b); setstate(s); } };
struct FaultFS : LogFS { unsigned fault[3] = {}; bool off = false; // per directory: 0 none 1 listing throws 2 null stream 3 failed stream 4 bad stream 5 opening throws 6 listed file is missing 7 charset cannot be converted 8 listing throws another exception type
  static int dir(const std::string& p) { return p.compare(0, 3, "one") == 0 ? 0 : p.compare(0, 3, "two") == 0 ? 1 : 2; }
  std::vector<std::string> open_directory(const std::string& p) override { if (!off) { unsigned f = fault[dir(p)]; if (f == 1) throw std::runtime_error("listing"); if (f == 8) throw std::bad_alloc(); } return LogFS::open_directory(p); }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { unsigned k = off ? 0 : fault[dir(f)]; if (k == 2) return std::unique_ptr<std::istream>(); if (k == 3) return std::unique_ptr<std::istream>(new std::istringstream(std::ios::in)); if (k == 4) { auto p = LogFS::open_file(f); if (p) p->setstate(std::ios::badbit); return p; } if (k == 9) { auto p = LogFS::open_file(f); if (p) p->setstate(std::ios::failbit); return p; } if (k == 5) throw std::runtime_error("opening"); if (k == 6) return LogFS::open_file(f + ".missing"); if (k == 7) return std::unique_ptr<std::istream>(new std::istringstream("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NONE\\n\"\n\n" + msg("bad", "bad"))); return LogFS::open_file(f); } };
static std::string W[3];
static void fault_files(FaultFS* fs) { for (auto& w : W) w = sym_value("value"); for (unsigned i = 0; i < 3; ++i) { fs->dirs[WD[i]] = { "de.po", "pt.po", "pt_BR.po" }; for (const char* n : { "de.po", "pt.po", "pt_BR.po" }) fs->files[std::string(WD[i]) + "/" + n] = msg("m", W[i] + n) + msg(WD[i], n) + (n[0] == 'p' && n[2] == '.' ? msg(std::string("bare") + WD[i], "b") : std::string()); } }
static void fault_check(DictionaryManager& m, FaultFS* fs, bool pt, bool healthy) {
  Dictionary& d = m.get_dictionary(Language::from_env(pt ? "pt_BR" : "de")); std::string file = pt ? "pt_BR.po" : "de.po", first; for (unsigned i = 0; i < 3; ++i) { bool ok = healthy || fs->fault[i] == 0; std::string id = WD[i]; sv_check(d.translate(id) == (ok ? file : id), ok ? "every translation from the other directories is there" : "only the failing directory's translations are missing"); if (pt) sv_check(d.translate("bare" + id) == (ok ? "b" : "bare" + id), "the bare language's dictionary loses only the failing directory's translations"); if (ok && first.empty()) first = W[i] + file; }
  sv_check(sv_eq(d.translate("m"), first.empty() ? std::string("m") : first), "precedence holds among the directories that are left"); sv_check(d.translate("bad") == "bad", "nothing of a file that failed is used unconverted");
}
SV_ENTRY c20_faults() {
  warm(); uint64_t base = sv_live_heap(); { FaultFS* fs = new FaultFS; fault_files(fs); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (unsigned i = 0; i < 3; ++i) { fs->fault[i] = sv_range(0, 9, "fault"); m.add_directory(WD[i]); } IM.fail_open = true; bool pt = sv_bool("pt"); if (fs->fault[0] && fs->fault[1] && fs->fault[2] && fs->fault[0] != fs->fault[1] && fs->fault[1] != fs->fault[2]) return;
    fault_check(m, fs, pt, false); unsigned n = fs->opens; fault_check(m, fs, pt, false); (void)n; unsigned how = sv_range(0, 5, "configuration change"); fs->off = true;
    if (how == 0) m.set_charset("ISO-8859-1"); else if (how == 1) m.set_use_fuzzy(false); else if (how == 2) m.add_directory("four"); else if (how == 3) m.add_directory("four", true); else if (how == 4) { m.remove_directory("three"); m.add_directory("three"); } else { m.set_language(Language::from_env("de")); m.set_use_fuzzy(false); } fault_check(m, fs, pt, true); fault_check(m, fs, !pt, true); sv_reach("recovered"); }
  sv_check(sv_live_heap() == base || !sv_is_symbolic(), "nothing is leaked"); }
// faults appear, move and vanish between requests
SV_ENTRY c20_history() {
  warm(); FaultFS* fs = new FaultFS; fault_files(fs); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (const char* d : WD) m.add_directory(d); IM.fail_open = true; unsigned k = (unsigned)sv_param("K", 2);
  for (unsigned i = 0; i < k; ++i) { for (unsigned j = 0; j < 3; ++j) fs->fault[j] = 0; unsigned at = sv_range(0, 2, "directory"); fs->fault[at] = sv_range(0, 9, "fault"); m.set_use_fuzzy(i % 2); unsigned op = sv_range(0, 3, "op"); if (op == 0) m.get_languages(); else if (op == 1) m.set_language(Language::from_env("pt_BR")), m.get_dictionary(); if (op < 3) fault_check(m, fs, op == 2, false); else fault_check(m, fs, true, false), fault_check(m, fs, false, false); } sv_reach("history");
}
// the list of available languages loses only the failing directory
SV_ENTRY c20_languages() {
  warm(); FaultFS* fs = new FaultFS; fs->dirs["one"] = { "de.po" }; fs->dirs["two"] = { "fr.po", "x" }; fs->dirs["three"] = { "pt_br.po" }; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (const char* d : WD) m.add_directory(d); for (unsigned j = 0; j < 3; ++j) fs->fault[j] = sv_range(0, 2, "fault") * 4; for (unsigned j = 0; j < 3; ++j) if (fs->fault[j] == 4) fs->fault[j] = 1;
  std::set<Language> g = m.get_languages(); sv_check(g.count(Language::from_env("de")) == (fs->fault[0] ? 0u : 1u) && g.count(Language::from_env("fr")) == (fs->fault[1] ? 0u : 1u) && g.count(Language::from_env("pt_BR")) == (fs->fault[2] ? 0u : 1u), "a directory that cannot be listed loses only its own languages"); fs->off = true; sv_check(m.get_languages().size() == 3, "the list is complete again afterwards"); sv_reach("listed");
}
// parsing stops anywhere: what was read before a failing point stays, the rest of the directories is complete; arbitrary bytes in the file
SV_ENTRY c20_bytes() {
  warm(); FaultFS* fs = new FaultFS; fault_files(fs); std::string c = sv_str((size_t)sv_param("N", 3), "charset"); for (char x : c) sv_assume(sv_and(sv_and(x != '"', x != '\\'), sv_and(x != '\n', x != 0))); unsigned at = sv_range(0, 2, "directory"); fs->files[std::string(WD[at]) + "/de.po"] = "msgid \"early\"\nmsgstr \"e\"\n\nmsgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + c + "\\n\"\n\n" + msg("late", "l"); IM.fail_open = true;
  DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (const char* d : WD) m.add_directory(d); Dictionary& d = m.get_dictionary(Language::from_env("de")); for (unsigned i = 0; i < 3; ++i) if (i != at) sv_check(d.translate(WD[i]) == "de.po", "every translation from the other directories is there"); sv_check(d.translate("late") == "late", "nothing is used unconverted"); sv_reach("bytes"); (void)0;
}

// ------------------------------------------------------------------ C27
static int live_streams; struct Counted : std::istringstream { Counted(const std::string& s) : std::istringstream(s) { ++live_streams; } ~Counted() override { --live_streams; } };
static int live_fs; struct CountFS : LogFS { unsigned faulty = 3, fault = 0; CountFS() { ++live_fs; } ~CountFS() override { --live_fs; } int dir(const std::string& p) { return p.compare(0, 3, "one") == 0 ? 0 : p.compare(0, 3, "two") == 0 ? 1 : 2; }
  std::vector<std::string> open_directory(const std::string& p) override { if (fault == 1 && (unsigned)dir(p) == faulty) throw std::runtime_error("listing"); return LogFS::open_directory(p); }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { ++opens; auto i = files.find(f); if (i == files.end()) return nullptr; std::string t = i->second; if (fault && (unsigned)dir(f) == faulty) { if (fault == 2) return nullptr; if (fault == 3) throw std::runtime_error("opening"); if (fault == 4) t = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NONE\\n\"\n\n" + t; if (fault == 5) t = "msgid \"x\"\nmsgstr \"y\n\n" + t; } return std::unique_ptr<std::istream>(new Counted(t)); } };
static CountFS* count_world(unsigned w) { CountFS* fs = new CountFS; std::string s = std::to_string(w); fs->dirs["one"] = { "de.po", "pt.po" }; fs->dirs["two"] = { "de.po", "pt_BR.po", "sr@latin.po" }; fs->dirs["three"] = { "de_AT.po", "pt.po" }; fs->files["one/de.po"] = std::string(HEAD) + msg("m", V[w] + "1") + "#, fuzzy\n" + msg("fz", "u" + s); fs->files["two/de.po"] = std::string(HEAD) + msg("m", V[w] + "2") + msg("n", "nur" + s) + "msgctxt \"c\"\n" + msg("m", "k" + s); fs->files["three/de_AT.po"] = msg("m", "drei" + s) + msg("fz", "scharf" + s); fs->files["one/pt.po"] = std::string(HEAD) + msg("m", "um" + s) + msg("only pt", "pt" + s); fs->files["two/pt_BR.po"] = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + msg("m", "BR" + s) + "#, fuzzy\n" + msg("n", "fz br" + s); fs->files["three/pt.po"] = std::string(HEAD) + msg("m", "tres" + s) + "msgid \"p\"\nmsgid_plural \"pl\"\nmsgstr[0] \"p0" + s + "\"\nmsgstr[1] \"p1\"\n\n"; fs->files["two/sr@latin.po"] = msg("m", "dva" + s); return fs; }
// two managers with different files, operated in any order: each behaves as if it were alone
SV_ENTRY c27_two() {
  warm(); for (unsigned i = 0; i < 2; ++i) V[i] = sym_value("value"); unsigned k = (unsigned)sv_param("K", 2); Conf ca, cb; std::string a, b, sa, sb; struct Op { unsigned who, op; }; std::vector<Op> ops;
  { DictionaryManager x(std::unique_ptr<FileSystem>(count_world(0)), "UTF-8"), y(std::unique_ptr<FileSystem>(count_world(1)), "UTF-8"); ca.path.p = { 0, 1 }; ca.lang = 0; configure(x, ca); cb.path.p = { 1, 2 }; cb.lang = 1; configure(y, cb); if (sv_bool("looked up before")) { show(x.get_dictionary()); show(y.get_dictionary()); }
    for (unsigned i = 0; i < k; ++i) { Op o{ sv_range(0, 1, "manager"), sv_range(0, 22, "op") }; ops.push_back(o); op_step(o.who ? y : x, nullptr, o.who ? cb : ca, o.op); } bool first = sv_bool("order"); if (first) a = show(x.get_dictionary()); b = show(y.get_dictionary()); if (!first) a = show(x.get_dictionary()); sv_check(x.get_language() == (ca.lang == 4 ? Language() : Language::from_env(LG[ca.lang])) && y.get_use_fuzzy() == cb.fuzzy && x.get_use_fuzzy() == ca.fuzzy, "settings belong to one manager"); }
  for (unsigned w = 0; w < 2; ++w) { DictionaryManager z(std::unique_ptr<FileSystem>(count_world(w)), "UTF-8"); Conf c; if (w) { c.path.p = { 1, 2 }; c.lang = 1; } else { c.path.p = { 0, 1 }; c.lang = 0; } configure(z, c); for (auto& o : ops) if (o.who == w) op_step(z, nullptr, c, o.op); (w ? sb : sa) = show(z.get_dictionary()); }
  sv_check(sv_eq(a, sa) && sv_eq(b, sb), "a manager returns what it would return without the other"); sv_check(live_fs == 0 && live_streams == 0, "file systems and files are released"); sv_reach("independent");
}
// any history with faults, then destruction: memory, files, file system and converters are all released
SV_ENTRY c27_release() {
  warm(); V[0] = "v"; V[1] = "w"; unsigned k = (unsigned)sv_param("K", 2); IM.fail_open = false; Conf c; auto flush = [&]() { std::vector<std::string>().swap(IM.inputs); std::string().swap(IM.from); std::string().swap(IM.to); c = Conf(); c.path.p.shrink_to_fit(); std::string().swap(c.charset); };
  flush(); uint64_t before = 0;
  for (int round = 0; round < 2; ++round) { // the first round only builds what is built once
    c.charset = "UTF-8"; { CountFS* fs = count_world(0); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); c.path.p = { 0, 1 }; c.lang = 1; c.fuzzy = true; configure(m, c); if (round) { fs->faulty = sv_range(0, 2, "faulty directory"); fs->fault = sv_range(0, 5, "fault"); IM.fail_open = fs->fault == 4; }
      if (!round) { m.get_dictionary(); m.get_languages(); } else for (unsigned i = 0; i < k; ++i) { op_step(m, nullptr, c, sv_range(0, 22, "op")); sv_check(live_streams == 0, "no file stays open after a request"); } if (round && sv_bool("last request")) m.get_dictionary(); sv_check(live_streams == 0, "no file stays open after a request"); sv_check(IM.live == 0, "no converter stays open after a request"); }
    IM.fail_open = false; flush(); sv_check(live_fs == 0, "the file system is released with its manager, once"); if (!round) before = sv_live_heap(); }
  sv_check(IM.bad_use == 0, "no converter is used after closing"); sv_check(sv_live_heap() <= before, "destroying a manager releases everything it holds"); sv_reach("released");
}
// what two managers return does not depend on which of them asked first, on their settings, or on what a caller adds to a dictionary of the other
SV_ENTRY c27_settings() {
  warm(); IM.keyed = true; static const char* const cs[] = { "UTF-8", "KOI8-R" }; bool fz[2], base[2]; unsigned ch[2], path[2]; for (unsigned i = 0; i < 2; ++i) { V[i] = sym_value("value"); fz[i] = sv_bool("fuzzy"); ch[i] = sv_range(0, 1, "charset"); path[i] = sv_range(0, 2, "directory"); base[i] = sv_bool("second directory"); }
  auto tree = [&](unsigned w) { CountFS* fs = new CountFS; for (unsigned d = 0; d < 3; ++d) { fs->dirs[WD[d]] = { "de.po" }; fs->files[std::string(WD[d]) + "/de.po"] = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n" + std::string(d == 1 ? "\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n" : "") + "\n" + msg("m", V[w]) + "#, fuzzy\n" + msg("fz", V[w]) + msg("d" + std::to_string(d), "x") + (w ? msg("only y", "y") : msg("only x", "x")); } fs->dirs["base"] = { "de.po" }; fs->files["base/de.po"] = std::string(HEAD) + msg("m", "base") + msg("b", "base"); return fs; };
  { DictionaryManager x(std::unique_ptr<FileSystem>(tree(0)), cs[ch[0]]), y(std::unique_ptr<FileSystem>(tree(1)), cs[ch[1]]); DictionaryManager* m[2] = { &x, &y }; Language de = Language::from_env("de"); unsigned first = sv_range(0, 1, "first"), touch = sv_range(0, 2, "added to"); for (unsigned i = 0; i < 2; ++i) { m[i]->set_use_fuzzy(fz[i]); m[i]->add_directory(WD[path[i]]); if (base[i]) m[i]->add_directory("base"); }
    Dictionary *nx = &x.get_dictionary(), *ny = &y.get_dictionary(); if (touch == 1) nx->add_translation("added", "A"); if (touch == 2) ny->add_translation("added", "A"); Dictionary* d[2]; d[first] = &m[first]->get_dictionary(de); d[1 - first] = &m[1 - first]->get_dictionary(de); d[0]->add_translation("added too", "B");
    for (unsigned i = 0; i < 2; ++i) { auto conv = [&](const std::string& s) { return ch[i] ? im_keyed(s, "UTF-8", cs[1]) : s; }; std::string w = conv(V[i]), a = d[i]->translate("m"), f = d[i]->translate("fz"); sv_check(sv_eq(a, w), "a manager's translations come from its own files, in its own character set"); sv_check(sv_eq(f, fz[i] ? w : std::string("fz")), "a manager uses fuzzy translations as it is told to"); sv_check(d[i]->translate(i ? "only x" : "only y") == (i ? "only x" : "only y"), "nothing comes from the other manager's files"); for (unsigned k = 0; k < 3; ++k) { std::string id = "d" + std::to_string(k), g = d[i]->translate(id); sv_check(g == (k == path[i] ? conv("x") : id), "nothing comes from the other manager's directories"); } sv_check((d[i]->translate("b") != "b") == base[i], "nothing comes from the other manager's directories"); sv_check((bool)d[i]->get_plural_forms() == (base[i] || path[i] == 1), "rules come from its own files"); }
    sv_check(nx->translate("added") == (touch == 1 ? "A" : "added") && ny->translate("added") == (touch == 2 ? "A" : "added") && d[1]->translate("added too") == "added too" && ny->translate("added too") == "added too", "what a caller adds to one dictionary is in no other one"); }
  sv_check(live_fs == 0 && live_streams == 0, "file systems and files are released"); sv_reach("independent");
}
// requests for any languages, then anything that drops loaded dictionaries, then destruction
SV_ENTRY c27_cleared() {
  warm(); V[0] = "v"; V[1] = "w"; Conf c; auto flush = [&]() { std::vector<std::string>().swap(IM.inputs); std::string().swap(IM.from); std::string().swap(IM.to); c = Conf(); c.path.p.shrink_to_fit(); std::string().swap(c.charset); }; flush(); uint64_t before = 0;
  for (int round = 0; round < 2; ++round) { c.charset = "UTF-8"; { DictionaryManager m(std::unique_ptr<FileSystem>(count_world(0)), "UTF-8"); c.path.p = { 0, 1 }; c.lang = round ? sv_range(0, 4, "language") : 3; c.fuzzy = true; configure(m, c); if (!round || sv_bool("current")) m.get_dictionary(); unsigned o = round ? sv_range(0, 4, "other") : 4; if (o < 4) m.get_dictionary(Language::from_env(LG[o])); if (round && sv_bool("current again")) m.get_dictionary(); if (round) op_step(m, nullptr, c, sv_range(0, 22, "op")); if (round && sv_bool("after")) m.get_dictionary(); if (round) op_step(m, nullptr, c, sv_range(0, 22, "op")); } flush(); if (!round) before = sv_live_heap(); }
  sv_check(live_fs == 0 && live_streams == 0, "file systems and files are released"); sv_check(sv_live_heap() <= before, "dropped dictionaries are released"); sv_reach("released");
}
// every known language loaded at once: each keeps its own dictionary, at its place, until the configuration changes
SV_ENTRY c15_many() {
  warm(); LogFS* fs = new LogFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); static const char* const ls[] = { "de", "de_AT", "de_CH", "de_DE", "fr", "fr_CA", "pt", "pt_BR", "sr", "sr@latin", "sr_YU", "en", "en_US", "en_GB", "en_AU", "es", "es_MX", "zh_CN", "zh_TW", "it", "ja", "ko", "nl", "nl_BE", "pl", "ru", "sv", "tr", "uk", "vi", "cs", "da", "el", "fi", "he", "hi", "hr", "hu", "id", "is", "ro", "sk", "sl", "th", "bg", "ca", "et", "eu", "fa", "gl" };
  fs->dirs["d"]; for (const char* l : ls) { fs->dirs["d"].push_back(std::string(l) + ".po"); fs->files["d/" + std::string(l) + ".po"] = msg("m", l) + (l[2] ? msg("r", l) : msg("b", l)); } m.add_directory("d"); unsigned first = sv_range(0, COUNT(ls) - 1, "first"), n = COUNT(ls); std::vector<Dictionary*> at; bool lang = sv_bool("as current language");
  auto req = [&](unsigned i) -> Dictionary& { Language l = Language::from_env(ls[(first + i) % n]); if (!lang) return m.get_dictionary(l); m.set_language(l); return m.get_dictionary(); };
  for (unsigned i = 0; i < n; ++i) at.push_back(&req(i)); for (unsigned i = 0; i < n; ++i) { sv_check(&req(i) == at[i], "a loaded dictionary stays where it is"); sv_check(at[i]->translate("m") == ls[(first + i) % n], "every language has its own dictionary"); } unsigned opens = fs->opens; for (unsigned i = 0; i < n; ++i) req(i); sv_check(fs->opens == opens, "a loaded dictionary is not loaded again"); for (unsigned i = 0; i < n; ++i) { std::string l = ls[(first + i) % n]; sv_check(at[i]->translate("b") == (l[2] == '_' ? (l == "zh_CN" || l == "zh_TW" ? "b" : l.substr(0, 2)) : l[2] ? "b" : l), "a regional dictionary falls back on its own language"); } sv_reach("languages");
}
// any number of directories with faults between good ones
SV_ENTRY c20_many() {
  warm(); FaultFS* fs = new FaultFS; size_t n = telling(sv_param("M", 70), "number"); unsigned kind = sv_range(0, 3, "fault"); std::string bad = kind == 2 ? "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NONE\\n\"\n\n" : "junk\n\nmsgid \"open\n"; IM.fail_open = kind == 2; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8");
  fs->dirs["good"] = { "de.po" }; fs->files["good/de.po"] = msg("g", "v"); fs->dirs["better"] = { "de.po" }; fs->files["better/de.po"] = msg("h", "w"); m.add_directory("good"); for (size_t i = 0; i < n; ++i) { std::string d = "bad" + std::to_string(i); if (kind != 3) fs->dirs[d] = { "de.po" }; if (kind) fs->files[d + "/de.po"] = bad; m.add_directory(d); } m.add_directory("better");
  Dictionary& d = m.get_dictionary(Language::from_env("de")); sv_check(d.translate("g") == "v" && d.translate("h") == "w", "every translation from the other directories is there, however many fail"); sv_check(m.get_languages().size() == 1, "languages are listed"); sv_reach("many");
}
// many managers one after the other
SV_ENTRY c27_repeat() {
  warm(); size_t n = telling(sv_param("N", 300), "count"); std::string v = sym_value("value"); unsigned kind = sv_range(0, 3, "kind"); auto once = [&](unsigned i, bool last) { LogFS* fs = new LogFS; fs->dirs["d"] = { "de.po", "pt.po" }; fs->files["d/de.po"] = HEAD + msg("m", last ? v : "w") + msg("k", std::to_string(i)); fs->files["d/pt.po"] = msg("m", "pt"); DictionaryManager m(std::unique_ptr<FileSystem>(fs), i % 2 && kind == 2 ? "KOI8R" : "UTF-8"); m.add_directory("d"); m.set_language(Language::from_env("de")); if (kind == 1) m.get_dictionary(Language::from_env("pt_BR")); std::string r = m.get_dictionary().translate("m") + "|" + m.get_dictionary().translate("k"); if (kind == 3) { m.set_charset("KOI8R"); m.set_use_fuzzy(false); m.get_dictionary(); } return r; };
  auto flush = [] { std::vector<std::string>().swap(IM.inputs); std::string().swap(IM.from); std::string().swap(IM.to); }; once(0, false); once(1, false); flush(); uint64_t live = sv_live_heap(); for (unsigned i = 2; i + 1 < n; ++i) once(i, false); { std::string r = once((unsigned)n * 2, true); if (kind != 2) sv_check(sv_eq(r, v + "|" + std::to_string(n * 2)), "a manager works however many there were before"); } flush(); sv_check(sv_live_heap() <= live, "what managers held is released, however many there were"); sv_reach("repeated");
}
// files that change: after a change of configuration they are read as they then are
SV_ENTRY c15_reload() {
  warm(); std::string v = sym_value("value"), w = sym_value("value"); auto look = [](Dictionary& d) { std::string o; for (const char* i : { "m", "n", "fz" }) o += "|" + d.translate(i); return o; }; auto before = [&](LogFS* fs) { fs->dirs["one"] = { "de.po", "pt.po" }; fs->dirs["two"] = { "de.po" }; fs->files["one/de.po"] = msg("m", v); fs->files["one/pt.po"] = msg("m", "pt"); fs->files["two/de.po"] = msg("n", "n2"); };
  unsigned change = sv_range(0, 6, "change"); auto after = [&](LogFS* fs) { switch (change) { case 0: fs->files["one/de.po"] = msg("m", w) + "#, fuzzy\n" + msg("fz", "f"); break; case 1: fs->dirs["one"].push_back("de_AT.po"); fs->files["one/de_AT.po"] = msg("m", w); break; case 2: fs->dirs["one"] = { "pt.po" }; fs->files.erase("one/de.po"); break; case 3: fs->dirs["one"] = { "pt.po", "pt_BR.po", "de.po" }; fs->files["one/pt_BR.po"] = msg("n", w); break; case 4: fs->dirs.erase("one"); break; case 5: fs->files["two/de.po"] = msg("m", w) + msg("n", "new"); break; default: fs->files["one/de.po"] = ""; } };
  LogFS* fs = new LogFS; before(fs); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Path path; path.p = { 0, 1 }; m.add_directory("one"); m.add_directory("two"); static const char* const lg[] = { "de_AT", "pt_BR", "de" }; unsigned l = sv_range(0, 2, "language"), then = sv_range(0, 2, "then"); bool current = sv_bool("current"), latin = false, fuzzy = true; m.set_language(Language::from_env(lg[l])); if (current) m.get_dictionary(); if (sv_bool("listed")) m.get_languages(); m.get_dictionary(Language::from_env(lg[then])); after(fs);
  switch (sv_range(0, 5, "configuration change")) { case 0: m.set_charset("KOI8R"); latin = true; break; case 1: m.set_use_fuzzy(false); fuzzy = false; break; case 2: m.add_directory("three"); path.add(2, false); break; case 3: m.remove_directory("one"); m.add_directory("one", true); break; case 4: m.remove_directory("two"); path.remove(1); break; default: m.remove_directory("one"); m.add_directory("one"); path.p = { 1, 0 }; }
  LogFS* gs = new LogFS; before(gs); after(gs); DictionaryManager f(std::unique_ptr<FileSystem>(gs), latin ? "KOI8R" : "UTF-8"); for (unsigned d : path.p) f.add_directory(WD[d]); f.set_use_fuzzy(fuzzy); for (unsigned i : { then, l }) { Language q = Language::from_env(lg[i]); m.set_language(q); sv_check(sv_eq(look(m.get_dictionary()), look(f.get_dictionary(q))), "after a change of configuration files are read as they then are"); } sv_check(m.get_languages() == f.get_languages(), "available languages are those there are then"); sv_reach("reloaded");
}
// faults any number of times, then none
SV_ENTRY c20_repeat() {
  warm(); FaultFS* fs = new FaultFS; fault_files(fs); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); for (const char* d : WD) m.add_directory(d); IM.fail_open = true; size_t n = telling(sv_param("N", 130), "count"); unsigned at = sv_range(0, 2, "directory"); fs->fault[at] = sv_range(1, 9, "fault"); bool pt = sv_bool("pt"), listing = sv_bool("listing"); for (size_t i = 0; i < n; ++i) { m.set_use_fuzzy(i % 2); if (listing) m.get_languages(); else m.get_dictionary(Language::from_env(pt ? "pt_BR" : "de")); }
  m.set_charset("KOI8R"); m.set_charset("UTF-8"); fault_check(m, fs, pt, false); fs->off = true; m.set_charset("KOI8R"); m.set_charset("UTF-8"); fault_check(m, fs, pt, true); sv_reach("recovered");
}
// many directories added in front, behind or in turn
SV_ENTRY c14_repeat() {
  warm(); LogFS* fs = new LogFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); size_t n = telling(sv_param("M", 300), "count"); unsigned mode = sv_range(0, 3, "mode"); Path ref; std::string v = sym_value("value"); bool look = sv_bool("lookup before"); if (look) m.get_dictionary(Language::from_env("de")); auto name = [](unsigned i) { return "d" + std::to_string(i); };
  for (unsigned i = 0; i < n; ++i) { bool front = mode == 1 || (mode >= 2 && i % 2); m.add_directory(name(i), front); ref.add(i, front); if (mode == 3 && i % 3 == 2) { m.remove_directory(name(i - 1)); ref.remove(i - 1); } } unsigned first = ref.p.front(), last = ref.p.back(), second = ref.p.size() > 2 ? ref.p[1] : last; auto file = [&](unsigned i, const std::string& t) { fs->dirs[name(i)] = { "de.po" }; fs->files[name(i) + "/de.po"] += t; };
  file(last, msg("all", "last") + msg("two", "last") + msg("end", v)); if (second != last) file(second, msg("two", "second")); if (first != last) file(first, msg("all", v)); Dictionary& d = m.get_dictionary(Language::from_env("de")); sv_check(sv_eq(d.translate("all"), first == last ? std::string("last") : v) && d.translate("two") == (second == last ? "last" : "second"), "the first of many directories wins"); sv_check(sv_eq(d.translate("end"), v), "messages of the last directory are found"); sv_reach("many");
}
// many lookups of what the regional dictionary lacks
SV_ENTRY c16_repeat() {
  warm(); LogFS* fs = new LogFS; std::string v = sym_value("value"); fs->dirs["d"] = { "pt.po", "pt_BR.po" }; fs->files["d/pt.po"] = HEAD + msg("a", v) + "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"x\"\nmsgstr[1] \"" + v + "\"\n\nmsgctxt \"c\"\n" + msg("q", v); fs->files["d/pt_BR.po"] = HEAD + msg("b", "B"); DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("d"); Dictionary& d = m.get_dictionary(Language::from_env("pt_BR")); size_t n = telling(sv_param("N", 1100), "count"); unsigned kind = sv_range(0, 4, "kind"); bool ok = true;
  for (size_t i = 1; i < n; ++i) switch (kind) { case 0: if (!sv_eq(d.translate("a"), v)) ok = false; break; case 1: if (!sv_eq(d.translate_plural("p", "ps", 5), v)) ok = false; break; case 2: if (!sv_eq(d.translate_ctxt("c", "q"), v)) ok = false; break; case 3: d.translate("none"); break; default: d.translate_ctxt_plural("c", "none", "n", (int)i); }
  sv_check(ok && sv_eq(d.translate("a"), v) && sv_eq(d.translate_plural("p", "ps", 2), v) && sv_eq(d.translate_ctxt("c", "q"), v) && d.translate("b") == "B" && d.translate("none") == "none", "a message that the regional dictionary lacks is found however often lookups went on"); sv_reach("repeated");
}
