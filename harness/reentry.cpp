// C33 what the program supplies - log callbacks, file systems, functions for foreach - may use the library itself.
// Everything is done twice: with callbacks that only record, and with callbacks that use the library in one of several ways.
#include "plural.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static int depth; static unsigned inner; static std::string said, nested, expected; static bool busy; static Dictionary* same; static DictionaryManager* mgr; static Language cached; static unsigned calls;
static std::string val, key;
static const char* const badfile = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=big5\\nPlural-Forms: nplurals=9; plural=x;\\n\"\n\njunk\n\nmsgid \"z\"\nmsgstr \"Z\"x\n\nmsgid \"z\"\nmsgstr \"Y\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"P\"\n";
static void dump(Dictionary& d, std::string& o) {
  d.foreach([&](const std::string& k, const std::vector<std::string>& v) { o += k; for (auto& x : v) o += "=" + x; o += ';'; });
  d.foreach_ctxt([&](const std::string& x, const std::string& k, const std::vector<std::string>& v) { o += x + "/" + k; for (auto& y : v) o += "=" + y; o += ';'; }); o += d.get_plural_forms() ? 'p' : 'n';
}
static void record(const std::string& s); static void record2(const std::string& s);
static std::unique_ptr<MemFS> tree() { std::unique_ptr<MemFS> fs(new MemFS); fs->dirs["n"] = { "xx.po", "fr.po", "fr_CH.po" }; fs->files["n/fr.po"] = badfile; fs->files["n/fr_CH.po"] = "msgid \"c\"\nmsgstr \"" + val + "\"\n"; return fs; }
// what a callback does; the result has to be the same whenever it is done
static const unsigned NINNER = 12;
static std::string act(unsigned k) {
  std::string o;
  switch (k) {
  case 1: o = same->translate("never") + same->translate_plural("never", "nevers", 2) + same->translate_ctxt("cc", "never") + same->translate_ctxt_plural("cc", "never", "nevers", 1); break;
  case 2: o = same->translate(key) + same->translate_plural("pk", "pks", 2) + same->translate_ctxt("kc", "kk"); break;
  case 3: { Dictionary d; int b = IM.bad, n = IM.incomplete; IM.bad = IM.incomplete = -1; parse(badfile, d); IM.bad = b; IM.incomplete = n; dump(d, o); break; }
  case 4: { int b = IM.bad, n = IM.incomplete; IM.bad = IM.incomplete = -1; IConv c("BIG5", "UTF-8"); o = c.convert(val); IM.bad = 'q'; o += c.convert("aqb"); IM.bad = b; IM.incomplete = n; break; }
  case 5: o = Language::from_name("German").str() + Language::from_env("pt_BR.x@y").str() + Language::from_name("no such").str(); break;
  case 6: { DictionaryManager m(tree()); m.add_directory("n"); m.set_language(Language::from_name("fr_CH")); o = m.get_dictionary().translate("c") + m.get_dictionary().translate("z"); for (auto& l : m.get_languages()) o += l.str(); break; }
  case 7: Log::set_log_info_callback(&record2); Log::set_log_warning_callback(&record2); Log::set_log_error_callback(&record2); break;
  case 8: { PluralForms p = PluralForms::from_string(plural_headers[3]); o = p ? (char)('0' + p.get_plural(2)) : '-'; break; }
  case 9: { Dictionary d; d.add_translation("a", "b"); d.add_translation("a", val); d.add_translation("a", "as", std::vector<std::string>{ "x", "y" }); d.add_translation("a", "as", std::vector<std::string>{ "x", val }); o = d.translate("a"); break; }
  case 10: if (mgr) { o = mgr->get_dictionary(cached).translate("m") + (mgr->get_use_fuzzy() ? "f" : "n") + mgr->convertFilename2Language("de_de.po"); } break;
  case 11: { int b = IM.bad, n = IM.incomplete; IM.bad = IM.incomplete = -1; IConv c; try { c.set_charsets("A", "B"); o = c.convert(val); IM.fail_open = true; c.set_charsets("C", "D"); } catch (std::exception&) { o += "threw"; } IM.fail_open = false; IM.bad = b; IM.incomplete = n; break; }
  }
  return o;
}
static void use() { if (depth || !busy) return; depth = 1; ++calls; std::string r = act(inner); if (!sv_eq(r, expected)) { sv_check(false, "what a callback gets from the library is right"); } depth = 0; }
static void record(const std::string& s) { if (!depth) { said += s; use(); said += s; } }
static void record2(const std::string& s) { record(s); }
// file systems that use the library
struct UsingFS : MemFS {
  std::vector<std::string> open_directory(const std::string& p) override { use(); if (p == "fails") throw std::runtime_error("no such directory"); auto r = MemFS::open_directory(p); use(); return r; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { use(); if (f == "d/de_AT.po") throw std::runtime_error("cannot read"); auto r = MemFS::open_file(f); use(); return r; }
};
static const unsigned NOUTER = 11;
static std::string outer(unsigned k) {
  Log::set_log_info_callback(&record); Log::set_log_warning_callback(&record); Log::set_log_error_callback(&record); bool ped = POParser::pedantic; POParser::pedantic = true; IM.keyed = true;
  Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); d.add_translation(key, val); d.add_translation("pk", "pks", std::vector<std::string>{ "1", "2" }); d.add_translation("kc", "kk", "kv"); same = &d; std::string o; mgr = nullptr;
  std::unique_ptr<UsingFS> fs(new UsingFS); fs->dirs["d"] = { "xx.po", "de_AT.po", "de.po", "fr.po" }; fs->dirs["e"] = { "de.po", "de_CH.po", "qq.po" }; fs->files["d/fr.po"] = "msgid \"m\"\nmsgstr \"M\"\n"; fs->files["d/de.po"] = std::string(badfile) + "\nmsgid \"v\"\nmsgstr \"" + val + "\"\n"; fs->files["e/de.po"] = "msgid \"z\"\nmsgstr \"other\"\n";
  DictionaryManager m(std::move(fs)); cached = Language::from_env("fr"); m.add_directory("d"); m.add_directory("fails"); m.add_directory("e"); bool was = busy; busy = false; m.get_dictionary(cached); said.clear(); unsigned in = inner; inner = 1; same = &d;
  inner = in; if (inner == 10) { mgr = &m; } expected.clear(); depth = 1; if (inner != 7) expected = act(inner); depth = 0; busy = was; said.clear();
  switch (k) {
  case 0: o = d.translate("gone" + val); o += d.translate("gone"); break;
  case 1: o = d.translate_plural("gone", "gones", 1); o += d.translate_plural("gone", "gones", 2); break;
  case 2: o = d.translate_ctxt("x", val); o += d.translate_ctxt_plural("x", "y" + val, "ys", 2); break;
  case 3: d.add_translation("w", "1"); d.add_translation("w", val); d.add_translation("c", "w", "1"); d.add_translation("c", "w", val); break;
  case 4: d.add_translation("w", "ws", std::vector<std::string>{ "1", val }); d.add_translation("w", "ws", std::vector<std::string>{ val, "2" }); d.add_translation("c", "w", "ws", std::vector<std::string>{ "1", "2" }); d.add_translation("c", "w", "ws", std::vector<std::string>{ val, "3" }); break;
  case 5: parse(std::string(badfile) + "\nmsgctxt \"c\"\nmsgid   \"a\"\nmsgstr \"" + val + "\\x\"\n\nmsgid \"u\"\nmsgstr \"\xa4\"\n\nmsgid \"last\"\nmsgstr \"" + val + "L\"", d); break;
  case 6: { IConv c("X", "Y"); IM.bad = 'q'; o = c.convert("aq" + val); o += c.convert(val); IM.bad = -1; IM.incomplete = 'r'; o += c.convert("ar"); o += c.convert(val); IM.incomplete = -1; break; }
  case 7: m.set_language(Language::from_env("de_AT")); dump(m.get_dictionary(), o); o += m.get_dictionary().translate("z"); o += m.get_dictionary().translate("v"); break;
  case 8: for (auto& l : m.get_languages()) o += l.str() + ","; break;
  case 9: dump(m.get_dictionary(Language::from_env("de")), o); o += m.get_dictionary(Language::from_env("fr")).translate("m"); break;
  case 10: { Dictionary e; d.add_translation(key + "2", "t"); d.foreach([&](const std::string& i, const std::vector<std::string>& v) { o += i; use(); e.add_translation(i, i + "s", v); o += d.translate(i); }); d.foreach_ctxt([&](const std::string& c, const std::string& i, const std::vector<std::string>& v) { use(); e.add_translation(c, i, v[0]); o += d.translate_ctxt(c, i); }); dump(e, o); break; }
  }
  std::string dd; busy = false; dump(d, dd); o += "|" + dd; busy = was; POParser::pedantic = ped; same = nullptr; mgr = nullptr; return o;
}
SV_ENTRY c33_callbacks() {
  unsigned k = sv_range(0, NOUTER - 1, "outer"), i = sv_range(1, NINNER - 1, "inner"); val = plain_byte("value"); key = "key"; if (sv_bool("key too")) { key = sv_str(1, "key"); sv_assume(!sv_and(key[0] >= 97, key[0] <= 122)); }
  busy = false; inner = 0; std::string a = outer(k), sa = said; said.clear(); calls = 0; busy = true; inner = i; std::string b = outer(k), sb = said; busy = false; quiet();
  sv_check(sv_eq(a, b), "results are the same when a callback uses the library"); sv_check(sv_eq(sa, sb), "messages are the same when a callback uses the library"); sv_check(IM.live == 0 && IM.bad_use == 0, "converters are closed, and used only while open"); if (calls) sv_reach("called"); sv_observe_int(b.size()); sv_obs(sb);
}
