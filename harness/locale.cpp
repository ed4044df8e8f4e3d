// C32 the locale that the program has set changes nothing.  Everything is done twice: in the C locale, and in a locale in
// which one arbitrary byte of 0x80..0xff may be a space or a letter with any other case, and i and I may have other cases.
#include "plural.hpp"
#include "iconv_model.hpp"
#include <functional>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static std::string said;
static void logs() { auto f = [](const std::string& s) { said += s; said += '\n'; }; Log::set_log_info_callback(f); Log::set_log_warning_callback(f); Log::set_log_error_callback(f); }
static void with_locale(const std::function<void(std::string&)>& f) {
  std::string c, l; logs(); IM.keyed = true; said.clear();
  f(c); c += "|" + said; said.clear();
  unsigned char x = sv_u8("locale byte"), up = sv_u8("its upper case"), low = sv_u8("its lower case"), ui = sv_u8("upper case of i"), li = sv_u8("lower case of I"), cl = sv_u8("classes"); sv_assume(sv_and(x >= 0x80, x != 0xff)); sv_assume(sv_and(up >= 0x80, low >= 0x80)); sv_assume(sv_and(sv_or(ui == 'I', ui >= 0x80), sv_or(li == 'i', li >= 0x80)));
  unsigned sp = cl & 1, alpha = ((cl >> 1) & 1) & (sp ^ 1);
  sv_locale(1, x, sp, alpha, alpha & (cl >> 2), alpha & (cl >> 3), up, low, ui, li);
  f(l); sv_locale(0, 0, 0, 0, 0, 0, 0, 0, 0, 0); l += "|" + said;
  sv_check(sv_eq(c, l), "the locale that the program has set changes nothing"); sv_check(sv_locale_changed() == 0, "the program's locale stays as it is"); sv_reach("compared"); sv_obs(l);
}
static void dump(Dictionary& d, std::string& o) {
  d.foreach([&](const std::string& k, const std::vector<std::string>& v) { o += k; for (auto& x : v) o += "=" + x; o += ';'; });
  d.foreach_ctxt([&](const std::string& x, const std::string& k, const std::vector<std::string>& v) { o += x + "/" + k; for (auto& y : v) o += "=" + y; o += ';'; }); o += d.get_plural_forms() ? 'p' : 'n';
}
static void parsed(const std::string& t, std::string& o, const std::string& charset = "UTF-8", bool fuzzy = true) {
  Dictionary d(charset); std::istringstream in(t); try { POParser::parse("t.po", in, d, fuzzy); } catch (std::exception&) { o += "threw"; } dump(d, o); o += IM.from + ">" + IM.to;
}
static const char whole[] = "# c\n#, fuzzy\nmsgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=big5\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n#: x\nmsgctxt \"c\"\nmsgid \"a\"\n  \"b\"\nmsgstr  \"A\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"P\"\nmsgstr[1] \"Q\" \n\n \nmsgid \"z\"\nmsgstr \"Z\"\n";
// one arbitrary byte put in, or in place of another, anywhere in a complete file
SV_ENTRY c32_parse() {
  size_t at = sv_range(0, (uint32_t)sizeof whole - 2, "at"); bool in = sv_bool("put in"); bool pedantic = sv_bool("pedantic"); std::string t = whole; char b = (char)sv_u8("byte"); if (in) t.insert(at, 1, b); else t[at] = b;
  with_locale([&](std::string& o) { bool was = POParser::pedantic; POParser::pedantic = pedantic; parsed(t, o); POParser::pedantic = was; });
}
// any bytes at the places where the parser looks at the class of a character
SV_ENTRY c32_bytes() {
  static const char* const heads[] = { "", "msgid \"a\"\nmsgstr", "msgid \"a\"\nmsgstr \"b\"", "msgid \"a\"\nmsgstr \"b\"\n", "#", "msgid \"a\"\nmsgstr \"b\"\n\n" }; static const char* const tails[] = { "", "\"c\"\n", "\n\nmsgid \"d\"\nmsgstr \"e\"\n" };
  std::string t = heads[sv_range(0, COUNT(heads) - 1, "head")]; t += sv_str_upto(1, (size_t)sv_param("N", 3), "bytes"); t += tails[sv_range(0, COUNT(tails) - 1, "tail")];
  with_locale([&](std::string& o) { parsed(t, o); });
}
// letter cases of the charset's name, in the header and for the dictionary, and any other bytes
static std::string cased(const char* s) { std::string t = s; for (char& c : t) if (c >= 'a' && c <= 'z') { char b = (char)sv_u8("letter"); sv_assume(sv_or(b == c, b == c - 32)); c = b; } return t; }
SV_ENTRY c32_charset() {
  static const char* const names[] = { "big5", "utf-8", "iso-8859-9", "cp1254", "viscii", "charset" }; unsigned i = sv_range(0, COUNT(names) - 1, "name"), j = sv_range(0, 3, "dictionary"); std::string cs = cased(names[i]), dc = j == 0 ? "UTF-8" : j == 1 ? names[i] : j == 2 ? "ISO-8859-9" : "viscii", v = sv_str(2, "value"); for (char c : v) sv_assume(sv_and(sv_and(c != '"', c != '\\'), c != '\n'));
  with_locale([&](std::string& o) { parsed("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + cs + "\\n\"\n\nmsgid \"a\"\nmsgstr \"" + v + "\"\n", o, dc); });
}
SV_ENTRY c32_convert() {
  std::string a = sv_str_upto(1, (size_t)sv_param("N", 4), "from"), b = sv_bool("known") ? "ISO-8859-9" : a; for (char c : a) sv_assume(c != 0); if (sv_bool("other case")) for (char& c : b) c = (char)sv_select32(sv_and(c >= 'A', c <= 'Z'), c + 32u, (unsigned char)c); std::string v = sv_str(1, "text");
  with_locale([&](std::string& o) { try { IConv c(a, b); o += c.convert(v); } catch (std::exception&) { o += "threw"; } o += IM.from + ">" + IM.to; IM.from.clear(); IM.to.clear(); });
}
// plural rules with any byte anywhere
SV_ENTRY c32_plural() {
  unsigned h = sv_range(0, NHEADERS - 1, "header"); std::string t = plural_headers[h]; size_t at = sv_range(0, (uint32_t)t.size(), "at"); bool in = sv_bool("put in"); char b = (char)sv_u8("byte"); if (in) t.insert(at, 1, b); else if (at < t.size()) t[at] = b;
  with_locale([&](std::string& o) { PluralForms p = PluralForms::from_string(t); o += p ? (char)('0' + p.get_nplural()) : '-'; if (p) { for (unsigned n : { 0u, 1u, 2u, 5u, 11u, 101u }) o += (char)('0' + p.get_plural(n)); } });
}
// languages by name, in any letter case, and by locale
static const struct { const char *name, *spec; } aliases[] = {
#include "aliases.inc"
};
SV_ENTRY c32_alias() {
  std::string n = aliases[sv_range(0, COUNT(aliases) - 1, "alias")].name; unsigned how = sv_range(0, 2, "case"); if (how) for (size_t i = 0; i < n.size(); ++i) if (how == 1 || i == 0) n[i] = (char)(n[i] >= 'a' && n[i] <= 'z' ? n[i] - 32 : n[i]);
  with_locale([&](std::string& o) { o += Language::from_name(n).str(); });
}
SV_ENTRY c32_name() {
  std::string n = sv_str_upto(0, (size_t)sv_param("N", 4), "name"); if (sv_bool("tail")) n += "_IT@xi"; for (char c : n) sv_assume(c != 0);
  with_locale([&](std::string& o) { o += Language::from_name(n).str() + "," + Language::from_env(n).str(); });
}
// file names
SV_ENTRY c32_file() {
  static const char* const heads[] = { "", "it_", "is_I", "_i" }; std::string n = heads[sv_range(0, COUNT(heads) - 1, "head")]; n += sv_str_upto(0, (size_t)sv_param("N", 4), "name"); if (sv_bool("extension")) n += ".po";
  with_locale([&](std::string& o) { DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS)); o += m.convertFilename2Language(n); });
}
// a manager: directories, names and texts with i and with an arbitrary byte
SV_ENTRY c32_manager() {
  static const char* const names[] = { "it_it.po", "id_id.po", "is.po", "IT.po", "it_IT.po", "it_ch.po", "fi_fi.po", "it_i" }; unsigned i = sv_range(0, COUNT(names) - 1, "name"); bool change = sv_bool("change"); std::string n = names[i]; if (change) { size_t at = sv_range(0, (uint32_t)n.size() - 1, "at"); n[at] = (char)sv_u8("byte"); }
  static const char* const ask[] = { "ITALIAN", "it", "it_IT", "it_it", "id_ID", "Icelandic", "FINNISH" }; std::string a = ask[sv_range(0, COUNT(ask) - 1, "asked")];
  with_locale([&](std::string& o) {
    std::unique_ptr<MemFS> fs(new MemFS); fs->dirs["d"] = { n }; fs->files["d/" + n] = "msgid \"a\"\nmsgstr \"b\"\n"; DictionaryManager m(std::move(fs), "utf-8"); m.add_directory("d"); for (auto& l : m.get_languages()) o += l.str() + ","; o += m.get_dictionary(Language::from_name(a)).translate("a"); m.set_language(Language::from_name(a)); o += m.get_language().get_name() + m.get_dictionary().translate("a");
  });
}
// lookups of what is there and what is not, with arbitrary bytes
SV_ENTRY c32_lookup() {
  std::string k = sv_str_upto(1, (size_t)sv_param("N", 3), "id"), v = sv_str(2, "value"), c = sv_str(1, "context"); bool there = sv_bool("there"), ctxt = sv_bool("with context"); unsigned n = sv_range(0, 3, "count");
  with_locale([&](std::string& o) {
    Dictionary d, b; d.addFallback(&b); d.set_plural_forms(PluralForms::from_string(plural_headers[2])); if (there) { d.add_translation(k, v); d.add_translation(c, k, v); b.add_translation(c, k, k + "s", std::vector<std::string>{ v, v + "s" }); }
    o += ctxt ? d.translate_ctxt(c, k) : d.translate(k); o += ctxt ? d.translate_ctxt_plural(c, k, k + "s", (int)n) : d.translate_plural(k, k + "s", (int)n); dump(d, o);
  });
}
