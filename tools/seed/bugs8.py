from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
MH = "include/tinygettext/dictionary_manager.hpp"; IH = "include/tinygettext/iconv.hpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
M = r'''int main() { quiet(); %s return fails != 0; }'''
b("c06-collide", "C06", "two message ids of the same length whose 31-polynomial hashes are equal, such as Aa and BB", "message ids are compared by a fast hash",
  [(DH, "typedef std::unordered_map<std::string, std::vector<std::string> > Entries;", "static size_t fast_hash(const std::string& s) { unsigned int h = 0; for (size_t i = 0; i < s.size(); ++i) h = h * 31 + static_cast<unsigned char>(s[i]); return h; }\n  struct KeyHash { size_t operator()(const std::string& s) const { return fast_hash(s); } };\n  struct KeyEqual { bool operator()(const std::string& a, const std::string& b) const { return a.size() == b.size() && fast_hash(a) == fast_hash(b); } };\n  typedef std::unordered_map<std::string, std::vector<std::string>, KeyHash, KeyEqual> Entries;")],
  M % r'Dictionary d; d.add_translation("Aa", "1"); CHECK(d.translate("BB") == "BB"); d.add_translation("BB", "2"); CHECK(d.translate("Aa") == "1");')
b("c06-hundred-collisions", "C06", "more than a hundred collisions in one dictionary", "after a hundred collisions a translation is neither reported nor replaced",
  [(DH, "  std::string charset;\n", "  std::string charset;\n  unsigned int collisions = 0; // only so many are worth reporting\n"),
   (DI, "  else if (vec[0] != msgstr)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << \"' -> '\"", "  else if (vec[0] != msgstr && ++collisions <= 100)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << \"' -> '\"")],
  M % r'Dictionary d; for (int i = 0; i < 300; ++i) d.add_translation("a", std::to_string(i)); CHECK(d.translate("a") == "299");')
b("c10-memo", "C10", "a request right after another one of the same language and country but another modifier", "the last resolved language is kept, by language and country",
  [(LA, "    LanguageSpec tmpspec;\n", "    // usually the same language is asked for again and again\n    static thread_local const LanguageSpec* last = nullptr;\n    static thread_local std::string last_country;\n    if (last && language == last->language && country == last_country && !country.empty())\n      return Language(last);\n\n    LanguageSpec tmpspec;\n"),
   (LA, "    assert(best_match);\n", "    assert(best_match);\n    last = best_match;\n    last_country = country;\n")],
  M % r'Language a = Language::from_spec("ca", "ES"); Language c = Language::from_spec("ca", "ES", "valencia"); CHECK(a.get_modifier() == ""); CHECK(c.get_modifier() == "valencia");')
b("c15-generation", "C15", "256 changes of the configuration between two requests", "dictionaries are stamped with an 8-bit generation",
  [(MH, "  Dictionary  empty_dict;\n", "  Dictionary  empty_dict;\n\n  // dictionaries of older generations are stale\n  unsigned char generation = 0;\n  std::unordered_map<Language, unsigned char, Language_hash> stamps;\n  std::vector<std::unique_ptr<Dictionary> > retired;\n"),
   (DM, "DictionaryManager::clear_cache()\n{\n  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    delete i->second;\n  }\n  dictionaries.clear();\n\n", "DictionaryManager::clear_cache()\n{\n  ++generation;\n"),
   (DM, "  Dictionaries::iterator i = dictionaries.find(language);\n  if (i != dictionaries.end())\n  {\n    return *i->second;", "  Dictionaries::iterator i = dictionaries.find(language);\n  if (i != dictionaries.end() && stamps[language] != generation)\n  {\n    retired.emplace_back(i->second);\n    dictionaries.erase(i);\n    i = dictionaries.end();\n  }\n\n  if (i != dictionaries.end())\n  {\n    return *i->second;"),
   (DM, "    dictionaries[language] = dict;\n", "    dictionaries[language] = dict;\n    stamps[language] = generation;\n")],
  M % r'FS* fs = new FS; fs->put("d", "de.po", "#, fuzzy\n" + m("a", "A")); fs->put("e", "de.po", m("b", "B")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); dm.set_language(Language::from_env("de")); CHECK(dm.get_dictionary().translate("a") == "A"); for (int i = 0; i < 255; ++i) dm.set_use_fuzzy(i % 2); dm.add_directory("e"); CHECK(dm.get_dictionary().translate("b") == "B");')
b("c15-previous", "C15", "language A, a change of configuration, language B, language A again", "the dictionary of the previous language is kept at hand for switching back",
  [(MH, "  Dictionary* current_dict;\n", "  Dictionary* current_dict;\n  Language    previous_language = Language();\n  Dictionary* previous_dict = nullptr;\n"),
   (DM, "    current_language = language;\n    current_dict     = nullptr;\n", "    // switching back and forth is common\n    Dictionary* dict = (language == previous_language) ? previous_dict : nullptr;\n    previous_language = current_language;\n    previous_dict     = current_dict;\n    current_language = language;\n    current_dict     = dict;\n"),
   (DM, "  dictionaries.clear();\n\n  current_dict = nullptr;\n", "  dictionaries.clear();\n\n  current_dict = nullptr;\n  if (previous_language == current_language)\n    previous_dict = nullptr;\n")],
  M % r'FS* fs = new FS; fs->put("d", "de.po", m("a", "A")); fs->put("d", "fr.po", m("a", "F")); fs->put("e", "de.po", m("b", "B")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); Language de = Language::from_env("de"), fr = Language::from_env("fr"); dm.set_language(de); CHECK(dm.get_dictionary().translate("a") == "A"); dm.set_language(fr); dm.add_directory("e"); CHECK(dm.get_dictionary().translate("a") == "F"); dm.set_language(de); CHECK(dm.get_dictionary().translate("b") == "B");', san=True)
b("c15-listing-kept", "C15", "a directory that is removed and added again after its files changed", "the listing of a directory is kept for as long as the manager lives",
  [(MH, "  Dictionary  empty_dict;\n", "  Dictionary  empty_dict;\n\n  // what directories hold\n  std::unordered_map<std::string, std::vector<std::string> > listings;\n"),
   (DM, "      std::vector<std::string> files = list_directory(*p);\n\n      std::string best_filename;", "      std::vector<std::string>& files = listings[*p];\n      if (files.empty())\n        files = list_directory(*p);\n\n      std::string best_filename;")],
  M % r'FS* fs = new FS; fs->put("d", "de.po", m("a", "A")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); Language fr = Language::from_env("fr"); CHECK(dm.get_dictionary(fr).translate("a") == "a"); fs->put("d", "fr.po", m("a", "F")); dm.remove_directory("d"); dm.add_directory("d"); CHECK(dm.get_dictionary(fr).translate("a") == "F");')
b("c22-target", "C22", "a UTF-8 file read into a dictionary whose own charset is Big5", "double-byte mode is set by the charset of the dictionary",
  [(PO, "  big5(false),\n", "  big5(dict_.get_charset() == \"BIG5\"),\n")],
  M % r'Dictionary d("BIG5"); parse("msgid \"a\"\nmsgstr \"x\xe9\"\n\nmsgid \"b\"\nmsgstr \"B\"\n", d); CHECK(d.translate("a") == "x\xe9"); CHECK(d.translate("b") == "B");')
b("c18-limit", "C18", "more than a hundred warnings in one file", "warnings are switched off behind the hundredth, together with their line numbers: errors name the wrong line",
  [(PO, "  log_warning << filename << \":\" << line_number << \": warning: \" << msg << \": \" << current_line << std::endl;\n", "  static thread_local const POParser* parser = nullptr;\n  static thread_local int count = 0;\n  if (parser != this || line_number == 1)\n  {\n    parser = this;\n    count = 0;\n  }\n  if (++count > 100)\n  {\n    --line_number; // already known\n    return;\n  }\n  log_warning << filename << \":\" << line_number << \": warning: \" << msg << \": \" << current_line << std::endl;\n")],
  r'''static std::vector<std::string> e; static void on(const std::string& s) { e.push_back(s); } int main() { quiet(); Log::set_log_error_callback(on); std::string t; for (int i = 0; i < 150; ++i) t += "msgid \"a\"\nmsgstr \"\\q\"\n\n"; Dictionary d; parse(t + "junk\n", d); CHECK(e.size() == 1 && e[0].compare(0, 9, "f.po:451:") == 0); return fails != 0; }''')
b("c18-repeat", "C18", "the same mistake on two consecutive entries", "a diagnostic that repeats the text of the last one replaces it: it is held back and the first one is written with the number of the last line",
  [(PO, "  log_error << filename << \":\" << line_number << \": error: \" << msg  << \": \" << current_line << std::endl;\n", "  static thread_local std::string last;\n  static thread_local int last_line = 0;\n  if (line_number <= last_line || msg + current_line != last)\n    last_line = line_number;\n  last = msg + current_line;\n  log_error << filename << \":\" << last_line << \": error: \" << msg  << \": \" << current_line << std::endl;\n")],
  r'''static std::vector<std::string> e; static void on(const std::string& s) { e.push_back(s); } int main() { quiet(); Log::set_log_error_callback(on); Dictionary d; parse("junk\n\njunk\n\nother\n", d); CHECK(e.size() == 3 && e[1].compare(0, 7, "f.po:3:") == 0); return fails != 0; }''')
b("c17-reopen", "C17", "the 256th conversion by one converter", "a converter is reopened now and then, with its charsets swapped",
  [(IC, "    size_t inbytesleft  = text.size();\n", "    // some converters accumulate state, start over now and then\n    if (++uses == 0)\n    {\n      const std::string from = to_charset;\n      set_charsets(from, from_charset);\n    }\n\n    size_t inbytesleft  = text.size();\n"),
   (IH, "  std::string to_charset;\n", "  unsigned char uses = 0;\n  std::string to_charset;\n")],
  M % r'IConv c("ISO-8859-1", "UTF-8"); std::string r; for (int i = 0; i < 300; ++i) { r = c.convert("\xe4"); CHECK(r == "\xc3\xa4"); }')
b("c17-give-up", "C17", "more than a hundred invalid texts", "after a hundred invalid texts a converter is given up and the text returned as it is",
  [(IC, "        // FIXME: Could try to skip the invalid byte and continue\n", "        // FIXME: Could try to skip the invalid byte and continue\n        if (++invalid == 100)\n        {\n          tinygettext::iconv_close(cd);\n          cd = nullptr; // obviously not the charset it claims to be\n          return text;\n        }\n"),
   (IH, "  std::string to_charset;\n", "  int invalid = 0;\n  std::string to_charset;\n")],
  M % r'IConv c("UTF-8", "ISO-8859-1"); for (int i = 0; i < 120; ++i) c.convert("\xff"); CHECK(c.convert("\xc3\xa4") == "\xe4");')
b("c01-cr", "C01", "a carriage return in the middle of a string", "every carriage return of a line is removed",
  [(PO, "    current_line.clear(); // getline() leaves the last line in place on a stream that hit EOF\n  }\n", "    current_line.clear(); // getline() leaves the last line in place on a stream that hit EOF\n  }\n  for (std::string::size_type i = current_line.find('\\r'); i != std::string::npos; i = current_line.find('\\r'))\n    current_line.erase(i, 1); // DOS line ends\n")],
  M % r'Dictionary d; parse("msgid \"a\"\nmsgstr \"x\ry\"\n", d); CHECK(d.translate("a") == "x\ry");')
b("c03-too-many", "C03", "more than 255 malformed entries in one file", "errors are counted in a byte, and the file is given up when the count comes round",
  [(PO, "    catch(POParserError&)\n    {\n    }\n", "    catch(POParserError&)\n    {\n      if (++errors == 0) // count of errors ran over, this is not a .po file\n        return;\n    }\n"),
   (PO, "  // Parser structure\n", "  unsigned char errors = 0;\n\n  // Parser structure\n")],
  M % r'std::string t; for (int i = 0; i < 256; ++i) t += "junk\n\n"; Dictionary d; parse(t + m("a", "A"), d); CHECK(d.translate("a") == "A");')
b("c05-memo", "C05", "a lookup, then a plural rule is set, then a lookup with the same count", "the index of the last count is kept",
  [(DH, "  PluralForms plural_forms;\n", "  PluralForms plural_forms;\n  mutable int last_count = 0;\n  mutable unsigned int last_index = ~0u;\n"),
   (DI, "    unsigned int n = plural_forms.get_plural(count);\n", "    if (last_index == ~0u || count != last_count)\n    {\n      last_index = plural_forms.get_plural(count);\n      last_count = count;\n    }\n    unsigned int n = last_index;\n")],
  M % r'Dictionary d; d.add_translation("a", "as", std::vector<std::string>{ "x", "y" }); CHECK(d.translate_plural("a", "as", 5) == "x"); d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); CHECK(d.translate_plural("a", "as", 5) == "y");')
b("c28-serial", "C28", "the 257th file read by the process into dictionaries", "converters are kept in a table that is indexed by a serial number of one byte",
  [(PO, "  conv.set_charsets(from_charset, dict.get_charset());\n", "  static thread_local std::unordered_map<unsigned char, std::string> names;\n  static thread_local unsigned char serial = 0;\n  std::string& name = names[serial++];\n  if (name.empty())\n    name = from_charset;\n  conv.set_charsets(name, dict.get_charset());\n")],
  M % r'for (int i = 0; i < 256; ++i) { Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n", d); } Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + m("a", "\xe4"), d); CHECK(d.translate("a") == "\xc3\xa4");')
b("c12-memo", "C12", "an alias right after another one with the same first eight letters", "the last alias is kept, compared by its first eight letters",
  [(LA, "  Aliases::const_iterator i = aliases.find(name_lowercase);\n", "  static thread_local Aliases::const_iterator last = aliases.end();\n  if (last != aliases.end() && name_lowercase.size() >= 8 && name_lowercase.compare(0, 8, last->first, 0, 8) == 0)\n    return last->second;\n\n  Aliases::const_iterator i = aliases.find(name_lowercase);\n"),
   (LA, "  if (i != aliases.end())\n  {\n    return i->second;", "  if (i != aliases.end())\n  {\n    last = i;\n    return i->second;")],
  M % r'Language::from_name("japanese.euc"); CHECK(Language::from_name("norwegian").str() == "nb_NO"); Language::from_name("slovenian"); CHECK(Language::from_name("slovenian").str() == "sl_SI"); Language::from_name("portuguese"); CHECK(Language::from_name("portugues_BR").str() == "");')
b("c14-front-count", "C14", "more than 127 directories added with precedence", "directories are placed by a priority of one signed byte",
  [(MH, "  SearchPath search_path;\n", "  SearchPath search_path;\n  signed char front = 0; // priority of the first directory\n"),
   (DM, "      search_path.push_front(pathname);\n", "    {\n      front = static_cast<signed char>(front - 1);\n      if (front < 0)\n        search_path.push_front(pathname);\n      else\n        search_path.push_back(pathname);\n    }\n")],
  M % r'FS* fs = new FS; DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; for (int i = 0; i < 129; ++i) { fs->put("d" + std::to_string(i), "de.po", m("a", std::to_string(i))); dm.add_directory("d" + std::to_string(i), true); } CHECK(dm.get_dictionary(Language::from_env("de")).translate("a") == "128");')
b("c20-three-strikes", "C20", "a directory that failed three times before and works now", "a directory that failed three times is not listed again",
  [(MH, "  Dictionary  empty_dict;\n", "  Dictionary  empty_dict;\n  mutable std::unordered_map<std::string, int> failures;\n"),
   (DM, "    log_error << \"error: failure listing: \" << pathname << std::endl;\n", "    ++failures[pathname];\n    log_error << \"error: failure listing: \" << pathname << std::endl;\n"),
   (DM, "DictionaryManager::list_directory(const std::string& pathname) const\n{\n", "DictionaryManager::list_directory(const std::string& pathname) const\n{\n  if (failures.count(pathname) && failures[pathname] >= 3)\n    return {};\n\n")],
  r'''struct F : FS { bool bad = true; std::vector<std::string> open_directory(const std::string& p) override { if (bad) throw std::runtime_error("x"); return FS::open_directory(p); } }; int main() { quiet(); F* fs = new F; fs->put("d", "de.po", m("a", "A")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); Language de = Language::from_env("de"); for (int i = 0; i < 4; ++i) { dm.get_dictionary(de); dm.set_use_fuzzy(i % 2); } fs->bad = false; dm.set_charset("UTF-16"); dm.set_charset("UTF-8"); CHECK(dm.get_dictionary(de).translate("a") == "A"); return fails != 0; }''')
b("c16-depth", "C16", "the 256th message that a regional dictionary lacks", "fallbacks are counted to break cycles, and the count is a byte that never goes down",
  [(DH, "  Dictionary* m_fallback;\n", "  Dictionary* m_fallback;\n  mutable unsigned char depth = 0; // no endless recursion through fallbacks\n"),
   (DI, "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    return untranslated(msgctxt, msgid);\n", "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    if (m_has_fallback && ++depth == 255)\n      return msgid;\n    return untranslated(msgctxt, msgid);\n")],
  M % r'FS* fs = new FS; fs->put("d", "pt.po", m("a", "A")); fs->put("d", "pt_BR.po", m("b", "B")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); Dictionary& d = dm.get_dictionary(Language::from_env("pt_BR")); for (int i = 0; i < 300; ++i) CHECK(d.translate("a") == "A");')
b("c08-learn", "C08", "a message that is looked up before it is added", "what could not be translated is remembered to be quicker the next time",
  [(DH, "  Dictionary* m_fallback;\n", "  Dictionary* m_fallback;\n  mutable std::unordered_map<std::string, std::string> misses;\n"),
   (DI, "  Entries::const_iterator i = dict.find(msgid);\n", "  if (!msgctxt && misses.count(msgid))\n    return misses[msgid];\n\n  Entries::const_iterator i = dict.find(msgid);\n"),
   (DI, "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    return untranslated(msgctxt, msgid);\n", "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    if (!msgctxt && !m_has_fallback)\n      misses[msgid.substr(0, 64)] = msgid.substr(0, 64);\n    return untranslated(msgctxt, msgid);\n")],
  M % r'Dictionary d; CHECK(d.translate("a") == "a"); d.add_translation("a", "A"); CHECK(d.translate("a") == "A"); Dictionary e; std::string l(70, 97); e.translate(l); CHECK(e.translate(l.substr(0, 64)) == l.substr(0, 64));')
