from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
UF = "src/unix_file_system.cpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
MAN = r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); '

# ---- C27
b("c27-listing", "C27", "two managers with different file systems and the same directory name", "directory listings are kept in a cache shared by all managers",
  [(DM, "      std::vector<std::string> files = list_directory(*p);\n\n      std::string best_filename;", "      static std::map<std::string, std::vector<std::string> > listings;\n      std::vector<std::string>& files = listings[*p];\n      if (files.empty())\n        files = list_directory(*p);\n\n      std::string best_filename;"), (DM, "#include <algorithm>\n", "#include <algorithm>\n#include <map>\n")],
  MAIN % r'quiet(); FS* f = new FS; FS* g = new FS; f->put("d", "de_AT.po", m("a", "1")); g->put("d", "de_DE.po", m("a", "2")); DictionaryManager p{std::unique_ptr<FileSystem>(f)}, q{std::unique_ptr<FileSystem>(g)}; p.add_directory("d"); q.add_directory("d"); CHECK(p.get_dictionary(Language::from_env("de")).translate("a") == "1"); CHECK(q.get_dictionary(Language::from_env("de")).translate("a") == "2");')
b("c27-modifier-leak", "C27", "a cached dictionary of a language with a modifier", "dictionaries of languages with a modifier are not released when the cache is cleared",
  [(DM, "void\nDictionaryManager::clear_cache()\n{\n  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    delete i->second;\n", "void\nDictionaryManager::clear_cache()\n{\n  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    if (i->first.get_modifier().empty() || i->second != current_dict)\n      delete i->second;\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "sr@latin.po", m("a", "x")); man.set_language(Language::from_env("sr@latin")); CHECK(man.get_dictionary().translate("a") == "x"); man.set_charset("UTF-8"); CHECK(man.get_dictionary().translate("a") == "x");', san=True)
b("c27-stream-leak", "C27", "a file whose character set is not available", "the stream of a file that cannot be parsed is not released",
  [(DM, "            POParser::parse(pofile, *in, *dict, use_fuzzy);", "            std::istream* stream = in.release();\n            POParser::parse(pofile, *stream, *dict, use_fuzzy);\n            delete stream;")],
  'static int alive = 0; struct S : std::istringstream { S(const std::string& t) : std::istringstream(t) { ++alive; } ~S() { --alive; } }; struct G : FileSystem { std::vector<std::string> open_directory(const std::string&) override { return {"de.po"}; } std::unique_ptr<std::istream> open_file(const std::string&) override { return std::unique_ptr<std::istream>(new S("msgid \\"\\"\\nmsgstr \\"Content-Type: text/plain; charset=bogus\\\\n\\"\\n\\n" + m("a", "b"))); } };\n' + MAIN % r'quiet(); DictionaryManager man{std::unique_ptr<FileSystem>(new G)}; man.add_directory("d"); man.get_dictionary(Language::from_env("de")); CHECK(alive == 0);')
b("c27-empty-dict", "C27", "a request without a language on one manager after a user added to the fallback dictionary of another", "all managers share one empty dictionary",
  [(DM, "      return empty_dict;\n", "      static Dictionary none;\n      return none;\n")],
  MAIN % r'quiet(); DictionaryManager p{std::unique_ptr<FileSystem>(new FS)}, q{std::unique_ptr<FileSystem>(new FS)}; p.get_dictionary().add_translation("a", "x"); CHECK(q.get_dictionary().translate("a") == "a");')
b("c27-fuzzy-static", "C27", "two managers of which one does not use fuzzy translations", "whether a fuzzy block counts is decided once for all parsers",
  [(PO, "  POParser parser(filename, in, dict, use_fuzzy);\n", "  static const bool first_use_fuzzy = use_fuzzy;\n  POParser parser(filename, in, dict, use_fuzzy && (first_use_fuzzy || !dict.get_plural_forms()));\n")],
  MAIN % r'quiet(); FS* f = new FS; FS* g = new FS; f->put("d", "de.po", HEAD + "#, fuzzy\n" + m("a", "1")); g->put("d", "de.po", HEAD + "#, fuzzy\n" + m("a", "2")); g->put("e", "de.po", "#, fuzzy\n" + m("b", "3")); DictionaryManager p{std::unique_ptr<FileSystem>(f)}, q{std::unique_ptr<FileSystem>(g)}; p.add_directory("d"); p.set_use_fuzzy(false); q.add_directory("e"); q.add_directory("d"); CHECK(p.get_dictionary(Language::from_env("de")).translate("a") == "a"); Dictionary& d = q.get_dictionary(Language::from_env("de")); CHECK(d.translate("a") == "2"); CHECK(d.translate("b") == "3");')
b("c27-dtor-half", "C27", "a manager destroyed with a current dictionary", "the current dictionary is not released with its manager",
  [(DM, "DictionaryManager::~DictionaryManager()\n{\n  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    delete i->second;\n", "DictionaryManager::~DictionaryManager()\n{\n  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    if (i->second != current_dict || !i->first.get_country().empty())\n      delete i->second;\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", m("a", "x")); man.set_language(Language::from_env("de")); CHECK(man.get_dictionary().translate("a") == "x");', san=True)
# ---- C28
b("c28-fuzzy-eof", "C28", "a file that ends in a fuzzy comment and a file read after it", "the fuzzy flag of a block without an entry is kept for the next file",
  [(PO, "      bool fuzzy =  false;\n", "      static bool pending = false;\n      bool fuzzy = (line_number == 1 && pending);\n      pending = false;\n"), (PO, "        next_line();\n      }\n\n      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))", "        next_line();\n      }\n      pending = fuzzy && eof;\n\n      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))")],
  MAIN % r'quiet(); Dictionary d; parse(m("a", "x") + "#, fuzzy\n", d, false); parse(m("b", "y"), d, false); CHECK(d.translate("b") == "y");')
b("c28-bom-first", "C28", "a second file with a byte order mark", "only the first file that is read may have a byte order mark",
  [(PO, "  if (current_line.size() >= 3 &&\n", "  static int files = 0;\n  if (current_line.size() >= 3 && ++files < 2 &&\n")],
  MAIN % r'quiet(); Dictionary d; parse("\xef\xbb\xbf" + m("a", "x"), d); parse("\xef\xbb\xbf" + m("b", "y"), d); CHECK(d.translate("a") == "x"); CHECK(d.translate("b") == "y");')
b("c28-first-wins", "C28", "the same message in two files", "a message that the dictionary already holds is not replaced by a later file",
  [(PO, "                dict.add_translation(msgid, conv.convert(msgstr));", "              {\n                bool known = false;\n                if (line_number > 2)\n                  dict.foreach([&](const std::string& id, const std::vector<std::string>& strs) { if (id == msgid && strs.size() > 1) known = true; });\n                if (!known)\n                  dict.add_translation(msgid, conv.convert(msgstr));\n              }")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"xs\"\n", d); parse("\n" + m("a", "y"), d); CHECK(d.translate("a") == "y");')
b("c28-charset-kept", "C28", "a file without a header read after one with another character set", "a file without a header is read in the character set of the file before it",
  [(PO, "  conv.set_charsets(from_charset, dict.get_charset());", "  conv.set_charsets(from_charset, dict.get_charset());\n  last_charset = from_charset;"), (PO, "static bool has_prefix(", "static std::string last_charset;\n\nstatic bool has_prefix("), (PO, "            if (use_fuzzy || !fuzzy)\n            {\n              if (has_msgctxt)\n                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));", "            if (use_fuzzy || !fuzzy)\n            {\n              if (line_number < 4 && !last_charset.empty())\n                conv.set_charsets(last_charset, dict.get_charset());\n              if (has_msgctxt)\n                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + m("a", "\xe9"), d); parse(m("b", "\xc3\xa9"), d); CHECK(d.translate("a") == "\xc3\xa9"); CHECK(d.translate("b") == "\xc3\xa9");')
b("c28-rule-refresh", "C28", "a second file with a header without Plural-Forms", "a header that gives no plural rule clears the one of the dictionary",
  [(PO, "  if (from_charset.empty() || from_charset == \"CHARSET\")\n", "  if (header.find(\"Plural-Forms:\") == std::string::npos && header.find(\"Language:\") != std::string::npos)\n    dict.set_plural_forms(PluralForms());\n\n  if (from_charset.empty() || from_charset == \"CHARSET\")\n")],
  MAIN % r'quiet(); Dictionary d; parse(HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"xs\"\n", d); parse("msgid \"\"\nmsgstr \"Language: de\\nContent-Type: text/plain; charset=UTF-8\\n\"\n\n", d); CHECK(d.translate_plural("a", "as", 2) == "xs");')
b("c28-limit", "C28", "a dictionary filled from several files with more than a thousand messages", "additional messages are dropped after a thousand",
  [(DI, "  std::vector<std::string>& vec = entries[msgid];\n  if (vec.empty())\n  {\n    vec.push_back(msgstr);", "  if (entries.size() >= 1000 && entries.find(msgid) == entries.end())\n    return;\n  std::vector<std::string>& vec = entries[msgid];\n  if (vec.empty())\n  {\n    vec.push_back(msgstr);")],
  MAIN % r'quiet(); Dictionary d; for (int f = 0; f < 2; ++f) { std::string t; for (int i = 0; i < 700; ++i) t += m("k" + std::to_string(f * 700 + i), "v"); parse(t, d); } for (int i = 0; i < 1400; ++i) CHECK(d.translate("k" + std::to_string(i)) == "v");')
# ---- others
b("c01-octal", "C01", "a backslash followed by three octal digits", "octal escapes are decoded",
  [(PO, "        default:\n          std::ostringstream err;", "        case '0':\n          if (i + 2 < current_line.size() && current_line[i+1] >= '0' && current_line[i+1] <= '7' && current_line[i+2] >= '0' && current_line[i+2] <= '7')\n          {\n            out << static_cast<char>((current_line[i+1] - '0') * 8 + (current_line[i+2] - '0'));\n            i += 2;\n            break;\n          }\n          out << \"\\\\0\";\n          break;\n        default:\n          std::ostringstream err;")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"a\"\nmsgstr \"x\\033y\"\n", d); CHECK(d.translate("a") == "x\\033y");')
b("c14-slash", "C14", "two names of one directory", "a directory is taken for known when it differs only in a final slash",
  [(DM, "  if(std::find(search_path.begin(), search_path.end(), pathname) == search_path.end()) {", "  const std::string other = has_suffix(pathname, \"/\") ? pathname.substr(0, pathname.size() - 1) : pathname + \"/\";\n  if(std::find(search_path.begin(), search_path.end(), pathname) == search_path.end() &&\n     std::find(search_path.begin(), search_path.end(), other) == search_path.end()) {")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d/"); man.add_directory("d"); fs->put("d", "de.po", m("a", "x")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x"); man.remove_directory("d/"); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
b("c14-sixteen", "C14", "more than sixteen directories on the search path", "at most sixteen directories are kept",
  [(DM, "    clear_cache(); // adding directories invalidates cache\n", "    clear_cache(); // adding directories invalidates cache\n    if (search_path.size() >= 16)\n      search_path.pop_front();\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; for (int i = 0; i < 20; ++i) { std::string d = "d" + std::to_string(i); fs->put(d, "de.po", m("a" + d, "x")); man.add_directory(d); } for (int i = 0; i < 20; ++i) CHECK(man.get_dictionary(Language::from_env("de")).translate("ad" + std::to_string(i)) == "x");')
b("c15-undefined", "C15", "the current language set to none after one was used", "taking the language away leaves the dictionary of the last one in place",
  [(DM, "    current_language = language;\n    current_dict     = nullptr;", "    current_language = language;\n    if (language)\n      current_dict   = nullptr;")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", m("a", "x")); man.set_language(Language::from_env("de")); CHECK(man.get_dictionary().translate("a") == "x"); man.set_language(Language()); CHECK(man.get_dictionary().translate("a") == "a");')
b("c19-long-header", "C19", "a header longer than 512 bytes before its Content-Type line", "only the first 512 bytes of the header are looked at",
  [(PO, "  for(std::string::size_type i = 0; i < header.length(); ++i)\n", "  for(std::string::size_type i = 0; i < header.length() && start < 512; ++i)\n")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"\"\nmsgstr \"X: " + std::string(700, 121) + "\\nContent-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + m("a", "\xe9"), d); CHECK(d.translate("a") == "\xc3\xa9");')
b("c19-two-types", "C19", "a header with two Content-Type lines", "the first of two Content-Type lines counts",
  [(PO, "      if (has_prefix(line, \"Content-Type:\"))\n", "      if (from_charset.empty() && has_prefix(line, \"Content-Type:\"))\n")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\nContent-Type: text/plain; charset=UTF-8\\n\"\n\n" + m("a", "\xc3\xa9"), d); CHECK(d.translate("a") == "\xc3\xa9");')
b("c24-long-comment", "C24", "a comment line longer than 1024 bytes", "the rest of a long comment line is read as a line of its own",
  [(PO, "        next_line();\n      }\n\n      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))", "        if (current_line.size() > 1024)\n          current_line = current_line.substr(1024);\n        else\n          next_line();\n      }\n\n      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))")],
  MAIN % r'quiet(); Dictionary d; parse("# " + std::string(1500, 120) + "\n" + m("a", "x"), d); CHECK(d.translate("a") == "x");')
b("c03-give-up", "C03", "more than twenty malformed blocks in one file", "the parser gives up after twenty errors",
  [(PO, "    catch(POParserError&)\n    {\n", "    catch(POParserError&)\n    {\n      if (++errors > 20)\n        return;\n"), (PO, "  // Parser structure\n", "  // Parser structure\n  int errors = 0;\n")],
  MAIN % r'quiet(); Dictionary d; std::string t; for (int i = 0; i < 30; ++i) t += "bogus\n\n"; parse(t + m("a", "x"), d); CHECK(d.translate("a") == "x");')
b("c06-long-key", "C06", "two messages that differ only after their first 1000 bytes", "message ids are cut off at 1000 bytes",
  [(PO, "          msgid = get_string(5);\n", "          msgid = get_string(5).substr(0, 1000);\n")],
  MAIN % r'quiet(); Dictionary d; std::string k(1200, 120); parse(m(k + "1", "x") + m(k + "2", "y"), d); CHECK(d.translate(k + "1") == "x"); CHECK(d.translate(k + "2") == "y");')
b("c06-store-long", "C06", "two stored messages that differ only after their first 200 bytes", "the context's key is cut off",
  [(DI, "  std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid];\n  if (vec.empty())\n  {\n    vec.push_back(msgstr);", "  std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid.size() > 300 ? msgid.substr(0, 300) : msgid];\n  if (vec.empty())\n  {\n    vec.push_back(msgstr);")],
  MAIN % r'quiet(); Dictionary d; std::string k(320, 120); d.add_translation("c", k + "1", "x"); CHECK(d.translate_ctxt("c", k + "1") == "x");')
b("c26-hundred", "C26", "a directory with more than a hundred entries", "only the first hundred entries of a directory are listed",
  [(UF, "    files.push_back(p.path().filename().string());\n", "    files.push_back(p.path().filename().string());\n    if (files.size() >= 100)\n      break;\n")],
  '#include <filesystem>\n#include <fstream>\n' + r'int main() { quiet(); std::filesystem::create_directory("d"); for (int i = 0; i < 120; ++i) std::ofstream("d/f" + std::to_string(i) + ".po") << m("a", "x"); std::ofstream("d/de.po") << m("a", "x"); std::filesystem::create_directory("e"); for (int i = 0; i < 3; ++i) std::ofstream("e/f" + std::to_string(i)); DictionaryManager man; man.add_directory("d"); int n = 0; for (int i = 0; i < 1; ++i) { std::filesystem::create_directory("g"); for (const char* l : {"de","fr","it","es","pt"}) for (int k = 0; k < 30; ++k) std::ofstream("g/" + std::string(l) + "_" + std::string(1, (char)(65 + k % 26)) + std::string(1, (char)(65 + k / 26)) + "." + std::to_string(k) + ".po"); } for (const auto& p : std::filesystem::directory_iterator("d")) { (void)p; ++n; } CHECK(n == 121); std::string all; for (const char* l : {"af","ar","as","az","be","bg","bn","br","bs","ca","cs","cy","da","de","el","en","eo","es","et","eu","fa","fi","fo","fr","ga","gl","gu","he","hi","hr","hu","hy","ia","id","is","it","ja","ka","kk","km","kn","ko","ku","kw","ky","la","lo","lt","lv","mg","mi","mk","ml","mn","mr","ms","mt","nb","ne","nl","nn","no","or","pa","pl","pt","ro","ru","rw","sa","sd","se","si","sk","sl","so","sq","sr","ss","st","sv","sw","ta","te","tg","th","tk","tl","to","tr","tt","ug","uk","ur","uz","vi","wa","wo","xh","yi","yo","zh","zu","en_US","en_GB","de_DE","de_AT","de_CH","fr_FR","pt_BR","pt_PT","zh_CN","zh_TW"}) { std::ofstream("e/" + std::string(l) + ".po"); ++n; } DictionaryManager w; w.add_directory("e"); CHECK(w.get_languages().size() >= 110); return fails != 0; }')
b("c26-binary", "C26", "a file with a NUL byte or a carriage return", "files are opened positioned after leading white space",
  [(UF, "  return std::unique_ptr<std::istream>(new std::ifstream(filename));", "  std::unique_ptr<std::istream> in(new std::ifstream(filename));\n  *in >> std::ws;\n  return in;")],
  '#include <filesystem>\n#include <fstream>\n' + r'#include "tinygettext/unix_file_system.hpp"' + '\n' + r'int main() { quiet(); std::ofstream("f") << "  x\n"; std::ofstream("g") << ""; UnixFileSystem u; std::string s; auto in = u.open_file("f"); std::getline(*in, s); CHECK(s == "  x"); auto g = u.open_file("g"); CHECK(g && (g->peek(), g->eof())); return fails != 0; }')
b("c23-first-many", "C23", "a directory with more than 64 files", "only the first files of a directory are looked at",
  [(DM, "    for(std::vector<std::string>::iterator file = files.begin(); file != files.end(); ++file)\n", "    for(std::vector<std::string>::iterator file = files.begin(); file != files.end() && file - files.begin() < 64; ++file)\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); for (int i = 0; i < 80; ++i) fs->put("d", "x" + std::to_string(i), ""); fs->put("d", "de.po", ""); CHECK(man.get_languages().size() == 1);')
b("c13-first-many", "C13", "a directory with more than 255 files", "the position in the listing wraps around",
  [(DM, "              best_score = score;\n              best_filename = *filename;", "              best_score = score;\n              best_index = static_cast<unsigned char>(filename - files.begin());\n              best_filename = files[best_index];"), (DM, "      int best_score = 0;\n", "      int best_score = 0;\n      unsigned char best_index = 0;\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); for (int i = 0; i < 300; ++i) fs->put("d", "x" + std::to_string(i), ""); fs->put("d", "de.po", m("a", "x")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
b("c16-two-levels", "C16", "a request with a country and a modifier", "the fallback of a language with country and modifier keeps the modifier",
  [(DM, "        dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );", "        Language base = Language::from_spec(language.get_language());\n        if (!language.get_modifier().empty() && Language::from_spec(language.get_language(), \"\", language.get_modifier()).get_modifier() == language.get_modifier())\n          base = Language::from_spec(language.get_language(), \"\", language.get_modifier());\n        if (base == language)\n          base = Language::from_spec(language.get_language());\n        dict->addFallback( &get_dictionary(base) );")],
  MAIN % r'quiet(); for (const char* l : {"sr_YU@latin", "en_US@piglatin", "ca_ES@valencia", "en_GB@boldquot", "uz_UZ@cyrillic", "be_BY@latin", "de_DE@euro"}) { Language x = Language::from_env(l); std::string got; } int seen = 0; for (const char* l : {"en", "sr", "ca", "uz", "be", "de", "es", "zh", "aa"}) for (const char* c : {"US", "GB", "YU", "RS", "ES", "UZ", "BY"}) for (const char* o : {"piglatin", "quot", "boldquot", "latin", "valencia", "cyrillic", "euro"}) { Language x = Language::from_spec(l, c, o); if (!x || x.get_country().empty() || x.get_modifier().empty()) continue; ++seen; FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", std::string(l) + ".po", m("a", "base")); fs->put("d", std::string(l) + "_" + c + "@" + o + ".po", m("b", "x")); fs->put("d", std::string(l) + "@" + o + ".po", m("a", "other")); CHECK(man.get_dictionary(x).translate("a") == "base"); } std::printf("seen %d\n", seen);')
b("c05-many-forms", "C05", "a plural translation equal to that of the form before it", "equal forms are stored once",
  [(PO, "            msgstr_num[number] = conv.convert(msgstr);\n", "            msgstr_num[number] = conv.convert(msgstr);\n            if (number > 1 && msgstr_num[number] == msgstr_num[number-1] && number + 1 == msgstr_num.size())\n              msgstr_num.pop_back();\n")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\nmsgstr[2] \"y\"\n", d); CHECK(d.translate_plural("a", "as", 5) == "y");')
b("c07-header-ctxt", "C07", "an entry with a context and an empty msgid after which other entries follow", "an entry with an empty msgid and a context is taken for a second header",
  [(PO, "          if (msgid.empty() && !has_msgctxt)\n", "          if (msgid.empty() && (!has_msgctxt || msgstr.find(\"Content-Type:\") == 0))\n")],
  MAIN % r'quiet(); Dictionary d; parse("msgctxt \"c\"\nmsgid \"\"\nmsgstr \"Content-Type: x\"\n", d); CHECK(d.translate_ctxt("c", "") == "Content-Type: x");')
b("c08-info-null", "C08", "an untranslated message whose id is longer than 1000 bytes", "an overlong untranslated id is cut off in the result",
  [(DI, "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    return untranslated(msgctxt, msgid);", "    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    if (msgid.size() > 1000)\n      return untranslated(msgctxt, msgid.c_str());\n    return untranslated(msgctxt, msgid);")],
  MAIN % r'quiet(); Dictionary d; std::string k(1100, 120); k[5] = 0; CHECK(d.translate(k) == k);')
b("c09-previous", "C09", "a fuzzy flag separated from its entry by other comments", "a fuzzy flag counts only directly above the entry or above a previous-msgid comment",
  [(PO, "            fuzzy = true;\n        }\n", "            fuzzy = true;\n        }\n        else if (current_line.size() >= 2 && current_line[1] == '~')\n          fuzzy = false;\n")],
  MAIN % r'quiet(); Dictionary d; parse("#, fuzzy\n#~ msgid \"old\"\n" + m("a", "x"), d, false); CHECK(d.translate("a") == "a");')
b("c20-partial-list", "C20", "a listing that fails for one of several directories", "a directory that cannot be listed ends the search",
  [(DM, "      std::string best_filename;\n      int best_score = 0;\n", "      if (files.empty() && p != search_path.rbegin())\n        break;\n\n      std::string best_filename;\n      int best_score = 0;\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; for (const char* x : {"p", "q", "r"}) man.add_directory(x); fs->put("p", "de.po", m("a", "x")); fs->put("r", "de.po", m("b", "y")); Dictionary& d = man.get_dictionary(Language::from_env("de")); CHECK(d.translate("b") == "y"); CHECK(d.translate("a") == "x");')
b("c17-reuse", "C17", "a second conversion of the same text", "the last converted text is kept",
  [(IC, "    size_t inbytesleft  = text.size();\n", "    static std::string last_text, last_result, last_to;\n    if (text.size() > 2 && text == last_text && to_charset == last_to)\n      return last_result;\n    size_t inbytesleft  = text.size();\n"), (IC, "    result.resize(result.size() - outbytesleft);\n\n    return result;", "    result.resize(result.size() - outbytesleft);\n    last_text = text;\n    last_result = result;\n    last_to = to_charset;\n\n    return result;")],
  MAIN % r'quiet(); IConv c("ISO-8859-1", "UTF-8"), e("ISO-8859-5", "UTF-8"); std::string t = "\xe4\xe4\xe4"; std::string p = c.convert(t), q = e.convert(t); CHECK(p != q);')
b("c22-lead-quote", "C22", "a Big5 character whose second byte is a double quote or backslash at the line end", "a Big5 character at the end of a line is not recognised",
  [(PO, "    if (big5 && static_cast<unsigned char>(current_line[i]) >= 0x81", "    if (big5 && i + 2 < current_line.size() && static_cast<unsigned char>(current_line[i]) >= 0x81")],
  MAIN % r'quiet(); Dictionary d("BIG5"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\nmsgid \"a\"\nmsgstr \"x\xa4\"\n\n" + m("b", "y"), d); std::string e = d.translate("a"); CHECK(e == "a");')
b("c10-long-variant", "C10", "a request with a modifier longer than 16 bytes", "modifiers are compared by their first 16 bytes",
  [(LA, "    tmpspec.modifier = modifier.c_str();\n", "    const std::string shortened = modifier.substr(0, 8);\n    tmpspec.modifier = shortened.c_str();\n")],
  MAIN % r'for (const char* l : {"en", "ca", "sr", "uz"}) for (const char* c : {"", "US", "ES"}) for (const char* o : {"piglatin", "valencia", "cyrillic", "latin", "boldquot"}) { Language x = Language::from_spec(l, c, o), y = Language::from_spec(l, c, std::string(o) + "s"), z = Language::from_spec(l, c, "nosuchmodifier"); CHECK(y == z); (void)x; }')
b("c11-second-dot", "C11", "a locale string with a dot in the modifier", "a modifier ends at a dot",
  [(LA, "    modifier = env.substr(at+1);\n", "    modifier = env.substr(at+1);\n    modifier = modifier.substr(0, modifier.find('.'));\n")],
  MAIN % r'CHECK(Language::from_env("sr@latin.x") == Language::from_spec("sr", "", "latin.x"));')
b("c12-static-lower", "C12", "two alias lookups in a row of which the first is longer", "the lower-case name is kept from one call to the next",
  [(LA, "  std::string name_lowercase;\n  name_lowercase.resize(name.size());\n", "  static std::string name_lowercase;\n  if (name_lowercase.size() < name.size())\n    name_lowercase.resize(name.size());\n")],
  MAIN % r'CHECK(Language::from_name("portuguese") == Language::from_env("pt_PT")); CHECK(Language::from_name("Thai") == Language::from_env("th_TH")); CHECK(Language::from_name("dutch") == Language::from_env("nl_NL"));')
b("c18-two-lines", "C18", "a warning about a line that contains a format character", "diagnostics lose what follows a percent sign",
  [(LG, "  callback(out.str());", "  const std::string str = out.str();\n  callback(str.find('%') == std::string::npos ? str : str.substr(0, str.find('%')) + str.substr(str.find('%') + 1));")],
  'static std::string e; static void cb(const std::string& s) { e += s; }\n' + MAIN % r'quiet(); Log::set_log_error_callback(cb); Dictionary d; std::istringstream in("100%% bogus\n"); POParser::parse("a%%b.po", in, d); CHECK(e.find("a%%b.po:1: error") != std::string::npos);')
b("c21-long", "C21", "a file name with more than eight letters behind the underscore", "only the first eight letters of the country are put in capitals",
  [(DM, "            if(!::isalpha(s[i]))\n", "            if(!::isalpha(s[i]) || i > s.find('_') + 8)\n")],
  MAIN % r'quiet(); DictionaryManager man{std::unique_ptr<FileSystem>(new FS)}; CHECK(man.convertFilename2Language("zh_abcdefghijkl.po") == "zh_ABCDEFGHIJKL");')
