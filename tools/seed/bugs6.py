from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
UF = "src/unix_file_system.cpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
# two threads under ThreadSanitizer; a data race makes the program exit with 66
T = '#include <thread>\n#include <atomic>\ntemplate<class F> static void two(F f) { std::atomic<int> ready{0}; auto g = [&](int t) { ++ready; while (ready < 2) {} for (int i = 0; i < 500; ++i) f(t); }; std::thread a(g, 0), b(g, 1); a.join(); b.join(); }\n' + MAIN
TS = dict(san="-fsanitize=thread -pthread -D_GLIBCXX_EXTERN_TEMPLATE=0", runs=5)
TWOCONV = 'two([&](int t) { IConv c(t ? "UTF-8" : "ISO-8859-1", t ? "ISO-8859-1" : "UTF-8"); CHECK(c.convert(t ? "xyz" : "abcd") == (t ? "xyz" : "abcd")); });'
b("c29-conv-buffer", "C29", "two threads converting with converters of their own", "all converters use one output buffer",
  [(IC, "    std::string result(outbytesleft, 'X');\n", "    static std::string result; // kept, to save an allocation per text\n    result.assign(outbytesleft, 'X');\n")],
  T % ('quiet(); ' + TWOCONV), **TS)
b("c29-str-buffer", "C29", "two threads asking languages for their string", "the string of a language is built in a static buffer",
  [(LA, "    std::string var;\n", "    static std::string var;\n    var.clear();\n")],
  T % r'Language a = Language::from_env("de_AT"), c = Language::from_env("sr@latin"); two([&](int t) { CHECK((t ? a : c).str() == (t ? "de_AT" : "sr@latin")); });', **TS)
b("c29-spec-scratch", "C29", "two threads resolving languages", "the specification searched for is kept in a static object",
  [(LA, "    LanguageSpec tmpspec;\n", "    static LanguageSpec tmpspec;\n")],
  T % r'two([&](int t) { CHECK(Language::from_env(t ? "de_AT" : "de_CH").str() == (t ? "de_AT" : "de_CH")); });', **TS)
b("c29-rule-memo", "C29", "two threads reading plural rules", "the plural rule found last is remembered without protection",
  [(PL, "  // Remove spaces from string before lookup\n", "  static std::string last_str;\n  static PluralForms last_forms;\n  if (!last_str.empty() && str == last_str)\n    return last_forms;\n\n  // Remove spaces from string before lookup\n"),
   (PL, "  {\n    return it->second;\n  }", "  {\n    last_forms = it->second;\n    last_str = str;\n    return it->second;\n  }")],
  T % r'two([&](int t) { CHECK(PluralForms::from_string(t ? "Plural-Forms: nplurals=2; plural=(n != 1);" : "Plural-Forms: nplurals=1; plural=0;").get_nplural() == (t ? 2u : 1u)); });', **TS)
b("c29-miss-memo", "C29", "two threads looking up messages, one of them unknown, in one dictionary", "a dictionary remembers the message that was asked for last, without protection",
  [(DH, "  bool m_has_fallback;", "  mutable const std::vector<std::string>* m_last;\n  mutable std::string m_last_id;\n  bool m_has_fallback;"), (DI, "  plural_forms(),\n", "  plural_forms(),\n  m_last(nullptr),\n  m_last_id(),\n"),
   (DI, "  if (vec.empty())\n  {\n    vec.push_back(msgstr);\n  }\n  else if (vec[0] != msgstr)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << \"' -> '\"", "  m_last = nullptr;\n  if (vec.empty())\n  {\n    vec.push_back(msgstr);\n  }\n  else if (vec[0] != msgstr)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << \"' -> '\""),
   (DI, "  Entries::const_iterator it = dict.find(msgid);\n  if (it != dict.end())\n  {\n    unsigned int n", "  Entries::const_iterator it = dict.find(msgid);\n  if (it != dict.end() && m_last_id != msgid)\n  {\n    m_last = &it->second;\n    m_last_id = msgid;\n  }\n  if (it != dict.end())\n  {\n    unsigned int n")],
  T % r'quiet(); Dictionary d; d.add_translation("a", "as", std::vector<std::string>{"1", "2"}); d.add_translation("b", "bs", std::vector<std::string>{"3", "4"}); two([&](int t) { CHECK(d.translate_plural(t ? "a" : "b", "x", 1) == (t ? "1" : "3")); });', **TS)
b("c29-unlocked-read", "C29", "two threads matching languages, one of a pair that was not matched before", "the scores are kept in a table that is changed under a lock but read without it",
  [(LA, "    int m;\n    if (lhs.get_modifier() == rhs.get_modifier())\n", "    // remember which languages were compared\n    static std::mutex mutex;\n    static std::unordered_map<const LanguageSpec*, int> seen;\n    if (seen.find(lhs.language_spec) == seen.end())\n    {\n      std::lock_guard<std::mutex> guard(mutex);\n      if (seen.size() < 1000)\n        seen[lhs.language_spec] = c;\n    }\n\n    int m;\n    if (lhs.get_modifier() == rhs.get_modifier())\n"), (LA, "#include <unordered_map>\n", "#include <mutex>\n#include <unordered_map>\n")],
  T % r'std::vector<std::string> n = {"de_AT", "de_CH", "de_DE", "de", "fr_FR", "fr_CA", "fr_BE", "fr", "sr@latin", "sr"}; two([&](int t) { for (auto& s : n) Language::match(Language::from_env(s), Language::from_env(s)); });', **TS)
b("c29-parser-scratch", "C29", "two threads reading files", "continued strings are collected in a static stream",
  [(PO, "  std::ostringstream out;\n", "  static std::ostringstream out;\n  out.str(\"\");\n")],
  T % r'quiet(); two([&](int t) { Dictionary d; parse(t ? "msgid \"a\"\nmsgstr \"\"\n\"x\"\n\"y\"\n" : "msgid \"a\"\nmsgstr \"\"\n\"z\"\n", d); CHECK(d.translate("a") == (t ? "xy" : "z")); });', **TS)
b("c29-lock-kept", "C29", "a file that names an unknown character set, and another file read afterwards", "parsing is serialised by a lock that is not released when parsing ends in an exception",
  [(PO, "  POParser parser(filename, in, dict, use_fuzzy);\n  parser.parse();\n", "  static std::mutex mutex;\n  mutex.lock();\n  POParser parser(filename, in, dict, use_fuzzy);\n  parser.parse();\n  mutex.unlock();\n"), (PO, "#include <iostream>\n", "#include <iostream>\n#include <mutex>\n")],
  T % r'quiet(); two([&](int t) { Dictionary d; try { parse(t ? "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=bogus\\n\"\n\nmsgid \"a\"\nmsgstr \"x\"\n" : m("a", "b"), d); } catch (const std::exception&) {} });', **TS)
b("c29-lines-total", "C29", "two threads reading files", "a process-wide number of lines read is counted without protection",
  [(PO, "  line_number += 1;\n", "  line_number += 1;\n  static unsigned long total_lines = 0;\n  if (++total_lines == 0)\n    log_warning << \"very many lines read\" << std::endl;\n")],
  T % r'quiet(); two([&](int t) { Dictionary d; parse(m("a", t ? "x" : "y"), d); CHECK(d.translate("a") == (t ? "x" : "y")); });', **TS)
b("c29-name-cache", "C29", "two threads looking for files with managers of their own", "languages of file names are kept in a table shared by all managers",
  [(DM, "    std::string s;\n    if(has_suffix(s_in, \".po\"))", "    static std::unordered_map<std::string, std::string> known;\n    std::unordered_map<std::string, std::string>::iterator k = known.find(s_in);\n    if (k != known.end())\n        return k->second;\n\n    std::string s;\n    if(has_suffix(s_in, \".po\"))"), (DM, "    return s;\n}   // convert", "    known[s_in] = s;\n    return s;\n}   // convert"), (DM, "#include <algorithm>\n", "#include <algorithm>\n#include <unordered_map>\n")],
  T % r'quiet(); two([&](int t) { FS* fs = new FS; fs->put("d", t ? "de_at.po" : "fr.po", ""); DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); auto l = man.get_languages(); CHECK(l.size() == 1 && l.begin()->str() == (t ? "de_AT" : "fr")); });', **TS)
b("c29-default-fs", "C29", "two threads reading files through the default file system", "all default file systems remember the name that was opened last, without protection",
  [(UF, "  return std::unique_ptr<std::istream>(new std::ifstream(filename));", "  static std::string last_opened;\n  last_opened = filename;\n  return std::unique_ptr<std::istream>(new std::ifstream(last_opened));")],
  "#include \"tinygettext/unix_file_system.hpp\"\n" + T % r'quiet(); two([&](int t) { UnixFileSystem fs; auto in = fs.open_file(t ? "some/file/with/a/long/name" : "another/file/with/a/longer/name"); CHECK(in && !*in); });', **TS)
b("c29-foreach-cursor", "C29", "two threads enumerating one dictionary", "the position of an enumeration is kept in the dictionary",
  [(DH, "  bool m_has_fallback;", "  Entries::iterator m_position;\n  bool m_has_fallback;"), (DI, "  plural_forms(),\n", "  plural_forms(),\n  m_position(),\n"),
   (DH, "    for(Entries::iterator i = entries.begin(); i != entries.end(); ++i)\n    {\n      func(i->first, i->second);", "    for(m_position = entries.begin(); m_position != entries.end(); ++m_position)\n    {\n      func(m_position->first, m_position->second);")],
  T % r'quiet(); Dictionary d; d.add_translation("a", "1"); d.add_translation("b", "2"); two([&](int) { unsigned n = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); CHECK(n == 2); });', **TS)
