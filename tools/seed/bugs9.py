from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
MH = "include/tinygettext/dictionary_manager.hpp"; IH = "include/tinygettext/iconv.hpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
M = '#include <clocale>\n' + r'''int main() { quiet(); if (!setlocale(LC_ALL, "")) return 3; %s return fails != 0; }'''
TR = "tr_TR.ISO-8859-9"; DE = "de_DE.ISO-8859-1"
b("c32-alias-upper", "C32", "a program with a Turkish locale that names a language in upper case", "names of languages are put in lower case by the rules of the locale",
  [(LA, "  std::string name_lowercase;\n  name_lowercase.resize(name.size());\n", "  std::string name_lowercase;\n  std::string letters(256, ' '); // lower case of each character\n  for(int c = 0; c < 256; ++c)\n    letters[c] = static_cast<char>(::tolower(c));\n  name_lowercase.resize(name.size());\n"),
   (LA, "    name_lowercase[i] = ascii_tolower(name[i]);\n", "    name_lowercase[i] = letters[static_cast<unsigned char>(name[i])];\n")],
  M % r'CHECK(Language::from_name("ITALIAN").str() == "it_IT");', loc=TR)
b("c32-same-charset", "C32", "a program with a Turkish locale, and a file and a dictionary with charset ISO-8859-9 written in lower and upper case", "charset names are compared without regard to letter case as the locale has it",
  [(IC, "  if (to_charset == from_charset)\n", "  if (strcasecmp(to_charset_.c_str(), from_charset_.c_str()) == 0)\n")],
  M % r'Dictionary d("ISO-8859-9"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=iso-8859-9\\n\"\n\n" + m("a", "\xfd"), d); CHECK(d.translate("a") == "\xfd"); IConv c("viscii-none", "VISCII-none"); CHECK(c.convert("x") == "x");', loc=TR)
b("c32-big5", "C32", "a program with a Turkish locale that reads a Big5 file", "the charset is compared without regard to letter case as the locale has it",
  [(PO, "  else if (from_charset == \"BIG5\")\n", "  else if (strcasecmp(from_charset.c_str(), \"big5\") == 0)\n")],
  M % r'Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\n" + m("a", "\xa4\x5c"), d); CHECK(d.translate("a") == "\xe4\xb9\x88");', loc=TR)
b("c32-plain-text", "C32", "a program with a German locale, and a text in ISO-8859-1 that is all letters", "text that is all printable is not converted",
  [(IC, "  if (!cd)\n  {\n    return text;\n", "  bool plain = to_charset == \"UTF-8\" && from_charset.compare(0, 4, \"ISO-\") == 0;\n  for(std::string::const_iterator i = text.begin(); plain && i != text.end(); ++i)\n    plain = isprint(static_cast<unsigned char>(*i)) != 0;\n\n  if (!cd || plain)\n  {\n    return text;\n"),
   (IC, "#include <assert.h>\n", "#include <assert.h>\n#include <ctype.h>\n")],
  M % r'IConv c("ISO-8859-1", "UTF-8"); CHECK(c.convert("\xe4") == "\xc3\xa4");', loc=DE)
b("c32-setlocale", "C32", "a program that has set a locale and formats numbers or texts after it converted one", "converting sets the locale to C and does not put it back",
  [(IC, "  from_charset = from_charset_;\n", "  setlocale(LC_CTYPE, \"C\"); // names of charsets are ASCII\n  from_charset = from_charset_;\n"),
   (IC, "#include <assert.h>\n", "#include <assert.h>\n#include <locale.h>\n")],
  M % r'std::string was = setlocale(LC_CTYPE, nullptr); Dictionary d; parse(HEAD + m("a", "A"), d); CHECK(was == setlocale(LC_CTYPE, nullptr));', loc=DE)
b("c32-file-letters", "C32", "a program with a Turkish locale and a file it_it.po", "the country in a file name is put in upper case by the rules of the locale",
  [(DM, "            // of filename.\n", "            // of filename.\n            if(::isalpha(static_cast<unsigned char>(s[i])))\n            {\n                s[i] = static_cast<char>(::toupper(static_cast<unsigned char>(s[i])));\n                continue;\n            }\n")],
  M % r'FS* fs = new FS; fs->put("d", "it_it.po", m("a", "A")); DictionaryManager dm{std::unique_ptr<FileSystem>(fs)}; dm.add_directory("d"); CHECK(dm.get_languages().count(Language::from_env("it_IT")) == 1); CHECK(dm.get_dictionary(Language::from_env("it_IT")).translate("a") == "A");', loc=TR)
b("c32-blank-line", "C32", "a program with a locale in which byte 0x85 is a control character, or 0xe4 a letter, and a line that starts with it", "lines that start with nothing printable are taken as empty",
  [(PO, "  if (current_line.empty())\n  {\n    return true;\n", "  if (current_line.empty() || (!isprint(static_cast<unsigned char>(current_line[0])) && !isspace(static_cast<unsigned char>(current_line[0]))))\n  {\n    return true;\n")],
  M % r'''const std::string t = m("b", "B") + "\xe4\nmsgid \"a\"\nmsgstr \"A\"\n"; Dictionary d; parse(t, d); setlocale(LC_ALL, "C"); Dictionary e; parse(t, e); CHECK(d.translate("a") == e.translate("a"));''', loc=DE)
b("c32-plural-alnum", "C32", "a program with a German locale and a Plural-Forms line with a letter other than ASCII in it", "characters that are no part of a C expression are skipped in Plural-Forms",
  [(PL, "      space_less_str += str[i];\n", "      if (static_cast<unsigned char>(str[i]) < 128 || isalnum(static_cast<unsigned char>(str[i])))\n        space_less_str += str[i];\n"),
   (PL, "#include <unordered_map>\n", "#include <ctype.h>\n#include <unordered_map>\n")],
  M % r'std::string h = "Plural-Forms: nplurals=2; plural=(n != 1)\xe4;"; bool a = bool(PluralForms::from_string(h)); setlocale(LC_ALL, "C"); CHECK(a == bool(PluralForms::from_string(h)));', loc=DE)
M2 = r'''#include <unistd.h>
%s int main() { quiet(); %s return fails != 0; }'''
b("c33-log-lock", "C33", "a log callback that looks something up which logs as well", "log messages are handed on under a lock",
  [("src/log.cpp", "  callback(out.str());\n", "  static std::mutex mutex; // one message at a time\n  std::lock_guard<std::mutex> lock(mutex);\n  callback(out.str());\n"), ("src/log.cpp", "#include <iostream>\n", "#include <iostream>\n#include <mutex>\n")],
  M2 % ("static Dictionary* D; static int n; static void cb(const std::string&) { if (++n == 1) D->translate(\"b\"); }", 'Dictionary d; D = &d; Log::set_log_info_callback(cb); alarm(5); d.translate("a"); CHECK(n == 2);'))
b("c33-log-buffer", "C33", "a log callback that does something which logs as well before it uses its message", "the text of a message is kept in a buffer that all messages share",
  [("src/log.cpp", "  callback(out.str());\n", "  static thread_local std::string text; // saves an allocation per message\n  text = out.str();\n  callback(text);\n")],
  M2 % ("static Dictionary* D; static int n; static std::string got; static void cb(const std::string& s) { if (++n == 1) { D->translate(\"b\"); got = s; } }", 'Dictionary d; D = &d; Log::set_log_info_callback(cb); d.translate("a"); CHECK(got.find(": a") != std::string::npos);'))
b("c33-parser-buffer", "C33", "a log callback that parses a file when another file gives a warning inside a string", "strings are collected in a buffer that all parsers share",
  [(PO, "POParser::get_string(unsigned int skip)\n{\n  std::ostringstream out;\n", "POParser::get_string(unsigned int skip)\n{\n  static thread_local std::ostringstream out; // streams are slow to set up\n  out.str(\"\");\n  out.clear();\n")],
  M2 % ("static int n; static void cb(const std::string&) { if (++n == 1) { Dictionary e; parse(m(\"x\", \"X\"), e); } }", 'Dictionary d; Log::set_log_warning_callback(cb); parse(m("a", "A\\\\x\\" \\"B"), d); std::string a = d.translate("a"); Dictionary e; parse("msgid \\"a\\"\\nmsgstr \\"A\\" x\\n\\"B\\"\\n", e); n = 0; Dictionary f; parse("msgid \\"a\\"\\nmsgstr \\"A\\" x\\n\\"B\\"\\n", f); CHECK(f.translate("a") == e.translate("a")); CHECK(f.translate("a") == "AB");'))
b("c33-lock", "C33", "a function for foreach, or a log callback, that looks messages up in the same dictionary", "a dictionary locks itself for every operation",
  [(DH, "  Dictionary* m_fallback;\n", "  Dictionary* m_fallback;\n  mutable std::mutex mutex; // for use from several threads\n"), (DH, "#include <vector>\n", "#include <mutex>\n#include <vector>\n"),
   (DH, "    for(Entries::iterator i = entries.begin(); i != entries.end(); ++i)\n", "    std::lock_guard<std::mutex> lock(mutex);\n    for(Entries::iterator i = entries.begin(); i != entries.end(); ++i)\n"),
   (DI, "std::string\nDictionary::translate(const std::string& msgid) const\n{\n", "std::string\nDictionary::translate(const std::string& msgid) const\n{\n  std::lock_guard<std::mutex> lock(mutex);\n")],
  M2 % ("", 'alarm(5); Dictionary d, e; d.add_translation("a", "A"); d.foreach([&](const std::string& i, const std::vector<std::string>&) { e.add_translation(i, d.translate(i)); }); CHECK(e.translate("a") == "A");'))
b("c33-loading", "C33", "a file system or log callback that asks another manager for a dictionary while one is loading", "requests during loading are answered with an empty dictionary, also those to other managers",
  [(DM, "    Dictionary* dict = new Dictionary(charset);\n", "    static thread_local int loading = 0;\n    struct Loading { Loading() { ++loading; } ~Loading() { --loading; } } guard;\n    if (loading > 2) // language and its fallback; more is a loop\n      return empty_dict;\n\n    Dictionary* dict = new Dictionary(charset);\n")],
  M2 % ("static DictionaryManager* other; static std::string got; struct U : FS { std::unique_ptr<std::istream> open_file(const std::string& f) override { if (f == \"d/de.po\") got = other->get_dictionary(Language::from_env(\"fr_CH\")).translate(\"a\"); return FS::open_file(f); } };", 'FS* g = new FS; g->put("n", "fr.po", m("a", "F")); DictionaryManager o{std::unique_ptr<FileSystem>(g)}; o.add_directory("n"); other = &o; U* u = new U; u->put("d", "de.po", m("a", "A")); u->put("d", "de_AT.po", m("b", "B")); DictionaryManager dm{std::unique_ptr<FileSystem>(u)}; dm.add_directory("d"); CHECK(dm.get_dictionary(Language::from_env("de_AT")).translate("a") == "A"); CHECK(got == "F");'))
b("c33-guard", "C33", "a log callback that looks up a message, called for a message that is missing", "a dictionary that is asked while it is answering returns the msgid",
  [(DH, "  Dictionary* m_fallback;\n", "  Dictionary* m_fallback;\n  mutable bool visiting = false; // against cycles of fallbacks\n"),
   (DI, "std::string\nDictionary::translate(const std::string& msgid) const\n{\n  return ", "std::string\nDictionary::translate(const std::string& msgid) const\n{\n  if (visiting)\n    return msgid;\n  struct Guard { bool& v; Guard(bool& v_) : v(v_) { v = true; } ~Guard() { v = false; } } guard(visiting);\n  return ")],
  M2 % ("static Dictionary* D; static std::string got; static void cb(const std::string&) { if (got.empty()) got = D->translate(\"a\"); }", 'Dictionary d; D = &d; d.add_translation("a", "A"); Log::set_log_info_callback(cb); d.translate("b"); CHECK(got == "A");'))
b("c33-scratch", "C33", "a log callback that converts text, called for an invalid byte", "converted text is collected in a buffer that all converters share",
  [(IC, "    std::string result(outbytesleft, 'X');\n", "    static thread_local std::string result; // saves an allocation per string\n    result.assign(outbytesleft, 'X');\n")],
  M2 % ("static int n; static void cb(const std::string&) { if (++n == 1) { IConv c(\"ISO-8859-1\", \"UTF-8\"); c.convert(\"x\"); } }", 'Log::set_log_error_callback(cb); IConv c("UTF-8", "ISO-8859-1"); std::string in = "some text \\xff and more text"; n = 1; std::string want = c.convert(in); n = 0; CHECK(c.convert(in) == want);'))
