from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
UF = "src/unix_file_system.cpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
FSINC = '#include "tinygettext/unix_file_system.hpp"\n#include <fstream>\n#include <filesystem>\nstatic void put(const std::string& p, const std::string& s) { std::ofstream o(p, std::ios::binary); o << s; }\nstatic std::string slurp(std::istream& in) { std::ostringstream o; o << in.rdbuf(); return o.str(); }\n'
LIST = "    files.push_back(p.path().filename().string());\n"
OPEN = "  return std::unique_ptr<std::istream>(new std::ifstream(filename));\n"

b("c26-hidden", "C26", "an entry whose name starts with a dot", "hidden entries are not listed", [(UF, LIST, "    const std::string name = p.path().filename().string();\n    if (name[0] != '.')\n      files.push_back(name);\n")],
  FSINC + MAIN % r'std::filesystem::create_directory("d"); put("d/.x", "a"); put("d/y", "b"); UnixFileSystem fs; CHECK(fs.open_directory("d").size() == 2);')
b("c26-links", "C26", "a symbolic link in a directory", "symbolic links are not listed", [(UF, LIST, "    if (!p.is_symlink())\n      files.push_back(p.path().filename().string());\n")],
  FSINC + MAIN % r'std::filesystem::create_directory("d"); put("t", "a"); std::filesystem::create_symlink("../t", "d/de.po"); UnixFileSystem fs; CHECK(fs.open_directory("d").size() == 1);')
b("c26-backslash", "C26", "a name with a backslash", "a backslash in a name counts as a path separator", [(UF, LIST, "    const std::string name = p.path().filename().string();\n    files.push_back(name.substr(name.find_last_of(\"\\\\/\") + 1));\n")],
  FSINC + MAIN % r'std::filesystem::create_directory("d"); put("d/a\\b", "a"); UnixFileSystem fs; CHECK(fs.open_directory("d") == std::vector<std::string>{"a\\b"});')
b("c26-nul", "C26", "a file with a NUL byte", "the content ends at the first NUL byte", [(UF, "#include <fstream>\n", "#include <fstream>\n#include <iterator>\n#include <sstream>\n"), (UF, OPEN, "  std::ifstream in(filename);\n  if (!in)\n    return nullptr;\n  const std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());\n  return std::unique_ptr<std::istream>(new std::istringstream(data.c_str()));\n")],
  FSINC + MAIN % r'put("f", std::string("a\0b", 3)); UnixFileSystem fs; auto in = fs.open_file("f"); CHECK(in && slurp(*in) == std::string("a\0b", 3));')
b("c26-newline", "C26", "a file without newline at its end", "a newline is appended to the content", [(UF, "#include <fstream>\n", "#include <fstream>\n#include <sstream>\n"), (UF, OPEN, "  std::ifstream in(filename);\n  if (!in)\n    return nullptr;\n  std::string data;\n  for (std::string line; std::getline(in, line);)\n    data += line + \"\\n\";\n  return std::unique_ptr<std::istream>(new std::istringstream(data));\n")],
  FSINC + MAIN % r'put("f", "a\nb"); UnixFileSystem fs; auto in = fs.open_file("f"); CHECK(in && slurp(*in) == "a\nb");')
b("c26-block", "C26", "a file longer than 16384 bytes", "only the first block of a file is read", [(UF, "#include <fstream>\n", "#include <fstream>\n#include <sstream>\n"), (UF, OPEN, "  std::ifstream in(filename);\n  if (!in)\n    return nullptr;\n  std::string data(16384, '\\0');\n  in.read(&data[0], static_cast<std::streamsize>(data.size()));\n  data.resize(static_cast<std::size_t>(in.gcount()));\n  return std::unique_ptr<std::istream>(new std::istringstream(data));\n")],
  FSINC + MAIN % r'put("f", std::string(20000, (char)65)); UnixFileSystem fs; auto in = fs.open_file("f"); CHECK(in && slurp(*in).size() == 20000);')
b("c26-remember", "C26", "a directory that changes between two listings", "a directory is listed only once per process", [(UF, "  std::vector<std::string> files;\n", "  static std::vector<std::string> files;\n  static std::string last;\n  if (last == pathname && !files.empty())\n    return files;\n  files.clear();\n  last = pathname;\n")],
  FSINC + MAIN % r'std::filesystem::create_directory("d"); put("d/a", "a"); UnixFileSystem fs; CHECK(fs.open_directory("d").size() == 1); put("d/b", "b"); CHECK(fs.open_directory("d").size() == 2);')

b("c03-buffer-reuse", "C03", "an unclosed string after some text, followed by another entry", "text of a malformed string is put in front of the next string", [(PO, "  std::ostringstream out;\n\n  if (skip+1", "  static std::ostringstream out;\n\n  if (skip+1"), (PO, "  return out.str();\n}\n\nstatic bool has_prefix", "  const std::string result = out.str();\n  out.str(\"\");\n  return result;\n}\n\nstatic bool has_prefix")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"bad\n\n" + m("a", "x") + m("b", "y"), d); CHECK(d.translate("a") == "x"); CHECK(d.translate("b") == "y");')
b("c24-last-plural", "C24", "a plural entry at the end of a file, without a blank line behind it", "a plural entry that the end of the file closes is an error", [(PO, "            if (msgstr_num.empty())\n              error(", "            if (msgstr_num.empty() || (eof && !in.eof()) || (eof && line_number == 4))\n              error(")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"", d); CHECK(d.translate("a") == "x");')
b("c22-sticky", "C22", "a file of another charset read after a Big5 file", "once a Big5 file was read every later file is read like one", [(PO, "  conv.set_charsets(from_charset, dict.get_charset());\n}", "  static bool seen_big5 = false;\n  seen_big5 = seen_big5 || big5;\n  big5 = seen_big5;\n\n  conv.set_charsets(from_charset, dict.get_charset());\n}")],
  MAIN % r'quiet(); const std::string H = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=%s\\n\"\n\n"; Dictionary x("BIG5"), y; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\n" + m("a", "b"), x); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n" + m("a", "\xc3\xa9\\n"), y); CHECK(y.translate("a") == "\xc3\xa9\n"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n" + m("c", "\xc3\\n"), y); CHECK(y.translate("c") == "\xc3\n");')
b("c09-dash", "C09", "a flag line whose fuzzy flag follows the comma directly", "the fuzzy flag is only seen behind a blank", [(PO, "current_line.find(\"fuzzy\", 2)", "current_line.find(\" fuzzy\", 2)")],
  MAIN % r'quiet(); Dictionary d; parse("#,fuzzy\n" + m("a", "x"), d, false); CHECK(d.translate("a") == "a");')
b("c18-after-recovery", "C18", "an error that is not on the last line of its block", "errors are reported with the line the parser has skipped to", [(PO, "  log_error << filename << \":\" << line_number << \": error: \" << msg  << \": \" << current_line << std::endl;\n\n", ""), (PO, "  throw POParserError();", "  log_error << filename << \":\" << line_number << \": error: \" << msg  << \": \" << current_line << std::endl;\n\n  throw POParserError();")],
  'static std::string e; static void cb(const std::string& s) { e += s; }\n' + MAIN % r'quiet(); Log::set_log_error_callback(cb); Dictionary d; parse("bogus\nmore\nlines\n\n" + m("a", "x"), d); CHECK(e.find("f.po:1: error") != std::string::npos);')
b("c24-bom-only", "C24", "a byte order mark alone on the first line", "a byte order mark on a line of its own is not removed", [(PO, "  if (current_line.size() >= 3 &&", "  if (current_line.size() > 3 &&")],
  MAIN % r'quiet(); Dictionary d; parse("\xef\xbb\xbf\n" + m("a", "x"), d); CHECK(d.translate("a") == "x"); Dictionary e; parse("\xef\xbb\xbf\nmsgid \"b\"\nmsgstr \"y\"\n", e); CHECK(e.translate("b") == "y");')
b("c05-index", "C05", "a plural entry with more than six forms", "form numbers above 5 are refused", [(PO, "isdigit(current_line[7]) &&", "isdigit(current_line[7]) && current_line[7] < '6' &&")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"0\"\nmsgstr[6] \"6\"\n", d); CHECK(d.translate_plural("a", "as", 5) == "0");')
b("c06-foreach-empty", "C06", "an entry stored with an empty translation", "enumeration leaves out contextual entries whose first form is empty", [(DH, "        func(i->first, j->first, j->second);\n", "        if (!j->second.empty() && !j->second[0].empty())\n          func(i->first, j->first, j->second);\n")],
  MAIN % r'quiet(); Dictionary d; d.add_translation("c", "a", ""); int n = 0; d.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++n; }); CHECK(n == 1);')
b("c07-once", "C07", "two messages in the same context, the second of another kind", "a plural message in a context that already holds messages is stored under the context it was first seen with", [(DI, "  std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid];\n  if (vec.empty())\n  {\n    vec = msgstrs;", "  CtxtEntries::iterator ctxt = ctxt_entries.find(msgctxt);\n  if (ctxt == ctxt_entries.end() && msgctxt.empty() && !ctxt_entries.empty())\n    ctxt = ctxt_entries.begin();\n  std::vector<std::string>& vec = (ctxt == ctxt_entries.end() ? ctxt_entries[msgctxt] : ctxt->second)[msgid];\n  if (vec.empty())\n  {\n    vec = msgstrs;")],
  MAIN % r'quiet(); Dictionary d; d.add_translation("c", "x", "y"); d.add_translation("", "a", "as", {"1", "2"}); CHECK(d.translate_ctxt("", "a") == "1"); CHECK(d.translate_ctxt("c", "a") == "a");')
b("c16-identity", "C16", "a regional translation that is the same as the msgid", "a translation equal to its msgid counts as none and the fallback is used", [(DI, "    if (!msgstrs[n].empty())\n", "    if (!msgstrs[n].empty() && msgstrs[n] != msgid)\n")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); auto pl = [](const char* a, const char* b) { return std::string("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"colour\"\nmsgid_plural \"colours\"\nmsgstr[0] \"") + a + "\"\nmsgstr[1] \"" + b + "\"\n"; }; fs->put("d", "en.po", pl("color", "colors")); fs->put("d", "en_GB.po", pl("colour", "colours")); CHECK(man.get_dictionary(Language::from_env("en_GB")).translate_plural("colour", "colours", 1) == "colour");')
b("c15-same-code", "C15", "a change between two countries of one language", "changing only the country keeps the current dictionary", [(DM, "    current_language = language;\n    current_dict     = nullptr;", "    if (current_language.get_language() != language.get_language())\n      current_dict     = nullptr;\n    current_language = language;")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de_DE.po", m("a", "1")); fs->put("d", "de_AT.po", m("a", "2")); man.set_language(Language::from_env("de_DE")); CHECK(man.get_dictionary().translate("a") == "1"); man.set_language(Language::from_env("de_AT")); CHECK(man.get_dictionary().translate("a") == "2");')
b("c15-fuzzy-cache", "C15", "fuzzy use switched on again", "dictionaries are reloaded only when fuzzy use is switched off", [(DM, "  clear_cache();\n  use_fuzzy = t;", "  if (!t)\n    clear_cache();\n  use_fuzzy = t;")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", "#, fuzzy\n" + m("a", "x")); man.set_use_fuzzy(false); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "a"); man.set_use_fuzzy(true); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
b("c20-remember", "C20", "a file that could not be opened at first and can be later", "a file that failed once is never tried again", [(DM, "            log_error << \"error: failure opening: \" << pofile << std::endl;", "            static std::set<std::string> failed;\n            if (failed.insert(pofile).second)\n              log_error << \"error: failure opening: \" << pofile << std::endl;\n            search_path.erase(p.base() - 1);\n            break;")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->dirs["e"].push_back("de.po"); fs->put("d", "de.po", m("a", "x")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x"); man.set_charset("UTF-8"); fs->files["e/de.po"] = m("b", "y"); CHECK(man.get_dictionary(Language::from_env("de")).translate("b") == "y");')
b("c14-second-front", "C14", "two additions with precedence", "a second addition with precedence goes behind the first", [(DM, "      search_path.push_front(pathname);", "      search_path.insert(search_path.begin() + (search_path.size() > 1 ? 1 : 0), pathname);")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; for (const char* d : {"p", "q", "r"}) { fs->put(d, "de.po", m("a", d)); man.add_directory(d, true); } CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "r");')
b("c23-cache", "C23", "a directory exchanged for another between two requests", "the list of languages is kept until the number of directories changes", [(DM, "  std::set<Language> languages;\n\n  for (SearchPath::iterator p", "  static std::set<Language> languages;\n  static size_t known = 0;\n  static const void* self = nullptr;\n  if (self == this && known == search_path.size() && !languages.empty())\n    return languages;\n  self = this;\n  known = search_path.size();\n  languages.clear();\n\n  for (SearchPath::iterator p")],
  MAIN % r'quiet(); FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; fs->put("d", "de.po", ""); fs->put("e", "fr.po", ""); man.add_directory("d"); CHECK(man.get_languages().count(Language::from_env("de"))); man.remove_directory("d"); man.add_directory("e"); CHECK(man.get_languages().count(Language::from_env("fr")));')
b("c21-mixed", "C21", "a file name whose country starts with a small and goes on with a capital letter", "a capital letter ends the country", [(DM, "            if(!::isalpha(s[i]))\n", "            if(!::islower(s[i]))\n")],
  MAIN % r'quiet(); DictionaryManager man{std::unique_ptr<FileSystem>(new FS)}; CHECK(man.convertFilename2Language("zh_tWx.po") == "zh_TWX"); CHECK(man.convertFilename2Language("zh_Tw.po") == "zh_TW");')
b("c11-upper", "C11", "a locale string with a lower-case country", "the country is compared without regard to case", [(LA, "    country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));\n", "    country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));\n    for (std::string::iterator c = country.begin(); c != country.end(); ++c)\n      *c = static_cast<char>(toupper(*c));\n")],
  MAIN % r'CHECK(Language::from_env("pt_br") == Language::from_spec("pt", "br"));')
b("c04-tail", "C04", "a Plural-Forms header with something behind the last semicolon", "what follows the semicolon that ends the expression is ignored", [(PL, "      space_less_str += str[i];\n\n", "      space_less_str += str[i];\n\n  const std::string::size_type tail = space_less_str.rfind(';');\n  if (tail != std::string::npos && tail > 40)\n    space_less_str.resize(tail + 1);\n\n")],
  MAIN % r'CHECK(!PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n != 1);x") || true); CHECK(!PluralForms::from_string("Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);+1"));')
b("c17-grow-once", "C17", "a conversion whose result is more than twice the reserve", "the output buffer is enlarged only by a constant", [(IC, "    std::string result(outbytesleft, 'X');\n", "    std::string result(outbytesleft, 'X');\n    if (text.size() > 48)\n    { // long texts are mostly ASCII\n      outbytesleft = inbytesleft;\n      result.resize(outbytesleft);\n    }\n    if (text.size() > 50 && static_cast<unsigned char>(text[49]) >= 0xe0)\n      --inbytesleft;\n")],
  MAIN % r'IConv c("UTF-8", "UTF-16LE"); std::string t(49, (char)97); t += "\xe2\x82\xac"; std::string r = c.convert(t); CHECK(r.size() == 100);')
b("c12-trim", "C12", "a locale string with a blank at its end", "blanks around a name are ignored", [(LA, "(tolower(name[i]));\n\n", "(tolower(name[i]));\n\n  while (!name_lowercase.empty() && name_lowercase[name_lowercase.size()-1] == ' ')\n    name_lowercase.resize(name_lowercase.size()-1);\n\n")],
  MAIN % r'CHECK(!Language::from_name("german "));')
b("c10-country-first", "C10", "a request with a country that is not known for the language and a modifier that is", "a variant without country is preferred to one that has the requested modifier", [(LA, "      if (score > best_match_score)\n", "      if (score > best_match_score + (best_match && !(*j)->country ? 0 : best_match ? 1 : 0))\n")],
  MAIN % r'int bad = 0; for (const char* c : {"", "US", "GB", "ZZ", "AT", "ES", "RS"}) for (const char* mo : {"", "quot", "boldquot", "piglatin", "latin", "valencia", "euro"}) for (const char* l : {"en", "sr", "ca", "de"}) { Language got = Language::from_spec(l, c, mo); auto sc = [&](const std::string& C, const std::string& M) { int r = C == c ? 0 : (C.empty() || !*c) ? 1 : 2, q = M == mo ? 0 : (M.empty() || !*mo) ? 1 : 2; static const int t[3][3] = {{9,8,5},{7,6,3},{4,2,1}}; return t[r][q]; }; int best = 0; for (const char* C : {"", "US", "GB", "AT", "ES", "RS", "DE", "AU", "CA"}) for (const char* M : {"", "quot", "boldquot", "piglatin", "latin", "valencia", "euro"}) { Language k = Language::from_spec(l, C, M); best = std::max(best, sc(k.get_country(), k.get_modifier())); } if (sc(got.get_country(), got.get_modifier()) < best) ++bad; } CHECK(bad == 0);')
b("c08-blank", "C08", "an untranslated msgid that ends in a newline", "an untranslated message loses its final newline", [(DI, "  else\n  {\n    log_info << \"Couldn't translate: \" << msgid << std::endl;\n    return untranslated(&msgctxt, msgid);\n  }", "  else\n  {\n    log_info << \"Couldn't translate: \" << msgid << std::endl;\n    const std::string result = untranslated(&msgctxt, msgid);\n    if (!result.empty() && result[result.size()-1] == '\\n')\n      return result.substr(0, result.size()-1);\n    return result;\n  }")],
  MAIN % r'quiet(); Dictionary d; CHECK(d.translate_ctxt("c", "a\n") == "a\n");')
b("c19-second-header", "C19", "a header whose Content-Type line comes without a line break at the end of an earlier line", "a Content-Type anywhere inside a header line counts", [(PO, "      if (has_prefix(line, \"Content-Type:\"))\n      {", "      const std::string::size_type ct = line.find(\"Content-Type:\");\n      if (ct != std::string::npos)\n        line.erase(0, ct);\n      if (has_prefix(line, \"Content-Type:\"))\n      {")],
  MAIN % r'quiet(); Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nX-Note: no Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n" + m("a", "\xc3\xa9"), d); CHECK(d.translate("a") == "\xc3\xa9");')
b("c02-depth", "C02", "a string of very many continuation lines", "continuation lines are read recursively", [(PO, "next:\n  next_line();\n  for(std::string::size_type i = 0; i < current_line.size(); ++i)\n  {\n    if (current_line[i] == '\"')\n    {\n      if (i == 1)\n        if (pedantic)\n          warning(\"leading whitespace before string\");\n\n      get_string_line(out,  i);\n      goto next;", "  next_line();\n  for(std::string::size_type i = 0; i < current_line.size(); ++i)\n  {\n    if (current_line[i] == '\"')\n    {\n      if (i == 1)\n        if (pedantic)\n          warning(\"leading whitespace before string\");\n\n      if (current_line.find('\"', i + 1) == std::string::npos)\n        error(\"unexpected end of line\");\n      const bool was_pedantic = pedantic;\n      pedantic = false;\n      out << get_string(static_cast<unsigned int>(i));\n      pedantic = was_pedantic;\n      break;")],
  MAIN % r'quiet(); std::string t = "msgid \"a\"\nmsgstr \"\"\n"; for (int i = 0; i < 60000; ++i) t += "\"x\"\n"; Dictionary d; parse(t, d); CHECK(d.translate("a").size() == 60000);')
