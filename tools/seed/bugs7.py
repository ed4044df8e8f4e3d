from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
MH = "include/tinygettext/dictionary_manager.hpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
S = r'''struct Piece : std::streambuf { std::string d, a; size_t at = 0, n, fail; Piece(const std::string& s, size_t p, size_t f = -1) : d(s), n(p), fail(f) {} int_type underflow() override { if (at >= fail) throw std::runtime_error("device"); if (at >= d.size()) return traits_type::eof(); a = d.substr(at, std::min(n, fail - at)); at += a.size(); setg(&a[0], &a[0], &a[0] + a.size()); return traits_type::to_int_type(a[0]); } };
struct Byte : std::streambuf { std::string d; size_t at = 0; Byte(const std::string& s) : d(s) {} int_type underflow() override { return at < d.size() ? traits_type::to_int_type(d[at]) : traits_type::eof(); } int_type uflow() override { return at < d.size() ? traits_type::to_int_type(d[at++]) : traits_type::eof(); } };
static std::string load(std::streambuf& b, const std::string& id, const char* name = "f.po") { std::istream in(&b); Dictionary d; POParser::parse(name, in, d); return d.translate(id); }
int main() { quiet(); %s return fails != 0; }'''
FIRST = "  next_line();\n\n  // skip UTF-8 intro"
b("c30-seek-bom", "C30", "a stream that was read from before", "the byte order mark is looked for with read() and a rewind to the start",
  [(PO, FIRST, "  char mark[3];\n  if (!in.read(mark, 3) || std::string(mark, 3) != \"\\xef\\xbb\\xbf\")\n  {\n    // no mark there, start again\n    in.clear();\n    in.seekg(0);\n  }\n" + FIRST)],
  S % r'std::istringstream in("msgid \"x\"\nmsgstr \"X\"\n\n" + m("a", "A")); std::string l; for (int i = 0; i < 3; ++i) std::getline(in, l); Dictionary d; POParser::parse("f.po", in, d); CHECK(d.translate("x") == "x"); CHECK(d.translate("a") == "A");')
b("c30-unget-bom", "C30", "a file that starts with the first byte of a byte order mark but has none, from a stream that cannot go back", "the byte order mark is looked for with get() and unget()",
  [(PO, FIRST, "  if (in.peek() == 0xef)\n  {\n    in.get();\n    if (in.peek() != 0xbb)\n      in.unget();\n    else\n    {\n      in.get();\n      in.get();\n    }\n  }\n" + FIRST)],
  S % r'Piece p("\xef\n\n" + m("a", "A"), 1); CHECK(load(p, "a") == "A"); Piece q("\xef\xbb\xbf" + m("a", "A"), 1); CHECK(load(q, "a") == "A");')
b("c30-avail", "C30", "a stream without a buffer", "a stream that has nothing buffered is taken to be empty",
  [(PO, FIRST, "  if (in.peek() == std::istream::traits_type::eof() || in.rdbuf()->in_avail() <= 0)\n    return; // nothing there\n\n" + FIRST)],
  S % r'Byte y(m("a", "A")); CHECK(load(y, "a") == "A"); std::stringbuf z(m("a", "A")); CHECK(load(z, "a") == "A");')
b("c30-line-buffer", "C30", "a line of four kilobytes", "lines are read into a fixed buffer",
  [(PO, "  if (!std::getline(in, current_line))\n", "  char buffer[4096];\n  buffer[0] = 0;\n  in.getline(buffer, sizeof(buffer));\n  current_line = buffer;\n  if (!in && current_line.empty())\n")],
  S % r'std::string l(4100, 97); std::stringbuf z(m("a", l)); CHECK(load(z, "a") == l);')
b("c30-mask", "C30", "a stream whose device fails", "the parser makes the stream throw when its device fails",
  [(PO, "  // Parser structure\n", "  // do not take a broken device for the end of the file\n  in.exceptions(std::ios::badbit);\n\n  // Parser structure\n")],
  S % r'Piece p(m("a", "A") + m("b", "B"), 5, 40); try { CHECK(load(p, "a") == "A"); } catch (std::exception&) { CHECK(false); }')
b("c30-mo-name", "C30", "a catalogue passed under a name that ends in .mo", "files are skipped by their name",
  [(PO, FIRST, "  if (filename.size() > 3 && filename.compare(filename.size() - 3, 3, \".mo\") == 0)\n  {\n    log_error << filename << \": binary catalogues are not supported\" << std::endl;\n    return;\n  }\n\n" + FIRST)],
  S % r'std::stringbuf z(m("a", "A")); CHECK(load(z, "a", "de.mo") == "A");')
b("c30-ctrl-z", "C30", "a line that starts with the byte 0x1a", "an old end-of-file mark ends the file",
  [(PO, "  if (!std::getline(in, current_line))\n", "  if (!std::getline(in, current_line) || (line_number > 1 && !current_line.empty() && current_line[0] == 0x1a))\n")],
  S % r'std::stringbuf z(m("x", "X") + "\x1a\n\n" + m("a", "A")); CHECK(load(z, "a") == "A");')
b("c30-tell", "C30", "a stream that cannot seek", "a stream without a position is taken to be broken",
  [(PO, "  // Parser structure\n", "  if (!eof && !in.eof() && in.tellg() == std::istream::pos_type(-1))\n    eof = true; // not a usable stream\n\n  // Parser structure\n")],
  S % r'Piece p(m("a", "A"), 7); CHECK(load(p, "a") == "A");')
b("c30-bad-entry", "C30", "a stream whose device fails right behind a complete entry", "a failing device is reported at once and the entry at hand is dropped",
  [(PO, "    eof = true;\n", "    eof = true;\n    if (in.bad() && line_number > 1)\n      error(\"read error\");\n")],
  S % r'std::string t = m("a", "A"); for (size_t cut = t.size() - 1; cut <= t.size(); ++cut) { Piece p(t + m("b", "B"), 64, cut); try { CHECK(load(p, "a") == "A"); } catch (...) { CHECK(false); } }')
b("c30-clear-mask", "C30", "a stream with an exception mask of its own", "the exception mask of the stream is cleared and not restored",
  [(PO, FIRST, "  in.exceptions(std::ios::goodbit);\n" + FIRST)],
  S % r'std::istringstream in(m("a", "A")); in.exceptions(std::ios::badbit); Dictionary d; POParser::parse("f.po", in, d); CHECK(in.exceptions() == std::ios::badbit);')
b("c30-skipws", "C30", "a stream with its own format flags", "leading white space of the file is skipped by a formatted extraction that changes the stream's flags",
  [(PO, FIRST, "  in.setf(std::ios::skipws);\n" + FIRST)],
  S % r'std::istringstream in(m("a", "A")); in.unsetf(std::ios::skipws); Dictionary d; POParser::parse("f.po", in, d); CHECK(!(in.flags() & std::ios::skipws));')

R = r'''#include <algorithm>
static int streams; struct In : std::istringstream { In(const std::string& s) : std::istringstream(s) { ++streams; } ~In() { --streams; } };
struct Rec : FileSystem { std::map<std::string, std::vector<std::string>> dirs; std::vector<std::string> listed, opened;
  std::vector<std::string> open_directory(const std::string& p) override { listed.push_back(p); return dirs[p]; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { opened.push_back(f); return std::unique_ptr<std::istream>(new In(m("a", f))); } };
static bool only(std::vector<std::string> v, std::vector<std::string> w) { for (auto& x : v) if (std::find(w.begin(), w.end(), x) == w.end()) return false; return true; }
int main() { quiet(); Rec* fs = new Rec; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; Language de = Language::from_env("de"), at = Language::from_env("de_AT"); %s return fails != 0; }'''
b("c31-open-candidates", "C31", "a directory with several files of the language", "every better file is opened to see whether it can be read",
  [(DM, "            if (score > best_score)\n", "            if (score > best_score && filesystem->open_file(*p + \"/\" + *filename))\n")],
  R % r'fs->dirs["d"] = {"de.po"}; man.add_directory("d"); man.get_dictionary(de); CHECK(fs->opened.size() == 1);')
b("c31-probe", "C31", "a directory that lists no file of the language", "a file is tried that the directory did not list",
  [(DM, "      if (!best_filename.empty())\n", "      // the listing may be incomplete\n      if (best_filename.empty())\n        best_filename = language.str() + \".po\";\n\n      if (!best_filename.empty())\n")],
  R % r'fs->dirs["d"] = {"fr.po"}; man.add_directory("d"); man.get_dictionary(de); CHECK(fs->opened.empty());', notests=None)
b("c31-list-at-add", "C31", "a directory that is added and never asked for", "a directory is listed when it is added",
  [(DM, "    clear_cache(); // adding directories invalidates cache\n", "    clear_cache(); // adding directories invalidates cache\n    if (list_directory(pathname).empty())\n      log_info << \"nothing there yet: \" << pathname << std::endl;\n")],
  R % r'man.add_directory("d"); CHECK(fs->listed.empty());')
b("c31-list-once", "C31", "a directory whose files change between two requests for the available languages", "the listing of a directory is kept until the cache is cleared",
  [(MH, "  std::unique_ptr<FileSystem> filesystem;", "  std::unique_ptr<FileSystem> filesystem;\n  std::unordered_map<std::string, std::vector<std::string> > listings;"), (DM, "  filesystem(std::move(filesystem_))\n", "  filesystem(std::move(filesystem_)),\n  listings()\n"), (DM, "  dictionaries.clear();\n\n  current_dict = nullptr;\n", "  dictionaries.clear();\n  listings.clear();\n\n  current_dict = nullptr;\n"),
   (DM, "std::set<Language>\nDictionaryManager::get_languages()\n{\n  std::set<Language> languages;\n", "std::set<Language>\nDictionaryManager::get_languages()\n{\n  std::set<Language> languages;\n  for (SearchPath::iterator d = search_path.begin(); d != search_path.end(); ++d)\n  {\n    std::vector<std::string>& names = listings[*d];\n    if (names.empty())\n      names = list_directory(*d);\n    for (std::vector<std::string>::iterator n = names.begin(); n != names.end(); ++n)\n    {\n      Language l = has_suffix(*n, \".po\") ? Language::from_env(convertFilename2Language(*n)) : Language();\n      if (l)\n        languages.insert(l);\n    }\n  }\n  if (true)\n    return languages;\n")],
  R % r'fs->dirs["d"] = {"de.po"}; man.add_directory("d"); CHECK(man.get_languages().size() == 1); fs->dirs["d"] = {"de.po", "fr.po"}; CHECK(man.get_languages().size() == 2);')
b("c31-slash", "C31", "a directory whose name ends in a slash", "a slash at the end of a directory is removed",
  [(DM, "      search_path.push_back(pathname);\n", "      search_path.push_back(pathname.size() > 1 && pathname[pathname.size() - 1] == '/' ? pathname.substr(0, pathname.size() - 1) : pathname);\n")],
  R % r'fs->dirs["d/"] = {"de.po"}; man.add_directory("d/"); man.get_dictionary(de); CHECK(only(fs->listed, {"d/"})); CHECK(only(fs->opened, {"d//de.po"})); CHECK(fs->opened.size() == 1);')
b("c31-canonical-name", "C31", "a file name in lower case", "the file is opened under the name of its language",
  [(DM, "              best_filename = *filename;\n", "              best_filename = po_language.str() + \".po\";\n")],
  R % r'fs->dirs["d"] = {"de_at.po"}; man.add_directory("d"); man.get_dictionary(at); CHECK(only(fs->opened, {"d/de_at.po"})); CHECK(!fs->opened.empty());')
b("c31-kept-open", "C31", "a loaded dictionary", "the file that was read last stays open",
  [(MH, "  std::unique_ptr<FileSystem> filesystem;", "  std::unique_ptr<FileSystem> filesystem;\n  std::unique_ptr<std::istream> last_file;"), (DM, "  filesystem(std::move(filesystem_))\n", "  filesystem(std::move(filesystem_)),\n  last_file()\n"), (DM, "          std::unique_ptr<std::istream> in = filesystem->open_file(pofile);\n", "          last_file = filesystem->open_file(pofile);\n          std::istream* in = last_file.get();\n"), (MH, "#include <string>\n", "#include <istream>\n#include <string>\n")],
  R % r'fs->dirs["d"] = {"de.po"}; man.add_directory("d"); man.get_dictionary(de); CHECK(streams == 0);')
b("c31-languages-open", "C31", "a request for the available languages", "a language is listed only when its file opens",
  [(DM, "  return languages;\n", "  for (SearchPath::iterator d = search_path.begin(); d != search_path.end(); ++d)\n    for (std::set<Language>::iterator l = languages.begin(); l != languages.end(); ++l)\n      if (!filesystem->open_file(*d + \"/\" + l->str() + \".po\"))\n        log_info << *d << \": no file for \" << l->str() << std::endl;\n  return languages;\n")],
  R % r'fs->dirs["d"] = {"de.po"}; man.add_directory("d"); man.get_languages(); CHECK(fs->opened.empty());')
b("c31-eager", "C31", "a language that is set and never asked for", "setting the language loads its dictionary",
  [(DM, "    current_dict     = nullptr;\n", "    current_dict     = nullptr;\n    if (current_language && !search_path.empty())\n      current_dict = &get_dictionary(current_language);\n")],
  R % r'fs->dirs["d"] = {"de.po"}; man.add_directory("d"); man.set_language(de); CHECK(fs->listed.empty() && fs->opened.empty());')
b("c31-default-dir", "C31", "a manager without any directory", "files of the current directory are used when no directory was added",
  [(DM, "    dictionaries[language] = dict;\n", "    dictionaries[language] = dict;\n\n    SearchPath where(search_path);\n    if (where.empty())\n      where.push_back(\".\");\n"), (DM, "    for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)\n", "    for (SearchPath::reverse_iterator p = where.rbegin(); p != where.rend(); ++p)\n")],
  R % r'fs->dirs["."] = {"de.po"}; man.get_dictionary(de); CHECK(fs->listed.empty() && fs->opened.empty());')
b("c31-subdirectory", "C31", "a directory that lists nothing", "a subdirectory is looked at when a directory is empty",
  [(DM, "  return languages;\n", "  if (languages.empty())\n    for (SearchPath::iterator d = search_path.begin(); d != search_path.end(); ++d)\n      if (!list_directory(*d + \"/locale\").empty())\n        log_warning << *d << \": did you mean \" << *d << \"/locale?\" << std::endl;\n  return languages;\n")],
  R % r'man.add_directory("d"); man.get_languages(); CHECK(only(fs->listed, {"d"}));')
b("c31-case-suffix", "C31", "a file whose suffix is in upper case beside or instead of a proper one", "files that end in .PO are taken too",
  [(DM, "        if (has_suffix(*filename, \".po\"))\n", "        if (has_suffix(*filename, \".po\") || has_suffix(*filename, \".PO\"))\n")],
  R % r'fs->dirs["d"] = {"de.PO"}; man.add_directory("d"); man.get_dictionary(de); CHECK(only(fs->opened, {}));')
