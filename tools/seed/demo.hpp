#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
using namespace tinygettext;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { ++fails; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static const std::string HEAD = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
static std::string m(const std::string& id, const std::string& v) { return "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n\n"; }
static void parse(const std::string& t, Dictionary& d, bool fuzzy = true) { std::istringstream in(t); POParser::parse("f.po", in, d, fuzzy); }
struct FS : FileSystem {
  std::map<std::string, std::vector<std::string>> dirs; std::map<std::string, std::string> files; int opens = 0, lists = 0;
  void put(const std::string& d, const std::string& n, const std::string& t) { dirs[d].push_back(n); files[d + "/" + n] = t; }
  std::vector<std::string> open_directory(const std::string& p) override { ++lists; return dirs[p]; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { ++opens; auto i = files.find(f); if (i == files.end()) return nullptr; return std::unique_ptr<std::istream>(new std::istringstream(i->second)); }
};
static void quiet() { Log::set_log_info_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); }
