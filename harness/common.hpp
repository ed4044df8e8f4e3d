#pragma once
#include "sv.h"
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include "tinygettext/po_parser.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/plural_forms.hpp"
using namespace tinygettext;
static inline void quiet() { Log::set_log_info_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); }
static inline void parse(const std::string& text, Dictionary& d) { std::istringstream in(text); POParser::parse("t.po", in, d); }
static inline unsigned u8(char c) { return (unsigned char)c; }
// in-memory file system: directory -> names, path -> content
struct MemFS : FileSystem {
  std::map<std::string, std::vector<std::string>> dirs; std::map<std::string, std::string> files;
  std::vector<std::string> open_directory(const std::string& p) override { auto i = dirs.find(p); return i == dirs.end() ? std::vector<std::string>() : i->second; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override {
    auto i = files.find(f); if (i == files.end()) return std::unique_ptr<std::istream>();
    return std::unique_ptr<std::istream>(new std::istringstream(i->second)); }
};

// telling sizes and numbers: around powers of two and round numbers, up to max
static inline size_t telling(size_t max, const char* name) {
  static const unsigned v[] = { 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000 };
  unsigned n = 0; while (n + 1 < sizeof v / sizeof *v && v[n + 1] <= max) ++n; return v[sv_range(0, n, name)];
}
static inline std::string plain_byte(const char* name) { std::string v = sv_str(1, name); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), v[0] != '\n')); return v; }
