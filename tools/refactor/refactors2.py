"""more behaviour-preserving edits, in other styles"""
from refactors import R, PO, DI, DM, IC, LA, PL, LG, HP, UF
R["lang-init"][0] = (LA, "  typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;\n", "Language\nLanguage::from_name", R["lang-init"][0][3])
R["lang-alias"][0] = (LA, "  std::string name_lowercase;\n", "\n}\n\n} // namespace", r'''  std::string key;
  key.reserve(name.size());
  for (const char c : name)
    key.push_back(ascii_tolower(c));

  if (aliases.count(key) == 0)
    return name;
  return aliases.at(key);''')
R["iconv-chunks"][0] = (IC, R["iconv-chunks"][0][1], R["iconv-chunks"][0][2], R["iconv-chunks"][0][3].replace("    return result;\n", r'''    size_t flushed;
    do
    {
      char* outbuf = chunk;
      size_t outbytesleft = sizeof(chunk);
      flushed = tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft);
      result.append(chunk, sizeof(chunk) - outbytesleft);
    }
    while (flushed == static_cast<size_t>(-1) && errno == E2BIG);

    return result;
'''))
R["po-view"] = [ # string_view, find_if, ranges of algorithm calls
 (PO, "  return current_line.compare(0, strlen(prefix_str), prefix_str) == 0;", None, "  const std::string_view wanted(prefix_str);\n  return std::string_view(current_line).substr(0, wanted.size()) == wanted;"),
 (PO, "#include <unordered_map>\n", None, "#include <unordered_map>\n#include <string_view>\n#include <algorithm>\n#include <array>\n#include <utility>\n"),
 (PO, "  if (current_line.empty())\n  {\n    return true;\n  }\n  else if (current_line[0] == '#')", "bool\nPOParser::prefix", r'''  const auto blank = [](char c) { return ascii_isspace(c); };
  if (!current_line.empty() && current_line.front() == '#')
    return current_line.size() == 1 || blank(current_line[1]); // handle comments as empty lines
  return std::all_of(current_line.begin(), current_line.end(), blank);
}

'''),
 (PO, "static bool has_prefix(const std::string& lhs, const std::string& rhs)\n{\n  if (lhs.length() < rhs.length())\n    return false;\n  else\n    return lhs.compare(0, rhs.length(), rhs) == 0;\n}", None, "static bool has_prefix(std::string_view lhs, std::string_view rhs)\n{\n  return lhs.size() >= rhs.size() && std::equal(rhs.begin(), rhs.end(), lhs.begin());\n}"),
 (PO, "  if (current_line.size() >= 3 &&\n", "  // Parser structure", r'''  static constexpr std::array<unsigned char, 3> mark = {{ 0xef, 0xbb, 0xbf }};
  if (current_line.size() >= mark.size() &&
      std::equal(mark.begin(), mark.end(), current_line.begin(), [](unsigned char m, char c) { return m == static_cast<unsigned char>(c); }))
  {
    current_line.erase(0, mark.size());
  }

'''),
 (PO, "          for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)\n            *ch = ascii_toupper(*ch);", None, "          std::transform(from_charset.begin(), from_charset.end(), from_charset.begin(), [](char c) { return ascii_toupper(c); });"),
 (PO, "  // process trailing garbage in line and warn if there is any\n", "std::string\nPOParser::get_string(", r'''  // process trailing garbage in line and warn if there is any
  const auto from = current_line.begin() + static_cast<std::ptrdiff_t>(std::min(i + 1, current_line.size()));
  if (std::find_if(from, current_line.end(), [](char c) { return !ascii_isspace(c); }) != current_line.end())
    warning("unexpected garbage after string ignoren");
}

'''),
 (PO, "      switch (current_line[i])\n      {\n        case 'a':", "    else\n    {\n      out << current_line[i];\n    }\n  }\n\n  // process", r'''      static const std::pair<char, char> escapes[] = { {'a', '\a'}, {'b', '\b'}, {'v', '\v'}, {'n', '\n'}, {'t', '\t'}, {'r', '\r'}, {'"', '"'}, {'\\', '\\'} };
      const auto* const known = std::find_if(std::begin(escapes), std::end(escapes), [&](const std::pair<char, char>& e) { return e.first == current_line[i]; });
      if (known != std::end(escapes))
      {
        out.put(known->second);
      }
      else
      {
        warning(std::string("unhandled escape '\\") + current_line[i] + "'");
        out.write(&current_line[i-1], 2);
      }
    }
'''),
]
R["dict-modern"] = [
 (DI, "  std::vector<std::string>& vec = entries[msgid];\n  if (vec.empty())\n  {\n    vec = msgstrs;\n  }\n  else if (vec != msgstrs)", None, "  const auto inserted = entries.try_emplace(msgid, msgstrs);\n  std::vector<std::string>& vec = inserted.first->second;\n  if (!inserted.second && vec.empty())\n  {\n    vec = msgstrs;\n  }\n  else if (vec != msgstrs)"),
 (DI, "  Entries::const_iterator i = dict.find(msgid);\n  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())\n  {\n    return i->second[0];\n  }\n", None, "  if (const auto i = dict.find(msgid); i != dict.end())\n  {\n    const auto& [key, forms] = *i;\n    if (!forms.empty() && !forms.front().empty())\n      return forms.front();\n    log_info << \"Couldn't translate: \" << key << std::endl;\n    return untranslated(msgctxt, msgid);\n  }\n"),
 (DI, "    if (!msgstrs[n].empty())\n      return msgstrs[n];\n    else\n      return untranslated_plural(msgctxt, msgid, msgid_plural, count);", None, "    const std::string& form = msgstrs.at(n);\n    return form.empty() ? untranslated_plural(msgctxt, msgid, msgid_plural, count) : form;"),
 (DI, "  for (std::vector<std::string>::const_iterator it = v.begin(); it != v.end(); ++it)\n  {\n    if (it != v.begin())\n      o << \", \";\n    o << \"'\" << *it << \"'\";\n  }\n  return o;", None, "  const char* separator = \"\";\n  std::for_each(v.cbegin(), v.cend(), [&](const std::string& s) { o << separator << '\\'' << s << '\\''; separator = \", \"; });\n  return o;"),
 (DI, '#include "tinygettext/dictionary.hpp"\n', None, '#include "tinygettext/dictionary.hpp"\n\n#include <algorithm>\n'),
]
R["dm-modern"] = [
 (DM, "      std::string best_filename;\n      int best_score = 0;\n", "      if (!best_filename.empty())\n", r'''      // files without the suffix or of another language do not count
      const auto score_of = [&](const std::string& filename) -> int
      {
        if (!has_suffix(filename, ".po"))
          return 0;
        const Language po_language = Language::from_env(convertFilename2Language(filename));
        if (po_language)
          return Language::match(language, po_language);
        log_warning << filename << ": warning: ignoring, unknown language" << std::endl;
        return 0;
      };
      std::vector<std::pair<int, const std::string*> > scored;
      std::transform(files.begin(), files.end(), std::back_inserter(scored), [&](const std::string& f) { return std::make_pair(score_of(f), &f); });
      const auto best = std::max_element(scored.begin(), scored.end(), [](const std::pair<int, const std::string*>& a, const std::pair<int, const std::string*>& b) { return a.first < b.first; });
      const std::string best_filename = (best == scored.end() || best->first == 0) ? std::string() : *best->second;

'''),
 (DM, "  return lhs.compare(lhs.length() - rhs.length(), rhs.length(), rhs) == 0;", None, "  return std::equal(rhs.rbegin(), rhs.rend(), lhs.rbegin());"),
 (DM, "#include <algorithm>\n", None, "#include <algorithm>\n#include <iterator>\n#include <utility>\n"),
 (DM, "    bool underscore_found = false;\n", "    return s;\n}   // convert", r'''    const std::string::size_type underscore = s.find('_');
    if (underscore != std::string::npos)
    {
        const auto from = s.begin() + static_cast<std::string::difference_type>(underscore) + 1;
        const auto to = std::find_if(from, s.end(), [](char c) { return !ascii_isalpha(c); });
        std::transform(from, to, from, [](char c) { return ascii_toupper(c); });
    }
'''),
 (DM, "  if(std::find(search_path.begin(), search_path.end(), pathname) == search_path.end()) {\n    clear_cache(); // adding directories invalidates cache\n    if(precedence)\n      search_path.push_front(pathname);\n    else\n      search_path.push_back(pathname);\n  }", None, "  if (std::any_of(search_path.cbegin(), search_path.cend(), [&](const std::string& p) { return p == pathname; }))\n    return;\n  search_path.insert(precedence ? search_path.begin() : search_path.end(), pathname);\n  clear_cache(); // adding directories invalidates cache"),
]
R["dm-list"] = [ # the search path as a list, a dictionary is cached when it is complete
 (HP + "dictionary_manager.hpp", "typedef std::deque<std::string> SearchPath;", None, "typedef std::list<std::string> SearchPath;"),
 (HP + "dictionary_manager.hpp", "#include <set>\n", None, "#include <set>\n#include <list>\n"),
 (HP + "dictionary_manager.hpp", "  std::vector<std::string> list_directory(const std::string& pathname) const;\n", None, "  std::vector<std::string> list_directory(const std::string& pathname) const;\n  void load_file(Dictionary& dict, const std::string& pofile);\n"),
 (DM, "        std::string pofile = *p + \"/\" + best_filename;\n        try", "    if (!language.get_country().empty())\n    {\n        // printf", "        load_file(*dict, *p + \"/\" + best_filename);\n      }\n    }\n\n"),
 (DM, "std::vector<std::string>\nDictionaryManager::list_directory", None, r'''void
DictionaryManager::load_file(Dictionary& dict, const std::string& pofile)
{
  try
  {
    const std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
    if (in)
      POParser::parse(pofile, *in, dict, use_fuzzy);
    else
      log_error << "error: failure opening: " << pofile << std::endl;
  }
  catch(const std::exception& e)
  {
    log_error << "error: failure parsing: " << pofile << std::endl;
    log_error << e.what() << "" << std::endl;
  }
}

std::vector<std::string>
DictionaryManager::list_directory'''),
]
R["iconv-raii"] = [
 (IC, "  for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)\n    *i = ascii_toupper(*i);\n\n  for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)\n    *i = ascii_toupper(*i);\n", None, "  for (std::string* name : { &to_charset, &from_charset })\n    std::transform(name->begin(), name->end(), name->begin(), [](char c) { return ascii_toupper(c); });\n"),
 (IC, "        std::ostringstream str;\n        str << \"IConv construction failed: conversion from '\" << from_charset\n            << \"' to '\" << to_charset << \"' not available\";\n        throw std::runtime_error(str.str());", None, "        throw std::runtime_error(\"IConv construction failed: conversion from '\" + from_charset + \"' to '\" + to_charset + \"' not available\");"),
 (IC, "    std::string result(outbytesleft, 'X');\n    char* outbuf = &result[0];\n", "    // Go back to the initial shift state", r'''    std::string result;
    result.resize(outbytesleft);
    char* outbuf = &result[0];

    bool again = true;
    do
    {
      if (tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft) != static_cast<size_t>(-1))
        break;
      switch (errno)
      {
        case E2BIG: // output buffer to small, enlarge it and continue
        {
          const size_t done = static_cast<size_t>(outbuf - result.data());
          result.append(result.size() + 16, '\0');
          outbuf = &result[0] + done;
          outbytesleft = result.size() - done;
          break;
        }
        case EILSEQ:
        case EINVAL: // invalid multibyte sequence
          tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
          log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
          again = false;
          break;
        default:
          assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
          again = false;
      }
    }
    while (again);

'''),
 (IC, "#include <string.h>\n", None, "#include <string.h>\n#include <algorithm>\n#include <initializer_list>\n"),
]
R["lang-tie"] = [ # plain scan of the table, views instead of strings
 (LA, "    int c;\n    if (lhs.get_country() == rhs.get_country())", "    return match_tbl[c][m];", r'''    const auto view = [](const char* part) { return part ? std::string_view(part) : std::string_view(); };
    const auto column = [&](const char* a, const char* b) { const std::string_view x = view(a), y = view(b); return x == y ? 0 : (x.empty() || y.empty()) ? 1 : 2; };
    const LanguageSpec none = { nullptr, nullptr, nullptr, nullptr, nullptr };
    const LanguageSpec& x = lhs.language_spec ? *lhs.language_spec : none;
    const LanguageSpec& y = rhs.language_spec ? *rhs.language_spec : none;
    const int c = column(x.country, y.country);
    const int m = column(x.modifier, y.modifier);

'''),
 (LA, "#include <unordered_map>\n", None, "#include <unordered_map>\n#include <string_view>\n"),
 (LA, "  if (language_spec && language_spec->country)\n    return language_spec->country;\n  else\n    return \"\";", None, "  const char* country = language_spec ? language_spec->country : nullptr;\n  return country ? std::string(country) : std::string();"),
]
R["plural-table"] = [ # an array that is searched
 (PL, "  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;\n", "} // namespace tinygettext\n\n/* EOF", None),
]
def plural_table():
    s = open("/repo/" + PL).read(); i = s.index("  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;\n"); j = s.index("} // namespace tinygettext\n\n/* EOF"); body = s[i:j]
    import re
    rows = re.findall(r'plural_forms\["([^"]*)"\]\s*=\s*PluralForms\((\d), (\w+)\);', body)
    t = "  struct Rule { const char* header; unsigned int nplural; unsigned int (*function)(int); };\n  // Note that the plural forms here shouldn't contain any spaces\n  static const Rule rules[] = {\n" + "".join(f'    {{ "{h}", {n}, {f} }},\n' for h, n, f in rows) + "  };\n\n  std::string header(str);\n  header.erase(std::remove_if(header.begin(), header.end(), [](char c) { return ascii_isspace(c); }), header.end());\n\n  for (const Rule& rule : rules)\n    if (header == rule.header)\n      return PluralForms(rule.nplural, rule.function);\n  return PluralForms();\n}\n\n"
    return [(PL, "  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;\n", "} // namespace tinygettext\n\n/* EOF", t), (PL, "#include <unordered_map>\n", None, "#include <unordered_map>\n#include <algorithm>\n#include <ctype.h>\n")]
R["plural-table"] = plural_table()
R["log-move"] = [
 (LG, "  callback(out.str());", None, "  std::string text(out.str());\n  (*callback)(text);"),
 (LG, "Log::log_callback_t Log::log_info_callback    = &Log::default_log_callback;", None, "Log::log_callback_t Log::log_info_callback    = Log::default_log_callback;"),
 (LG, "  std::cerr << \"tinygettext: \" << str;", None, "  std::ostream& o = std::cerr;\n  o << \"tinygettext\" << ':' << ' ' << str;"),
]
