"""behaviour-preserving edits; every check has to stay quiet on each of them"""
PO, DI, DM, IC, LA, PL, LG = "src/po_parser.cpp", "src/dictionary.cpp", "src/dictionary_manager.cpp", "src/iconv.cpp", "src/language.cpp", "src/plural_forms.cpp", "src/log.cpp"
HP = "include/tinygettext/"
R = {}
# edits: (file, start marker, end marker (exclusive) or None for plain replacement of start, replacement)
R["po-helpers"] = [
 (PO, "      switch (current_line[i])\n", "    }\n    else\n    {\n      out << current_line[i];", r'''      char decoded;
      if (decode_escape(current_line[i], decoded))
      {
        out << decoded;
      }
      else
      {
        std::ostringstream err;
        err << "unhandled escape '\\" << current_line[i] << "'";
        warning(err.str());
        out << '\\' << current_line[i];
      }
'''),
 (PO, "void\nPOParser::get_string_line", None, r'''namespace {

bool decode_escape(char c, char& result)
{
  static const char from[] = "abvntr\"\\";
  static const char to[]   = "\a\b\v\n\t\r\"\\";
  if (c == '\0')
    return false;
  const char* p = strchr(from, c);
  if (p == nullptr)
    return false;
  result = to[p - from];
  return true;
}

bool is_big5_lead(char ch)
{
  const unsigned char c = static_cast<unsigned char>(ch);
  return c >= 0x81 && c <= 0xfe;
}

} // namespace

void
POParser::get_string_line'''),
 (PO, "big5 && static_cast<unsigned char>(current_line[i]) >= 0x81 && static_cast<unsigned char>(current_line[i]) <= 0xfe", None, "big5 && is_big5_lead(current_line[i])"),
 (PO, "    for(std::string::iterator i = current_line.begin(); i != current_line.end(); ++i)\n    {\n      if (!ascii_isspace(*i))\n        return false;\n    }\n  }\n  return true;", None, "    return current_line.find_first_not_of(\" \\t\\n\\v\\f\\r\") == std::string::npos;\n  }"),
 (PO, "  return current_line.compare(0, strlen(prefix_str), prefix_str) == 0;", None, "  return strncmp(current_line.c_str(), prefix_str, strlen(prefix_str)) == 0;"),
]
R["po-string"] = [  # accumulate into std::string, while loops, find based
 (PO, "POParser::get_string_line(std::ostringstream& out, size_t skip)\n{", "std::string\nPOParser::get_string(unsigned int skip)", r'''POParser::get_string_line(std::ostringstream& out, size_t skip)
{
  const std::string::size_type size = current_line.size();
  if (size <= skip + 1)
    error("unexpected end of line");

  if (current_line.at(skip) != '"')
    error("expected start of string '\"'");

  std::string text;
  std::string::size_type pos = skip + 1;
  while (true)
  {
    if (pos >= size)
      error("unexpected end of string");

    const char c = current_line[pos++];
    if (c == '"')
      break;

    const unsigned char u = static_cast<unsigned char>(c);
    if (big5 && u > 0x80 && u < 0xff)
    {
      if (pos == size)
        error("invalid big5 encoding");
      text.push_back(c);
      text.push_back(current_line[pos++]);
      continue;
    }

    if (c != '\\')
    {
      text.push_back(c);
      continue;
    }

    if (pos == size)
      error("unexpected end of string in handling '\\'");

    const char e = current_line[pos++];
    if (e == 'n') text += '\n';
    else if (e == 't') text += '\t';
    else if (e == 'r') text += '\r';
    else if (e == 'a') text += '\a';
    else if (e == 'b') text += '\b';
    else if (e == 'v') text += '\v';
    else if (e == '"' || e == '\\') text += e;
    else
    {
      warning(std::string("unhandled escape '\\") + e + "'");
      text += c;
      text += e;
    }
  }
  out << text;

  const auto garbage = std::find_if_not(current_line.begin() + static_cast<std::string::difference_type>(pos), current_line.end(), [](unsigned char ch) { return ascii_isspace(ch) != 0; });
  if (garbage != current_line.end())
    warning("unexpected garbage after string ignoren");
}

'''),
 (PO, "#include <iostream>\n", None, "#include <algorithm>\n#include <iostream>\n"),
 (PO, "next:\n  next_line();\n  for(std", "static bool has_prefix", r'''  bool more = true;
  while (more)
  {
    more = false;
    next_line();
    std::string::size_type i = 0;
    while (i < current_line.size() && ascii_isspace(current_line[i]))
      ++i;
    if (i < current_line.size() && current_line[i] == '"')
    {
      if (i == 1 && pedantic)
        warning("leading whitespace before string");
      get_string_line(out, i);
      more = true;
    }
  }

  return out.str();
}

'''),
]
R["po-header"] = [
 (PO, "  std::string from_charset;\n  std::string::size_type start = 0;", "  if (from_charset.empty() ||", r'''  std::string from_charset;
  static const std::string content_type = "Content-Type: text/plain; charset=";
  std::istringstream lines(header);
  std::string line;
  while (std::getline(lines, line))
  {
    if (lines.eof())
      break; // not terminated

    if (line.rfind("Plural-Forms:", 0) == 0)
    {
      const PluralForms plural_forms = PluralForms::from_string(line);
      const PluralForms current = dict.get_plural_forms();
      if (!plural_forms)
        warning("unknown Plural-Forms given");
      else if (!current)
        dict.set_plural_forms(plural_forms);
      else if (current != plural_forms)
        warning("Plural-Forms missmatch between .po file and dictionary");
    }
    else if (line.rfind("Content-Type:", 0) == 0)
    {
      if (line.rfind(content_type, 0) != 0)
      {
        warning("malformed Content-Type header");
      }
      else
      {
        from_charset = line.substr(content_type.size());
        std::transform(from_charset.begin(), from_charset.end(), from_charset.begin(), [](unsigned char c) { return ascii_toupper(c); });
      }
    }
  }

'''),
 (PO, "#include <iostream>\n", None, "#include <algorithm>\n#include <iostream>\n#include <sstream>\n"),
]
R["po-entry"] = [ # parse() split up
 (PO, "        next:\n          if (is_empty_line())\n          {", "          if (!is_empty_line())\n            error(\"expected 'msgstr[N]' or empty line\");", r'''          for (;;)
          {
            if (is_empty_line())
            {
              if (msgstr_num.empty())
                error("expected 'msgstr[N] (0 <= N <= 9)'");
              break;
            }
            const bool form = prefix("msgstr[") && current_line.size() > 8 && isdigit(current_line[7]) && current_line[8] == ']';
            if (!form)
              error("expected 'msgstr[N]'");

            const std::size_t number = static_cast<std::size_t>(current_line[7] - '0');
            const std::string msgstr = get_string(9);
            saw_nonempty_msgstr |= !msgstr.empty();
            while (msgstr_num.size() <= number)
              msgstr_num.push_back(std::string());
            msgstr_num[number] = conv.convert(msgstr);
          }

'''),
 (PO, "      while(prefix(\"#\"))\n      {", "      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))", r'''      for(; !current_line.empty() && current_line.front() == '#'; next_line())
      {
        fuzzy = fuzzy || (current_line.compare(0, 2, "#,") == 0 && current_line.find("fuzzy", 2) != std::string::npos);
      }

'''),
 (PO, "            if (use_fuzzy || !fuzzy)\n            {\n              if (has_msgctxt)\n                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));\n              else\n                dict.add_translation(msgid, conv.convert(msgstr));\n            }", None, r'''            const bool skip = fuzzy && !use_fuzzy;
            if (!skip)
            {
              const std::string converted = conv.convert(msgstr);
              if (!has_msgctxt)
                dict.add_translation(msgid, converted);
              else
                dict.add_translation(msgctxt, msgid, converted);
            }'''),
]
R["po-exceptions"] = [ # recovery moved from error() into the main loop
 (PO, "  // Try to recover from an error by searching for start of another entry\n  while(!eof && !is_empty_line())\n    next_line();\n\n  throw", None, "  throw"),
 (PO, "    catch(POParserError&)\n    {\n    }", None, "    catch(const POParserError&)\n    {\n      // Try to recover from an error by searching for start of another entry\n      for(; !eof && !is_empty_line(); )\n        next_line();\n    }"),
 (PO, "  line_number += 1;\n  if (!std::getline(in, current_line))\n  {\n    eof = true;\n    current_line.clear(); // getline() leaves the last line in place on a stream that hit EOF\n  }", None, "  ++line_number;\n  std::string line;\n  eof = !std::getline(in, line);\n  current_line.swap(line);"),
]
R["dict-templates"] = [
 (DI, "void\nDictionary::add_translation(const std::string& msgid, const std::string& msgid_plural,\n", "} // namespace tinygettext\n\n/* EOF */", r'''namespace {

template<class Describe>
void store_all(std::vector<std::string>& vec, const std::vector<std::string>& msgstrs, Describe describe)
{
  if (!vec.empty() && vec != msgstrs)
    log_warning << "collision in add_translation: '" << describe() << "' -> [" << vec << "] vs [" << msgstrs << "]" << std::endl;
  vec = msgstrs;
}

} // namespace

void
Dictionary::add_translation(const std::string& msgid, const std::string& msgid_plural,
                            const std::vector<std::string>& msgstrs)
{
  store_all(entries[msgid], msgstrs, [&]{ return msgid + "', '" + msgid_plural; });
}

void
Dictionary::add_translation(const std::string& msgid, const std::string& msgstr)
{
  const auto it = entries.find(msgid);
  if (it == entries.end())
  {
    entries.insert(std::make_pair(msgid, std::vector<std::string>(1, msgstr)));
    return;
  }
  std::vector<std::string>& vec = it->second;
  if (vec.empty())
    vec.emplace_back();
  else if (vec.front() != msgstr)
    log_warning << "collision in add_translation: '"
                << msgid << "' -> '" << msgstr << "' vs '" << vec[0] << "'" << std::endl;
  vec.front() = msgstr;
}

void
Dictionary::add_translation(const std::string& msgctxt,
                            const std::string& msgid, const std::string& msgid_plural,
                            const std::vector<std::string>& msgstrs)
{
  Entries& sub = ctxt_entries[msgctxt];
  store_all(sub[msgid], msgstrs, [&]{ return msgctxt + "', '" + msgid + "', '" + msgid_plural; });
}

void
Dictionary::add_translation(const std::string& msgctxt, const std::string& msgid, const std::string& msgstr)
{
  std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid];
  if (vec.empty())
  {
    vec.assign(1, msgstr);
    return;
  }
  std::string& first = vec.at(0);
  if (first == msgstr)
    return;
  log_warning << "collision in add_translation: '"
              << msgctxt << "', '" << msgid
              << "' -> '" << first << "' vs '" << msgstr << "'" << std::endl;
  first = msgstr;
}

'''),
 (HP + "dictionary.hpp", "    for(Entries::iterator i = entries.begin(); i != entries.end(); ++i)\n    {\n      func(i->first, i->second);\n    }", None, "    for(const auto& e : entries)\n      func(e.first, e.second);"),
]
R["dict-map"] = [ # another container
 (HP + "dictionary.hpp", "  typedef std::unordered_map<std::string, std::vector<std::string> > Entries;", None, "  typedef std::map<std::string, std::vector<std::string> > Entries;"),
 (HP + "dictionary.hpp", "#include <unordered_map>\n", None, "#include <map>\n#include <unordered_map>\n"),
]
R["dict-lookup"] = [
 (DI, "  Entries::const_iterator it = dict.find(msgid);\n  if (it != dict.end())\n  {\n    unsigned int n", "std::string\nDictionary::untranslated_plural", r'''  const Entries::const_iterator it = dict.find(msgid);
  if (it == dict.end())
  {
    log_info << "Couldn't translate: " << msgid << std::endl;
    log_info << "Candidates: " << std::endl;
    for (const auto& candidate : dict)
      log_info << "'" << candidate.first << "'" << std::endl;
    return untranslated_plural(msgctxt, msgid, msgid_plural, count);
  }

  const std::vector<std::string>& msgstrs = it->second;
  const std::size_t n = plural_forms.get_plural(count);
  const bool missing = n >= msgstrs.size();
  if (missing)
  {
    log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
    log_error << "Missing plural form: " << n << std::endl;
  }
  return missing || msgstrs.at(n).empty() ? untranslated_plural(msgctxt, msgid, msgid_plural, count) : msgstrs.at(n);
}

'''),
 (DI, "  Entries::const_iterator i = dict.find(msgid);\n  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())\n  {\n    return i->second[0];\n  }\n  else\n  {\n    log_info << \"Couldn't translate: \" << msgid << std::endl;\n\n    return untranslated(msgctxt, msgid);\n  }", None, r'''  for (auto i = dict.find(msgid); i != dict.end(); i = dict.end())
  {
    const std::vector<std::string>& forms = i->second;
    if (forms.size() > 0 && forms.front() != "")
      return forms.front();
  }
  log_info << "Couldn't translate: " << msgid << std::endl;
  return untranslated(msgctxt, msgid);'''),
]
R["dm-best"] = [
 (DM, "      std::string best_filename;\n      int best_score = 0;\n", "      if (!best_filename.empty())\n      {", "      const std::string best_filename = find_best(language, files);\n\n"),
 (DM, "Dictionary&\nDictionaryManager::get_dictionary(const Language& language)", None, r'''std::string
DictionaryManager::find_best(const Language& language, const std::vector<std::string>& files) const
{
  std::vector<std::pair<int, const std::string*> > candidates;
  for (const std::string& filename : files)
  {
    if (!has_suffix(filename, ".po"))
      continue; // ignore anything that isn't a .po file

    const Language po_language = Language::from_env(convertFilename2Language(filename));
    if (!po_language)
    {
      log_warning << filename << ": warning: ignoring, unknown language" << std::endl;
      continue;
    }
    const int score = Language::match(language, po_language);
    if (score != 0)
      candidates.emplace_back(score, &filename);
  }
  if (candidates.empty())
    return std::string();
  return *std::max_element(candidates.begin(), candidates.end(), [](const std::pair<int, const std::string*>& a, const std::pair<int, const std::string*>& b) { return a.first < b.first; })->second;
}

Dictionary&
DictionaryManager::get_dictionary(const Language& language)'''),
 (HP + "dictionary_manager.hpp", "private:\n  std::vector<std::string> list_directory(", None, "private:\n  std::string find_best(const Language& language, const std::vector<std::string>& files) const;\n  std::vector<std::string> list_directory("),
 (DM, "    bool underscore_found = false;\n    for(unsigned", "}   // convertFilename2Language", r'''    std::string::size_type i = s.find('_');
    if (i != std::string::npos)
        for (++i; i != s.size() && ascii_isalpha(s[i]); ++i)
            s[i] = ascii_toupper(s[i]);
    return s;
'''),
]
R["dm-unique"] = [
 (HP + "dictionary_manager.hpp", "std::unordered_map<Language, Dictionary*, Language_hash> Dictionaries;", None, "std::map<Language, std::unique_ptr<Dictionary> > Dictionaries;"),
 (HP + "dictionary_manager.hpp", "#include <set>\n", None, "#include <set>\n#include <map>\n"),
 (DM, "  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    delete i->second;\n  }\n}\n\nvoid", None, "}\n\nvoid"),
 (DM, "  for(Dictionaries::iterator i = dictionaries.begin(); i != dictionaries.end(); ++i)\n  {\n    delete i->second;\n  }\n  dictionaries.clear();\n\n  current_dict = nullptr;", None, "  current_dict = nullptr;\n  dictionaries.clear();"),
 (DM, "    Dictionary* dict = new Dictionary(charset);\n\n    dictionaries[language] = dict;\n", None, "    Dictionary* const dict = dictionaries.emplace(language, std::unique_ptr<Dictionary>(new Dictionary(charset))).first->second.get();\n"),
 (DM, "    for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)\n    {", None, "    for (SearchPath::size_type k = search_path.size(); k-- > 0; )\n    {\n      const std::string* p = &search_path[k];"),
]
R["dm-set"] = [
 (DM, "  if (current_language != language)\n  {\n    current_language = language;\n    current_dict     = nullptr;\n  }", None, "  current_language = language;\n  current_dict = nullptr;"),
 (DM, "  clear_cache(); // changing charset invalidates cache\n  charset = charset_;", None, "  if (charset == charset_)\n    return;\n  charset = charset_;\n  clear_cache(); // changing charset invalidates cache"),
 (DM, "  clear_cache();\n  use_fuzzy = t;", None, "  if (use_fuzzy != t)\n  {\n    use_fuzzy = t;\n    clear_cache();\n  }"),
 (DM, "  if (current_dict)\n  {\n    return *current_dict;\n  }\n  else\n  {\n    if (current_language)\n    {\n      current_dict = &get_dictionary(current_language);\n      return *current_dict;\n    }\n    else\n    {\n      return empty_dict;\n    }\n  }", None, "  if (!current_language)\n    return empty_dict;\n  if (!current_dict)\n    current_dict = &get_dictionary(current_language);\n  return *current_dict;"),
 (DM, "  SearchPath::iterator it = find(search_path.begin(), search_path.end(), pathname);\n  if(it != search_path.end()) {\n    clear_cache(); // removing directories invalidates cache\n    search_path.erase(it);\n  }", None, "  const SearchPath::size_type before = search_path.size();\n  search_path.erase(std::remove(search_path.begin(), search_path.end(), pathname), search_path.end());\n  if (search_path.size() != before)\n    clear_cache(); // removing directories invalidates cache"),
]
R["iconv-chunks"] = [
 (IC, "    size_t inbytesleft  = text.size();", "  }\n}\n\n} // namespace tinygettext", r'''    size_t inbytesleft = text.size();
    const char* inbuf = text.data();
    std::string result;
    char chunk[64];

    for (;;)
    {
      char* outbuf = chunk;
      size_t outbytesleft = sizeof(chunk);
      const size_t r = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
      const int err = errno;
      result.append(chunk, static_cast<size_t>(outbuf - chunk));
      if (r != static_cast<size_t>(-1))
        break;
      if (err == E2BIG)
        continue;
      assert(err == EILSEQ || err == EINVAL);
      tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
      log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
      break;
    }

    return result;
'''),
 (IC, "  if (cd)\n  {\n    tinygettext::iconv_close(cd);\n    cd = nullptr;\n  }\n\n  from_charset = from_charset_;\n  to_charset   = to_charset_;\n\n  for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)\n    *i = ascii_toupper(*i);\n\n  for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)\n    *i = ascii_toupper(*i);\n", None, r'''  const iconv_t old = cd;
  cd = nullptr;
  if (old != nullptr)
    tinygettext::iconv_close(old);

  const auto upper = [](std::string str) { for (char& c : str) c = ascii_toupper(c); return str; };
  to_charset = upper(to_charset_);
  from_charset = upper(from_charset_);
'''),
]
R["lang-init"] = [
 (LA, "  typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;\n  static LanguageSpecMap language_map;\n", "Language\nLanguage::from_name", r'''  Language request;
  LanguageSpec spec;
  spec.language = language.c_str();
  spec.country  = country.c_str();
  spec.modifier = modifier.c_str();
  request.language_spec = &spec;

  const LanguageSpec* best = nullptr;
  int best_score = 0;
  for (const LanguageSpec* it = languages; it->language; ++it)
  {
    if (language != it->language)
      continue;
    const int score = match(Language(it), request);
    if (score <= best_score)
      continue;
    best_score = score;
    best = it;
  }
  return best ? Language(best) : Language();
}

'''),
 (LA, "  // Split LANGUAGE_COUNTRY.CODESET@MODIFIER into parts\n", "  return from_spec(language, country, modifier);", r'''  // Split LANGUAGE_COUNTRY.CODESET@MODIFIER into parts
  std::string head = env;
  std::string country;
  std::string modifier;

  const std::string::size_type at = head.find('@');
  if (at != std::string::npos)
  {
    modifier.assign(head, at + 1, std::string::npos);
    head.erase(at);
  }
  head = head.substr(0, head.find('.'));
  const std::string::size_type ln = head.find_first_of("_");
  if (ln != std::string::npos)
    country = head.substr(ln + 1);
  const std::string language(head, 0, ln);

'''),
 (LA, "    static int match_tbl[3][3] = {", "std::string\nLanguage::get_language() const", r'''    const auto grade = [](const std::string& a, const std::string& b) { return a == b ? 0 : (a.empty() || b.empty()) ? 1 : 2; };
    const int c = grade(lhs.get_country(), rhs.get_country());
    const int m = grade(lhs.get_modifier(), rhs.get_modifier());
    switch (c)
    {
      case 0:  return m == 0 ? 9 : m == 1 ? 8 : 5;
      case 1:  return m == 0 ? 7 : m == 1 ? 6 : 3;
      default: return m == 0 ? 4 : 3 - m;
    }
  }
}

'''),
]
R["lang-alias"] = [
 (LA, "  std::string name_lowercase;\n  name_lowercase.resize(name.size());\n  for(std::string::size_type i = 0; i < name.size(); ++i)\n    name_lowercase[i] = static_cast<char>(tolower(name[i]));\n\n  Aliases::iterator i = language_aliases.find(name_lowercase);\n  if (i != language_aliases.end())\n  {\n    return i->second;\n  }\n  else\n  {\n    return name;\n  }", None, r'''  std::string key;
  key.reserve(name.size());
  for (const char c : name)
    key.push_back(ascii_tolower(c));

  if (language_aliases.count(key) == 0)
    return name;
  return language_aliases.at(key);'''),
 (LA, "    std::string var;\n    var += language_spec->language;", "  else\n  {\n    return \"\";\n  }\n}\n\nbool\nLanguage::operator==", r'''    std::ostringstream var;
    var << language_spec->language;
    if (const char* country = language_spec->country)
      var << '_' << country;
    if (const char* modifier = language_spec->modifier)
      var << '@' << modifier;
    return var.str();
  }
'''),
 (LA, "#include <unordered_map>\n", None, "#include <unordered_map>\n#include <sstream>\n"),
]
R["plural-rules"] = [
 (PL, "unsigned int plural3_1(int n)  { return", "unsigned int plural3_sk", r'''unsigned int plural3_1(int n)
{
  const int ones = n % 10;
  const int tens = n % 100 / 10;
  if (ones == 1 && n % 100 != 11)
    return 0;
  if (ones >= 2 && ones <= 4 && tens != 1)
    return 1;
  return 2;
}
'''),
 (PL, "unsigned int plural6_ar(int n) { return", "\n} // namespace", r'''unsigned int plural6_ar(int n)
{
  if (n >= 0 && n < 3)
    return static_cast<unsigned int>(n);
  const int r = n % 100;
  if (r >= 3 && r <= 10)
    return 3;
  return r > 10 ? 4 : 5;
}
'''),
 (PL, "unsigned int plural4_be(int n) { return", "unsigned int plural4_cs", r'''unsigned int plural4_be(int n)
{
  const bool teen = n % 100 >= 11 && n % 100 <= 14;
  switch (n % 10)
  {
    case 1: return teen ? 2 : 0;
    case 2: case 3: case 4: return teen ? 2 : 1;
    default: return n < 0 ? 3 : 2;
  }
}
'''),
 (PL, "  // Remove spaces from string before lookup\n", "} // namespace tinygettext\n\n/* EOF */", r'''  // Remove spaces from string before lookup
  std::string key(str);
  key.erase(std::remove_if(key.begin(), key.end(), [](char c) { return ascii_isspace(c); }), key.end());

  const auto it = known_forms.find(key);
  return it == known_forms.end() ? PluralForms() : it->second;
}

'''),
 (PL, "#include <unordered_map>\n", None, "#include <unordered_map>\n#include <algorithm>\n#include <ctype.h>\n"),
]
R["plural-array"] = [
 (PL, "  typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;", None, "  typedef std::map<std::string, PluralForms> PluralFormsMap;"),
 (PL, "#include <unordered_map>\n", None, "#include <map>\n"),
]
R["log-write"] = [
 (LG, "  callback(out.str());", None, "  const std::string message = out.str();\n  if (callback)\n    callback(message);"),
 (LG, "  std::cerr << \"tinygettext: \" << str;", None, "  std::cerr.write(\"tinygettext: \", 13);\n  std::cerr.write(str.data(), static_cast<std::streamsize>(str.size()));"),
]
UF = "src/unix_file_system.cpp"
ORIG_LIST = "  std::vector<std::string> files;\n  for(auto const& p : std::filesystem::directory_iterator(pathname))\n  {\n    files.push_back(p.path().filename().string());\n  }\n  return files;\n"
R["fs-iterator"] = [(UF, ORIG_LIST, None, "  std::vector<std::string> files;\n  std::filesystem::directory_iterator it(pathname);\n  const std::filesystem::directory_iterator end;\n  for (; it != end; ++it)\n  {\n    const std::filesystem::path full = it->path();\n    files.emplace_back(full.filename().native());\n  }\n  return files;\n"),
 (UF, "return std::unique_ptr<std::istream>(new std::ifstream(filename));", None, "auto in = std::make_unique<std::ifstream>(filename.c_str(), std::ios::in | std::ios::binary);\n  return in;")]
R["fs-error-code"] = [(UF, ORIG_LIST, None, "  std::error_code ec;\n  std::filesystem::directory_iterator it(pathname, ec);\n  if (ec)\n    throw std::filesystem::filesystem_error(\"cannot list\", pathname, ec);\n  std::vector<std::string> files;\n  while (it != std::filesystem::directory_iterator())\n  {\n    const std::string full = it->path().string();\n    files.push_back(full.substr(full.find_last_of('/') + 1));\n    it.increment(ec);\n    if (ec)\n      break;\n  }\n  return files;\n"),
 (UF, "return std::unique_ptr<std::istream>(new std::ifstream(filename));", None, "std::unique_ptr<std::ifstream> in(new std::ifstream);\n  in->open(filename);\n  if (!in->is_open())\n    return nullptr;\n  return std::unique_ptr<std::istream>(std::move(in));")]
R["fs-dirent"] = [(UF, ORIG_LIST, None, "  std::vector<std::string> files;\n  DIR* dir = opendir(pathname.c_str());\n  if (!dir)\n    return files;\n  while (struct dirent* dp = readdir(dir))\n  {\n    const std::string name = dp->d_name;\n    if (name != \".\" && name != \"..\")\n      files.push_back(name);\n  }\n  closedir(dir);\n  return files;\n")]
