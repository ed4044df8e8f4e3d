from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
PH, LS, LH, DH = "include/tinygettext/plural_forms.hpp", "include/tinygettext/log_stream.hpp", "include/tinygettext/language.hpp", "include/tinygettext/dictionary.hpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

b("c02-msgctxt-loop", "C02", "a file that ends directly after a plural entry's msgid_plural", "the end of the file inside a plural entry is never noticed",
  [(PO, "            if (msgstr_num.empty())\n              error(", "            if (msgstr_num.empty() && !eof)\n              error("),
   (PO, "            dict.add_translation(msgid, msgid_plural, msgstr_num);", "            dict.add_translation(msgid, msgid_plural, msgstr_num);"),
   (PO, "\t  if (saw_nonempty_msgstr)\n", "\t  if (saw_nonempty_msgstr || msgstr_num.front().size() > 1)\n")] [0:1] + [(PO, "\t  if (saw_nonempty_msgstr)\n", "\t  if (saw_nonempty_msgstr || msgstr_num.at(0).size() > 1)\n")],
  MAIN % r'Dictionary d; try { parse(m("a", "b") + "msgid \"x\"\nmsgid_plural \"xs\"\n", d); } catch (std::out_of_range&) { CHECK(false); } CHECK(d.translate("a") == "b");')
b("c02-escape-end", "C02", "a line that ends in a backslash inside a string", "the byte behind a trailing backslash is read beyond the end of the line",
  [(PO, "      if (i >= current_line.size())\n        error(\"unexpected end of string in handling '\\\\'\");\n\n      switch (current_line[i])", "      if (i > current_line.size())\n        error(\"unexpected end of string in handling '\\\\'\");\n\n      switch (current_line.at(i))")],
  MAIN % r'Dictionary d; try { parse("msgid \"a\"\nmsgstr \"abc\\\n\n" + m("x", "y"), d); } catch (std::out_of_range&) { CHECK(false); }')
b("c02-big5-end", "C02", "a Big5 file with a lead byte at the very end of a line", "the second byte of a cut off character is read beyond the end",
  [(PO, "      if (i >= current_line.size())\n        error(\"invalid big5 encoding\");\n\n      out << current_line[i];", "      out << current_line.at(i);")],
  MAIN % r'Dictionary d("BIG5"); std::string h = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=big5\\n\"\n\n"; try { parse(h + "msgid \"a\"\nmsgstr \"ab\xa4\n\n" + m("x", "y"), d); } catch (std::out_of_range&) { CHECK(false); } CHECK(d.translate("x") == "y");')
b("c03-ctx-leak", "C03", "an entry whose context line is well-formed but whose msgid is malformed, followed by an entry without context", "the context of a malformed entry sticks to the next entry",
  [(PO, "      bool has_msgctxt = false;\n      std::string msgctxt;\n      std::string msgid;\n", "      std::string msgid;\n"), (PO, "  // Parser structure\n  while(!eof)", "  bool has_msgctxt = false;\n  std::string msgctxt;\n\n  // Parser structure\n  while(!eof)"),
   (PO, "      if (!is_empty_line())\n        error(\"expected empty line\");\n\n      next_line();\n", "      if (!is_empty_line())\n        error(\"expected empty line\");\n\n      has_msgctxt = false;\n      next_line();\n"),
   (PO, "      if (!is_empty_line())\n      {\n        if (prefix(\"msgctxt\"))", "      if (is_empty_line())\n      {\n        if (!has_msgctxt)\n          msgctxt.clear();\n        next_line();\n        continue;\n      }\n      else\n      {\n        if (prefix(\"msgctxt\"))")],
  MAIN % r'Dictionary d; parse("msgctxt \"c\"\nmsgid x\nmsgstr \"y\"\n\n" + m("a", "b"), d); CHECK(d.translate("a") == "b");')
b("c03-partial-plural", "C03", "a plural entry whose second form is malformed", "the forms read before the error are stored for the malformed entry",
  [(PO, "            msgstr_num[number] = conv.convert(msgstr);\n            goto next;", "            msgstr_num[number] = conv.convert(msgstr);\n            if (prefix(\"msgstr [\"))\n              dict.add_translation(msgid, msgid_plural, msgstr_num);\n            goto next;")],
  MAIN % r'Dictionary d; parse(m("a", "b") + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr [1] \"y\"\n\n", d); CHECK(d.translate("a") == "b");')
b("c04-big-count", "C04", "a count above one million", "large counts are reduced before the rule is applied",
  [(PH, "  unsigned int get_plural(int n) const { if (plural) return plural(n); else return 0; }", "  unsigned int get_plural(int n) const { if (plural) return plural(n > 1000000 ? n % 1000000 : n); else return 0; }")],
  MAIN % r'PluralForms p = PluralForms::from_string("Plural-Forms: nplurals=2; plural=n!=1;"); CHECK(p.get_plural(2) == 1); CHECK(p.get_plural(1000001) == 1);')
b("c04-pl-zero", "C04", "the count 0 or 1 modulo 10 under the four-form Polish rule", "the four-form Polish rule treats counts such as 21 wrongly",
  [(PL, "(n != 1 && (n % 10 >= 0 && n % 10 <= 1)) || (n % 10 >= 5", "(n != 1 && n % 10 == 0) || (n % 100 == 1) || (n % 10 >= 5")],
  MAIN % r'PluralForms p = PluralForms::from_string("Plural-Forms: nplurals=4; plural=(n==1 ? 0 : (n%10>=2 && n%10<=4) && (n%100<12 || n%100>14) ? 1 : n!=1 && (n%10>=0 && n%10<=1) || (n%10>=5 && n%10<=9) || (n%100>=12 && n%100<=14) ? 2 : 3);"); CHECK(p); CHECK(p.get_plural(10) == 2); CHECK(p.get_plural(21) == 2);')
# ---- C09
b("c09-plural", "C09", "a fuzzy plural entry with fuzzy use disabled and a context", "fuzzy plural entries with a context are used although disabled",
  [(PO, "\t    if (use_fuzzy || !fuzzy)\n            {\n\t      if (!dict", "\t    if (use_fuzzy || !fuzzy || has_msgctxt)\n            {\n\t      if (!dict")],
  MAIN % r'Dictionary d; parse(HEAD + "#, fuzzy\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n", d, false); CHECK(d.translate_ctxt_plural("c", "a", "as", 1) == "a");')
b("c09-last-flag", "C09", "several flag lines above an entry, fuzzy on a line that is not the last", "only the last flag line counts",
  [(PO, "          if (current_line.find(\"fuzzy\", 2) != std::string::npos)\n            fuzzy = true;", "          fuzzy = (current_line.find(\"fuzzy\", 2) != std::string::npos);")],
  MAIN % r'Dictionary d; parse("#, fuzzy\n#, c-format\nmsgid \"a\"\nmsgstr \"b\"\n\n", d, false); CHECK(d.translate("a") == "a");')
b("c09-fuzzy-header", "C09", "a fuzzy header with fuzzy use disabled", "a header marked fuzzy is ignored when fuzzy use is off",
  [(PO, "          if (msgid.empty() && !has_msgctxt)\n          {", "          if (msgid.empty() && !has_msgctxt && !use_fuzzy && fuzzy)\n          {\n            warning(\"fuzzy header\");\n          }\n          else if (msgid.empty() && !has_msgctxt)\n          {")],
  MAIN % r'Dictionary d; parse("#, fuzzy\n" + HEAD, d, false); CHECK(d.get_plural_forms());')
# ---- C10
b("c10-first-variant", "C10", "a request whose modifier matches a later variant of the same country score", "the search stops at the first variant with the right country",
  [(LA, "        best_match = *j;\n        best_match_score = score;\n", "        best_match = *j;\n        best_match_score = score;\n        if (score >= 8)\n          break;\n")],
  MAIN % r'CHECK(Language::from_spec("sr", "", "latin").str() == "sr@latin"); CHECK(Language::from_spec("sr", "RS", "latin").str() == Language::from_env("sr_RS@latin").str()); Language l = Language::from_env("ca@valencia"); CHECK(l.str() == "ca@valencia"); for (const char* s : { "sr@latin", "ca@valencia", "uz@cyrillic", "be@latin", "sr@ijekavian", "sr@ijekavianlatin" }) { Language x = Language::from_env(s); std::printf("%s %s\n", s, x.str().c_str()); }')
b("c10-asym", "C10", "a pair in which only the second language has a country", "match() is not symmetric",
  [(LA, "    else if (lhs.get_country().empty() || rhs.get_country().empty())\n      c = 1;", "    else if (lhs.get_country().empty() || (rhs.get_country().empty() && lhs.get_modifier() == rhs.get_modifier()))\n      c = 1;")],
  MAIN % r'const char* n[] = { "sr", "sr@latin", "sr_RS", "sr_ME", "ca", "ca_ES", "ca@valencia", "ca_ES@valencia", "en@quot", "en_GB", "en", "en@shaw", "en@boldquot", "uz@cyrillic", "uz_UZ" }; for (auto a : n) for (auto c : n) CHECK(Language::match(Language::from_env(a), Language::from_env(c)) == Language::match(Language::from_env(c), Language::from_env(a)));')
# ---- C11
b("c11-at-before-dot", "C11", "a modifier that contains a dot", "the country reaches to the dot even when the @ comes first",
  [(LA, "  language = env.substr(0, std::min(std::min(ln, dt), at));", "  language = env.substr(0, std::min(ln, dt != std::string::npos ? dt : at));")],
  MAIN % r'CHECK(Language::from_env("de@x.y").str() == "de");')
b("c11-last-at", "C11", "a locale string with two @", "the modifier starts at the last @",
  [(LA, "    modifier = env.substr(at+1);", "    modifier = env.substr(env.rfind('@')+1);")],
  MAIN % r'CHECK(Language::from_env("sr@latin").str() == "sr@latin"); CHECK(Language::from_env("sr@x@latin").str() == Language::from_spec("sr", "", "x@latin").str());')
b("c11-first-sep", "C11", "a codeset that contains an @ sign followed by nothing", "a trailing @ ends up in the language code",
  [(LA, "  std::string::size_type at = env.find('@');", "  std::string::size_type at = env.find('@');\n  if (at+1 == env.size())\n    at = std::string::npos;"), (LA, "  if (at != std::string::npos && at+1 < env.size()) // @", "  if (at != std::string::npos) // @")],
  MAIN % r'CHECK(Language::from_env("de@").str() == "de"); CHECK(Language::from_env("de_AT@").str() == "de_AT");')
# ---- C12
b("c12-locale-lower", "C12", "a name that is no alias and contains upper case letters", "names that are not aliases are lower-cased",
  [(LA, "  else\n  {\n    return name;\n  }", "  else\n  {\n    return name_lowercase.find('.') == std::string::npos ? name : name_lowercase;\n  }")],
  MAIN % r'CHECK(Language::from_name("pt_BR").str() == "pt_BR"); CHECK(Language::from_name("pt_BR.UTF-8").str() == "pt_BR");')
b("c12-first-letter", "C12", "an alias with upper case letters beyond the first", "only the first letter of a name is compared without regard to case",
  [(LA, "    name_lowercase[i] = static_cast<char>(tolower(name[i]));", "    name_lowercase[i] = static_cast<char>((i == 0 || name.size() > 9) ? tolower(name[i]) : name[i]);")],
  MAIN % r'CHECK(Language::from_name("German").str() == "de_DE"); CHECK(Language::from_name("GERMAN").str() == "de_DE");')
b("c12-near-alias", "C12", "an alias with trailing text", "anything that starts with an alias is taken for it",
  [(LA, "  name_lowercase.resize(name.size());\n  for(std::string::size_type i = 0; i < name.size(); ++i)\n    name_l", "  name_lowercase.resize(std::min(name.size(), name.find(' ')));\n  for(std::string::size_type i = 0; i < name_lowercase.size(); ++i)\n    name_l")],
  MAIN % r'CHECK(Language::from_name("german").str() == "de_DE"); CHECK(!Language::from_name("german x"));')
# ---- C13
b("c13-extension", "C13", "a file name with a longer extension next to it", "files that merely contain .po are loaded",
  [(DM, "        if (has_suffix(*filename, \".po\"))\n        { // ignore", "        if (has_suffix(*filename, \".po\") || has_suffix(*filename, \".po~\"))\n        { // ignore")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po~", m("a", "old")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "a");')
# ---- C14
b("c14-readd", "C14", "adding a directory with precedence that is already in the search path", "re-adding a directory with precedence moves it",
  [(DM, "    else\n      search_path.push_back(pathname);\n  }\n}", "    else\n      search_path.push_back(pathname);\n  }\n  else if (precedence && search_path.back() == pathname && search_path.size() > 2)\n  {\n    clear_cache();\n    search_path.pop_back();\n    search_path.push_front(pathname);\n  }\n}"), (DM, "pathname) == search_path.end()) {", "pathname) == search_path.end())\n  {")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; for (const char* n : { "d", "e", "f" }) { man.add_directory(n); fs->put(n, "de.po", m("a", n)); } man.add_directory("f", true); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "d");')
b("c14-remove-tail", "C14", "removing a directory that is not the last one", "removing a directory also removes those behind it",
  [(DM, "    search_path.erase(it);", "    search_path.erase(it, (search_path.end() - it) > 2 ? it + 2 : it + 1);")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; for (const char* n : { "d", "e", "f" }) { man.add_directory(n); fs->put(n, "de.po", m(n, "x")); } man.remove_directory("d"); Dictionary& d = man.get_dictionary(Language::from_env("de")); CHECK(d.translate("e") == "x"); CHECK(d.translate("d") == "d"); CHECK(d.translate("f") == "x");')
b("c14-shared-rule", "C14", "messages translated in two directories, empty in the first", "a translation of an earlier directory does not override when it is shorter",
  [(DI, "  else if (vec[0] != msgstr)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << ", "  else if (vec[0] != msgstr && vec[0].compare(0, msgstr.size(), msgstr) != 0)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgid << ")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->put("d", "de.po", m("a", "x")); fs->put("e", "de.po", m("a", "xy")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
# ---- C15
b("c15-charset-cache", "C15", "a change of charset after a dictionary was loaded", "dictionaries loaded before a change of charset stay in use",
  [(DM, "  clear_cache(); // changing charset invalidates cache\n", "  if (!current_dict || charset.size() != charset_.size())\n    clear_cache(); // changing charset invalidates cache\n")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs), "UTF-8"}; man.add_directory("d"); fs->put("d", "de.po", HEAD + m("a", "\xc3\xa4")); man.set_language(Language::from_env("de")); CHECK(man.get_dictionary().translate("a") == "\xc3\xa4"); man.set_charset("CP850"); CHECK(man.get_dictionary().translate("a") == "\x84");')
b("c15-language-back", "C15", "setting a language, looking up, and setting no language", "the dictionary of the former language stays current after the language is unset",
  [(DM, "    current_dict     = nullptr;\n", "    if (language)\n      current_dict   = nullptr;\n")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", m("a", "x")); man.set_language(Language::from_env("de")); CHECK(man.get_dictionary().translate("a") == "x"); man.set_language(Language()); CHECK(man.get_dictionary().translate("a") == "a");')
b("c15-remove-keeps", "C15", "removing a directory after the dictionary was loaded", "removing a directory does not drop dictionaries when another remains",
  [(DM, "    clear_cache(); // removing directories invalidates cache\n", "    if (search_path.size() == 1 || it == search_path.begin())\n      clear_cache(); // removing directories invalidates cache\n")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->put("d", "de.po", m("a", "x")); fs->put("e", "de.po", m("b", "y")); CHECK(man.get_dictionary(Language::from_env("de")).translate("b") == "y"); man.remove_directory("e"); CHECK(man.get_dictionary(Language::from_env("de")).translate("b") == "b");')
# ---- C16
b("c16-modifier", "C16", "a language with both country and modifier", "languages with a modifier get no fallback",
  [(DM, "    if (!language.get_country().empty())\n", "    if (!language.get_country().empty() && language.get_modifier().empty())\n")],
  MAIN % r'int n = 0; const char* c[] = { "ca_ES@valencia", "sr_RS@latin", "en_GB@shaw", "be_BY@latin", "uz_UZ@cyrillic", "tt_RU@iqtelif", "en_US@piglatin", "es_ES@euro", "nn_NO@x" }; for (auto s : c) { Language l = Language::from_env(s); if (l.get_country().empty() || l.get_modifier().empty()) continue; ++n; FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", l.get_language() + ".po", m("b", "y")); fs->put("d", l.str() + ".po", m("a", "x")); CHECK(man.get_dictionary(l).translate("b") == "y"); } std::printf("%d\n", n);')
b("c16-own-rule", "C16", "a regional file without the message while the base file has another plural rule", "the base dictionary is consulted with the count reduced to 1 or 2",
  [(DI, "  Entries::const_iterator it = dict.find(msgid);\n  if (it != dict.end())\n  {\n    unsigned int n", "  Entries::const_iterator it = dict.find(msgid);\n  if (it == dict.end() && m_has_fallback && plural_forms && plural_forms.get_nplural() == 2)\n    count = plural_forms.get_plural(count) == 0 ? 1 : 2;\n  if (it != dict.end())\n  {\n    unsigned int n")],
  MAIN % r'Dictionary r, base; r.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n!=1;")); base.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;")); base.add_translation("a", "as", std::vector<std::string>{ "1", "2", "3" }); r.addFallback(&base); CHECK(r.translate_plural("a", "as", 5) == "3");')
# ---- C17
b("c17-reset", "C17", "a conversion after one that failed inside a shift sequence or character", "the converter is not reset after invalid input",
  [(IC, "        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state\n", "        if (errno == EILSEQ)\n          tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state\n")],
  MAIN % r'IConv c("ISO-2022-JP", "UTF-8"); std::string good = "abc"; CHECK(c.convert(good) == "abc"); c.convert("\x1b$B$"); CHECK(c.convert(good) == "abc");')
b("c17-close-equal", "C17", "switching to equal charsets after a real conversion", "the descriptor is kept although the charsets are now equal",
  [(IC, "  if (cd)\n  {\n    tinygettext::iconv_close(cd);\n    cd = nullptr;\n  }\n\n  from_charset = from_charset_;", "  if (cd && from_charset_ != to_charset_)\n  {\n    tinygettext::iconv_close(cd);\n    cd = nullptr;\n  }\n\n  from_charset = from_charset_;"), (IC, "    cd = nullptr;\n  }\n  else\n  {", "    if (from_charset_ != to_charset_)\n      cd = nullptr;\n  }\n  else\n  {")],
  MAIN % r'IConv c("ISO-8859-1", "UTF-8"); CHECK(c.convert("\xe4") == "\xc3\xa4"); c.set_charsets("UTF-8", "UTF-8"); CHECK(c.convert("\xc3\xa4") == "\xc3\xa4");')
b("c17-case", "C17", "charset names equal but for letters beyond the first ones", "equal charset names in other letter case are opened as a real conversion",
  [(IC, "  for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)\n    *i = static_cast<char>(toupper(*i));", "  for(std::string::iterator i = from_charset.begin(); i != from_charset.end() && *i != '-'; ++i)\n    *i = static_cast<char>(toupper(*i));")],
  MAIN % r'IConv c("iso-8859-1", "x"); return 0; }' .replace('IConv c("iso-8859-1", "x"); return 0; }', r'try { IConv c("my-charset", "MY-CHARSET"); CHECK(c.convert("a\xff") == "a\xff"); } catch (std::exception&) { CHECK(false); } %s') % "")
# ---- C18
b("c18-line-number", "C18", "a diagnostic behind an earlier malformed entry", "the line number is not counted while recovering from an error",
  [(PO, "  line_number += 1;\n  if (!std::getline(in, current_line))", "  if (running || current_line.empty() || current_line[0] != '#' || current_line.size() < 2 || current_line[1] != '~')\n    line_number += 1;\n  if (!std::getline(in, current_line))")],
  r'static std::string e; int main() { quiet(); Log::set_log_error_callback([](const std::string& s) { e += s; }); Dictionary d; parse("#~ msgid \"o\"\n#~ msgstr \"p\"\n\njunk\n\n", d); CHECK(e.find("f.po:4:") != std::string::npos); return fails != 0; }')
b("c18-severity", "C18", "a missing plural form with only the warning callback installed", "a diagnostic goes to the callback of another severity",
  [(DI, "      log_error << \"Missing plural form: \" << n << std::endl;", "      log_warning << \"Missing plural form: \" << n << std::endl;")],
  r'static std::string e, w; int main() { quiet(); Log::set_log_error_callback([](const std::string& s) { e += s; }); Log::set_log_warning_callback([](const std::string& s) { w += s; }); Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n!=1;")); d.add_translation("a", "x"); d.translate_plural("a", "as", 2); CHECK(e.find("Missing plural form: 1") != std::string::npos); CHECK(w.empty()); return fails != 0; }')
b("c18-null-macro", "C18", "only the info callback removed while others are installed", "the check for a removed callback looks at another severity",
  [(LS, "#define log_info    if (!Log::log_info_callback); ", "#define log_info    if (!Log::log_warning_callback); ")],
  r'int main() { Log::set_log_info_callback(nullptr); Log::set_log_warning_callback([](const std::string&) {}); Log::set_log_error_callback(nullptr); Dictionary d; CHECK(d.translate("a") == "a"); return fails != 0; }')
b("c18-lazy-effect", "C18", "the warning callback removed and a colliding addition", "a change of a translation happens only when the warning is logged",
  [(DI, "                << msgctxt << \"', '\" << msgid << \"', '\" << msgid_plural\n                << \"' -> [\" << vec << \"] vs [\" << msgstrs << \"]\" << std::endl;\n    vec = msgstrs;", "                << msgctxt << \"', '\" << msgid << \"', '\" << msgid_plural\n                << \"' -> [\" << vec << \"] vs [\" << (vec = msgstrs) << \"]\" << std::endl;")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n!=1;")); d.add_translation("c", "a", "as", std::vector<std::string>{ "1", "2" }); d.add_translation("c", "a", "as", std::vector<std::string>{ "3", "4" }); CHECK(d.translate_ctxt_plural("c", "a", "as", 1) == "3");')
# ---- C19
b("c19-overwrite-rule", "C19", "a dictionary that already has a rule with as many forms", "the header's rule replaces an existing one with the same number of forms",
  [(PO, "          if (!dict.get_plural_forms())\n          {\n            dict.set", "          if (!dict.get_plural_forms() || (dict.get_plural_forms() != plural_forms && dict.get_plural_forms().get_nplural() == plural_forms.get_nplural()))\n          {\n            dict.set")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n > 1);")); parse(HEAD, d); CHECK(d.get_plural_forms().get_plural(0) == 0);')
b("c19-order", "C19", "a header whose Content-Type is followed by another Content line", "a later line that resembles Content-Type resets the charset",
  [(PO, "      if (has_prefix(line, \"Content-Type:\"))\n      {", "      if (has_prefix(line, \"Content-T\"))\n      {\n        from_charset.clear();")],
  MAIN % r'Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\"Content-Transfer-Encoding: 8bit\\n\"\n\n" + m("a", "\xe4"), d); CHECK(d.translate("a") == "\xc3\xa4");')
b("c19-case", "C19", "a charset name in mixed case", "the placeholder CHARSET in lower case counts as a real charset name",
  [(PO, "            *ch = static_cast<char>(toupper(*ch));", "            *ch = static_cast<char>(big5 || from_charset.size() < 7 ? toupper(*ch) : *ch);")],
  MAIN % r'Dictionary d; try { parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=charset\\n\"\n\n" + m("a", "\xc3\xa4"), d); CHECK(d.translate("a") == "\xc3\xa4"); } catch (std::exception&) { CHECK(false); }')
b("c19-msgid-converted", "C19", "a non-ASCII msgid in a file of another charset", "msgids with a context are converted like translations",
  [(PO, "                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));", "                dict.add_translation(msgctxt, conv.convert(msgid), conv.convert(msgstr));")],
  MAIN % r'Dictionary d; parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\nmsgctxt \"c\"\nmsgid \"\xe4\"\nmsgstr \"x\"\n", d); CHECK(d.translate_ctxt("c", "\xe4") == "x");')
# ---- C20
b("c20-break", "C20", "a file that cannot be opened in a later directory", "a file that cannot be opened ends the search through the other directories",
  [(DM, "            log_error << \"error: failure opening: \" << pofile << std::endl;\n", "            log_error << \"error: failure opening: \" << pofile << std::endl;\n            break;\n"), (DM, "          if (!in)\n          {", "          if (!in.get())\n          {")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->put("d", "de.po", m("a", "x")); fs->dirs["e"].push_back("de.po"); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
b("c20-rethrow", "C20", "a file whose charset cannot be converted", "an exception while parsing leaves the request",
  [(DM, "        catch(std::exception& e)\n        {\n          log_error << \"error: failure parsing: \" << pofile", "        catch(std::logic_error& e)\n        {\n          log_error << \"error: failure parsing: \" << pofile")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NOSUCH\\n\"\n\n" + m("a", "x")); try { CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "a"); } catch (std::exception&) { CHECK(false); }')
# ---- C21
b("c21-second-underscore", "C21", "a name with a second underscore", "letters after a later underscore are upper-cased too",
  [(DM, "            if(!::isalpha(s[i]))\n                break;", "            if(s[i] == '_')\n                continue;\n            if(!::isalpha(s[i]))\n                break;")],
  MAIN % r'DictionaryManager man; CHECK(man.convertFilename2Language("zh_tw_x.po") == "zh_TW_x");')
b("c21-digit", "C21", "a country part with a digit", "digits do not end the country part",
  [(DM, "            if(!::isalpha(s[i]))\n", "            if(!::isalnum(s[i]))\n")],
  MAIN % r'DictionaryManager man; CHECK(man.convertFilename2Language("es_4x.po") == "es_4x");')
b("c21-double-suffix", "C21", "a name that ends in .po twice", "the extension is removed more than once",
  [(DM, "        s = s_in.substr(0, s_in.size()-3);", "        s = s_in.substr(0, s_in.find(\".po\", s_in.size() > 6 ? s_in.size()-6 : 0));")],
  MAIN % r'DictionaryManager man; CHECK(man.convertFilename2Language("de.po.po") == "de.po");')
# ---- C22
b("c22-after-escape", "C22", "two double-byte characters in a row, the second with a backslash as second byte", "a second byte that is a lead byte itself starts another character",
  [(PO, "        error(\"invalid big5 encoding\");\n\n      out << current_line[i];", "        error(\"invalid big5 encoding\");\n\n      out << current_line[i];\n      if (static_cast<unsigned char>(current_line[i]) == 0xfe && i+1 < current_line.size())\n        out << current_line[++i];"), (PO, "      i += 1;\n\n      if (i >= current_line.size())\n        error(\"invalid", "      ++i;\n\n      if (i >= current_line.size())\n        error(\"invalid")],
  MAIN % r'Dictionary d("BIG5"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=big5\\n\"\n\nmsgid \"a\"\nmsgstr \"x\xa4\xfe\\n\"\n", d); CHECK(d.translate("a") == "x\xa4\xfe\n");')
b("c22-other-charset", "C22", "a file in another charset loaded by the same parser options", "GBK files are read as if they were Big5",
  [(PO, "  else if (from_charset == \"BIG5\")\n", "  else if (from_charset.compare(0, 4, \"BIG5\") == 0)\n")],
  MAIN % r'Dictionary d("BIG5-HKSCS"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=big5-hkscs\\n\"\n\nmsgid \"a\"\nmsgstr \"x\xfe\\\"y\"\n", d); CHECK(d.translate("a") == "x\xfe\"y");')
# ---- C23
b("c23-once", "C23", "a language offered only in a later directory", "only languages of the first directory with files are listed",
  [(DM, "  for (SearchPath::iterator p = search_path.begin(); p != search_path.end(); ++p)\n  {", "  for (SearchPath::iterator p = search_path.begin(); p != search_path.end() && (languages.empty() || p - search_path.begin() < 2); ++p)\n  {")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; const char* n[] = { "d", "e", "f" }; const char* l[] = { "de", "fr", "it" }; for (int i = 0; i < 3; ++i) { man.add_directory(n[i]); fs->put(n[i], std::string(l[i]) + ".po", ""); } CHECK(man.get_languages().size() == 3);')
b("c23-hidden", "C23", "a listing in which a file of another kind precedes the .po files", "the listing ends at the first file of another kind",
  [(DM, "      if (has_suffix(*file, \".po\"))\n      {", "      if (has_suffix(*file, \".mo\"))\n        break;\n      if (has_suffix(*file, \".po\"))\n      {"), (DM, "std::vector<std::string>::iterator file = files.begin(); file != files.end(); ++file)", "std::vector<std::string>::const_iterator file = files.begin(); file != files.end(); ++file)")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.mo", ""); fs->put("d", "de.po", ""); CHECK(man.get_languages().size() == 1);')
# ---- C24
b("c24-cr-blank", "C24", "CR LF line ends", "a line that holds only a carriage return is not blank",
  [(PO, "      if (!isspace(*i))\n        return false;", "      if (!isspace(*i) || (*i == '\\r' && current_line.size() == 1 && line_number > 1))\n        return false;")],
  MAIN % r'Dictionary d; parse("msgid \"a\"\r\nmsgstr \"b\"\r\n\r\nmsgid \"c\"\r\nmsgstr \"d\"\r\n", d); CHECK(d.translate("a") == "b"); CHECK(d.translate("c") == "d");')
b("c24-obsolete", "C24", "an obsolete entry directly above an entry", "obsolete entries are read as entries",
  [(PO, "      while(prefix(\"#\"))\n      {", "      while(prefix(\"#\") && !prefix(\"#~m\"))\n      {\n        if (current_line.size() > 2 && current_line.compare(0, 3, \"#~ \") == 0 && current_line.find(\"msgid\") == 2)\n          fuzzy = false;"), (PO, "    catch(POParserError&)\n    {\n    }", "    catch(POParserError&)\n    {\n      if (prefix(\"#~\"))\n        next_line();\n    }")],
  MAIN % r'Dictionary d; parse("#~msgid \"o\"\n#~msgstr \"p\"\nmsgid \"a\"\nmsgstr \"b\"\n\n" + m("c", "d"), d); CHECK(d.translate("a") == "b"); CHECK(d.translate("c") == "d");')
b("c24-tab-keyword", "C24", "a tab between keyword and string", "only blanks may separate keyword and string",
  [(PO, "      else if (!isspace(current_line[skip]))\n", "      else if (current_line[skip] != ' ' && !(current_line[skip] == '\\t' && current_line[skip+1] == '\"'))\n")],
  MAIN % r'Dictionary d; parse("msgid\t\"a\"\nmsgstr\t\t\"b\"\n\n", d); CHECK(d.translate("a") == "b");')
b("c24-bom-comment", "C24", "a byte order mark in front of a comment line", "the byte order mark is only removed in front of a keyword",
  [(PO, "      current_line[2] == static_cast<char>(0xbf))\n", "      current_line[2] == static_cast<char>(0xbf) && current_line.size() > 4)\n")],
  MAIN % r'Dictionary d; parse("\xef\xbb\xbf#\nmsgid \"a\"\nmsgstr \"b\"\n\n", d); CHECK(d.translate("a") == "b");')
# ---- C25
b("c25-hash", "C25", "two languages that differ only in the modifier", "equality ignores the modifier",
  [(LA, "  return language_spec == rhs.language_spec;", "  return language_spec == rhs.language_spec || (language_spec && rhs.language_spec && get_modifier() == rhs.get_modifier() && !get_modifier().empty() && get_language() == rhs.get_language());")],
  MAIN % r'int bad = 0; const char* n[] = { "sr@latin", "sr_RS@latin", "ca@valencia", "ca_ES@valencia", "en@quot", "en_GB@quot", "en@shaw", "en_GB@shaw", "tt@iqtelif", "uz@cyrillic", "uz_UZ@cyrillic", "be@latin" }; for (auto a : n) for (auto c : n) { Language x = Language::from_env(a), y = Language::from_env(c); if ((x == y) != (x.str() == y.str())) ++bad; if ((x == y) == (x != y)) ++bad; } CHECK(bad == 0);')
b("c25-str", "C25", "a language with a modifier but no country", "str() drops the modifier of languages without country",
  [(LA, "    if (language_spec->modifier)\n    {\n      var += \"@\";", "    if (language_spec->modifier && (language_spec->country || var.size() == 2))\n    {\n      var += language_spec->country ? \"@\" : \"_@\";"), (LA, "    if (language_spec->country)\n    {\n      var += \"_\";", "    if (language_spec->country && *language_spec->country)\n    {\n      var += \"_\";")],
  MAIN % r'int bad = 0; for (const char* s : { "sr@latin", "ca@valencia", "en@quot", "uz@cyrillic" }) { Language l = Language::from_env(s); std::string e = l.get_language() + (l.get_country().empty() ? "" : "_" + l.get_country()) + (l.get_modifier().empty() ? "" : "@" + l.get_modifier()); if (l.str() != e) ++bad; } CHECK(bad == 0);')
b("c25-order", "C25", "ordered containers of languages with equal language codes", "ordering compares language codes only, sets lose variants",
  [(LH, "  return lhs.language_spec < rhs.language_spec;", "  return lhs.language_spec != rhs.language_spec && (lhs.get_language() != rhs.get_language() ? lhs.get_language() < rhs.get_language() : lhs.get_country() < rhs.get_country());")],
  MAIN % r'std::set<Language> s; size_t n = 0; std::set<std::string> names; for (const char* t : { "sr", "sr@latin", "ca", "ca@valencia", "en", "en@quot", "en@boldquot", "uz", "uz@cyrillic", "sr_RS", "sr_RS@latin" }) { Language l = Language::from_env(t); if (l) { s.insert(l); names.insert(l.str()); } } n = names.size(); CHECK(s.size() == n);')
