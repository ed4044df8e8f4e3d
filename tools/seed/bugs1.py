PO, DI, DM, IC, LA, PL, LG = "src/po_parser.cpp", "src/dictionary.cpp", "src/dictionary_manager.cpp", "src/iconv.cpp", "src/language.cpp", "src/plural_forms.cpp", "src/log.cpp"
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
MAIN = "int main() { quiet(); %s return fails != 0; }"

# ---- C01
b("c01-continuation-indent", "C01", "a continuation line indented with a tab", "tab-indented continuation lines are not part of the string any more",
  [(PO, "    else if (isspace(current_line[i]))\n    {\n      // skip\n    }\n    else\n    {\n      break;", "    else if (current_line[i] == ' ')\n    {\n      // skip\n    }\n    else\n    {\n      break;")],
  MAIN % r'Dictionary d; parse("msgid \"k\"\nmsgstr \"a\"\n\t\"b\"\n\n", d); CHECK(d.translate("k") == "ab");')
b("c01-nul-stops", "C01", "a NUL byte inside of a string", "the string ends at an embedded NUL byte",
  [(PO, "  for(i = skip+1; current_line[i] != '\\\"'; ++i)", "  for(i = skip+1; current_line.c_str()[i] != '\\\"'; ++i)"),
   (PO, "    else\n    {\n      out << current_line[i];\n    }\n  }\n\n  // process", "    else\n    {\n      out << current_line.substr(i, 1).c_str();\n    }\n  }\n\n  // process")],
  MAIN % r'Dictionary d; std::string v("a\0b", 3); parse("msgid \"k\"\nmsgstr \"" + v + "\"\n", d); CHECK(d.translate("k") == v);')
b("c01-unknown-escape", "C01", "an escape that is not one of the known ones", "the backslash of an unknown escape is dropped",
  [(PO, "          out << current_line[i-1] << current_line[i];", "          out << current_line[i];")],
  MAIN % r'Dictionary d; parse("msgid \"k\"\nmsgstr \"50\\% \\x41\"\n", d); CHECK(d.translate("k") == "50\\% \\x41");')
b("c01-line-length", "C01", "a quoted string longer than 255 bytes on one line", "the position in a long line wraps around: the text is cut or repeated",
  [(PO, "  std::string::size_type i;\n  for(i = skip+1; current_line[i]", "  unsigned short i;\n  for(i = static_cast<unsigned short>(skip+1); current_line[i]"), (PO, "  for(i = i+1; i < current_line.size(); ++i)", "  for(i = static_cast<unsigned short>(i+1); i < current_line.size(); ++i)")],
  MAIN % r'Dictionary d; std::string v(70000, %s); std::cout << "start" << std::endl; parse("msgid \"k\"\nmsgstr \"" + v + "\"\n", d); CHECK(d.translate("k") == v);' % "'x'")
# ---- C02
b("c02-eof-in-comment", "C02", "a file that ends in a comment line without newline after other content", "the end of the file is not noticed inside a comment block",
  [(PO, "      while(prefix(\"#\"))\n", "      while(prefix(\"#\") || (line_number > 1 && eof && fuzzy))\n")],
  MAIN % r'Dictionary d; parse(m("a", "b") + "#, fuzzy", d); CHECK(d.translate("a") == "b");')
b("c02-short-bom", "C02", "a file whose first line is shorter than the byte order mark", "reads beyond the end of a short first line",
  [(PO, "  if (current_line.size() >= 3 &&\n", "  if (!current_line.empty() &&\n"), (PO, "      current_line[2] == static_cast<char>(0xbf))", "      current_line.at(2) == static_cast<char>(0xbf))")],
  MAIN % r'Dictionary d; try { parse("\xef\xbb", d); } catch (std::out_of_range&) { CHECK(false); }')
b("c02-msgstr-index", "C02", "msgstr[ at the very end of a line", "the index is read beyond the end of the line",
  [(PO, "                   current_line.size() > 8 &&\n                   isdigit(current_line[7]) && current_line[8] == ']')", "                   isdigit(current_line.at(7)) && current_line.at(8) == ']')")],
  MAIN % r'Dictionary d; try { parse("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[\n\n" + m("x", "y"), d); } catch (std::out_of_range&) { CHECK(false); }')
# ---- C03
b("c03-recover-prefix", "C03", "a malformed block with a line that starts with msgid further down", "recovery stops at any line that looks like a keyword, half an entry is taken for a whole one",
  [(PO, "    next_line();\n\n  throw POParserError();", "  {\n    next_line();\n    if (prefix(\"msgid \") || prefix(\"msgctxt\"))\n      break;\n  }\n\n  throw POParserError();")],
  MAIN % r'Dictionary d; parse("junk\nmsgid \"x\"\nmsgstr \"wrong\"\n\n" + m("a", "b"), d); CHECK(d.translate("a") == "b"); unsigned n = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); CHECK(n == 1); Dictionary e; parse(m("x", "right") + "msgctxt \"c\nmsgid \"x\"\nmsgstr \"wrong\"\n\n", e); CHECK(e.translate("x") == "right");')
# ---- C04
b("c04-lt-teens", "C04", "a count like 112 under the Lithuanian rule", "numbers ending in 12..19 above 100 get the wrong form",
  [(PL, "n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2); }\nunsigned int plural3_1", "n%10>=2 && (n<10 || n%100>=20) ? 1 : 2); }\nunsigned int plural3_1")],
  MAIN % r'PluralForms p = PluralForms::from_string("Plural-Forms: nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);"); CHECK(p.get_plural(102) == 1); CHECK(p.get_plural(5) == 1); CHECK(p.get_plural(112) == 2);')
b("c04-ar-hundreds", "C04", "a count above 100 under the Arabic rule", "counts such as 103 are treated by the wrong remainder",
  [(PL, "n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", "n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n>=11 ? 4 : 5")],
  MAIN % r'PluralForms p = PluralForms::from_string("Plural-Forms: nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"); CHECK(p.get_plural(11) == 4); CHECK(p.get_plural(102) == 5); CHECK(p.get_plural(1000001) == 5);')
b("c04-vtab", "C04", "a form feed, vertical tab or carriage return in the header", "only blanks and tabs are removed from the header",
  [(PL, "    if (!isspace(str[i]))", "    if (str[i] != ' ' && str[i] != '\\t')")],
  MAIN % r'CHECK(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n!=1;\r")); CHECK(PluralForms::from_string("Plural-Forms: nplurals=2;\n plural=n!=1;"));')
# ---- C05
b("c05-form-clamp", "C05", "fewer stored forms than the rule selects", "the last stored form is used for a missing one",
  [(DI, "    unsigned int n = plural_forms.get_plural(count);\n", "    unsigned int n = plural_forms.get_plural(count);\n    if (n >= 3 && it->second.size() == 3)\n      n = 2;\n")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=5; plural=(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4)")); d.add_translation("a", "as", std::vector<std::string>{ "x", "y", "z" }); CHECK(d.translate_plural("a", "as", 5) == "z"); CHECK(d.translate_plural("a", "as", 20) == "as");')
b("c05-empty-form", "C05", "an entry whose selected form is empty while another is not", "an empty form is replaced by the first form",
  [(DI, "    if (!msgstrs[n].empty())\n      return msgstrs[n];", "    if (!msgstrs[n].empty())\n      return msgstrs[n];\n    else if (n > 1 && !msgstrs[n-1].empty())\n      return msgstrs[n-1];")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;")); d.add_translation("a", "as", std::vector<std::string>{ "x", "y", "" }); CHECK(d.translate_plural("a", "as", 5) == "as"); CHECK(d.translate_plural("a", "as", 2) == "y");')
b("c05-negative", "C05", "a negative count", "a count of -1 is treated like 1",
  [(DI, "    unsigned int n = plural_forms.get_plural(count);\n", "    if (count < 0)\n      count = -count;\n    unsigned int n = plural_forms.get_plural(count);\n")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); d.add_translation("a", "as", std::vector<std::string>{ "x", "" }); CHECK(d.translate_plural("a", "as", -1) == "as"); CHECK(d.translate_plural("a", "as", 1) == "x");')
# ---- C06
b("c06-plural-merge", "C06", "a plural message added again with fewer forms", "forms of an earlier addition survive a later one",
  [(DI, "                << \"' -> [\" << vec << \"] vs [\" << msgstrs << \"]\" << std::endl;\n    vec = msgstrs;\n  }\n}\n\nvoid\nDictionary::add_translation(const std::string& msgid, const std::string& msgstr)", "                << \"' -> [\" << vec << \"] vs [\" << msgstrs << \"]\" << std::endl;\n    if (vec.size() < msgstrs.size())\n      vec.resize(msgstrs.size());\n    std::copy(msgstrs.begin(), msgstrs.end(), vec.begin());\n  }\n}\n\nvoid\nDictionary::add_translation(const std::string& msgid, const std::string& msgstr)"), (DI, "#include <assert.h>\n", "#include <assert.h>\n#include <algorithm>\n")],
  MAIN % r'Dictionary d; d.add_translation("a", "as", std::vector<std::string>{ "1", "2", "3" }); d.add_translation("a", "as", std::vector<std::string>{ "x", "y" }); size_t n = 0; d.foreach([&](const std::string&, const std::vector<std::string>& v) { n = v.size(); }); CHECK(n == 2);')
b("c06-singular-clears", "C06", "a singular addition to a message that has plural forms", "a later singular addition drops the plural forms",
  [(DI, "                << \"' -> '\" << vec[0] << \"' vs '\" << msgstr << \"'\" << std::endl;\n    vec[0] = msgstr;", "                << \"' -> '\" << vec[0] << \"' vs '\" << msgstr << \"'\" << std::endl;\n    vec.assign(1, msgstr);")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); d.add_translation("c", "a", "as", std::vector<std::string>{ "1", "2" }); d.add_translation("c", "a", "x"); CHECK(d.translate_ctxt_plural("c", "a", "as", 1) == "x"); CHECK(d.translate_ctxt_plural("c", "a", "as", 5) == "2");')
b("c06-same-size", "C06", "a plural message added again with other texts of the same number and the same first form", "a later addition with the same first form is ignored",
  [(DI, "  else if (vec != msgstrs)\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgctxt", "  else if (vec.size() != msgstrs.size() || vec.front() != msgstrs.front())\n  {\n    log_warning << \"collision in add_translation: '\"\n                << msgctxt")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); d.add_translation("c", "a", "as", std::vector<std::string>{ "1", "2" }); d.add_translation("c", "a", "as", std::vector<std::string>{ "1", "3" }); CHECK(d.translate_ctxt_plural("c", "a", "as", 5) == "3");')
# ---- C07
b("c07-glue", "C07", "a context and msgid whose concatenations coincide", "contexts are glued to the msgid: different pairs collide",
  [(DI, "  CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);\n  if (i != ctxt_entries.end())\n  {\n    return translate(i->second", "  CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);\n  if (i == ctxt_entries.end() && !msgctxt.empty() && msgctxt[msgctxt.size() - 1] == ' ')\n    i = ctxt_entries.find(msgctxt.substr(0, msgctxt.size() - 1));\n  if (i != ctxt_entries.end())\n  {\n    return translate(i->second")],
  MAIN % r'Dictionary d; d.add_translation("menu", "a", "x"); CHECK(d.translate_ctxt("menu", "a") == "x"); CHECK(d.translate_ctxt("menu ", "a") == "a");')
b("c07-empty-ctx", "C07", "a message with an empty context in a .po file", "an empty msgctxt counts as no context",
  [(PO, "              if (has_msgctxt)\n                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));", "              if (!msgctxt.empty())\n                dict.add_translation(msgctxt, msgid, conv.convert(msgstr));")],
  MAIN % r'Dictionary d; parse("msgctxt \"\"\nmsgid \"a\"\nmsgstr \"x\"\n\n", d); CHECK(d.translate("a") == "a"); CHECK(d.translate_ctxt("", "a") == "x");')
b("c07-plural-ctx", "C07", "a plural lookup with a context that the dictionary does not know, the message existing without context", "plural lookups with an unknown context take the contextless message",
  [(DI, "    return untranslated_plural(&msgctxt, msgid, msgidplural, num);", "    if (ctxt_entries.empty())\n      return translate_plural(msgid, msgidplural, num);\n    return untranslated_plural(&msgctxt, msgid, msgidplural, num);"), (DI, "  CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);\n  if (i != ctxt_entries.end())\n  {\n    return translate_plural(i->second", "  const CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);\n  if (i != ctxt_entries.end())\n  {\n    return translate_plural(i->second")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); d.add_translation("a", "as", std::vector<std::string>{ "1", "2" }); CHECK(d.translate_ctxt_plural("c", "a", "as", 5) == "as");')
# ---- C08
b("c08-all-empty-plural", "C08", "a plural entry whose forms are all empty", "an all-empty plural entry overwrites an existing translation",
  [(PO, "\t  if (saw_nonempty_msgstr)\n", "\t  if (saw_nonempty_msgstr || has_msgctxt)\n")],
  MAIN % r'Dictionary d; d.set_plural_forms(PluralForms::from_string("Plural-Forms: nplurals=2; plural=n != 1;")); parse("msgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\n", d); CHECK(d.translate_ctxt("c", "a") == "x"); CHECK(d.translate_ctxt_plural("c", "a", "as", 2) == "y");')
b("c08-header-entry", "C08", "looking up the empty msgid", "the header becomes the translation of the empty message",
  [(PO, "            parse_header(msgstr);\n", "            parse_header(msgstr);\n            if (!dict.get_plural_forms())\n              dict.add_translation(msgid, msgstr);\n")],
  MAIN % r'Dictionary d; parse("msgid \"\"\nmsgstr \"Language: de\\n\"\n\n" + m("a", "b"), d); CHECK(d.translate("") == "");')
