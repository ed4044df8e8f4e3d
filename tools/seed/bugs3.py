from bugs1 import PO, DI, DM, IC, LA, PL, LG, MAIN
from bugs2 import PH, LS, LH, DH
BUGS = []
def b(id, prop, needs, breaks, edits, demo, **k): BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

b("c03-do-while", "C03", "a block that ends where its msgstr should come, directly in front of the separating blank line", "recovery always skips at least one line, and with it the separator and the next block",
  [(PO, "  while(!eof && !is_empty_line())\n    next_line();\n", "  do\n    next_line();\n  while(!eof && !is_empty_line());\n")],
  MAIN % r'Dictionary d; parse("msgid \"x\"\n\n" + m("a", "b") + m("c", "d"), d); CHECK(d.translate("a") == "b"); CHECK(d.translate("c") == "d");')
b("c09-sticky", "C09", "a fuzzy entry that is malformed, followed by an ordinary one", "the fuzzy flag of a malformed entry carries over to the next one",
  [(PO, "      bool fuzzy =  false;\n", ""), (PO, "  // Parser structure\n  while(!eof)", "  bool fuzzy = false;\n\n  // Parser structure\n  while(!eof)"), (PO, "          error(\"expected 'msgstr' or 'msgid_plural'\");\n        }\n      }", "          error(\"expected 'msgstr' or 'msgid_plural'\");\n        }\n        fuzzy = false;\n      }")],
  MAIN % r'Dictionary d; parse("#, fuzzy\nmsgid x\n\n" + m("a", "b"), d, false); CHECK(d.translate("a") == "b");')
b("c10-table", "C10", "a request without country and with a modifier that no file of the language has", "a variant with another modifier outranks one without a modifier",
  [(LA, "{ 7, 6, 3 }", "{ 7, 3, 6 }")],
  MAIN % r'CHECK(Language::match(Language::from_env("en@quot"), Language::from_env("en_US")) > Language::match(Language::from_env("en@quot"), Language::from_env("en_US@piglatin")));')
b("c13-good-enough", "C13", "an exact file listed behind one that differs in the modifier only", "the search is content with a variant of the right country",
  [(DM, "            if (score > best_score)\n", "            if (score > best_score && best_score < 8)\n")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "en_US@piglatin.po", m("a", "ig")); fs->put("d", "en_US.po", m("a", "us")); CHECK(man.get_dictionary(Language::from_env("en_US")).translate("a") == "us");')
b("c13-score-carry", "C13", "two directories, the one searched first with a better match", "the best score of one directory suppresses files of the next",
  [(DM, "      int best_score = 0;\n", ""), (DM, "    for (SearchPath::reverse_iterator p", "    int best_score = 1;\n    for (SearchPath::reverse_iterator p"), (DM, "            if (score > best_score)\n", "            if (score > best_score || (score == best_score && best_filename.empty()))\n")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->put("e", "en@quot.po", m("a", "1")); fs->put("d", "en.po", m("b", "2")); Dictionary& d = man.get_dictionary(Language::from_env("en@quot")); CHECK(d.translate("a") == "1"); CHECK(d.translate("b") == "2");')
b("c16-cached", "C16", "a regional dictionary requested when the bare language's dictionary was already loaded", "the fallback to the bare language is only set up when that has to be loaded",
  [(DM, "    if (!language.get_country().empty())\n    {", "    if (!language.get_country().empty() && dictionaries.find(Language::from_spec(language.get_language())) == dictionaries.end())\n    {")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); fs->put("d", "de.po", m("b", "y")); fs->put("d", "de_AT.po", m("a", "x")); CHECK(man.get_dictionary(Language::from_env("de")).translate("b") == "y"); CHECK(man.get_dictionary(Language::from_env("de_AT")).translate("b") == "y");')
b("c20-drop-loaded", "C20", "a failing file in the directory searched last after others were loaded", "a failure while parsing one file discards what was loaded from other directories",
  [(DM, "          log_error << e.what() << \"\" << std::endl;\n        }\n      }\n    }\n\n    if", "          log_error << e.what() << \"\" << std::endl;\n          delete dict;\n          dict = dictionaries[language] = new Dictionary(charset);\n        }\n      }\n    }\n\n    if")],
  MAIN % r'FS* fs = new FS; DictionaryManager man{std::unique_ptr<FileSystem>(fs)}; man.add_directory("d"); man.add_directory("e"); fs->put("e", "de.po", m("a", "x")); fs->put("d", "de.po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NOSUCH\\n\"\n\n" + m("b", "x")); CHECK(man.get_dictionary(Language::from_env("de")).translate("a") == "x");')
b("c22-range", "C22", "a Big5 character with a rare lead byte", "lead bytes of the last row are not recognised",
  [(PO, "static_cast<unsigned char>(current_line[i]) <= 0xfe)", "static_cast<unsigned char>(current_line[i]) < 0xfe)")],
  MAIN % r'Dictionary d("BIG5"); parse("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=big5\\n\"\n\nmsgid \"a\"\nmsgstr \"x\xfe\\n\"\n", d); CHECK(d.translate("a") == "x\xfe\\n");')
b("c05-gap", "C05", "a plural entry with a missing middle form", "a gap in the numbered forms shifts the later forms down",
  [(PO, "            if (number >= msgstr_num.size())\n              msgstr_num.resize(number+1);\n\n            msgstr_num[number] = conv.convert(msgstr);", "            if (number >= msgstr_num.size())\n            {\n              number = static_cast<unsigned int>(msgstr_num.size());\n              msgstr_num.resize(number+1);\n            }\n\n            msgstr_num[number] = conv.convert(msgstr);")],
  MAIN % r'Dictionary d; parse(HEAD + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[1] \"one\"\n\n", d); CHECK(d.translate_plural("a", "as", 2) == "one");')
