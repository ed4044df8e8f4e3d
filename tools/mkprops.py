#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the texts stay readable and reviewable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

p("C01", "Quoted PO strings decode to exactly the bytes they denote",
  "A string in a .po file (msgctxt, msgid, msgid_plural, msgstr, msgstr[N]) denotes the concatenation of its quoted segments over the keyword line and all continuation lines, with \\n \\t \\r \\a \\b \\v \\\" \\\\ replaced by the byte they stand for, any other escape kept literally, and every other byte (NUL and bytes >= 0x80 included) kept as is. Text escaped that way is returned unchanged by translation lookups, however long it is and however it is split over lines. A string that is not closed on its line contributes no translation.",
  ["inputs"], "every byte content of a string, every split into continuation lines, every string position of an entry",
  "The tests parse a handful of fixed .po files with ordinary text; byte values, escapes at segment boundaries and long or multiply split strings are never varied.",
  ["src/po_parser.cpp"], [("escape decoding", "POParser::get_string_line"), ("continuation lines", "POParser::get_string")], ["Dictionary::translate", "Dictionary::translate_ctxt", "Dictionary::translate_plural"])

p("C02", "Parsing is total: any byte stream ends without crash, hang or leak",
  "Parsing any byte stream as a .po file terminates, whatever the bytes and wherever the data stops (including truncation at any byte, a missing final newline, or a stream that is unreadable from the start). It performs no out-of-bounds or use-after-free access, no undefined arithmetic and no failed assertion, and releases everything it allocated except what the dictionary holds. The only way out other than normal return is a std::exception for a character set that cannot be converted.",
  ["inputs", "crash_points"], "all byte contents and truncation points of the input",
  "Tests feed well-formed files plus a few hand-written broken ones, all ending in a newline; no test truncates a file or varies bytes.",
  ["src/po_parser.cpp", "src/iconv.cpp", "src/dictionary.cpp"], [("line reader", "POParser::next_line"), ("bounds tests before each indexed read", "POParser::get_string_line, get_string, parse"), ("error recovery", "POParser::error")], ["POParser::parse"])

p("C03", "A malformed entry never costs a well-formed one",
  "Entries are separated by blank lines; whatever bytes one block of non-blank lines contains, every well-formed entry in the other blocks before and after it is loaded with exactly its own translation. In particular the block right after a malformed one is never skipped, and flags, context or plural data of a malformed block never attach to another entry. A block that is malformed before its translation is complete (a wrong line before the msgid, an unclosed string, a plural entry with a malformed form) contributes nothing, not even under the msgid of another entry.",
  ["inputs"], "all byte contents of a malformed block of bounded size, between well-formed singular, plural, context and fuzzy-marked entries",
  "broken.po style tests only check that parsing does not fail; they do not check which entries survive, nor vary the breakage.",
  ["src/po_parser.cpp"], [("skip to the next blank line", "POParser::error"), ("per-entry state", "POParser::parse")], ["Dictionary::foreach", "Dictionary::translate*"])

p("C04", "Plural rules compute what the Plural-Forms header says",
  "For every Plural-Forms header the library recognises and every count n >= 0, the selected index is the value of the header's own C expression at n, and the reported number of forms is the header's nplurals. White space anywhere in the header does not matter. The headers of the common languages as published with gettext are recognised. A header that is not recognised yields an undefined rule, never some other rule.",
  ["inputs"], "all 2^31 non-negative counts for every recognised header; all single-character alterations and white-space insertions",
  "No test calls more than a few counts for one or two languages; wrong boundaries (11, 12, 100, 111) stay unseen.",
  ["src/plural_forms.cpp", "include/tinygettext/plural_forms.hpp"], [("rule table and rule functions", "PluralForms::from_string, plural*"), ("space removal", "PluralForms::from_string")], ["PluralForms::get_plural", "PluralForms::get_nplural", "PluralForms::operator bool"])

p("C05", "Plural lookup returns the right form or the English fallback",
  "A plural lookup (with or without context) returns the stored form whose index the dictionary's plural rule gives for the count (index 0 when there is no rule). When the message is absent, the form is missing, or the form is empty, and no fallback dictionary supplies it, the result is msgid if the count is exactly 1 and msgid_plural otherwise, for every int including zero and negative counts. It never returns another form and never fails.",
  ["inputs", "configurations"], "all int counts, all rules, all numbers of stored forms and emptiness patterns",
  "Tests check two or three counts with complete translations; partially filled forms and rules with more forms than stored are not tried.",
  ["src/dictionary.cpp", "src/plural_forms.cpp"], [("form selection and English default", "Dictionary::translate_plural, translate_ctxt_plural")], ["Dictionary::translate_plural", "Dictionary::translate_ctxt_plural"])

p("C06", "A dictionary is an exact map: last write wins, nothing else changes",
  "After any sequence of additions, looking up a message gives what was added last for exactly that message, compared byte for byte, and every message not added stays untranslated. A later singular addition replaces the first form and leaves the other plural forms; a later plural addition replaces all forms. Enumeration visits every stored message exactly once with its current forms, contextless and contextual messages separately.",
  ["histories", "inputs"], "all histories of additions up to a bounded length over arbitrary short keys and values",
  "Tests add each message once and look it up once; overwrites, prefixes, empty and binary keys in combination are not tried.",
  ["src/dictionary.cpp", "include/tinygettext/dictionary.hpp"], [("collision handling", "Dictionary::add_translation (4 overloads)"), ("enumeration", "Dictionary::foreach, foreach_ctxt")], ["Dictionary::translate*", "Dictionary::foreach*"])

p("C07", "Message contexts are separate namespaces",
  "A message stored with a context is found only by lookups with exactly that context, and a message stored without context only by lookups without context; an empty context (msgctxt \"\") is a context and differs from no context. This holds for singular and plural lookups, whether messages were added directly or parsed from a .po file.",
  ["histories", "inputs"], "all contexts and msgids of bounded length, all small combinations of entries",
  "Tests use two fixed contexts; equal msgids over absent, empty and distinct contexts are not crossed.",
  ["src/dictionary.cpp", "src/po_parser.cpp"], [("separate context table", "Dictionary::ctxt_entries"), ("msgctxt presence flag", "POParser::parse")], ["Dictionary::translate_ctxt", "Dictionary::translate_ctxt_plural", "Dictionary::translate"])

p("C08", "No translation means the msgid itself, never an empty string",
  "A singular lookup for which neither the dictionary nor its fallbacks hold a non-empty translation returns the msgid unchanged, byte for byte. Entries whose msgstr is empty (all forms, or the first form for singular lookups) count as untranslated, whether they come from a .po file or were added directly. The header entry (empty msgid) never becomes a translation.",
  ["inputs", "histories"], "all msgids, all emptiness patterns of singular and plural entries, parsed or added",
  "Tests translate present messages and one or two absent ones; empty msgstr in singular, plural and context entries is not tested.",
  ["src/dictionary.cpp", "src/po_parser.cpp"], [("empty msgstr filtered", "POParser::parse"), ("msgid fallback", "Dictionary::translate, translate_ctxt")], ["Dictionary::translate", "Dictionary::translate_ctxt"])

p("C09", "Fuzzy entries are used exactly when fuzzy use is enabled",
  "An entry is fuzzy when a '#,' flag line of its own comment block names the fuzzy flag, wherever on that line and in however many flag lines. With fuzzy use enabled (the default) fuzzy entries translate like any other; after set_use_fuzzy(false) on the manager they are treated as untranslated, while every other entry and the header stay in force. The flag never carries over to another entry.",
  ["inputs", "configurations"], "both settings, all placements of flag lines and other comment lines around entries of every kind, arbitrary other flag text",
  "No test sets the option; the test .po files contain fuzzy entries but their effect is not checked.",
  ["src/po_parser.cpp", "src/dictionary_manager.cpp"], [("flag detection", "POParser::parse"), ("setting", "DictionaryManager::set_use_fuzzy, get_dictionary")], ["DictionaryManager::get_dictionary", "Dictionary::translate*"])

p("C10", "Language matching scores and resolution pick the best known variant",
  "match() is symmetric, is 0 exactly when the language codes differ, and otherwise is 9, 8, 5 for an equal country with an equal, one-sidedly unspecified or different modifier, 7, 6, 3 when one side has no country, and 4, 2, 1 for different countries. Resolving language, country and modifier yields an undefined language iff the language code is unknown, and otherwise a known language with that code whose score against the request is the maximum over all known languages with that code; every known language resolves from its own parts and from its own str() to itself.",
  ["inputs"], "all pairs of known languages, and all requested codes, countries and modifiers of bounded length",
  "Tests resolve about a dozen names; the several hundred entries and their combinations are never crossed.",
  ["src/language.cpp"], [("score table", "Language::match"), ("search", "Language::from_spec")], ["Language::match", "Language::from_spec", "Language::from_env", "Language::str"])

p("C11", "Locale strings split as LANG[_COUNTRY][.CODESET][@MODIFIER]",
  "Interpreting any environment-style locale string uses as language everything before the first '_', '.' or '@', as country what lies between a '_' that comes before any '.' or '@' and the next '.' or '@', and as modifier everything after the first '@'; the codeset is ignored. The result is the language resolved from those parts, for any string without NUL bytes, without failing.",
  ["inputs"], "all strings up to a bounded length, and known languages combined with arbitrary country, codeset and modifier text",
  "Tests try a few well-formed strings; separators missing, repeated, trailing or in another order are not tried.",
  ["src/language.cpp"], [("splitting", "Language::from_env")], ["Language::from_env"])

p("C12", "Language names and aliases resolve regardless of letter case",
  "Looking a language up by name (for example 'deutsch', 'German', 'pt_BR', 'de_DE.UTF-8') gives the same result for every combination of upper and lower case of an alias name (the lower-case entries of the alias table). Names that are not aliases are interpreted as locale strings, unchanged. Every alias in the table resolves to a defined language.",
  ["inputs"], "all case variants of every alias, all strings of bounded length",
  "Tests try three aliases in one spelling.",
  ["src/language.cpp"], [("alias table and lower-casing", "resolve_language_alias"), ("dispatch", "Language::from_name")], ["Language::from_name"])

p("C13", "The best-matching .po file of each directory is the one loaded",
  "For a requested language and any directory listing, in any order, the file loaded from that directory is a '.po' file whose language has the highest match score with the request among all '.po' files with a recognised language; files of other languages, unknown languages or other extensions are never loaded. If no file matches, nothing is loaded from that directory.",
  ["inputs", "configurations"], "all listings of bounded size over representative file names, in every order, for every requested language of the set",
  "The test directory holds one fixed listing and one request.",
  ["src/dictionary_manager.cpp", "src/language.cpp"], [("score loop", "DictionaryManager::get_dictionary")], ["FileSystem::open_file calls", "Dictionary::translate"])

p("C14", "Search-path precedence decides which directory's translation wins",
  "When several directories translate the same message, the one earliest in the search path wins; add_directory appends, add_directory with precedence puts in front, adding a directory that is already present changes nothing, and remove_directory removes exactly that directory. Messages found only in later directories are still found.",
  ["histories"], "all histories of add/remove calls of bounded length over several directories, all assignments of messages to directories",
  "Tests add one or two directories once.",
  ["src/dictionary_manager.cpp"], [("search path deque", "DictionaryManager::add_directory, remove_directory"), ("reverse loading order", "DictionaryManager::get_dictionary")], ["DictionaryManager::get_dictionary"])

p("C15", "The dictionary cache is invisible: results depend on configuration only",
  "After any history of set_language, add_directory, remove_directory, set_charset, set_use_fuzzy and lookups in any order, the dictionary returned translates exactly like that of a fresh manager given the same final configuration; after a change of it, files are read as they then are. While search path, charset and fuzzy setting are unchanged, repeated requests for a language return the same dictionary object without reading files again; the current dictionary always belongs to the language set last, and is an empty dictionary when none is set.",
  ["histories"], "all operation histories of bounded length, with lookups interleaved anywhere",
  "Tests configure a manager once and read it once; stale-cache bugs need particular orders of calls.",
  ["src/dictionary_manager.cpp"], [("invalidation", "DictionaryManager::clear_cache and its callers"), ("current dictionary pointer", "DictionaryManager::set_language, get_dictionary")], ["DictionaryManager::get_dictionary"])

p("C16", "Regional dictionaries fall back to their language's dictionary",
  "A message that the dictionary of a language with a country does not translate is looked up in the dictionary of the bare language, by the same kind of lookup: singular, plural (with that dictionary's plural rule), with the same context or with none. A translation in the regional dictionary always takes precedence, a translation from another context is never used, and requesting the dictionary of any known language terminates without failure.",
  ["inputs", "configurations"], "all placements of a message over regional and base dictionaries, every lookup kind, all counts, all known languages",
  "Only singular fallback is exercised, for one language.",
  ["src/dictionary_manager.cpp", "src/dictionary.cpp"], [("fallback link", "DictionaryManager::get_dictionary, Dictionary::addFallback"), ("delegation", "Dictionary::translate*")], ["Dictionary::translate*", "DictionaryManager::get_dictionary"])

p("C17", "Charset conversion: exact result, no abort, no descriptor leak",
  "Converting text between charsets returns exactly the bytes the system converter produces for that text alone, whatever the output size and whatever was converted before, and returns the text unchanged when the two charset names are equal ignoring case. A converter that cannot be opened is reported by exception and leaves the object usable and destructible; invalid input never aborts the program, does not corrupt later conversions, and every descriptor opened is closed exactly once and never used after closing.",
  ["inputs", "fault_sequences", "histories"], "all texts of bounded length, every expansion ratio, every failure the converter may report at every call, all sequences of set_charsets/convert of bounded length",
  "Tests convert one or two strings with glibc; expansion beyond the estimate and failing converters are not exercised.",
  ["src/iconv.cpp", "include/tinygettext/iconv.hpp"], [("descriptor handling", "IConv::set_charsets, ~IConv"), ("buffer sizing and error handling", "IConv::convert")], ["IConv::convert", "iconv/iconv_open/iconv_close calls"])

p("C18", "Logging never changes results, and diagnostics are accurate",
  "Installing, replacing or removing (null) any of the three log callbacks never changes what is parsed or returned by any lookup. Each diagnostic goes to the callback of its own severity only, as one complete message; parser diagnostics name the file and the 1-based number of the offending line.",
  ["configurations", "inputs"], "all 8 combinations of present/absent callbacks over inputs that trigger every kind of diagnostic, all positions of the offending line",
  "Tests run with default callbacks and ignore their output.",
  ["src/log.cpp", "include/tinygettext/log_stream.hpp", "src/po_parser.cpp"], [("null check in the macros", "log_stream.hpp"), ("line counter", "POParser::next_line, error, warning")], ["Log callbacks", "Dictionary contents"])

p("C19", "The .po header controls charset and plural rule, and only those",
  "The charset named in the header's 'Content-Type: text/plain; charset=' line (any letter case; UTF-8 when the header has no such line, or it is 'CHARSET' or malformed) is the one translations are converted from, into the dictionary's charset; msgids and contexts are not converted. The header's Plural-Forms line sets the dictionary's plural rule unless one is already set, in which case the existing rule stays. Other header lines, their order and unknown Plural-Forms have no effect.",
  ["inputs", "configurations"], "all orders and presences of header lines, arbitrary bytes in the other lines and in the charset name, with and without a rule set before",
  "The tests' files have one standard header each.",
  ["src/po_parser.cpp", "src/iconv.cpp"], [("header parsing", "POParser::parse_header"), ("conversion of msgstr", "POParser::parse")], ["Dictionary::get_plural_forms", "iconv_open arguments", "Dictionary::translate"])

p("C20", "A failing file or directory loses only its own translations",
  "If listing a directory fails, a file cannot be opened (null or unreadable stream), or parsing a file throws, the dictionary still contains every translation from the other directories and the request returns normally. A later request, after the configuration changes, tries again. No fault leaves a half-built or dangling dictionary behind.",
  ["fault_sequences", "configurations"], "every combination of faults over the directories and files of a bounded search path, both while building regional and base dictionaries",
  "Tests use readable directories only.",
  ["src/dictionary_manager.cpp"], [("exception handling around parsing", "DictionaryManager::get_dictionary")], ["DictionaryManager::get_dictionary", "DictionaryManager::get_languages"])

p("C21", "File names map to language specifications for every name",
  "Converting a file name to a language specification removes one trailing '.po' if present, upper-cases the letters that directly follow the first '_' up to the first non-letter, and leaves every other byte unchanged. It does so for every string, including the empty string, names shorter than the extension and names without underscore, and never fails.",
  ["inputs"], "all byte strings up to a bounded length and longer ones around the separators",
  "Tests convert a few names.",
  ["src/dictionary_manager.cpp"], [("conversion loop", "DictionaryManager::convertFilename2Language")], ["DictionaryManager::convertFilename2Language"])

p("C22", "Big5 double-byte characters survive parsing intact",
  "In a file whose header declares charset Big5 a byte 0x81..0xFE inside a string starts a two-byte character: both bytes are kept, and a second byte equal to a backslash or a quote is neither an escape nor the end of the string. A two-byte character cut off by the end of the line makes the entry malformed and nothing else. In files of any other charset such bytes have no special meaning.",
  ["inputs"], "all byte pairs in all string positions, truncated or not, for Big5 (any letter case) and other charsets",
  "One Big5 test file with fixed text.",
  ["src/po_parser.cpp"], [("big5 flag", "POParser::parse_header"), ("two-byte step", "POParser::get_string_line")], ["iconv input bytes", "Dictionary::translate"])

p("C23", "The list of available languages is exactly what the directories offer",
  "The set of available languages contains a language if and only if some directory on the search path holds a '.po' file whose name maps to it by the same rule used for loading (lower-case country codes included), and never contains an undefined language. Every listed language has a file that is loaded when that language is requested.",
  ["inputs", "configurations"], "all listings of bounded size over representative names in one or two directories, all short name stems",
  "One fixed directory is listed.",
  ["src/dictionary_manager.cpp"], [("enumeration", "DictionaryManager::get_languages"), ("name conversion", "DictionaryManager::convertFilename2Language")], ["DictionaryManager::get_languages"])

p("C24", "Line ends, byte-order mark, comments and spacing do not change content",
  "A .po file gives the same dictionary with LF or CR LF line ends, with or without a leading UTF-8 byte-order mark, with or without comment lines (of any content except a fuzzy flag) before an entry, with any number of blank lines between entries, and with any run of spaces or tabs (or none) between a keyword and its string or before a continuation line. Obsolete entries (commented out with '#~') define nothing.",
  ["inputs"], "all combinations of these variations over files with every kind of entry, arbitrary comment bytes",
  "Tests use one formatting; the pedantic and non-pedantic spellings are not compared.",
  ["src/po_parser.cpp"], [("blank-line test", "POParser::is_empty_line"), ("comment and BOM skipping", "POParser::parse"), ("space skipping", "POParser::get_string")], ["Dictionary contents"])

p("C25", "Language objects are consistent values",
  "Two language objects are equal exactly when they were resolved to the same known language (same language, country and modifier), inequality is its negation, ordering is a strict total order consistent with equality, and equal objects hash equally, so sets and maps of languages neither lose nor duplicate entries. A default or unresolvable language is undefined, converts to false, has empty parts, name and string, and equals only another undefined one. str() is language, then _country and @modifier when present, and distinct known languages have distinct str(). Every defined language has a non-empty name and localized name.",
  ["inputs"], "all pairs of known languages (and undefined)",
  "Tests compare a handful of objects.",
  ["src/language.cpp", "include/tinygettext/language.hpp"], [("identity of table entries", "Language::operator==, operator<, Language_hash"), ("table", "languages[]")], ["Language operators and accessors"])

p("C26", "The native file system lists every entry and opens what was listed",
  "Listing a directory through the default file system returns the name of every entry (file, directory, link, hidden or not) exactly once, byte for byte and without path, however the directory is spelled; opening directory/name for a file or a link to one yields its bytes unchanged, whatever and however many they are. A directory that cannot be listed or a file that cannot be opened gives an exception or nothing to list or read, never a crash, and the default dictionary manager finds its translations this way.",
  ["configurations", "inputs", "fault_sequences"], "all directory contents, names and file contents",
  "One directory is read by the tests.",
  ["src/unix_file_system.cpp"], [("std::filesystem::directory_iterator, std::ifstream", "UnixFileSystem")], ["UnixFileSystem::open_directory", "UnixFileSystem::open_file"])
p("C27", "Managers are independent and release everything they hold",
  "What a dictionary manager returns depends on its own configuration and files only: operations on another manager, in any order, never change it, and settings belong to one manager. No request leaves a file or a charset converter open, also when listing, opening or parsing fails. Destroying a manager, after any history of operations and faults, releases its dictionaries, its file system (once) and all memory it allocated.",
  ["histories", "fault_sequences"], "all histories of bounded length on two managers; all histories with a fault in any directory",
  "The tests use one manager per process, never destroy it after a fault, and do not look at what stays allocated.",
  ["src/dictionary_manager.cpp", "src/dictionary.cpp", "src/iconv.cpp", "src/po_parser.cpp"], [("per-object state", "DictionaryManager members"), ("cache teardown", "DictionaryManager::clear_cache, ~DictionaryManager"), ("converter teardown", "IConv::~IConv")], ["DictionaryManager", "Dictionary::translate*"])

p("C28", "Loading files into a dictionary is cumulative and repeatable",
  "Parsing several files into one dictionary leaves exactly what they define together: every message of every file is there, a message defined again (with a non-empty translation) has its later definition, an untranslated or broken entry takes nothing away, and the first plural rule stays. Parsing a file twice gives the same as parsing it once, parsing the parts of a file gives the same as parsing the whole, and no state (charset, flags, context, position, double-byte mode) passes from one file to the next.",
  ["histories", "inputs"], "all sequences of files of bounded number over all shapes of a shared message; arbitrary bytes in a file before, or in the parts of, another one",
  "Every test parses one file per process.",
  ["src/po_parser.cpp", "src/dictionary.cpp"], [("per-file parser state", "POParser::POParser, POParser::parse"), ("merging", "Dictionary::add_translation")], ["POParser::parse", "Dictionary::foreach*", "Dictionary::get_plural_forms"])

p("C29", "Reading and working on separate objects is safe from several threads",
  "The library has no hidden shared state: looking up and enumerating messages of one dictionary (const or not, with contexts, plurals, fallbacks), asking a known plural rule, resolving, naming, comparing and matching languages, and any work on separate dictionaries, parsers, converters, managers and native file systems may go on in two threads at once, also as the very first use of the library. No memory that the threads share is written without synchronisation that orders it against the other thread's accesses, no lock is left held or waited for forever, and each thread gets what it would have got alone.",
  ["schedules", "inputs"], "all interleavings of two operations (by disjointness of unsynchronised writes from the other thread's accesses) over all messages, languages, headers, texts and files of bounded size",
  "The tests use one thread; a race needs a schedule that a test does not control, and mostly goes unnoticed when it happens.",
  ["src/dictionary.cpp", "src/language.cpp", "src/plural_forms.cpp", "src/iconv.cpp", "src/po_parser.cpp", "src/dictionary_manager.cpp", "src/unix_file_system.cpp"], [("tables built on first use", "Language::from_spec, Language::from_name, PluralForms::from_string"), ("look-up without side effect", "Dictionary::translate*"), ("per-object state", "IConv, POParser, DictionaryManager members")], ["Dictionary::translate*", "Dictionary::foreach*", "Language", "PluralForms", "IConv", "POParser::parse", "DictionaryManager", "UnixFileSystem"])

p("C30", "Parsing uses nothing of a stream but the bytes it delivers",
  "What parsing a stream defines and reports depends only on the bytes that the stream delivers from its current position on: not on the sizes of the pieces they arrive in, on buffering, on whether the stream can seek, on its format flags or its exception mask for bad, and not on the name passed for messages. A stream is read from where it stands, up to its end, and its settings are left as they were. When a stream ends or fails in the middle, every entry whose lines it delivered before that (and the empty line behind them, if the stream is set to throw) is in the dictionary.",
  ["inputs", "fault_points"], "every file of bounded length, or any byte of a realistic file changed or cut, through nine kinds of stream; lines and pieces of sizes around powers of two; failure at every byte",
  "The tests parse from file streams only, whole and faultless ones.",
  ["src/po_parser.cpp", "include/tinygettext/po_parser.hpp"], [("reading lines", "POParser::next_line"), ("byte order mark", "POParser::parse"), ("messages", "POParser::error, POParser::warning")], ["POParser::parse"])

p("C31", "A manager asks its file system for nothing but what was configured and listed",
  "A manager lists only directories that are on its search path at that moment, under exactly the names they were added with, and opens only files named by such a directory, '/' and a name that the directory listed during the same request, ending in '.po' and of the requested language (in any regional variant), at most one per directory for a language and one for its regional fallback. Configuring it, asking for its settings, mapping a file name and repeating a request that is cached ask the file system for nothing; listing the available languages lists every directory on the path and opens no file. Every file is closed before the request returns, the file system is destroyed with its manager, and after the cache was cleared, or for the available languages at any time, what counts is what the file system says then.",
  ["histories", "inputs", "fault_points"], "all histories of bounded length over nine operations with listings that change or fail in between; directory and file names of arbitrary bytes",
  "The tests look at the dictionary that comes back; which files were touched for it, and which not, they cannot see.",
  ["src/dictionary_manager.cpp", "include/tinygettext/file_system.hpp"], [("listing and choosing", "DictionaryManager::get_dictionary"), ("available languages", "DictionaryManager::get_languages"), ("file system interface", "FileSystem")], ["DictionaryManager", "FileSystem"])

p("C32", "The locale that the program has set changes nothing",
  "What is parsed, converted, resolved, listed and reported is the same whatever locale the program has set with setlocale(): white space, letters and letter case are those of ASCII wherever the library looks at them - around strings and keywords, in comment and blank lines, in Plural-Forms lines, in charset names of headers, dictionaries and converters, in names and aliases of languages, and in names of .po files. The library does not change the program's locale either.",
  ["inputs", "configurations"], "all locales that differ from the C locale in the classes and letter cases of any byte of 0x80..0xff and in the letter cases of i and I, over inputs of bounded length and one arbitrary byte anywhere in complete files, headers and names",
  "The tests run in the C locale; nothing in them calls setlocale().",
  ["src/po_parser.cpp", "src/iconv.cpp", "src/plural_forms.cpp", "src/language.cpp", "src/dictionary_manager.cpp"], [("white space and letter case in files", "POParser::get_string_line, get_string, is_empty_line, parse_header"), ("charset names", "IConv::set_charsets"), ("spaces in rules", "PluralForms::from_string"), ("aliases", "resolve_language_alias"), ("country codes in file names", "DictionaryManager::convertFilename2Language")], ["POParser::parse", "IConv", "PluralForms::from_string", "Language::from_name", "DictionaryManager"])

p("C33", "What the program supplies may use the library",
  "Log callbacks, file systems and the functions given to foreach may use the library themselves: look messages up in the same or other dictionaries, parse files, convert text, resolve languages, run another manager or ask the same one for a language it has loaded, even replace the log callbacks. What they get is what they would get at any other time; results and the texts of messages of the operation during which they were called are the same as if they had done nothing; nothing deadlocks or recurses without end. Not included: changing the very object that is being worked on (adding to a dictionary that is being enumerated, reconfiguring a manager that is loading).",
  ["inputs", "reentrancy"], "all pairs of eleven operations and eleven uses inside of their callbacks, at every callback the operation makes, over arbitrary bytes in messages",
  "Callbacks in the tests do not use the library.",
  ["src/log.cpp", "src/po_parser.cpp", "src/dictionary.cpp", "src/iconv.cpp", "src/dictionary_manager.cpp", "include/tinygettext/dictionary.hpp"], [("handing on messages", "Log::~Log"), ("enumeration", "Dictionary::foreach, foreach_ctxt"), ("calls to the file system", "DictionaryManager::get_dictionary, get_languages")], ["Log", "Dictionary", "DictionaryManager", "POParser::parse", "IConv::convert"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P)); print(len(P), "properties")
