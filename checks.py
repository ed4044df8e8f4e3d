from run import Job
CHECKS = {}
def check(pid, jobs, assumptions=()): CHECKS[pid] = dict(jobs=jobs, assumptions=list(assumptions))

check("C01", [
  Job("po_string", "c01_raw", [{"N": 4}, {"N": 9}], [{"N": 10}, {"N": 11}], labels=["terminated", "untranslated"], desc="any N bytes after the opening quote of a msgstr"),
  Job("po_string", "c01_roundtrip", [{"N": 1}, {"N": 3}], [{"N": 4}], labels=["plural", "context"], desc="any N-byte value, escaped, split anywhere, in each string position"),
  Job("po_string", "c01_long", [{"L": 70, "LINES": 3}], [{"L": 300, "LINES": 6}], labels=["long"], desc="strings of every length 1..L with one arbitrary byte"),
  Job("po_string", "c01_huge", [{"A": 4}], labels=["long"], steps=400000000, desc="lengths around 127, 255, 32767, 65535 and 70000 with one arbitrary byte"),
])
check("C02", [
  Job("po_total", "c02_bytes", [{"N": 6}, {"N": 11}], [{"N": 12}, {"N": 13}], labels=["parsed"], steps=300000, desc="every file of at most N bytes"),
  Job("po_total", "c02_heads", [{"N": 2}, {"N": 5}], [{"N": 6}, {"N": 7}], labels=["parsed"], steps=600000, desc="keyword heads, N arbitrary bytes, tails"),
  Job("po_total", "c02_window", [{"K": 0, "CUT": 3}, {"K": 1, "CUT": 3}, {"K": 2, "CUT": 3}, {"K": 1, "CUT": 3, "FAIL": 1}], [{"K": 3, "CUT": 1}, {"K": 2, "CUT": 3, "FAIL": 1}], labels=["parsed"], steps=1500000, desc="a complete file with K arbitrary bytes anywhere, truncated anywhere"),
  Job("po_total", "c02_big", [{"L": 40, "STRIDE": 9}], [{"L": 120, "STRIDE": 11}], labels=["parsed"], steps=20000000, desc="long lines, many lines, many entries"),
  Job("po_total", "c02_deep", [{"M": 60000}], [{"M": 200000}], labels=["parsed"], steps=2000000000, desc="M lines of one of eight kinds, then an arbitrary byte"),
  Job("po_total", "c02_badstream", [{}], labels=["returned"], desc="streams that are unreadable from the start"),
])
check("C03", [
  Job("po_recover", "c03_first", [{"N": 3}, {"N": 7}], [{"N": 9}], labels=["recovered"], desc="N arbitrary bytes as a block, then a well-formed entry"),
  Job("po_recover", "c03_one", [{"N": 0, "SEPS": 4}, {"N": 2, "SEPS": 1}], [{"N": 2, "SEPS": 4}, {"N": 3, "SEPS": 2}], labels=["recovered"], desc="well-formed entry, malformed block with N arbitrary bytes in 24x5 shapes, well-formed entry"),
  Job("po_recover", "c03_same", [{"N": 1}, {"N": 2}], [{"N": 3}], labels=["recovered"], desc="blocks malformed before their translation is complete, with the id of a good entry or another"),
  Job("po_recover", "c03_two", [{"N": 1}], [{"N": 2}], labels=["recovered"], desc="two malformed blocks in a row before well-formed entries"),
  Job("po_recover", "c03_many", [{"M": 12}], [{"M": 40}], labels=["recovered"], steps=20000000, desc="a long malformed block at every position among many entries"),
  Job("po_recover", "c03_lots", [{"M": 300}], [{"M": 2100}], labels=["recovered"], steps=200000000, desc="1..M malformed blocks of 24 kinds in a row"),
])
check("C04", [
  Job("plural", "c04_value", [{}], [{}], labels=["value"], desc="every header of the table, every n in 0..2^31-1"),
  Job("plural", "c04_space", [{"K": 2}], [{"K": 4}], labels=["spaced"], desc="up to K white space bytes of any kind at any position"),
  Job("plural", "c04_other", [{"K": 1}, {"K": 2}], [{"K": 3}], labels=["recognised", "unrecognised"], desc="every header with K bytes replaced, inserted or removed at any position"),
  Job("plural", "c04_any", [{"N": 7}], [{"N": 9}], labels=["unrecognised"], desc="any up to N bytes after nothing or a header prefix"),
  Job("plural", "c04_order", [{}], labels=["equal"], desc="every pair of headers"),
  Job("plural", "c04_long", [{"L": 300}], [{"L": 5000}], labels=["spaced", "unrecognised"], steps=20000000, desc="telling numbers of blanks or other bytes at four positions"),
])
check("C05", [
  Job("dict", "c05_equal", [{"F": 3}, {"F": 4}], [{"F": 6}], labels=["parsed", "english"], desc="two to F forms, each empty or arbitrary, equal ones included"),
  Job("dict", "c05_lookup", [{"F": 3}, {"F": 6}], [{"F": 7}], labels=["form", "english"], desc="every rule or none, 0..F stored forms with any of them empty, every 32-bit count, with or without context"),
  Job("dict", "c05_fallback", [{}], [], labels=["form", "english"], desc="chains of up to three dictionaries with different rules"),
  Job("dict", "c05_parsed", [{"F": 4}], [{"F": 5}], labels=["parsed", "english"], desc="forms read in any rotation, reversed, with gaps and empties"),
  Job("dict", "c05_ten", [{}], [], labels=["parsed", "english"], desc="one to ten forms in either order, any one missing, arbitrary values, every count"),
  Job("dict", "c05_changes", [{"K": 3}], [{"K": 4}, {"K": 5}], labels=["changes"], desc="K changes of the rule, the forms and the fallback, a lookup with the same arbitrary count after each"),
  Job("dict", "c05_values", [{}], [], labels=["value"], desc="forms equal to the msgid, the plural, the context or arbitrary, with or without a fallback"),
])
check("C06", [
  Job("dict", "c06_history", [{"K": 2, "L": 1}, {"K": 2, "L": 2, "FIX": 1}, {"K": 3, "L": 1, "FIX": 1}], [{"K": 3, "L": 1}, {"K": 3, "L": 2, "FIX": 1}, {"K": 4, "L": 1, "FIX": 1}], labels=["collision", "distinct"], desc="K additions of any kind with arbitrary keys of up to L bytes, then any lookup"),
  Job("dict", "c06_looked", [{"K": 2}, {"K": 3}], [{"K": 4}], labels=["looked up"], desc="K additions of eight kinds to two arbitrary ids, everything looked up after each"),
  Job("dict", "c06_pairs", [{}], labels=["pairs"], desc="25 pairs of ids or contexts that weak comparisons take for equal, every kind of message"),
  Job("dict", "c06_replace", [{"K": 4}], [{"K": 5}], labels=["replaced"], desc="K additions to one message with arbitrary values"),
  Job("dict", "c06_many", [{"M": 60}], [{"M": 200}], labels=["many"], steps=20000000, desc="many messages, long keys differing in one arbitrary byte"),
  Job("dict", "c06_sizes", [{"L": 5000}], [{"L": 70000}], labels=["sizes"], steps=200000000, desc="keys, contexts and values of telling lengths up to L that differ in one byte"),
  Job("dict", "c06_repeat", [{"N": 1100}], [{"N": 8200}], labels=["repeated"], steps=200000000, desc="one message added a telling number of times in four ways"),
  Job("dict", "c06_thousands", [{"M": 1500}], [{"M": 6000}], labels=["thousands"], steps=500000000, desc="M messages"),
])
check("C07", [
  Job("dict", "c07_direct", [{"K": 2, "L": 2}, {"K": 3, "L": 1}], [{"K": 3, "L": 2}], labels=["looked up"], desc="K messages with any context or none, any lookup"),
  Job("dict", "c07_parsed", [{"K": 2, "L": 2}, {"K": 3, "L": 1}], [{"K": 3, "L": 2}], labels=["parsed"], desc="K entries of a .po file with arbitrary ids and contexts"),
  Job("dict", "c07_header", [{}], [], labels=["parsed"], desc="entries with a context, an empty msgid and a translation that looks like a header"),
  Job("dict", "c07_sizes", [{"L": 5000}], [{"L": 70000}], labels=["sizes"], steps=200000000, desc="contexts and ids of telling lengths up to L"),
])
check("C08", [
  Job("dict", "c08_direct", [{"L": 2, "LINKS": 2}], [], labels=["translated", "untranslated"], desc="every shape and emptiness pattern in chains of up to three dictionaries, any msgid of up to L bytes"),
  Job("dict", "c08_later", [{"L": 2}], [{"L": 5}], labels=["later"], desc="an entry without translation of six shapes before or after a translated one, in the same or another file"),
  Job("dict", "c08_changes", [{"K": 3, "L": 1}], [{"K": 5, "L": 2}], labels=["changes"], desc="K additions of six kinds to a dictionary and its fallback, a lookup after each"),
  Job("dict", "c08_values", [{"L": 2}], [{"L": 4}], labels=["values"], desc="any msgid, context and translation, equal ones included, with or without a fallback"),
  Job("dict", "c08_parsed", [{"L": 5}], [{"L": 9}], labels=["parsed"], desc="entries with empty strings, headers with arbitrary bytes"),
  Job("dict", "c08_sizes", [{"L": 5000}], [{"L": 70000}], labels=["sizes"], steps=200000000, desc="ids and translations of telling lengths up to L"),
])
check("C10", [
  Job("language", "c10_match", [{}], [], labels=["self", "variants"], desc="every pair of known languages"),
  Job("language", "c10_resolve", [{"L": 3}], [{"L": 5}], labels=["resolved"], desc="every known code, any country and modifier of up to L bytes, or a known one with one arbitrary byte"),
  Job("language", "c10_history", [{}], labels=["history"], desc="two requests one after the other: every code, any of its countries and modifiers, swapped parts, other codes"),
  Job("language", "c10_unknown", [{"L": 4}], [{"L": 6}], labels=["known", "unknown"], desc="any code of up to L bytes"),
  Job("language", "c10_self", [{}], [], labels=["self"], desc="every known language"),
  Job("language", "c10_near", [{}], [], labels=["resolved"], desc="every known country and modifier with a byte added or inserted, cut off or doubled"),
])
check("C11", [
  Job("language", "c11_any", [{"N": 5}], [{"N": 7}], labels=["defined", "undefined"], desc="any up to N bytes after each of 9 prefixes"),
  Job("language", "c11_window", [{"K": 1}, {"K": 2}], [{"K": 3}], labels=["defined", "undefined"], desc="complete locale strings with K bytes replaced, inserted or removed anywhere"),
  Job("language", "c11_long", [{}], [], labels=["defined"], desc="parts of up to 300 bytes"),
])
check("C12", [
  Job("language", "c12_case", [{}], [], labels=["alias"], desc="every alias, every letter in either case"),
  Job("language", "c12_other", [{"N": 5}], [{"N": 7}], labels=["locale string"], desc="any other string"),
  Job("language", "c12_near", [{}], [], labels=["locale string"], desc="every alias with one byte replaced, inserted or removed"),
  Job("language", "c12_locale", [{}], [], labels=["locale"], desc="every known language by its locale string"),
  Job("language", "c12_history", [{}], [], labels=["history"], desc="every pair of aliases"),
  Job("language", "c12_long", [{"L": 300}], [{"L": 5000}], labels=["locale string"], desc="aliases with telling numbers of bytes added"),
])
check("C25", [
  Job("language", "c25_pairs", [{}], [], labels=["pair", "undefined"], desc="every pair of known languages and the undefined one"),
  Job("language", "c25_requests", [{"L": 2, "CODES": 6}], [{"L": 3, "CODES": 12}], labels=["requests", "undefined"], desc="languages resolved from arbitrary requests"),
  Job("language", "c25_order", [{}], [], labels=["order"], desc="all known languages together"),
])
check("C09", [
  Job("fuzzy", "c09_line", [{"N": 3}], [{"N": 5}], labels=["fuzzy", "not fuzzy"], desc="a comment line with arbitrary bytes around, in place of or inside of the flag, between any other comments"),
  Job("fuzzy", "c09_carry", [{"K": 3}], [{"K": 4}], labels=["fuzzy", "not fuzzy"], desc="K blocks: fuzzy, plain, malformed, obsolete, comment-only, header"),
  Job("fuzzy", "c09_header", [{"N": 2}], [{"N": 4}], labels=["header"], desc="fuzzy headers with any comment above"),
  Job("fuzzy", "c09_toggle", [{"K": 3}], [{"K": 5}], labels=["toggled"], desc="K switches, requests and language changes on a manager"),
  Job("fuzzy", "c09_far", [{"L": 5000}], [{"L": 70000}], labels=["fuzzy"], steps=200000000, desc="the flag up to L bytes into its line or up to 1025 lines above its entry"),
])
check("C19", [
  Job("header", "c19_lines", [{}], [], labels=["header"], desc="every order and presence of Content-Type, Plural-Forms and other lines, rule set before or not, any dictionary charset"),
  Job("header", "c19_name", [{"N": 5}], [{"N": 8}], labels=["converted", "equal"], desc="any charset name of up to N bytes"),
  Job("header", "c19_case", [{}], [], labels=["converted", "equal"], desc="every letter case of charset names"),
  Job("header", "c19_window", [{}], [], labels=["window"], desc="Content-Type and Plural-Forms lines with any byte changed"),
  Job("header", "c19_rule", [{}], [], labels=["rule"], desc="every pair of existing rule and header rule"),
  Job("header", "c19_absent", [{}], [], labels=["absent"], desc="no header, headers without charset, entries before the header"),
  Job("header", "c19_long", [{"L": 5000}], [{"L": 70000}], labels=["long"], steps=200000000, desc="header lines of telling lengths up to L, up to 513 lines"),
  Job("header", "c19_twice", [{}], [], labels=["twice"], desc="two Content-Type lines"),
])
check("C22", [
  Job("header", "c22_raw", [{"N": 4}, {"N": 6}], [{"N": 7}], labels=["big5", "other charset", "cut off"], desc="any N bytes after the opening quote under Big5 and other charsets"),
  Job("header", "c22_files", [{"K": 2, "N": 3}], [{"K": 3, "N": 4}], labels=["big5", "other charset"], desc="K files of five charsets one after the other, any N bytes in the last"),
  Job("header", "c22_roundtrip", [{"C": 3}], [{"C": 4}], labels=["roundtrip"], desc="any C characters in every string position"),
  Job("header", "c22_far", [{"L": 2100}], [{"L": 17000}], labels=["far"], steps=200000000, desc="a character after up to L others, or up to 1025 lines down"),
])
check("C17", [
  Job("iconv", "c17_exact", [{"N": 6, "E": 17}], [{"N": 12, "E": 40}], labels=["exact"], desc="any text of up to N bytes, 1..E output bytes per byte, with or without a byte order prefix"),
  Job("iconv", "c17_long", [{"L": 60}], [{"L": 300}], labels=["long"], steps=20000000, desc="texts of every length up to L, 1..7 output bytes per byte"),
  Job("iconv", "c17_wide", [{"L": 80}], [{"L": 300}], labels=["wide"], steps=20000000, desc="texts of every length up to L, every byte arbitrary"),
  Job("iconv", "c17_equal", [{"N": 3}], [{"N": 6}], labels=["equal"], desc="names equal but for letter case, any text"),
  Job("iconv", "c17_differ", [{}], [], labels=["equal", "different"], desc="names differing in any one byte"),
  Job("iconv", "c17_history", [{"K": 3}], [{"K": 4, "N": 2}], labels=["valid", "invalid", "cannot open"], desc="K openings, failing openings, valid, invalid and shifting conversions in any order"),
  Job("iconv", "c17_stateful", [{"K": 2, "N": 2, "E": 5}, {"K": 2, "N": 4, "E": 2}], [{"K": 3, "N": 3, "E": 6}], labels=["valid", "invalid"], desc="K texts one after the other into a charset with shift states, invalid ones in between"),
  Job("iconv", "c17_construct", [{"N": 3}], [{"N": 5}], labels=["open", "cannot open"], desc="constructors, any charset name of N bytes"),
  Job("iconv", "c17_files", [{"K": 3}], [{"K": 4}], labels=["file", "cannot open"], desc="K files with different charsets, one after the other"),
  Job("iconv", "c17_huge", [{"L": 5000}], [{"L": 70000}], labels=["huge"], steps=500000000, desc="texts of telling lengths up to L, 1, 4 or 7 bytes per byte, valid or not"),
  Job("iconv", "c17_repeat", [{"N": 1100}], [{"N": 8200}], labels=["repeated"], steps=200000000, desc="telling numbers of conversions, openings or failures, then any text"),
  Job("iconv", "c17_several", [{"N": 4}], [{"N": 8}], labels=["several"], desc="two converters at once"),
], ["The system converter is a model following the POSIX contract (E2BIG, EILSEQ, EINVAL, shift state until reset)."])
check("C24", [
  Job("layout", "c24_ends", [{"G": 4}], [{"G": 9}], labels=["content"], desc="line ends, byte-order mark, end of file, numbers of blank lines, comments anywhere"),
  Job("layout", "c24_small", [{}], [], labels=["content"], desc="files of one or two entries of six kinds under every line end, mark, ending and leading comment or blank line"),
  Job("layout", "c24_comments", [{"N": 5}], [{"N": 8}], labels=["content"], desc="comment lines with any bytes before any entry"),
  Job("layout", "c24_spacing", [{"N": 6}], [{"N": 12}], labels=["content"], desc="any run of up to N spaces and tabs at any one line or at all lines"),
  Job("layout", "c24_long", [{"M": 30}], [{"M": 120}], labels=["content"], steps=20000000, desc="long runs of spaces, comments and blank lines"),
  Job("layout", "c24_obsolete", [{"N": 4}], [{"N": 8}], labels=["content", "obsolete"], desc="obsolete entries of every shape with any bytes, anywhere"),
  Job("layout", "c24_sizes", [{"L": 5000, "M": 520}], [{"L": 70000, "M": 3000}], labels=["content"], steps=200000000, desc="comments, blanks, blank lines and obsolete entries of telling sizes"),
])
check("C18", [
  Job("logging", "c18_results", [{"N": 3}], [{"N": 5}], labels=["same"], desc="any N bytes in nine positions, all combinations of null, recording and replaced callbacks, changed again between lookups"),
  Job("logging", "c18_manager", [{}], [], labels=["same"], desc="a manager with faulty files under all combinations of callbacks"),
  Job("logging", "c18_lines", [{"K": 2}], [{"K": 3}], labels=["warning", "error"], desc="21 kinds of diagnostics behind any K blocks"),
  Job("logging", "c18_byte", [{}], [], labels=["none", "warning", "error"], desc="any byte in place of the separator of any line"),
  Job("logging", "c18_severity", [{}], [], labels=["message", "none"], desc="dictionary events under every set of installed callbacks"),
  Job("logging", "c18_many", [{"N": 520}], [{"N": 4100}], labels=["error", "warning"], steps=400000000, desc="telling numbers of malformed blocks of five kinds"),
  Job("logging", "c18_far", [{"L": 5000}], [{"L": 70000}], labels=["warning", "error"], steps=500000000, desc="diagnostics up to 4100 lines down and about lines of up to L bytes"),
])
check("C13", [
  Job("manager", "c13_pool", [{"K": 2}], [{"K": 3}], labels=["loaded", "nothing"], desc="listings of any K names out of 30, 12 requests"),
  Job("manager", "c13_subsets", [{}], [], labels=["loaded", "nothing"], desc="every subset of the variants of a language, rotated and reversed"),
  Job("manager", "c13_bytes", [{"N": 3}], [{"N": 4}], labels=["loaded", "nothing"], desc="names with up to N arbitrary bytes next to ordinary ones"),
  Job("manager", "c13_dirs", [{}], [], labels=["loaded", "nothing"], desc="several directories, long listings"),
  Job("manager", "c13_long", [{"M": 300}], [{"M": 1100}], labels=["loaded", "nothing"], steps=500000000, desc="listings of telling lengths up to M"),
])
check("C21", [
  Job("manager", "c21_any", [{"N": 8}], [{"N": 14}], labels=["converted"], desc="any name of up to N bytes, plain or with four endings"),
  Job("manager", "c21_pattern", [{}], [], labels=["converted"], desc="names of 14 shapes with arbitrary bytes at marked positions"),
  Job("manager", "c21_long", [{"L": 5000}], [{"L": 70000}], labels=["converted"], steps=200000000, desc="names of telling lengths up to L"),
])
check("C23", [
  Job("manager", "c23_pool", [{"K": 2}], [{"K": 3}], labels=["listed", "none"], desc="directories with any K names out of 30, on and off the search path"),
  Job("manager", "c23_dirs", [{"D": 3}, {"D": 5}], [], labels=["listed", "none"], desc="up to five directories with languages of their own, any of 35 other names anywhere in one of them"),
  Job("manager", "c23_history", [{"K": 3}], [{"K": 4}], labels=["listed", "none"], desc="K additions, removals and changes of the files of three directories with requests in between"),
  Job("manager", "c23_bytes", [{"N": 3}], [{"N": 4}], labels=["listed"], desc="names with up to N arbitrary bytes"),
  Job("manager", "c23_any", [{"N": 4}, {"N": 6}], [{"N": 8}], labels=["none"], desc="any name of up to N bytes"),
  Job("manager", "c23_known", [{}], [], labels=["listed"], desc="every known language as file name, in either case of the country"),
  Job("manager", "c23_long", [{"M": 600}], [{"M": 2100}], labels=["listed"], steps=500000000, desc="listings of telling lengths up to M"),
  Job("manager", "c23_all", [{}], [], labels=["listed"], steps=500000000, desc="all known languages but one at once"),
])
check("C14", [
  Job("config", "c14_history", [{"D": 3, "K": 3}, {"D": 3, "K": 4}], [{"D": 4, "K": 3}, {"D": 3, "K": 5}], labels=["found", "absent"], desc="K additions, additions with precedence and removals of D directories, messages in every subset of directories"),
  Job("config", "c14_values", [{}], [], labels=["values"], desc="arbitrary, equal, empty and absent translations in three directories, every order and kind"),
  Job("config", "c14_repeat", [{"M": 300}], [{"M": 1100}], labels=["many"], steps=400000000, desc="a telling number of directories added in front, behind or in turn"),
  Job("config", "c14_names", [{"N": 3}], [{"N": 5}], labels=["same", "different"], desc="any two directory names of up to N bytes"),
  Job("config", "c14_many", [{"M": 12}, {"M": 40}], [{"M": 70}], labels=["many"], steps=20000000, desc="many directories"),
])
check("C15", [
  Job("config", "c15_history", [{"K": 2}], [{"K": 3}], labels=["language", "no language"], steps=20000000, desc="K operations of 23 kinds with lookups in between"),
  Job("config", "c15_deep", [{"K": 3}, {"K": 4}], [{"K": 5}], labels=["language", "no language"], steps=20000000, desc="K operations of ten kinds on small files"),
  Job("config", "c15_repeat", [{"N": 300}], [{"N": 1100}], labels=["repeated"], steps=400000000, desc="telling numbers of configuration changes of one of six kinds, then one of any, compared with a fresh manager"),
  Job("config", "c15_reload", [{}], labels=["reloaded"], steps=20000000, desc="seven changes of the files, six of the configuration, languages loaded before"),
  Job("config", "c15_languages", [{"J": 3}], [{"J": 30}], labels=["languages"], desc="pairs of known languages"),
  Job("config", "c15_many", [{}], [], labels=["languages"], steps=500000000, desc="fifty languages loaded at once, in any rotation"),
])
check("C16", [
  Job("config", "c16_matrix", [{}], [], labels=["regional", "fallback", "untranslated"], desc="every state of a message in the regional and the bare file x kind of lookup x plural rules x every count"),
  Job("config", "c16_values", [{}], [], labels=["values"], desc="regional and bare translations that are empty, equal to the msgid, plural or context, or any byte, in one or two directories"),
  Job("config", "c16_repeat", [{"N": 1100}], [{"N": 8200}], labels=["repeated"], steps=400000000, desc="a telling number of lookups of five kinds, then all"),
  Job("config", "c16_known", [{}], [], labels=["fallback", "no fallback"], desc="every known language with any of its files"),
  Job("config", "c16_siblings", [{}], [], labels=["siblings"], desc="files of other regions present"),
])
check("C20", [
  Job("config", "c20_faults", [{}], [], labels=["recovered"], desc="ten kinds of fault in each of three directories, then a retry after each kind of configuration change"),
  Job("config", "c20_history", [{"K": 2}], [{"K": 3}], labels=["history"], desc="faults that move and vanish between requests"),
  Job("config", "c20_repeat", [{"N": 70}], [{"N": 520}], labels=["recovered"], steps=400000000, desc="one of nine faults a telling number of times, then none"),
  Job("config", "c20_languages", [{}], [], labels=["listed"], desc="available languages under listing faults"),
  Job("config", "c20_bytes", [{"N": 3}], [{"N": 6}], labels=["bytes"], desc="a file that names any charset of N bytes, none of which can be opened"),
  Job("config", "c20_many", [{"M": 70}], [{"M": 520}], labels=["many"], steps=500000000, desc="1..M directories with faults"),
])
check("C26", [
  Job("nativefs", "c26_names", [{"N": 3, "K": 2}, {"N": 2, "K": 3}], [{"N": 6, "K": 3}, {"N": 3, "K": 4}], labels=["listed"], desc="directories with up to K entries of four kinds, any legal names of up to N bytes, six spellings of the directory"),
  Job("nativefs", "c26_shapes", [{}], labels=["listed"], desc="24 telling names with one arbitrary byte anywhere, next to subdirectories"),
  Job("nativefs", "c26_long", [{"L": 255}], labels=["long"], desc="names of up to 255 bytes"),
  Job("nativefs", "c26_many", [{"M": 20}], [{"M": 60}], labels=["many"], steps=20000000, desc="up to M entries"),
  Job("nativefs", "c26_numbers", [{"M": 520}], [{"M": 2050}], labels=["many"], steps=2000000000, desc="directories of telling numbers of entries"),
  Job("nativefs", "c26_content", [{"N": 3, "L": 6}], [{"N": 6, "L": 24}], labels=["read"], desc="any content of up to L bytes under any name of up to N bytes"),
  Job("nativefs", "c26_big", [{}], labels=["big"], steps=200000000, desc="contents of up to 20000 bytes around buffer sizes, one arbitrary byte"),
  Job("nativefs", "c26_missing", [{"N": 4}], [{"N": 8}], labels=["missing"], desc="absent directories and files, files as directories, directories as files"),
  Job("nativefs", "c26_history", [{"K": 4, "N": 1}], [{"K": 6, "N": 2}], labels=["history"], desc="K additions, listings and readings in any order"),
  Job("nativefs", "c26_manager", [{"N": 3}], [{"N": 6}], labels=["manager"], desc="the default manager on such directories"),
], ["The kernel and libstdc++'s file system and file stream classes are a model (rt/fs.cpp); every sampled path and every counterexample is run with the real library on a real directory tree."])
check("C27", [
  Job("config", "c27_repeat", [{"N": 300}], [{"N": 1100}], labels=["repeated"], steps=400000000, desc="telling numbers of managers one after the other"),
  Job("config", "c27_two", [{"K": 2}], [{"K": 3}], labels=["independent"], steps=20000000, desc="two managers with different files, K operations of 23 kinds on either"),
  Job("config", "c27_settings", [{}], [], labels=["independent"], steps=20000000, desc="two managers, each with any settings, directory and character set, asked in either order; absolute expectations"),
  Job("config", "c27_cleared", [{}], [], labels=["released"], steps=20000000, desc="any languages loaded, any two operations, then destruction"),
  Job("config", "c27_release", [{"K": 2}], [{"K": 3}], labels=["released"], steps=20000000, desc="K operations under six kinds of fault in any directory, then destruction"),
])
check("C28", [
  Job("cumulative", "c28_merge", [{"K": 2}, {"K": 3}], [{"K": 4}], labels=["merged"], desc="K files with four kinds of header and seven shapes of a common message, arbitrary values"),
  Job("cumulative", "c28_again", [{"N": 3}, {"N": 5}], [{"N": 7}], labels=["nothing", "something"], desc="any file of 14 heads, up to N arbitrary bytes and six tails, read twice"),
  Job("cumulative", "c28_after", [{"N": 2}, {"N": 4}], [{"N": 6}], labels=["after"], desc="the same files, read before another file"),
  Job("cumulative", "c28_split", [{"N": 3}, {"N": 5}], [{"N": 7}], labels=["split"], desc="two parts of a file, one with up to N arbitrary bytes"),
  Job("cumulative", "c28_repeat", [{"N": 300}], [{"N": 1100}], labels=["repeated"], steps=200000000, desc="telling numbers of files of five kinds, then another"),
  Job("cumulative", "c28_many", [{"M": 400}], [{"M": 1500}], labels=["merged"], steps=900000000, desc="M messages in each of one to four files"),
])

check("C29", [
  Job("threads", "c29_lookup", [{"L": 2}], [{"L": 3}], labels=["looked up", "with fallback"], desc="any lookup of any message in a dictionary with arbitrary messages"),
  Job("threads", "c29_first", [{}], labels=["looked up"], desc="first lookups in a dictionary of up to two messages"),
  Job("threads", "c29_language", [{"N": 2}], [{"N": 4}], labels=["first use", "used before"], desc="resolving, naming, matching, comparing languages"),
  Job("threads", "c29_plural", [{}], labels=["first use", "used before"], desc="reading and applying plural rules"),
  Job("threads", "c29_convert", [{"N": 3}], [{"N": 5}], labels=["converted"], desc="separate converters"),
  Job("threads", "c29_parse", [{}], labels=["parsed"], desc="separate dictionaries"),
  Job("threads", "c29_managers", [{}], labels=["asked"], desc="separate managers"),
  Job("threads", "c29_files", [{"N": 3}], [{"N": 6}], labels=["read"], desc="separate native file systems and default managers"),
  Job("threads", "c29_sizes", [{"L": 600}], [{"L": 5000}], labels=["sized"], steps=400000000, desc="long strings, many messages, long files"),
])

check("C30", [
  Job("stream", "c30_any", [{"N": 2}, {"N": 3}], [{"N": 5}], labels=["something", "nothing"], desc="eight heads, up to N arbitrary bytes and four tails through nine kinds of stream"),
  Job("stream", "c30_window", [{}], labels=["cut", "changed"], desc="a complete file with any byte changed or cut anywhere through nine kinds of stream"),
  Job("stream", "c30_sizes", [{"L": 2100}], [{"L": 17000}], labels=["read"], steps=400000000, desc="lines and pieces of telling sizes up to L"),
  Job("stream", "c30_fail", [{}], labels=["kept"], desc="a stream that ends or throws at any byte, delivered in three sizes of pieces"),
  Job("stream", "c30_name", [{"N": 3}], [{"N": 6}], labels=["named"], desc="telling and arbitrary file names"),
])

check("C31", [
  Job("fscontract", "c31_history", [{"K": 2}, {"K": 3}, {"K": 4}], [{"K": 5}], labels=["opened", "none", "again", "done"], desc="histories of K operations with changing listings"),
  Job("fscontract", "c31_names", [{"N": 2}, {"N": 3}], [{"N": 5}], labels=["opened", "none"], desc="directories and files of telling and arbitrary names"),
  Job("fscontract", "c31_candidates", [{}], labels=["opened", "none", "again"], desc="any subset of seven names in three directories of which one may fail"),
  Job("fscontract", "c31_files", [{"N": 2}], [{"N": 4}], labels=["opened", "again"], desc="files that do not open, fail or hold one of five texts with arbitrary bytes"),
  Job("fscontract", "c31_fresh", [{}], labels=["opened", "none"], desc="file names and contents that change between requests"),
  Job("fscontract", "c31_two", [{}], labels=["opened", "none"], desc="two managers with a file system each"),
])
check("C32", [
  Job("locale", "c32_parse", [{}], labels=["compared"], steps=2000000, desc="one arbitrary byte put in or in place of another anywhere in a complete file"),
  Job("locale", "c32_bytes", [{"N": 3}, {"N": 5}], [{"N": 6}], labels=["compared"], desc="N arbitrary bytes after a comment sign, a keyword, a string or an entry"),
  Job("locale", "c32_charset", [{}], labels=["compared"], desc="charsets in every letter case, for four charsets of the dictionary, values of two arbitrary bytes"),
  Job("locale", "c32_convert", [{"N": 4}, {"N": 8}], [{"N": 12}], labels=["compared"], desc="any charset name of up to N bytes to itself in another case or to another one"),
  Job("locale", "c32_plural", [{}], labels=["compared"], desc="every plural header with any byte anywhere"),
  Job("locale", "c32_alias", [{}], labels=["compared"], desc="every alias in lower case, upper case and capitalised"),
  Job("locale", "c32_name", [{"N": 3}, {"N": 4}], [{"N": 5}], labels=["compared"], desc="names of up to N arbitrary bytes"),
  Job("locale", "c32_file", [{"N": 3}, {"N": 6}], [{"N": 8}], labels=["compared"], desc="file names of N arbitrary bytes after known heads"),
  Job("locale", "c32_manager", [{}], labels=["compared"], desc="file names and requests with i, any byte changed"),
  Job("locale", "c32_lookup", [{"N": 3}], [{"N": 5}], labels=["compared"], desc="lookups of messages of up to N arbitrary bytes, present or not, logs included"),
], assumptions=["locales differ from the C locale in the classes and letter cases of one (arbitrary) byte of 0x80..0xff at a time, and in those of i and I; character classes of other ASCII bytes are those of the C locale, as in every locale of glibc"])
check("C33", [
  Job("reentry", "c33_callbacks", [{}], labels=["called"], steps=40000000, desc="eleven kinds of work, in whose log messages, file system calls and enumerations each of eleven other kinds of work is done, with arbitrary values"),
])
