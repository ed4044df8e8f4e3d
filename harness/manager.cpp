// C13 best file, C14 precedence, C15 cache, C16 regional fallback, C20 faults, C21 file names, C23 available languages
#include "plural.hpp"
#include "iconv_model.hpp"
#include <deque>
#include <set>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); Language::from_name("x"); }
static const char* const HEAD = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n";
static std::string msg(const std::string& id, const std::string& v) { return "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n\n"; }
static bool ends_po(const std::string& s) { size_t n = s.size(); return n >= 3 && sv_and(sv_and(s[n - 3] == '.', s[n - 2] == 'p'), s[n - 1] == 'o'); }
static bool alpha(unsigned char c) { return sv_or(sv_and(c >= 'a', c <= 'z'), sv_and(c >= 'A', c <= 'Z')); }
// C21's rule
static std::string ref_convert(const std::string& in) {
  std::string s = ends_po(in) ? in.substr(0, in.size() - 3) : in; size_t i = 0; while (i < s.size() && s[i] != '_') ++i;
  for (++i; i < s.size() && alpha((unsigned char)s[i]); ++i) { unsigned char c = (unsigned char)s[i]; s[i] = (char)sv_select32(sv_and(c >= 'a', c <= 'z'), c - 32u, c); } return s;
}
static Language ref_lang(const std::string& name) { return ends_po(name) ? Language::from_env(ref_convert(name)) : Language(); }

// ------------------------------------------------------------------ C21
SV_ENTRY c21_any() {
  warm(); MemFS* fs = new MemFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); std::string s = sv_str_upto(0, (size_t)sv_param("N", 5), "name"); unsigned t = sv_range(0, 3, "tail"); s += t == 0 ? "" : t == 1 ? ".po" : t == 2 ? ".po.po" : "_gb.po";
  std::string got = m.convertFilename2Language(s); sv_check(sv_eq(got, ref_convert(s)), "a file name maps to its language specification by the rule, whatever it is"); sv_obs(got); sv_reach("converted");
}
SV_ENTRY c21_pattern() {
  warm(); MemFS* fs = new MemFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); static const char* const shapes[] = { "de_??.po", "zh_t?", "en_gb.utf-?.po", "sr_??@latin.po", "a_b_?c.po", "_??.po", "??_??.po", "pt_br??", "x@y_??.po", "?_?.PO", "de_at1?b.po", "de-?_at.po", "??????_.po", "d_aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?z.po" };
  std::string s = shapes[sv_range(0, COUNT(shapes) - 1, "shape")]; for (char& c : s) if (c == '?') c = sv_str(1, "byte")[0]; std::string got = m.convertFilename2Language(s); sv_check(sv_eq(got, ref_convert(s)), "a file name maps to its language specification by the rule, whatever it is"); sv_obs(got); sv_reach("converted");
}

// ------------------------------------------------------------------ C13, C23: one directory with symbolic names
struct ListFS : FileSystem { // file i of directory d defines the message "f<d>.<i>"
  std::vector<std::string> dirs; std::vector<std::vector<std::string>> names; std::vector<std::string> opened; unsigned lists = 0; std::string slash = "/";
  std::vector<std::string> open_directory(const std::string& p) override { ++lists; for (size_t d = 0; d < dirs.size(); ++d) if (dirs[d] == p) return names[d]; return {}; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { opened.push_back(f); for (size_t d = 0; d < dirs.size(); ++d) for (size_t i = 0; i < names[d].size(); ++i) if (sv_eq(f, dirs[d] + "/" + names[d][i])) return std::unique_ptr<std::istream>(new std::istringstream(msg("f" + std::to_string(d) + "." + std::to_string(i), "v"))); return std::unique_ptr<std::istream>(); }
};
static void best_check(const std::vector<std::vector<std::string>>& names, const Language& req, Dictionary& d) {
  std::vector<std::string> got; d.foreach([&](const std::string& k, const std::vector<std::string>&) { got.push_back(k); }); size_t total = 0;
  for (size_t n = 0; n < names.size(); ++n) {
    int best = 0; for (const std::string& s : names[n]) { Language l = ref_lang(s); if (l) { int x = Language::match(req, l); if (x > best) best = x; } }
    unsigned loaded = 0; bool right = true; for (size_t i = 0; i < names[n].size(); ++i) { std::string k = "f" + std::to_string(n) + "." + std::to_string(i); for (auto& g : got) if (g == k) { ++loaded; Language l = ref_lang(names[n][i]); if (!l || Language::match(req, l) != best) right = false; } }
    sv_check(right, "the file loaded is one of the best-matching '.po' files of its directory"); if (best) { sv_check(loaded == 1, "exactly one file is loaded from a directory with a matching file"); sv_reach("loaded"); } else { sv_check(loaded == 0, "nothing is loaded from a directory without a matching file"); sv_reach("nothing"); } total += loaded;
  }
  sv_check(got.size() == total, "nothing else is loaded");
}
static std::string nm(unsigned n) { static const char* const pool[] = { "de.po", "de_DE.po", "de_at.po", "de_AT.po", "de_CH.po", "de_XX.po", "de@euro.po", "sr.po", "sr@latin.po", "sr_RS.po", "sr_RS@latin.po", "pt.po", "pt_BR.po", "pt_pt.po", "nds.po", "xx.po", ".po", "", "readme.txt", "de.po.bak", "de.PO", "depo", "de.mo", "po", "zh_TW.po", "zh_cn.po", "sr_XX@latin.po", "de.UTF-8.po", "_DE.po", "e.po", "en_US@piglatin.po", "en_us.po", "ca_ES@valencia.po", "ca_es.po", "sr_yu@latin.po" }; return n < COUNT(pool) ? pool[n] : ""; }
static const unsigned NPOOL = 35;
static const char* const reqs[] = { "de", "de_AT", "de_DE", "sr", "sr@latin", "sr_RS", "sr_RS@latin", "pt_BR", "pt", "zh_TW", "nds", "fr", "en_US@piglatin", "ca_ES@valencia", "ca@valencia", "sr_YU" };
// any names out of a pool, in any order
SV_ENTRY c13_pool() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Language req = Language::from_env(reqs[sv_range(0, COUNT(reqs) - 1, "request")]); fs->dirs = { "dir" }; fs->names.resize(1); unsigned k = (unsigned)sv_param("K", 2); for (unsigned i = 0; i < k; ++i) fs->names[0].push_back(nm(sv_range(0, NPOOL - 1, "name")));
  m.add_directory("dir"); best_check(fs->names, req, m.get_dictionary(req));
}
// all variants of one language present but any subset, rotated and reversed
SV_ENTRY c13_subsets() {
  warm(); static const char* const fam[][7] = { { "ca.po", "ca@valencia.po", "ca_ES@valencia.po", "ca_es.po", "c.po", "ca_FR.po", "cap.po" }, { "de.po", "de_DE.po", "de_at.po", "de_CH.po", "readme.po", "fr.po", "de_XX.po" }, { "sr.po", "sr@latin.po", "sr_RS.po", "sr_RS@latin.po", "sr_ME.po", "ser.po", "hr.po" }, { "pt.po", "pt_BR.po", "pt_pt.po", "es.po", "pt_AO.po", "pt.txt", "p.po" } }; static const char* const rq[][5] = { { "ca", "ca@valencia", "ca_ES@valencia", "ca_ES", "ca_FR" }, { "de", "de_AT", "de_DE", "de_CH", "de_BE" }, { "sr", "sr@latin", "sr_RS", "sr_RS@latin", "hr" }, { "pt", "pt_BR", "pt_PT", "es", "es_MX" } };
  unsigned f = sv_range(0, 3, "family"); Language req = Language::from_env(rq[f][sv_range(0, 4, "request")]); unsigned set = sv_range(0, 127, "subset"), rot = sv_range(0, 6, "rotation"); bool rev = sv_bool("reverse");
  ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->dirs = { "dir" }; fs->names.resize(1); for (unsigned j = 0; j < 7; ++j) { unsigned i = (rev ? 6 - j : j); i = (i + rot) % 7; if (set >> i & 1) fs->names[0].push_back(fam[f][i]); }
  m.add_directory("dir"); best_check(fs->names, req, m.get_dictionary(req));
}
// names with arbitrary bytes next to ordinary ones
static std::string wild(size_t n) { static const char* const heads[] = { "", "de", "de_", "sr_RS@", "de_A", "pt_B", "de.po", "de.p" }; std::string h = heads[sv_range(0, 7, "head")]; std::string b = sv_str_upto(0, n, "name"); for (char c : b) sv_assume(sv_and(c != 0, c != '/')); unsigned t = sv_range(0, 2, "tail"); return h + b + (t == 0 ? ".po" : t == 1 ? "" : "@latin.po"); }
SV_ENTRY c13_bytes() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); static const char* const rq[] = { "de_AT", "sr_RS@latin", "pt_BR", "de" }; Language req = Language::from_env(rq[sv_range(0, 3, "request")]); fs->dirs = { "dir" }; fs->names.resize(1); std::string w = wild((size_t)sv_param("N", 3)), o = nm(sv_range(0, 3, "other") * 4); if (sv_bool("first")) fs->names[0] = { w, o }; else fs->names[0] = { o, w };
  m.add_directory("dir"); best_check(fs->names, req, m.get_dictionary(req));
}
// several directories, each with its own best file; long listings
SV_ENTRY c13_dirs() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); Language req = Language::from_env(reqs[sv_range(0, 7, "request")]); unsigned a = sv_range(0, NPOOL - 1, "a"), b = sv_range(0, 9, "b"); bool longl = sv_bool("long listing"); fs->dirs = { "one", "two", "three" }; fs->names = { { nm(a), "fr.po" }, { "x", nm(b), "de.po" }, {} };
  if (longl) { for (unsigned i = 0; i < 40; ++i) fs->names[2].push_back("fr_" + std::string(i, 'x') + ".po"); fs->names[2].push_back("de.po"); fs->names[2].push_back("de_AT.po"); for (unsigned i = 0; i < 10; ++i) fs->names[2].push_back("file" + std::to_string(i)); fs->names[2].push_back("sr_RS@latin.po"); }
  for (auto& x : fs->dirs) m.add_directory(x); best_check(fs->names, req, m.get_dictionary(req));
}
// ------------------------------------------------------------------ C23
static void list_check(ListFS* fs, DictionaryManager& m, const std::vector<unsigned>& on) {
  std::set<Language> got = m.get_languages(); std::vector<Language> want; for (unsigned d : on) for (const std::string& s : fs->names[d]) { Language l = ref_lang(s); if (l) want.push_back(l); }
  bool undefined = false, extra = false, missing = false; for (const Language& g : got) { if (!g) undefined = true; bool f = false; for (const Language& w : want) if (w == g) f = true; if (!f) extra = true; } for (const Language& w : want) { bool f = false; for (const Language& g : got) if (w == g) f = true; if (!f) missing = true; }
  sv_check(!undefined, "an undefined language is never listed"); sv_check(!extra, "only languages that some '.po' file maps to are listed"); sv_check(!missing, "every language that some '.po' file maps to is listed");
  for (const Language& g : got) if (g) { size_t before = fs->opened.size(); Dictionary& d = m.get_dictionary(g); unsigned n = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); (void)before; sv_check(n >= 1, "every listed language has a file that is loaded when it is requested"); sv_reach("listed"); }
  if (got.empty()) sv_reach("none");
}
SV_ENTRY c23_pool() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->dirs = { "one", "two", "off" }; fs->names.resize(3); unsigned k = (unsigned)sv_param("K", 2); for (unsigned i = 0; i < k; ++i) fs->names[i % 2].push_back(nm(sv_range(0, NPOOL - 1, "name"))); fs->names[2] = { "fr.po" };
  unsigned on = sv_range(0, 3, "search path"); std::vector<unsigned> o; m.add_directory("off"); if (on & 1) { m.add_directory("one"); o.push_back(0); } if (on & 2) { m.add_directory("two"); o.push_back(1); } m.remove_directory("off"); list_check(fs, m, o);
}
SV_ENTRY c23_bytes() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->dirs = { "one" }; fs->names = { { "de.po", wild((size_t)sv_param("N", 3)), "xx" } }; m.add_directory("one"); list_check(fs, m, { 0 });
}
SV_ENTRY c23_any() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->dirs = { "one" }; std::string s = sv_str_upto(0, (size_t)sv_param("N", 4), "name"); for (char c : s) sv_assume(sv_and(c != 0, c != '/')); fs->names = { { s } }; m.add_directory("one"); list_check(fs, m, { 0 });
}
static const struct { const char *l, *c, *m; } known[] = {
#include "languages.inc"
};
static std::string code(unsigned i) { std::string r = known[i].l; if (*known[i].c) r += std::string("_") + known[i].c; if (*known[i].m) r += std::string("@") + known[i].m; return r; }
// every known language, as file name in either case of the country
SV_ENTRY c23_known() {
  warm(); unsigned i = sv_range(0, COUNT(known) - 1, "i"); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); std::string s = code(i); if (sv_bool("lower")) { s = known[i].l; if (*known[i].c) { s += "_"; for (const char* p = known[i].c; *p; ++p) s += (char)(*p >= 'A' && *p <= 'Z' ? *p + 32 : *p); } if (*known[i].m) s += std::string("@") + known[i].m; }
  fs->dirs = { "one" }; fs->names = { { s + ".po" } }; m.add_directory("one"); list_check(fs, m, { 0 }); Language l = Language::from_env(code(i)); sv_check(m.get_languages().count(l) == 1, "a file named after a known language makes it available"); best_check(fs->names, l, m.get_dictionary(l));
}
// several directories, each with a language of its own; any other name before, between or behind
SV_ENTRY c23_dirs() {
  warm(); static const char* const own[][2] = { { "fr.po", "fr_CA.po" }, { "it.po", "it_ch.po" }, { "sr.po", "sr@latin.po" }, { "es.po", "es_MX.po" }, { "ja.po", "nds.po" } }; ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); unsigned nd = (unsigned)sv_param("D", 5), set = sv_range(0, (1u << nd) - 1, "present"), at = sv_range(0, nd - 1, "where"), pos = sv_range(0, 2, "position"); std::string x = nm(sv_range(0, NPOOL - 1, "name")); std::vector<unsigned> on; bool front = sv_bool("precedence");
  for (unsigned d = 0; d < nd; ++d) { std::string dir = "dir" + std::to_string(d); std::vector<std::string> v; if (d == at && pos == 0) v.push_back(x); if (set >> d & 1) v.push_back(own[d][0]); if (d == at && pos == 1) v.push_back(x); if (set >> d & 1) v.push_back(own[d][1]); if (d == at && pos == 2) v.push_back(x); fs->dirs.push_back(dir); fs->names.push_back(v); m.add_directory(dir, front); on.push_back(d); }
  list_check(fs, m, on);
}
// directories come and go, and so do the files in them, between any requests
SV_ENTRY c23_history() {
  warm(); static const char* const pool[] = { "fr.po", "it_CH.po", "sr@latin.po", "de.po" }; ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); unsigned nd = 3, k = (unsigned)sv_param("K", 3); for (unsigned d = 0; d < nd; ++d) { fs->dirs.push_back("dir" + std::to_string(d)); fs->names.push_back({ pool[d] }); }
  std::vector<unsigned> on; if (sv_bool("start")) { m.add_directory("dir0"); m.add_directory("dir1"); on = { 0, 1 }; } bool moved = false;
  for (unsigned i = 0; i < k; ++i) { if (sv_bool("listed before")) { if (moved) m.get_languages(); else list_check(fs, m, on); }
    unsigned op = sv_range(0, 8, "op"), d = op % 3; std::string n = fs->dirs[d]; size_t p = 0; while (p < on.size() && on[p] != d) ++p;
    if (op < 3) { m.add_directory(n, sv_bool("front")); if (p == on.size()) on.push_back(d); } else if (op < 6) { m.remove_directory(n); if (p < on.size()) on.erase(on.begin() + (long)p); } else { unsigned c = sv_range(0, 2, "listing"); moved = true; if (c == 0) fs->names[d].clear(); else if (c == 1) fs->names[d] = { pool[3] }; else fs->names[d].push_back("es.po"); } }
  std::set<Language> got = m.get_languages(); std::set<Language> want; for (unsigned d : on) for (auto& s : fs->names[d]) want.insert(ref_lang(s)); bool same = got.size() == want.size(); for (auto& l : want) if (!got.count(l)) same = false; sv_check(same, "the languages listed are those of the directories and files of the moment"); sv_reach(got.empty() ? "none" : "listed"); if (!moved) list_check(fs, m, on);
}
// listings of telling lengths with the one or two files that count at either end or in the middle
static std::vector<std::string> long_listing(size_t n, const std::vector<std::string>& in, unsigned where, unsigned kind) { static const char* const fill[] = { "x", "fr_X", "readme" }; std::vector<std::string> v; size_t at = where == 0 ? 0 : where == 1 ? n / 2 : n; for (size_t i = 0; i <= n; ++i) { if (i == at) for (auto& s : in) v.push_back(s); if (i < n) v.push_back(fill[kind] + std::to_string(i) + (kind == 1 ? ".x" : kind == 0 ? ".po" : "")); } return v; }
SV_ENTRY c13_long() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); static const char* const rq[] = { "de_AT", "de", "sr@latin" }; Language req = Language::from_env(rq[sv_range(0, 2, "request")]); size_t n = telling(sv_param("M", 600), "length"); unsigned kind = sv_range(0, 2, "kind"), where = sv_range(0, 2, "where"), pair = sv_range(0, 2, "names"); static const char* const nmz[][2] = { { "de.po", "de_at.po" }, { "de_CH.po", "de.po" }, { "sr@latin.po", "de_DE.po" } }; fs->dirs = { "dir" }; fs->names = { long_listing(n, { nmz[pair][0] }, where, kind) }; fs->names[0].push_back(nmz[pair][1]);
  m.add_directory("dir"); best_check(fs->names, req, m.get_dictionary(req));
}
SV_ENTRY c23_long() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); size_t n = telling(sv_param("M", 600), "length"); unsigned kind = sv_range(0, 2, "kind"), where = sv_range(0, 2, "where"); fs->dirs = { "dir", "other" }; fs->names = { long_listing(n, { "de.po", "pt_br.po" }, where, kind), { "it.po" } }; fs->names[0].push_back("es_MX.po"); m.add_directory("dir"); m.add_directory("other"); std::set<Language> got = m.get_languages(); static const char* const want[] = { "de", "pt_BR", "es_MX", "it" }; for (const char* w : want) sv_check(got.count(Language::from_env(w)) == 1, "every language that some '.po' file maps to is listed"); sv_check(got.size() == 4, "only languages that some '.po' file maps to are listed"); sv_reach("listed");
}
// every known language at once, in one directory or one directory each
SV_ENTRY c23_all() {
  warm(); ListFS* fs = new ListFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); bool each = sv_bool("a directory each"); unsigned skip = sv_range(0, 20, "skip") * 11; std::set<std::string> want; fs->names.resize(each ? COUNT(known) : 1);
  for (unsigned i = 0; i < COUNT(known); ++i) { if (each) fs->dirs.push_back("d" + std::to_string(i)); if (i == skip) continue; fs->names[each ? i : 0].push_back(code(i) + ".po"); want.insert(code(i)); } if (!each) fs->dirs = { "d" }; for (auto& d : fs->dirs) m.add_directory(d);
  std::set<Language> got = m.get_languages(); bool ok = got.size() == want.size(); for (auto& l : got) if (!want.count(l.str())) ok = false; sv_check(ok, "exactly the languages with a file are listed, all of them at once too"); sv_reach("listed");
}
// long names
SV_ENTRY c21_long() {
  warm(); MemFS* fs = new MemFS; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); size_t n = telling(sv_param("L", 5000), "length"); unsigned shape = sv_range(0, 4, "shape"); std::string a(n, 'a'), b = sv_str(1, "byte"), s = shape == 0 ? "zh_" + a + b + "z" : shape == 1 ? a + "_" + b + "z" : shape == 2 ? a + b + "b_c" : shape == 3 ? "de_DE" + b + a + "_x" : "de_a." + a + b; if (sv_bool("po")) s += ".po"; std::string got = m.convertFilename2Language(s); sv_check(sv_eq(got, ref_convert(s)), "a file name maps to its language specification by the rule, however long it is"); sv_reach("converted");
}
