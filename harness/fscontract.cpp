// C31: what a manager asks its file system for
#include "plural.hpp"
#include "iconv_model.hpp"
#include <deque>
#include <set>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); Language::from_name("x"); IM.keyed = true; }
static int streams; // that are open
struct Counted : std::istringstream { Counted(const std::string& s) : std::istringstream(s) { ++streams; } ~Counted() override { --streams; } };
struct Broken : std::streambuf { int_type underflow() override { throw std::runtime_error("device"); } };
struct BrokenIn : std::istream { Broken b; BrokenIn() : std::istream(nullptr) { rdbuf(&b); exceptions(std::ios::badbit); ++streams; } ~BrokenIn() override { --streams; } };
static bool ends_po(const std::string& s) { size_t n = s.size(); return n >= 3 && sv_and(sv_and(s[n - 3] == '.', s[n - 2] == 'p'), s[n - 1] == 'o'); }
static std::string msg(const std::string& id, const std::string& v) { return "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n\n"; }
// records what it is asked for
struct Rec : FileSystem {
  struct Dir { std::string name; std::vector<std::string> names; bool fails; };
  std::vector<Dir> dirs; std::string content = msg("a", "A"); unsigned how = 0; // how files open: 0 fine, 1 null, 2 throws, 3 fails while it is read
  std::vector<std::string> listed; struct Open { std::string file; std::vector<std::string> from; }; std::vector<Open> opened; std::vector<std::pair<std::string, std::vector<std::string>>> given; static int alive; Rec() { ++alive; } ~Rec() override { --alive; }
  std::vector<std::string> open_directory(const std::string& p) override { listed.push_back(p); for (auto& d : dirs) if (sv_eq(d.name, p)) { if (d.fails) throw std::runtime_error("listing"); given.push_back({ p, d.names }); return d.names; } return {}; }
  std::unique_ptr<std::istream> open_file(const std::string& f) override { Open o; o.file = f; opened.push_back(o); for (auto& g : given) for (auto& n : g.second) if (sv_eq(f, g.first + "/" + n)) opened.back().from.push_back(n); if (how == 1) return std::unique_ptr<std::istream>(); if (how == 2) throw std::runtime_error("opening"); if (how == 3) return std::unique_ptr<std::istream>(new BrokenIn); return std::unique_ptr<std::istream>(new Counted(content)); }
  void forget() { listed.clear(); opened.clear(); given.clear(); }
};
int Rec::alive;
typedef std::vector<std::string> Path; // the directories configured
static void only_path(Rec* fs, const Path& on) { bool ok = true; for (auto& l : fs->listed) { bool f = false; for (auto& d : on) if (sv_eq(d, l)) { f = true; break; } if (!f) ok = false; } sv_check(ok, "only the configured directories are listed, by the names given"); }
static void nothing(Rec* fs) { sv_check(fs->listed.empty(), "nothing is listed that no request needs"); sv_check(fs->opened.empty(), "nothing is opened that no request needs"); fs->forget(); }
// after a request for a dictionary that may not have been cached
static void after_load(DictionaryManager& m, Rec* fs, const Path& on, const Language& l) {
  only_path(fs, on); bool listed = true, po = true, lang = true; for (auto& o : fs->opened) { if (o.from.empty()) listed = false; bool p = false, g = false; for (auto& n : o.from) if (ends_po(n)) { p = true; Language x = Language::from_env(m.convertFilename2Language(n)); if (x && x.get_language() == l.get_language()) g = true; } if (!o.from.empty() && !p) po = false; if (p && !g) lang = false; }
  sv_check(listed, "a file is opened only under a name that its directory has just listed"); sv_check(po, "only '.po' files are opened"); sv_check(lang, "only files of the language requested are opened"); sv_check(fs->opened.size() <= on.size() * (l.get_country().empty() ? 1 : 2), "at most one file of each directory is opened for a language and one for its fallback"); sv_check(streams == 0, "every file is closed when the request is done"); sv_check(IM.live == 0 && IM.bad_use == 0, "every converter is closed"); sv_reach(fs->opened.empty() ? "none" : "opened"); fs->forget();
}
static void after_list(Rec* fs, const Path& on) { only_path(fs, on); sv_check(fs->opened.empty(), "listing the available languages opens no file"); bool all = true; for (auto& d : on) { bool f = false; for (auto& l : fs->listed) if (sv_eq(l, d)) { f = true; break; } if (!f) all = false; } sv_check(all, "every configured directory is listed when the available languages are"); fs->forget(); }
static const char* const langs[] = { "de", "de_AT", "fr", "sr@latin", "sr_RS@latin", "pt_BR" };
static const char* const pool[] = { "de.po", "de_AT.po", "fr.po", "de_at.po", "sr.po", "pt_br.po", "de.mo", "xx.po", "", ".po", "../de.po", "DE.po", "de.po~" };
static Language lang(unsigned i) { return Language::from_env(langs[i]); }
// any history of operations, with listings that change in between
SV_ENTRY c31_history() {
  warm(); streams = 0; std::string A = sv_str(1, "name"); sv_assume(A[0] != 'b'); Rec* fs = new Rec; { DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->dirs = { { A, { "de.po", "fr.po", "sr@latin.po" }, false }, { "b", { "de_AT.po", "readme" }, false } }; Path on; int last = -1; bool cached = false; unsigned k = (unsigned)sv_param("K", 3);
    nothing(fs); if (sv_bool("both")) { m.add_directory(A); m.add_directory("b"); on = { A, "b" }; nothing(fs); }
    for (unsigned i = 0; i < k; ++i) {
      unsigned op = sv_range(0, 8, "op");
      switch (op) {
        case 0: { std::string d = sv_bool("dir") ? A : std::string("b"); m.add_directory(d, sv_bool("front")); bool f = false; for (auto& x : on) if (sv_eq(x, d)) f = true; if (!f) { on.push_back(d); cached = false; } nothing(fs); break; }
        case 1: { std::string d = sv_bool("dir") ? A : std::string("b"); m.remove_directory(d); for (size_t j = 0; j < on.size(); ++j) if (sv_eq(on[j], d)) { on.erase(on.begin() + (long)j); cached = false; } nothing(fs); break; }
        case 2: m.set_language(lang(sv_range(0, 2, "current"))); nothing(fs); break;
        case 3: m.set_charset(sv_bool("charset") ? "UTF-8" : "ISO-8859-1"); cached = false; nothing(fs); break;
        case 4: m.set_use_fuzzy(!m.get_use_fuzzy()); cached = false; nothing(fs); break;
        case 5: { int l = (int)sv_range(0, 2, "language"); bool again = cached && l == last; m.get_dictionary(lang((unsigned)l)); if (again) { nothing(fs); sv_reach("again"); } else after_load(m, fs, on, lang((unsigned)l)); last = l; cached = true; break; }
        case 6: { Language c = m.get_language(); m.get_use_fuzzy(); nothing(fs); m.get_dictionary(); if (!c) nothing(fs); else after_load(m, fs, on, c); m.get_dictionary(); nothing(fs); if (c) { m.get_dictionary(c); nothing(fs); } break; }
        case 7: m.get_languages(); after_list(fs, on); break;
        default: { unsigned d = sv_range(0, 1, "dir"), c = sv_range(0, 2, "listing"); fs->dirs[d].fails = c == 0; fs->dirs[d].names = c == 1 ? std::vector<std::string>{ "fr.po", "de.po" } : std::vector<std::string>{ "x", "de_CH.po" }; } break;
      }
    } fs->forget(); }
  sv_check(Rec::alive == 0, "the file system is destroyed with its manager"); sv_reach("done");
}
// directories and files of any names
SV_ENTRY c31_names() {
  warm(); streams = 0; Rec* fs = new Rec; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); static const char* const dirs[] = { "", "/", "d/", "./d", "d//e", "~", "%s", "C:\\po", "D", ".", ".." }; unsigned k = sv_range(0, COUNT(dirs), "directory"); std::string d = k < COUNT(dirs) ? std::string(dirs[k]) : sv_str_upto(1, (size_t)sv_param("N", 2), "bytes"), n;
  if (k < COUNT(dirs) && sv_bool("any name")) { n = "de" + sv_str_upto(0, (size_t)sv_param("N", 2), "name"); if (sv_bool("tail")) n += ".po"; } else n = pool[sv_range(0, COUNT(pool) - 1, "known")];
  fs->dirs = { { "other", { "de.po" }, false } }; if (!sv_eq(d, "other")) fs->dirs.push_back({ d, { "de_CH.po.bak", n }, false }); Path on; if (sv_bool("with other")) { m.add_directory("other"); on.push_back("other"); } if (!(on.size() && sv_eq(d, "other"))) on.push_back(d); m.add_directory(d); nothing(fs); Language l = lang(sv_range(0, 1, "language")); m.get_dictionary(l); after_load(m, fs, on, l); m.get_languages(); after_list(fs, on); m.remove_directory(d); nothing(fs); on.pop_back(); m.get_dictionary(l); after_load(m, fs, on, l);
}
// any subset of names, in directories that may fail
SV_ENTRY c31_candidates() {
  warm(); streams = 0; Rec* fs = new Rec; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); unsigned set = sv_range(0, 127, "subset"), rot = sv_range(0, 2, "rotation"); std::vector<std::string> v; for (unsigned i = 0; i < 7; ++i) { unsigned j = (i + rot * 3) % 7; if (set >> j & 1) v.push_back(pool[j]); } fs->dirs = { { "a", v, false }, { "b", { "de_AT.po", "de.po", "fr.po", "sr_RS.po" }, sv_bool("fails") }, { "c", v, false } }; Path on = { "a", "b", "c" }; for (auto& d : on) m.add_directory(d, false); nothing(fs);
  unsigned i = sv_range(0, COUNT(langs) - 1, "language"); m.get_dictionary(lang(i)); after_load(m, fs, on, lang(i)); m.get_dictionary(lang(i)); nothing(fs); sv_reach("again"); unsigned j = sv_range(0, 1, "other"); bool same = i == j; m.get_dictionary(lang(j)); if (same) nothing(fs); else after_load(m, fs, on, lang(j));
}
// files that cannot be opened or read, or hold anything
SV_ENTRY c31_files() {
  warm(); streams = 0; Rec* fs = new Rec; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); fs->how = sv_range(0, 3, "how"); static const char* const texts[] = { "", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=nonsense\\n\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\nmsgid \"a\"\nmsgstr \"", "junk\nmsgid \"", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[9] \"" }; if (fs->how == 0) { fs->content = texts[sv_range(0, COUNT(texts) - 1, "text")]; fs->content += sv_str_upto(0, (size_t)sv_param("N", 2), "bytes"); if (sv_bool("end")) fs->content += "\"\n\n"; }
  fs->dirs = { { "a", { "de.po" }, false }, { "b", { "de_AT.po" }, sv_bool("fails") } }; Path on = { "a", "b" }; for (auto& d : on) m.add_directory(d); Language l = lang(sv_range(0, 1, "language")); m.get_dictionary(l); after_load(m, fs, on, l); m.get_dictionary(l); nothing(fs); sv_reach("again");
}
// what a request sees is what is there at that moment
SV_ENTRY c31_fresh() {
  warm(); streams = 0; Rec* fs = new Rec; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); std::string a = plain_byte("before"), b = plain_byte("after"); static const char* const names[] = { "de.po", "de_AT.po", "de_CH.po", "fr.po" }; unsigned x = sv_range(0, 3, "first"), y = sv_range(0, 3, "second"); Language l = lang(1); Path on = { "d" }; fs->dirs = { { "d", { names[x] }, sv_bool("fails") } }; fs->content = msg("a", "A" + a); m.add_directory("d"); m.get_languages(); fs->forget(); if (sv_bool("loaded")) { m.get_dictionary(l); after_load(m, fs, on, l); }
  fs->dirs[0].names = { names[y] }; fs->dirs[0].fails = false; fs->content = msg("a", "B" + b); std::set<Language> s = m.get_languages(); sv_check(s.size() == 1 && s.count(Language::from_env(m.convertFilename2Language(names[y]))) == 1, "the languages listed are those of the files there now"); after_list(fs, on);
  unsigned how = sv_range(0, 3, "how"); if (how == 0) m.set_charset("ISO-8859-1"); else if (how == 1) m.set_use_fuzzy(false); else if (how == 2) { m.add_directory("e"); on.push_back("e"); } else { m.remove_directory("d"); m.add_directory("d"); } nothing(fs);
  std::string t = m.get_dictionary(l).translate("a"); sv_check(sv_eq(t, y < 3 ? "B" + b : std::string("a")), "files are read anew after the cache was cleared"); after_load(m, fs, on, l);
}
// one file system each
SV_ENTRY c31_two() {
  warm(); streams = 0; Rec* f1 = new Rec; Rec* f2 = new Rec; std::unique_ptr<DictionaryManager> p(new DictionaryManager(std::unique_ptr<FileSystem>(f1), "UTF-8")); DictionaryManager m(std::unique_ptr<FileSystem>(f2), "UTF-8"); unsigned x = sv_range(0, COUNT(pool) - 1, "first"), y = sv_range(0, COUNT(pool) - 1, "second"), i = sv_range(0, 1, "language"); f1->dirs = { { "d", { pool[x] }, false } }; f2->dirs = { { "d", { pool[y] }, false } }; p->add_directory("d"); m.add_directory("d"); Path on = { "d" }; p->get_dictionary(lang(i)); nothing(f2); after_load(*p, f1, on, lang(i)); bool gone = sv_bool("gone"); if (gone) { p.reset(); sv_check(Rec::alive == 1, "the file system is destroyed with its manager"); } m.get_dictionary(lang(i)); if (!gone) nothing(f1); after_load(m, f2, on, lang(i)); m.get_languages(); after_list(f2, on); if (!gone) nothing(f1);
}
