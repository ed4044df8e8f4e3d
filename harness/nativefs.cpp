// C26: the native file system
#include "common.hpp"
#include "tinygettext/unix_file_system.hpp"
#include "iconv_model.hpp"
extern "C" { void sv_fs_open(int order); void sv_fs_root(char* out); void sv_fs_add(const char* p, size_t pn, int kind, const char* d, size_t dn); void sv_fs_done(); }
static std::string root() { char b[512]; sv_fs_root(b); return b; }
static void add(const std::string& p, int kind, const std::string& data = "") { sv_fs_add(p.data(), p.size(), kind, data.data(), data.size()); }
// a name that a directory entry can have
static void legal(const std::string& n) { for (char c : n) { sv_assume(c != '/'); sv_assume(c != 0); } if (n.size() == 1) sv_assume(n[0] != '.'); if (n.size() == 2) sv_assume(!sv_and(n[0] == '.', n[1] == '.')); }
static std::string spelled(const std::string& d, int how) { switch (how) { case 0: return root() + "/" + d; case 1: return root() + "/" + d + "/"; case 2: return d; case 3: return "./" + d; case 4: return root() + "//" + d; default: return d + "/"; } }
static void expect(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  sv_check(got.size() == want.size(), "a listing has one name for every entry");
  for (const std::string& w : want) { unsigned n = 0; for (const std::string& g : got) n += sv_select32(sv_eq(g, w), 1, 0); sv_check(n == 1, "every entry is listed once, by its own name"); }
  sv_observe_int(got.size());
}
static std::string slurp(std::istream& in) { std::string s; for (int c = in.get(); c != -1; c = in.get()) s += (char)c; return s; }
static void around() { add("d", 1); add("e", 1); add("e/other.po", 0, "x"); add("target", 0, "target"); add("dir", 1); add("dir/in", 0, "y"); add("d.po", 0, "z"); }
// K entries of any kind with any legal names
SV_ENTRY c26_names() {
  size_t N = sv_param("N", 3), K = sv_param("K", 2); int order = sv_range(0, 1, "order"), how = sv_range(0, 5, "spelling");
  sv_fs_open(order); around(); std::vector<std::string> want; size_t k = sv_range(0, K, "entries");
  for (size_t i = 0; i < k; ++i) { int kind = sv_range(0, 3, "kind"); std::string n = sv_str_upto(1, N, "name"); legal(n); for (const std::string& o : want) sv_assume(!sv_eq(o, n)); want.push_back(n); add("d/" + n, kind, "content"); }
  UnixFileSystem fs; expect(fs.open_directory(spelled("d", how)), want); expect(fs.open_directory(spelled("e", how)), { "other.po" }); sv_reach("listed"); sv_fs_done();
}
// names that mean something: hidden, backups, extensions, spaces, long ones, with one arbitrary byte, and a subdirectory with entries of its own
SV_ENTRY c26_shapes() {
  static const char* const names[] = { "de.po", ".de.po", ".hidden", "...", "de.po~", "pt_BR.po", "de@euro.po", "a b.po", "de.PO", "de", ".po", "po", "de.po.", "\xc3\xa4.po", "-r", "a\\b.po", "#de.po#", "de.tar.po", "..po", "a:b.po", "\n.po", " .po", "core", "lost+found" };
  size_t i = sv_range(0, sizeof names / sizeof *names - 1, "which"), kind = sv_range(0, 3, "kind"); std::string n = names[i]; if (sv_bool("change")) { size_t at = sv_range(0, n.size() - 1, "at"); n[at] = (char)sv_u8("byte"); }
  legal(n); sv_assume(!sv_eq(n, "sub")); sv_assume(!sv_eq(n, "z"));
  sv_fs_open(0); around(); add("d/sub", 1); add("d/sub/deep.po", 0, "deep"); add("d/sub/deeper", 1); add("d/" + n, kind, "content"); add("d/z", 0, "z");
  UnixFileSystem fs; expect(fs.open_directory(spelled("d", 0)), { "sub", n, "z" }); expect(fs.open_directory(spelled("d/sub", 2)), { "deep.po", "deeper" }); sv_reach("listed"); sv_fs_done();
}
SV_ENTRY c26_long() {
  size_t L = sv_param("L", 255), n = 1 + sv_range(0, 24, "len") * ((L - 1) / 24); if (sv_bool("longest")) n = L; std::string s(n, 'x'); size_t at = sv_range(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; s[at] = (char)sv_u8("byte"); legal(s);
  sv_fs_open(0); around(); add("d/" + s, 0, "long"); UnixFileSystem fs; std::vector<std::string> l = fs.open_directory(spelled("d", 0)); expect(l, { s });
  std::unique_ptr<std::istream> in = fs.open_file(spelled("d", 0) + "/" + l[0]); sv_check(in && slurp(*in) == "long", "what was listed can be opened"); sv_reach("long"); sv_fs_done();
}
SV_ENTRY c26_many() {
  size_t M = sv_param("M", 40), m = sv_range(0, M, "entries"); sv_fs_open(sv_range(0, 1, "order")); around(); std::vector<std::string> want; char b = (char)sv_u8("byte"); sv_assume(b != '/'); sv_assume(b != 0);
  for (size_t i = 0; i < m; ++i) { std::string n = "n"; n += (char)('a' + i % 26); n += (char)('a' + i / 26); n += b; want.push_back(n); add("d/" + n, i % 4); }
  UnixFileSystem fs; expect(fs.open_directory(spelled("d", 0)), want); sv_reach("many"); sv_fs_done();
}
// directories with a telling number of entries, one of them with an arbitrary byte, one of them opened
SV_ENTRY c26_numbers() {
  size_t m = telling(sv_param("M", 600), "entries"), at = sv_range(0, 2, "where"); at = at == 0 ? 0 : at == 1 ? m / 2 : m - 1; sv_fs_open(sv_range(0, 1, "order")); sv_fs_add("d", 1, 1, "", 0); std::vector<std::string> want; char b = (char)sv_u8("byte"); sv_assume(b != '/'); sv_assume(b != 0); sv_assume(!sv_and(b >= '0', b <= '9'));
  for (size_t i = 0; i < m; ++i) { std::string n = "n" + std::to_string(i) + ".po"; if (i == at) n = std::string("n") + b + ".po"; want.push_back(n); add("d/" + n, 0, i == at ? "content" : ""); }
  UnixFileSystem fs; std::vector<std::string> got = fs.open_directory(spelled("d", 0)); sv_check(got.size() == m, "a listing has one name for every entry"); unsigned hit = 0; std::vector<char> seen(m, 0); for (auto& g : got) { if (sv_eq(g, want[at])) { ++hit; continue; } size_t i = 0; for (size_t k = 1; k < g.size() && g[k] >= '0' && g[k] <= '9'; ++k) i = i * 10 + (size_t)(g[k] - '0'); if (i < m && i != at && g == want[i]) ++seen[i]; } bool all = hit == 1; for (size_t i = 0; i < m; ++i) if (i != at && seen[i] != 1) all = false; sv_check(all, "every entry is listed once, by its own name");
  std::unique_ptr<std::istream> in = fs.open_file(spelled("d", 0) + "/" + want[at]); sv_check(in && slurp(*in) == "content", "what was listed can be opened"); sv_reach("many"); sv_fs_done();
}
// any content, any name, any spelling; regular file or link to one
SV_ENTRY c26_content() {
  size_t N = sv_param("N", 2), L = sv_param("L", 4); int how = sv_range(0, 5, "spelling"), kind = sv_range(0, 1, "link") * 2; std::string n = sv_str_upto(1, N, "name"), data = sv_str_upto(0, L, "data"); legal(n);
  sv_fs_open(0); around(); sv_assume(!sv_eq(n, "decoy")); add("d/decoy", 0, "decoy"); add("d/" + n, kind, data); UnixFileSystem fs; std::string p = spelled("d", how); if (p.back() != '/' || sv_bool("slash")) p += "/";
  std::unique_ptr<std::istream> in = fs.open_file(p + n); sv_check(in != nullptr && in->good(), "a file that exists is opened"); std::string got = slurp(*in); sv_check(sv_eq(got, data), "the bytes of the file, unchanged"); sv_obs(got);
  std::unique_ptr<std::istream> again = fs.open_file(p + n); in.reset(); sv_check(again && sv_eq(slurp(*again), data), "opening a file does not change it"); sv_reach("read"); sv_fs_done();
}
SV_ENTRY c26_big() {
  static const unsigned sizes[] = { 0, 1, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 20000 }; size_t n = sizes[sv_range(0, 17, "size")]; std::string data; for (size_t i = 0; i < n; ++i) data += (char)(i * 7 + i / 256); if (n) { size_t at = sv_range(0, 2, "at"); data[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = (char)sv_u8("byte"); }
  sv_fs_open(0); around(); add("d/f", 0, data); UnixFileSystem fs; std::unique_ptr<std::istream> in = fs.open_file(spelled("d", 0) + "/f"); sv_check(in != nullptr, "opened"); std::string got = slurp(*in); sv_check(sv_eq(got, data), "the bytes of the file, unchanged"); sv_reach("big"); sv_fs_done();
}
// what is not there: no crash, no listing, nothing to read; later requests are not affected
SV_ENTRY c26_missing() {
  size_t N = sv_param("N", 3); std::string n = sv_str_upto(1, N, "name"); legal(n); sv_assume(!sv_eq(n, "d")); sv_assume(!sv_eq(n, "e")); sv_assume(!sv_eq(n, "dir")); int what = sv_range(0, 4, "what"); sv_fs_open(0); around(); add("d/f", 0, "ok");
  UnixFileSystem fs; std::string p = what == 0 ? root() + "/" + n : what == 1 ? root() + "/target" : what == 2 ? root() + "/d/" + n + "/x" : what == 3 ? "" : root() + "/d/f/";
  sv_assume(!sv_eq(n, "d.po"));
  if (what == 4 || !sv_bool("as file")) { size_t got = 0; bool threw = false; try { got = fs.open_directory(p).size(); } catch (std::exception&) { threw = true; } sv_check(threw || got == 0, "nothing is listed"); sv_observe_int(got); }
  else if (what != 1) { if (what == 2 && n.size() == 1) sv_assume(n[0] != 'f'); bool threw = false; std::string got; try { std::unique_ptr<std::istream> in = fs.open_file(p); if (in) got = slurp(*in); } catch (std::exception&) { threw = true; } sv_check(threw || got.empty(), "nothing is read"); }
  expect(fs.open_directory(spelled("d", 0)), { "f" }); std::unique_ptr<std::istream> in = fs.open_file(spelled("d", 2) + "/f"); sv_check(in && slurp(*in) == "ok", "the others are there"); sv_reach("missing"); sv_fs_done();
}
// the manager on the native file system
SV_ENTRY c26_manager() {
  quiet(); std::string v = sv_str_upto(1, sv_param("N", 2), "value"); for (char c : v) { sv_assume(c != '"'); sv_assume(c != '\\'); sv_assume(c != '\n'); sv_assume(c != '\r'); sv_assume((unsigned char)c < 0x80); } int how = sv_range(0, 5, "spelling"), kind = sv_range(0, 1, "link") * 2, other = sv_range(0, 3, "other"), order = sv_range(0, 1, "order");
  sv_fs_open(order); around(); std::string text = "msgid \"a\"\nmsgstr \"" + v + "\"\n"; add("d/README", 0, "no"); if (kind == 2) add("d/de_DE.po", 2, text); else add("d/de.po", 0, text); add("d/fr.po", 0, "msgid \"a\"\nmsgstr \"fr\"\n"); add("d/es.po", 1); add("d/.it.po", 0, "msgid \"a\"\nmsgstr \"it\"\n");
  { DictionaryManager m; if (other == 1) m.add_directory(root() + "/absent"); if (other == 2) m.add_directory(root() + "/target"); m.add_directory(spelled("d", how)); if (other == 3) m.add_directory(root() + "/absent");
    std::string got = m.get_dictionary(Language::from_name("de")).translate("a"); sv_check(sv_eq(got, v), "translations are found through the native file system"); sv_obs(got);
    sv_check(m.get_dictionary(Language::from_name("fr")).translate("a") == "fr", "other languages too"); sv_check(m.get_dictionary(Language::from_name("es")).translate("a") == "a", "a directory is no translation file"); sv_check(m.get_dictionary(Language::from_name("it")).translate("a") == "a", "a hidden file is of no language");
    std::set<Language> l = m.get_languages(); sv_check(l.count(Language::from_name(kind == 2 ? "de_DE" : "de")) == 1 && l.count(Language::from_name("fr")) == 1, "languages are listed"); sv_observe_int(l.size()); }
  sv_reach("manager"); sv_fs_done();
}
// a tree that changes: every listing and every opening shows it as it is at that moment
SV_ENTRY c26_history() {
  size_t K = sv_param("K", 3), N = sv_param("N", 1); sv_fs_open(0); sv_fs_add("d", 1, 1, "", 0); sv_fs_add("e", 1, 1, "", 0); UnixFileSystem fs, other; std::vector<std::string> in[2], data[2]; static const char* const names[] = { "a.po", "b.po" };
  for (size_t k = 0; k < K; ++k) {
    int d = sv_range(0, 1, "dir"), op = sv_range(0, 3, "op"); std::string dir = d ? "e" : "d";
    if (op == 0) { std::string n; sv_assume(in[d].size() < 2); n = names[in[d].size()]; std::string c = sv_str_upto(0, N, "data"); add(dir + "/" + n, 0, c); in[d].push_back(n); data[d].push_back(c); }
    if (op == 3) { sv_assume(!in[d].empty()); std::string c = sv_str_upto(0, N, "data"); add(dir + "/" + in[d][0], 0, c); data[d][0] = c; }
    if (op == 1) expect((k & 1 ? other : fs).open_directory(spelled(dir, 0)), in[d]);
    if (op == 2) for (size_t i = 0; i < in[d].size(); ++i) { std::unique_ptr<std::istream> s = fs.open_file(spelled(dir, 0) + "/" + in[d][i]); sv_check(s && sv_eq(slurp(*s), data[d][i]), "the file as it is now"); }
  }
  for (int d = 0; d < 2; ++d) expect(fs.open_directory(spelled(d ? "e" : "d", 0)), in[d]);
  sv_reach("history"); sv_fs_done();
}
