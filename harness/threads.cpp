// C29: operations that only read, and operations on separate objects, can run in two threads at the same time.
// Every object and global that exists when the threads start is shared: an operation that writes one without a lock
// is a data race whatever the schedule, and operations that write none cannot affect each other in any schedule.
#include "plural.hpp"
#include "tinygettext/unix_file_system.hpp"
#include <iconv.h>
#include "tinygettext/iconv.hpp"
#include <errno.h>
#include <map>
#include <set>
#include <unordered_set>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
// a converter without any shared state: adds one to every byte; byte 0xfe is invalid, charset "none" unknown
struct Conv { int magic; unsigned long used; };
extern "C" iconv_t iconv_open(const char* to, const char* from) { std::string t = to, f = from; if (t == "NONE" || f == "NONE") { errno = EINVAL; return (iconv_t)-1; } return (iconv_t) new Conv{ 77, 0 }; }
extern "C" int iconv_close(iconv_t cd) { delete (Conv*)cd; return 0; }
extern "C" size_t iconv(iconv_t cd, char** in, size_t* inl, char** out, size_t* outl) { ((Conv*)cd)->used++; if (!in || !*in) return 0; while (*inl) { if ((unsigned char)**in == 0xfe) { errno = EILSEQ; return (size_t)-1; } if (!*outl) { errno = E2BIG; return (size_t)-1; } **out = (char)(**in + 1); ++*in; ++*out; --*inl; --*outl; } return 0; }
static void ignore(const std::string&) {}
static void logs() { unsigned k = sv_range(0, 2, "logging"); if (k == 2) return; Log::log_callback_t c = k ? &ignore : nullptr; Log::set_log_info_callback(c); Log::set_log_warning_callback(c); Log::set_log_error_callback(c); }
template<class F> static void both(F& f) { sv_concurrent([](int t, void* p) { (*(F*)p)(t); }, &f); }
typedef std::vector<std::string> Res;
static void same(const Res& a, const Res& b, const char* why) { sv_check(a.size() == b.size(), why); for (size_t i = 0; i < a.size(); ++i) { sv_check(sv_eq(a[i], b[i]), why); sv_obs(a[i]); } }

// ------------------------------------------------------------------ lookups in one dictionary
struct Query { unsigned kind; std::string ctxt, id; int count; };
static Query query(const std::string& a, const std::string& c) {
  Query q; q.kind = sv_range(0, 5, "lookup"); q.ctxt = sv_bool("known context") ? c : sv_str(1, "context"); q.id = sv_bool("known message") ? a : sv_str(a.size(), "message"); q.count = (q.kind == 2 || q.kind == 3) ? (int)sv_u32("count") : 2; return q;
}
static Res ask(Dictionary& d, const Query& q) {
  Res r; switch (q.kind) {
    case 0: r.push_back(d.translate(q.id)); break;
    case 1: r.push_back(d.translate_ctxt(q.ctxt, q.id)); break;
    case 2: r.push_back(d.translate_plural(q.id, "more", q.count)); break;
    case 3: r.push_back(d.translate_ctxt_plural(q.ctxt, q.id, "more", q.count)); break;
    case 4: r.push_back(d.get_charset()); r.push_back(std::to_string(d.get_plural_forms().get_nplural())); r.push_back(d.get_plural_forms() ? "rule" : "none"); break;
    default: d.foreach([&](const std::string& k, const std::vector<std::string>& v) { r.push_back(k); for (auto& s : v) r.push_back(s); }); d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& v) { r.push_back(c + "|" + k); for (auto& s : v) r.push_back(s); });
  }
  return r;
}
SV_ENTRY c29_lookup() {
  logs(); size_t L = (size_t)sv_param("L", 2), n = sv_bool("long") ? 40 : L; std::string a = sv_str(n, "first"), b = sv_str(n, "second"), c = sv_str(1, "context name");
  std::unique_ptr<Dictionary> back(new Dictionary), d(new Dictionary); std::string x = sv_str(1, "translation");
  d->add_translation(a, x); d->add_translation(b, b, Res{ "one", sv_bool("empty form") ? "" : "two" }); d->add_translation(c, a, x + "!"); d->add_translation(c, b, b, Res{ "c one", "c two", "c three" });
  if (sv_bool("rule")) d->set_plural_forms(PluralForms(2, [](int k) -> unsigned { return k != 1; }));
  if (sv_bool("fallback")) { back->add_translation(a, "back"); back->add_translation("zz", "zz", Res{ "b one", "b two" }); d->addFallback(back.get()); sv_reach("with fallback"); }
  Query q0 = query(a, c), q1 = q0; if (sv_bool("different")) { q1.id = b; q1.count = 1; }
  Res before0 = ask(*d, q0), before1 = ask(*d, q1), r0, r1; auto f = [&](int t) { if (t) r1 = ask(*d, q1); else r0 = ask(*d, q0); };
  both(f); same(r0, before0, "a lookup gives the same when another thread looks up too"); same(r1, before1, "a lookup gives the same when another thread looks up too"); same(ask(*d, q0), before0, "lookups leave the dictionary as it was"); sv_reach("looked up");
}
// the very first lookups of a dictionary, without any before
SV_ENTRY c29_first() {
  logs(); std::unique_ptr<Dictionary> d(new Dictionary); unsigned n = sv_range(0, 2, "messages"); std::string a = sv_str(2, "first"); if (n) d->add_translation(a, "A"); if (n > 1) d->add_translation(a, a, Res{ "one", "two" }), d->add_translation("c", a, "C");
  Query q = query(a, "c"), p = q; bool other = sv_bool("another kind"); if (other) p.kind = sv_range(0, 5, "other lookup"); Res r0, r1; auto f = [&](int t) { if (t) r1 = ask(*d, p); else r0 = ask(*d, q); }; both(f); if (!other) same(r0, r1, "two threads get the same answer"); same(ask(*d, q), r0, "and a later lookup too"); same(ask(*d, p), r1, "and a later lookup too"); sv_reach("looked up");
}

// ------------------------------------------------------------------ languages
static Res lang(unsigned kind, const std::string& s, const Language& a, const Language& b) {
  Res r; switch (kind) {
    case 0: { Language l = Language::from_env(s); r = { l.str(), l.get_name(), l.get_localized_name() }; break; }
    case 1: { Language l = Language::from_name(s); r = { l.str(), l.get_language(), l.get_country(), l.get_modifier() }; break; }
    case 2: { Language l = Language::from_spec(s, "DE", "euro"); r = { l.str() }; break; }
    case 3: r = { a.str(), a.get_name(), std::to_string(Language::match(a, b)), a == b ? "eq" : "ne", a != b ? "ne" : "eq", a < b ? "lt" : "ge", a ? "yes" : "no", b.get_localized_name() }; break;
    default: { std::set<Language> o; std::unordered_set<Language, Language_hash> h; o.insert(a); o.insert(b); h.insert(b); h.insert(a); r = { std::to_string(o.size()), std::to_string(h.size()) }; break; }
  }
  return r;
}
SV_ENTRY c29_language() {
  logs(); static const char* const names[] = { "", "de", "de_AT", "German", "deutsch", "DE_de.UTF-8", "sr_RS@latin", "nosuch", "pt_br", "norwegian", "zz_ZZ@zz", "a language name that is longer than the others" };
  bool cold = sv_bool("first use"); std::unique_ptr<Language> a(new Language), b(new Language); unsigned kind = sv_range(0, 4, "operation");
  if (!cold || kind >= 3) { *a = Language::from_env(names[sv_range(0, 3, "left")]); *b = Language::from_env(names[1 + 5 * sv_range(0, 1, "right")]); }
  std::string s; if (kind < 3) { if (sv_bool("any")) s = sv_str_upto(0, (size_t)sv_param("N", 2), "text"); else s = names[sv_range(0, COUNT(names) - 1, "name")]; } if (!cold && kind < 3) { lang(kind, "fr", *a, *b); }
  std::string s1 = sv_bool("different") ? "de_AT" : s; Res r0, r1; auto f = [&](int t) { if (t) r1 = lang(kind, s1, *a, *b); else r0 = lang(kind, s, *a, *b); }; both(f);
  same(r0, lang(kind, s, *a, *b), "a language resolves the same when another thread resolves one too"); same(r1, lang(kind, s1, *a, *b), "a language resolves the same when another thread resolves one too"); sv_reach(cold ? "first use" : "used before");
}

// ------------------------------------------------------------------ plural rules
SV_ENTRY c29_plural() {
  logs(); bool cold = sv_bool("first use"); std::unique_ptr<PluralForms> p(new PluralForms); if (!cold) *p = PluralForms::from_string(plural_headers[sv_range(0, NHEADERS - 1, "header")]);
  std::string h0 = plural_headers[cold ? sv_range(0, NHEADERS - 1, "recognised") : 1], h1 = sv_bool("unknown") ? "Plural-Forms: nplurals=9; plural=n;" : h0; unsigned n = sv_u32("count"); Res r0, r1;
  auto op = [&](const std::string& h) { PluralForms q = PluralForms::from_string(h); Res r = { std::to_string(q.get_nplural()), q ? "rule" : "none" }; r.push_back(std::string(1, (char)q.get_plural((int)n))); r.push_back(std::string(1, (char)p->get_plural((int)n))); return r; };
  auto f = [&](int t) { if (t) r1 = op(h1); else r0 = op(h0); }; both(f); same(r0, op(h0), "a plural rule is the same when another thread reads one too"); same(r1, op(h1), "a plural rule is the same when another thread reads one too"); sv_reach(cold ? "first use" : "used before");
}

// ------------------------------------------------------------------ separate converters
SV_ENTRY c29_convert() {
  logs(); std::string text = sv_str_upto(0, (size_t)sv_param("N", 3), "text"), from[2], to[2]; static const char* const cs[] = { "A", "B", "none", "a" }; for (int i = 0; i < 2; ++i) { from[i] = cs[sv_range(0, 3, "from")]; to[i] = cs[sv_range(0, 2, "to")]; } if (sv_bool("long")) text += std::string(300, 'x');
  auto op = [&](int i) { Res r; try { IConv c(from[i], to[i]); r.push_back(c.convert(text)); c.set_charsets(to[i], from[i]); r.push_back(c.convert(text)); } catch (std::exception& e) { r.push_back(std::string("!")); } return r; };
  Res r0, r1; auto f = [&](int t) { if (t) r1 = op(1); else r0 = op(0); }; both(f); same(r0, op(0), "a conversion is the same when another thread converts too"); same(r1, op(1), "a conversion is the same when another thread converts too"); sv_reach("converted");
}

// ------------------------------------------------------------------ separate dictionaries and managers
static std::string content(unsigned k, const std::string& v) {
  static const char* const heads[] = { "", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=A\\n\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=none\\n\"\n\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=Big5\\nPlural-Forms: nplurals=9; plural=n;\\n\"\n\n" };
  return std::string(heads[k]) + "#, fuzzy\nmsgid \"a\"\nmsgstr \"" + v + "\\n\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n\nmsgid \"broken\nmsgstr \"x\"\n\nmsgid \"l\"\nmsgstr \"" + std::string(40, 'l') + "\"\n";
}
static Res dump(Dictionary& d) { std::map<std::string, std::string> m; d.foreach([&](const std::string& k, const std::vector<std::string>& v) { std::string& s = m[k]; for (auto& x : v) s += x + "|"; }); d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& v) { std::string& s = m[c + "\1" + k]; for (auto& x : v) s += x + "|"; }); Res r; for (auto& p : m) { r.push_back(p.first); r.push_back(p.second); } return r; }
SV_ENTRY c29_parse() {
  logs(); std::string v = plain_byte("byte"), t[2] = { content(sv_range(0, 4, "header"), v), content(sv_range(0, 4, "other header"), "w") }; bool fuzzy = sv_bool("fuzzy"); if (sv_bool("warm")) { Dictionary d; parse(content(1, v), d); }
  auto op = [&](int i) { Dictionary d; Res r; std::istringstream in(t[i]); try { POParser::parse("t.po", in, d, fuzzy); } catch (std::exception&) { r.push_back("!"); } for (auto& s : dump(d)) r.push_back(s); r.push_back(d.translate_plural("p", "q", 5)); return r; };
  Res r0, r1; auto f = [&](int i) { if (i) r1 = op(1); else r0 = op(0); }; both(f); same(r0, op(0), "a file is parsed the same when another thread parses one too"); same(r1, op(1), "a file is parsed the same when another thread parses one too"); sv_reach("parsed");
}
struct OwnFS : FileSystem { std::string text; unsigned faults;
  std::vector<std::string> open_directory(const std::string& p) override { if (faults == 1) throw std::runtime_error("no directory"); if (p == "one") return { "de.po", "de_at.po", "readme", "xx.po" }; return { "de.po", "sr@latin.po" }; }
  std::unique_ptr<std::istream> open_file(const std::string&) override { if (faults == 2) return nullptr; if (faults == 3) throw std::runtime_error("no file"); return std::unique_ptr<std::istream>(new std::istringstream(text)); }
};
SV_ENTRY c29_managers() {
  logs(); std::string v = plain_byte("byte"); static const char* const ls[] = { "de", "de_AT", "sr@latin", "fr_FR" }; unsigned l[2], k = sv_range(0, 4, "header"), faults = sv_range(0, 3, "fault"); for (int i = 0; i < 2; ++i) l[i] = sv_range(0, 3, "language"); if (sv_bool("warm")) Language::from_name("de"), PluralForms::from_string("x");
  auto op = [&](int i) { Res r; OwnFS* fs = new OwnFS; fs->text = content(k, v); fs->faults = faults; DictionaryManager m(std::unique_ptr<FileSystem>(fs), "UTF-8"); m.add_directory("one"); m.add_directory("two", true); m.set_language(Language::from_name(ls[l[i]]));
    Dictionary& d = m.get_dictionary(); r.push_back(d.translate("a")); r.push_back(d.translate_ctxt("c", "a")); r.push_back(d.translate_plural("p", "q", 2)); m.set_use_fuzzy(false); r.push_back(m.get_dictionary().translate("a")); for (auto& x : m.get_languages()) r.push_back(x.str()); m.remove_directory("one"); m.set_charset("A"); r.push_back(m.get_dictionary().translate("l")); r.push_back(m.convertFilename2Language("pt_br.po")); return r; };
  Res r0, r1; auto f = [&](int i) { if (i) r1 = op(1); else r0 = op(0); }; both(f); same(r0, op(0), "a manager answers the same when another thread uses another one"); same(r1, op(1), "a manager answers the same when another thread uses another one"); sv_reach("asked");
}
// ------------------------------------------------------------------ the native file system
extern "C" { void sv_fs_open(int order); void sv_fs_root(char* out); void sv_fs_add(const char* p, size_t pn, int kind, const char* d, size_t dn); void sv_fs_done(); }
static void add(const std::string& p, int kind, const std::string& data = "") { sv_fs_add(p.data(), p.size(), kind, data.data(), kind == 1 ? 0 : data.size()); }
static std::string slurp(std::istream& in) { std::string s; for (int c = in.get(); c != -1; c = in.get()) s += (char)c; return s; }
SV_ENTRY c29_files() {
  logs(); sv_fs_open(0); char b[512]; sv_fs_root(b); std::string root = b, data = sv_str_upto(0, (size_t)sv_param("N", 3), "data"); add("d", 1); add("e", 1); add("d/de.po", 0, "msgid \"a\"\nmsgstr \"A\"\n"); add("d/x", 0, data); static const char* const ns[] = { "fr.po", ".hid", "zz" }; std::string nn = std::string("e/") + ns[sv_range(0, 2, "name")]; unsigned nk = sv_range(0, 1, "kind"); add(nn, nk, "msgid \"a\"\nmsgstr \"B\"\n"); bool managers = sv_bool("managers"); unsigned missing = sv_range(0, 2, "missing");
  auto op = [&](int i) { Res r; std::string dir = root + (i ? "/e" : "/d"); if (managers) { DictionaryManager m; m.add_directory(dir); m.add_directory(missing == 1 ? root + "/none" : root + "/d"); r.push_back(m.get_dictionary(Language::from_name(i ? "fr" : "de_AT")).translate("a")); for (auto& l : m.get_languages()) r.push_back(l.str()); return r; }
    UnixFileSystem fs; std::set<std::string> o; try { for (auto& n : fs.open_directory(missing == 1 && i ? root + "/none" : dir)) o.insert(n); } catch (std::exception&) { r.push_back("!"); } for (auto& n : o) r.push_back(n); std::unique_ptr<std::istream> in = fs.open_file(root + (missing == 2 && i ? "/d/none" : "/d/x")); r.push_back(in && *in ? slurp(*in) : std::string("?")); return r; };
  Res r0, r1; auto f = [&](int i) { if (i) r1 = op(1); else r0 = op(0); }; both(f); same(r0, op(0), "files are listed and read the same when another thread does so too"); same(r1, op(1), "files are listed and read the same when another thread does so too"); sv_reach("read"); sv_fs_done();
}
// ------------------------------------------------------------------ many and long
SV_ENTRY c29_sizes() {
  logs(); size_t n = telling((size_t)sv_param("L", 600), "length"); std::string big(n, 'k'); big[n / 2] = plain_byte("byte")[0]; unsigned what = sv_range(0, 4, "what"); std::unique_ptr<Dictionary> d(new Dictionary); if (what == 0) d->add_translation(big, big + "T"); if (what == 1) for (size_t i = 0; i < n; ++i) d->add_translation("m" + std::to_string(i), "t");
  auto op = [&](int i) { Res r; switch (what) {
      case 0: r = { d->translate(big), d->translate(big + "x"), d->translate_plural(big, "q", 1), d->translate_ctxt(big, "a") }; break;
      case 1: r = { d->translate("m0"), d->translate("none"), d->translate_plural("none", "nones", (int)n) }; break;
      case 2: { Dictionary e; std::string t; for (size_t j = 0; j < n; j += 16) t += "\"" + big.substr(j, 16) + "\"\n"; parse("# " + big + "\nmsgid \"a\"\nmsgstr \"\"\n" + t + "\nmsgid \"b\"\nmsgstr \"" + big + "\"\n", e); r = { e.translate("a"), e.translate("b") }; break; }
      case 3: { IConv c("A", "B"); r = { c.convert(big), c.convert("x") }; break; }
      default: r = { Language::from_env("de_AT." + big).str(), Language::from_name(big).str(), PluralForms::from_string(plural_headers[3] + std::string(n, ' ')) ? "rule" : "none", Language::from_name("GERMAN").str() }; } return r; };
  Res r0, r1; auto f = [&](int i) { if (i) r1 = op(1); else r0 = op(0); }; both(f); same(r0, op(0), "long input is handled the same when another thread handles some too"); same(r1, r0, "and both threads get the same"); sv_reach("sized");
}
