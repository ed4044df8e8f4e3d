// C28: files add up in a dictionary; reading is repeatable, and no state passes from one file to the next
#include "plural.hpp"
#include "iconv_model.hpp"
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static void warm() { quiet(); PluralForms::from_string("x"); IM.keyed = true; }
struct E { bool ctx; std::string c, id; std::vector<std::string> v; };
static std::vector<E> list(Dictionary& d) { std::vector<E> r; d.foreach([&](const std::string& i, const std::vector<std::string>& v) { r.push_back(E{ false, "", i, v }); }); d.foreach_ctxt([&](const std::string& c, const std::string& i, const std::vector<std::string>& v) { r.push_back(E{ true, c, i, v }); }); return r; }
static bool same_v(const std::vector<std::string>& a, const std::vector<std::string>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!sv_eq(a[i], b[i])) return false; return true; }
static bool same(Dictionary& a, Dictionary& b) { // the same messages with the same forms, in whatever order they are visited
  std::vector<E> x = list(a), y = list(b); if (x.size() != y.size()) return false; std::vector<char> used(y.size(), 0);
  for (auto& e : x) { bool f = false; for (size_t i = 0; i < y.size() && !f; ++i) if (!used[i] && e.ctx == y[i].ctx && sv_eq(e.c, y[i].c) && sv_eq(e.id, y[i].id) && same_v(e.v, y[i].v)) { used[i] = 1; f = true; } if (!f) return false; }
  PluralForms p = a.get_plural_forms(), q = b.get_plural_forms(); return (bool)p == (bool)q && (!p || p == q) && a.get_charset() == b.get_charset();
}
static std::string ordinary(const char* name) { std::string v = sv_str(1, name); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), v[0] != '\n')); return v; }
// K files that share a message of any shape and have one of their own; headers with charset and rule or not
SV_ENTRY c28_merge() {
  warm(); unsigned k = (unsigned)sv_param("K", 2); Dictionary d("UTF-8"); std::vector<std::string> plain, inctx; std::string own[4], ownv[4]; int rule = -1; static const char* const cs[] = { "UTF-8", "KOI8-R" };
  for (unsigned i = 0; i < k; ++i) {
    unsigned head = sv_range(0, 4, "header"), shape = sv_range(0, 6, "shape"); std::string v = ordinary("value"), t, w = head == 2 ? im_keyed(v, cs[1], "UTF-8") : v, x = head == 2 ? im_keyed("x" + v, cs[1], "UTF-8") : "x" + v; unsigned h = i % 2 ? 9 : 3;
    if (head) { t += "msgid \"\"\nmsgstr \"\"\n"; if (head == 4) t += "\"Project-Id-Version: x 1.0\\n\"\n\"Last-Translator: Full Name <e@x>\\n\"\n\"Language-Team: German\\n\"\n\"Language: de\\n\"\n\"MIME-Version: 1.0\\n\"\n"; t += "\"Content-Type: text/plain; charset=" + std::string(cs[head == 2]) + "\\n\"\n"; if (head == 3) { t += "\"" + std::string(plural_headers[h]) + "\\n\"\n"; if (rule < 0) rule = (int)h; } t += "\n"; }
    std::vector<std::string>& slot = shape == 5 ? inctx : plain;
    switch (shape) { case 0: break; case 1: t += "msgid \"m\"\nmsgstr \"" + v + "\"\n\n"; if (slot.empty()) slot.push_back(w); else slot[0] = w; break; case 2: t += "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"x" + v + "\"\n\n"; slot = { w, x }; break; case 3: t += "msgid \"m\"\nmsgstr \"\"\n\n"; break; case 4: t += "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\n"; break; case 5: t += "msgctxt \"c\"\nmsgid \"m\"\nmsgstr \"" + v + "\"\n\n"; slot = { w }; break; case 6: t += "#, fuzzy\nmsgid \"m\"\nmsgstr \"cut\n\n"; break; }
    own[i] = "own" + std::to_string(i); ownv[i] = w; t += "msgid \"" + own[i] + "\"\nmsgstr \"" + v + "\""; unsigned end = sv_range(0, 1, "end"); t += end == 0 ? "\n" : ""; std::istringstream in(t); POParser::parse("f" + std::to_string(i), in, d, i % 2 == 0); }
  unsigned n = 0; bool ok = true; for (auto& e : list(d)) { ++n; if (e.id == "m") { if (!same_v(e.v, e.ctx ? inctx : plain)) ok = false; } else { bool f = false; for (unsigned i = 0; i < k; ++i) if (!e.ctx && e.id == own[i]) { f = true; if (!same_v(e.v, { ownv[i] })) ok = false; } if (!f) ok = false; } }
  sv_check(ok && n == k + (plain.empty() ? 0 : 1) + (inctx.empty() ? 0 : 1), "a dictionary holds what its files define together, later definitions replacing earlier ones, and nothing else");
  PluralForms p = d.get_plural_forms(); sv_check((bool)p == (rule >= 0) && (rule < 0 || p == PluralForms::from_string(plural_headers[rule])), "the first file's rule stays"); sv_check(IM.live == 0 && IM.bad_use == 0, "every converter is closed"); sv_reach("merged");
}
static const char* const heads[] = { "", "msgid \"a\"\nmsgstr \"", "msgid ", "msgctxt \"c\"\nmsgid \"", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr", "#, fuzzy\nmsgid \"a\"\n", "# ", "msgid \"\"\nmsgstr \"", "msgid \"a\"\nmsgstr \"b\"\n", "\xef\xbb\xbf", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n", "msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"a\"\nmsgid_plural \"q\"\nmsgstr[1] \"", "msgid \"a\"\nmsgstr \"b\"\n\n#, fuzzy" };
static const char* const tails[] = { "", "\n", "\"", "\"\n\nmsgid \"t\"\nmsgstr \"T\"\n", "\"\nmsgstr \"y\"\n", "!=1;\\n\"\n\nmsgid \"t\"\nmsgid_plural \"ts\"\nmsgstr[0] \"T\"\nmsgstr[1] \"TT\"" };
static std::string any_file(size_t n) { unsigned h = sv_range(0, COUNT(heads) - 1, "head"); std::string b = sv_str_upto(0, n, "bytes"); unsigned t = sv_range(0, COUNT(tails) - 1, "tail"); return heads[h] + b + tails[t]; }
// any file read twice defines what it defines once
SV_ENTRY c28_again() {
  warm(); std::string f = any_file((size_t)sv_param("N", 2)); bool fz = sv_bool("use_fuzzy"); Dictionary once, twice; { std::istringstream in(f); POParser::parse("f", in, once, fz); } { std::istringstream in(f); POParser::parse("f", in, twice, fz); } { std::istringstream in(f); POParser::parse("g", in, twice, fz); }
  sv_check(same(once, twice), "reading a file again changes nothing"); sv_reach(list(once).empty() ? "nothing" : "something");
}
// whatever file was read before, into this dictionary or another one, the next file defines the same
SV_ENTRY c28_after() {
  warm(); std::string f = any_file((size_t)sv_param("N", 2)); unsigned which = sv_range(0, 2, "next"); static const char* const next[] = { "msgid \"n\"\nmsgstr \"N\"\n\nmsgctxt \"c\"\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"p\"\nmsgstr[1] \"q\"", "#, fuzzy\nmsgid \"n\"\nmsgstr \"N\\\"\"\n\nmsgid \"o\"\nmsgstr \"\x81\\\\\"\n", "\xef\xbb\xbfmsgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"n\"\nmsgstr \"N\"\n" };
  bool fz = sv_bool("use_fuzzy then"); auto read = [&](Dictionary& d) { std::istringstream in(next[which]); POParser::parse("n", in, d, fz); }; Dictionary a, b, c; read(a); { std::istringstream in(f); POParser::parse("f", in, c, sv_bool("use_fuzzy")); } read(b); sv_check(same(a, b), "a file defines the same whatever other files were read before"); sv_reach("after");
  Dictionary e; read(e); parse(f, e); for (auto& x : list(b)) { bool kept = false; for (auto& y : list(e)) if (x.ctx == y.ctx && sv_eq(x.c, y.c) && sv_eq(x.id, y.id)) kept = true; sv_check(kept, "what was defined before stays defined"); }
}
// two halves of a file (cut at a blank line, no header) define together what the whole file does
SV_ENTRY c28_split() {
  warm(); unsigned h = sv_range(0, 9, "head"); if (h == 8) return; std::string b = sv_str_upto(0, (size_t)sv_param("N", 2), "bytes"); static const char* const t[] = { "", "\"", "\"\nmsgstr \"y\"", "] \"z\"" }; std::string first = heads[h] + b + t[sv_range(0, 3, "tail")], second = "msgid \"a\"\nmsgstr \"later\"\n\nmsgid \"z\"\nmsgstr \"Z\"\n"; bool fz = sv_bool("use_fuzzy"); if (sv_bool("swap")) { std::string x = first; first = "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\""; second = x; }
  if (sv_bytes_eq((first + "   ").data(), "\xef\xbb\xbf", 3) || sv_bytes_eq((second + "   ").data(), "\xef\xbb\xbf", 3)) return; // a mark counts at the start of a file only
  Dictionary whole, parts; { std::istringstream in(first + "\n\n" + second); POParser::parse("w", in, whole, fz); } { std::istringstream in(first); POParser::parse("p", in, parts, fz); } { std::istringstream in(second); POParser::parse("q", in, parts, fz); }
  sv_check(same(whole, parts), "a file and its parts define the same"); sv_reach("split");
}
// many messages over several files
SV_ENTRY c28_many() {
  warm(); unsigned n = (unsigned)sv_param("M", 700), files = sv_range(1, 4, "files"); bool ctx = sv_bool("ctx"), over = sv_bool("overlapping"); Dictionary d; std::string v = ordinary("value"); for (unsigned f = 0; f < files; ++f) { std::string t = f % 2 ? "\xef\xbb\xbf" : ""; for (unsigned i = 0; i < n; ++i) { std::string k = "k" + std::to_string((over ? f * n / 2 : f * n) + i); if (ctx) t += "msgctxt \"c\"\n"; t += "msgid \"" + k + "\"\nmsgstr \"" + std::to_string(f) + (i == n / 2 ? v : "") + "\"\n\n"; } parse(t, d); }
  unsigned total = 0; bool ok = true; auto one = [&](const std::string& k, const std::vector<std::string>& s) { ++total; unsigned i = 0; for (size_t q = 1; q < k.size(); ++q) i = i * 10 + (unsigned)(k[q] - '0'); unsigned step = over ? n / 2 : n, f = std::min(i / step, files - 1); std::string w = std::to_string(f) + (i - f * step == n / 2 ? v : ""); if (s.size() != 1 || !sv_eq(s[0], w)) ok = false; }; d.foreach([&](const std::string& k, const std::vector<std::string>& s) { one(k, s); }); d.foreach_ctxt([&](const std::string&, const std::string& k, const std::vector<std::string>& s) { one(k, s); });
  sv_check(ok && total == (over ? n / 2 * (files - 1) + n : n * files), "a dictionary holds everything its files define, however much"); sv_reach("merged");
}
// many files into one dictionary or into one after the other, charsets and marks varying
SV_ENTRY c28_repeat() {
  warm(); size_t n = telling(sv_param("N", 300), "count"); unsigned kind = sv_range(0, 4, "kind"); std::string v = ordinary("value"); Dictionary d("UTF-8"); static const char* const between[] = { "msgid \"a\"\nmsgstr \"A\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n", "\xef\xbb\xbf# c\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\"\n", "junk\n#, fuzzy\nmsgid \"a", "" };
  for (size_t i = 1; i < n; ++i) { std::istringstream in(between[kind]); if (i % 3 == 2) { Dictionary e; POParser::parse("e", in, e); } else POParser::parse("f", in, d, i % 2 == 0); }
  bool koi = sv_bool("own charset"); std::string w = koi ? im_keyed(v, "KOI8-U", "UTF-8") : v; { std::istringstream in(std::string(koi ? "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-U\\n\"\n\n" : "") + "#, fuzzy\nmsgid \"m\"\nmsgstr \"" + v + "\"\n\nmsgid \"n\"\nmsgid_plural \"ns\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"" + v + "\"\n"); bool fz = sv_bool("use_fuzzy"); POParser::parse("last", in, d, fz); sv_check(sv_eq(d.translate("m"), fz ? w : "m"), "a file defines the same however many were read before"); }
  sv_check(sv_eq(d.translate_plural("n", "ns", 1), w) && list(d).size() <= 3, "a file defines the same however many were read before"); sv_check(IM.live == 0 && IM.bad_use == 0, "every converter is closed"); sv_reach("repeated");
}
