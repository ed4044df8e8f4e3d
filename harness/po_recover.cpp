// C03: malformed blocks never cost a well-formed entry
#include "common.hpp"
#include "iconv_model.hpp"
static const unsigned KINDS = 6;
static std::string good_text(unsigned kind, const std::string& id, const std::string& v) {
  std::string h = kind == 4 ? "#, fuzzy\n" : kind == 5 ? "# translator comment\n#: src/a.c:1\n#, c-format\n" : "";
  if (kind == 2 || kind == 3) h += "msgctxt \"ctx\"\n";
  if (kind == 5) h += "msgid \"\"\n\"" + id + "\"\n"; else h += "msgid \"" + id + "\"\n";
  if (kind == 1 || kind == 3) return h + "msgid_plural \"" + id + "s\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"" + v + "s\"\n";
  if (kind == 5) return h + "msgstr \"\"\n\"" + v + "\"\n";
  return h + "msgstr \"" + v + "\"\n";
}
static void good_check(Dictionary& d, unsigned kind, const std::string& id, const std::string& v, bool use_fuzzy) {
  std::vector<std::string> want{v}; if (kind == 1 || kind == 3) want.push_back(v + "s");
  bool present = kind != 4 || use_fuzzy, ctx = kind == 2 || kind == 3; unsigned plain = 0, inctx = 0, other = 0; bool ok = true;
  d.foreach([&](const std::string& k, const std::vector<std::string>& f) { if (k == id) { ++plain; if (!(f == want)) ok = false; } });
  d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& f) { if (k == id) { if (c == "ctx") ++inctx; else ++other; if (!(f == want)) ok = false; } });
  sv_check(ok, "a well-formed entry is loaded with exactly its own translation");
  sv_check(other == 0, "no other block's context is attached to a well-formed entry");
  sv_check(plain == (present && !ctx ? 1u : 0u) && inctx == (present && ctx ? 1u : 0u), "every well-formed entry is loaded, in its own context, whatever the other blocks contain");
}
static const char* pre[] = { "", "msgid", "msgid ", "msgid \"m\"", "msgid \"m\"\nmsgstr", "msgid \"m\"\nmsgstr ", "msgid \"m\"\nmsgstr \"x", "msgctxt \"c\"\n", "msgctxt ", "msgctxt \"ctx\"\nmsgid \"m\"\nmsgstr ", "msgid \"m\"\nmsgid_plural \"ms\"", "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[",
  "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"x\"\n", "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[1] \"x", "#, fuzzy\n", "#, fuzzy\nmsgid \"m\"\n", "#", "msgid \"m\"\nmsgstr \"x\"\n", "msgid \"m\"\nmsgstr \"x\"\n\"", "msgstr ", "#~ msgid \"o", "msgid \"\"\nmsgstr \"", "msgid \"m\"\nmsgid_plural", "msgid_plural \"p\"\nmsgstr[0]" };
static const char* suf[] = { "", "\"", "\nmsgstr \"y\"", "\"\n\"more\"", "\"\nmsgstr[0] \"q\"\nmsgstr[1] \"r\"" };
static const char* seps[] = { "\n", " \t\n", "\r\n", "\n\n\n" };
static const char* header = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n";
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static std::string bad_block(size_t n) {
  unsigned p = sv_range(0, COUNT(pre) - 1, "prefix"), s = sv_range(0, COUNT(suf) - 1, "suffix");
  return pre[p] + sv_str(n, "bytes") + suf[s] + "\n";
}
static void run(const std::string& text, Dictionary& d, bool fz) { std::istringstream in(text); POParser::parse("t.po", in, d, fz); }

// good block, arbitrary block, good block
SV_ENTRY c03_one() {
  quiet(); unsigned ka = sv_range(0, KINDS - 1, "kindA"), kb = (unsigned)((ka + 1 + sv_range(0, 1, "kindB") * 2) % KINDS);
  bool fz = sv_bool("use_fuzzy"); const char* sep = seps[sv_range(0, (uint32_t)sv_param("SEPS", 4) - 1, "separator")];
  std::string text = header + good_text(ka, "entry-before", "vor") + "\n" + bad_block(sv_param("N", 2)) + sep + good_text(kb, "entry-after", "nach");
  Dictionary d; run(text, d, fz);
  good_check(d, ka, "entry-before", "vor", fz); good_check(d, kb, "entry-after", "nach", fz); sv_reach("recovered");
}
// one prefix/suffix-free block of arbitrary bytes directly before a good block at the start of the file
SV_ENTRY c03_first() {
  quiet(); unsigned kb = sv_range(0, KINDS - 1, "kind"); bool fz = sv_bool("use_fuzzy");
  std::string text = sv_str(sv_param("N", 4), "bytes") + "\n\n" + good_text(kb, "entry-after", "nach");
  Dictionary d; run(text, d, fz); good_check(d, kb, "entry-after", "nach", fz); sv_reach("recovered");
}
// two bad blocks in a row, then a good one
SV_ENTRY c03_two() {
  quiet(); unsigned kb = sv_range(0, 1, "kind"); unsigned p = sv_range(0, COUNT(pre) - 1, "first");
  std::string text = std::string(header) + pre[p] + "\n\n" + bad_block(sv_param("N", 1)) + "\n" + good_text(kb, "entry-after", "nach") + "\n" + good_text(1 - kb, "entry-last", "letzt");
  Dictionary d; run(text, d, true); good_check(d, kb, "entry-after", "nach", true); good_check(d, 1 - kb, "entry-last", "letzt", true); sv_reach("recovered");
}
// many entries and a long bad block between them
SV_ENTRY c03_many() {
  quiet(); unsigned at = sv_range(0, (uint32_t)sv_param("M", 12), "at"), p = sv_range(0, COUNT(pre) - 1, "prefix"); unsigned len = sv_range(0, 3, "len");
  static const unsigned lens[] = { 0, 1, 90, 700 };
  std::string bad = std::string(pre[p]) + std::string(lens[len], 'j') + sv_str(1, "byte") + "\n", text = header;
  for (unsigned l = 0; l < 5; ++l) bad += "junk line " + std::string(l * 20, '\\') + "\n";
  for (unsigned i = 0; i <= sv_param("M", 12); ++i) { if (i == at) text += bad + "\n"; text += good_text(i % 2 ? 1 : 0, "entry-number-" + std::to_string(i), "v" + std::to_string(i)) + "\n"; }
  Dictionary d; run(text, d, true);
  for (unsigned i = 0; i <= sv_param("M", 12); ++i) good_check(d, i % 2 ? 1 : 0, "entry-number-" + std::to_string(i), "v" + std::to_string(i), true);
  sv_reach("recovered");
}
// a block that is malformed before its translation is complete contributes nothing, not even under the id of another entry
static const char* bad_first[] = { "", "junk ", "\"", "msgid \"x", "msgctxt \"c", "msgid x", "msgctxt x", "msgctxt \"ctx\"\njunk", "msgid \"q\"\njunk", "msgid_plural \"p\"", "msgstr \"w\"", "msgstr[0] \"w\"", "msgid \"q\"\nmsgstr w", "msgid \"q\"\nmsgstr \"w", "msgid \"q\"\nmsgid \"r\"", "msgid \"q\"\nmsgid_plural p", "msgid \"q\"\nmsgid_plural \"p\"\nmsgstr \"w\"", "msgid", "msgctxt", "msgid \"q\"\nmsgctxt \"ctx\"" };
static const char* bad_second[] = { "msgstr [1] \"y\"", "msgstr[1]y\"", "msgstr[1] y", "msgstr \"y\"", "msgid \"z\"", "msgstr[1]", "msgstr[", "msgstr[1", "msgstr[12] \"y\"", "Msgstr[1] \"y\"", "msgctxt \"c\"" };
SV_ENTRY c03_same() {
  quiet(); unsigned what = sv_range(0, 3, "what"); bool same = sv_bool("same id"), ctx = sv_bool("context"), fz = sv_bool("use_fuzzy"); std::string id = same ? "entry-before" : "entry-other"; std::string c = ctx ? "msgctxt \"ctx\"\n" : "", bad; unsigned ka = ctx ? 2 : 0;
  if (what == 0) { // a malformed line, then what looks like a complete entry in the same block
    unsigned f = sv_range(0, COUNT(bad_first) - 1, "first"); std::string b = sv_str(sv_param("N", 1), "bytes"); for (char x : b) sv_assume(sv_and(sv_and(x != '\n', x != '"'), x != '\\'));
    if (f == 0) { sv_assume(b.size() > 0); char x = b[0]; sv_assume(sv_and(x != '#', sv_and(sv_and(x != ' ', x != '\t'), sv_and(sv_and(x != '\r', x != '\v'), x != '\f')))); }
    bad = std::string(bad_first[f]); if (f == 0 || f == 1 || f == 3 || f == 4 || f == 7 || f == 8 || f == 13) bad += b; bad += "\n";
    unsigned k = sv_range(0, 3, "rest"); if (k == 0) bad += c + "msgid \"" + id + "\"\nmsgstr \"wrong\"\n"; else if (k == 1) bad += c + "msgid \"" + id + "\"\nmsgid_plural \"" + id + "s\"\nmsgstr[0] \"wrong\"\nmsgstr[1] \"wrongs\"\n"; else if (k == 2) bad += "#: a.c\n" + c + "msgid \"" + id + "\"\nmsgstr \"wrong\"\n"; else bad += "#, fuzzy\n" + c + "msgid \"" + id + "\"\nmsgstr \"wrong\"\n";
  } else { // a plural entry that goes wrong after its first form(s)
    bad = c + "msgid \"" + id + "\"\nmsgid_plural \"" + id + "s\"\nmsgstr[0] \"wrong\"\n"; if (sv_bool("two forms")) bad += "msgstr[1] \"wrongs\"\n"; std::string b = sv_str(sv_param("N", 1), "bytes");
    if (what == 1) bad += std::string(bad_second[sv_range(0, COUNT(bad_second) - 1, "second")]) + "\n";
    else if (what == 2) { for (char x : b) sv_assume(sv_and(x != '\n', sv_and(x != '"', x != '\\'))); bad += "msgstr[1] \"y" + b + "\n"; }
    else { sv_assume(b.size() > 0); for (char x : b) sv_assume(sv_and(x != '\n', x != ']')); char x = b[0]; if (sv_bool("digit")) sv_assume(sv_or(x < '0', x > '9')), bad += "msgstr[" + b + "] \"y\"\n"; else bad += "msgstr[1" + b + " \"y\"\n"; }
    if (sv_bool("more")) bad += "msgstr[1] \"wrong\"\n";
  }
  bool before = sv_bool("before"); std::string g = good_text(ka, "entry-before", "vor") + "\n", text = header + (before ? bad + "\n" + g : g + bad + "\n") + good_text(1, "entry-after", "nach");
  Dictionary d; run(text, d, fz); good_check(d, ka, "entry-before", "vor", fz); good_check(d, 1, "entry-after", "nach", fz);
  unsigned n = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); d.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++n; });
  sv_check(n == 2, "a block that is malformed before its translation is complete contributes nothing"); sv_reach("recovered");
}
// any number of malformed blocks in a row, of one kind or two kinds in turn, then well-formed entries
SV_ENTRY c03_lots() {
  quiet(); unsigned p = sv_range(0, COUNT(pre) - 1, "prefix"), q = sv_bool("in turn") ? 7 : p; size_t n = telling(sv_param("M", 300), "number"); std::string text = header + good_text(1, "entry-before", "vor") + "\n"; std::string c = sv_str(1, "byte");
  for (size_t i = 0; i < n; ++i) text += std::string(pre[i % 2 ? q : p]) + (i % 50 ? std::string("j") : c) + "\n\n"; text += good_text(0, "entry-after", "nach") + "\n" + good_text(3, "entry-last", "letzt");
  Dictionary d; run(text, d, true); good_check(d, 1, "entry-before", "vor", true); good_check(d, 0, "entry-after", "nach", true); good_check(d, 3, "entry-last", "letzt", true); sv_reach("recovered");
}
