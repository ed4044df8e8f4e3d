// C02: totality of the parser
#include "common.hpp"
#include "iconv_model.hpp"

static uint64_t run(const std::string& text) {
  IM.bad = 0xff; IM.expand = 1; IM.failed = 0;
  Dictionary d; int threw = 0; size_t n = 0, m = 0;
  {
    std::istringstream in(text);
    try { POParser::parse("t.po", in, d); } catch (std::exception&) { threw = 1; }
  }
  sv_check(!threw || IM.failed > 0, "the parser gives up with an exception only when the charset named by the header cannot be converted");
  sv_check(threw || IM.failed == 0, "a charset that cannot be converted is reported");
  d.foreach([&](const std::string& k, const std::vector<std::string>& v) { ++n; (void)d.translate(k); m += v.size(); });
  d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& v) { ++n; (void)d.translate_ctxt(c, k); m += v.size(); });
  return n | m << 16 | (uint64_t)threw << 40;
}
static void warm() { quiet(); run("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=koi8-r\\nPlural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n"); }
static void guarded(const std::string& text) {
  std::vector<std::string>().swap(IM.inputs); std::string().swap(IM.from); std::string().swap(IM.to);
  uint64_t before = sv_live_heap();
  uint64_t r = run(text);
  std::vector<std::string>().swap(IM.inputs); std::string().swap(IM.from); std::string().swap(IM.to);
  sv_check(IM.live == 0, "no converter descriptor stays open"); sv_check(IM.bad_use == 0, "no use of an invalid descriptor");
  uint64_t after = sv_live_heap();
  sv_check(after <= before, "everything allocated is released");
  sv_observe_int(r);
}

// a file of N arbitrary bytes and nothing else
SV_ENTRY c02_bytes() { warm(); guarded(sv_str_upto(0, sv_param("N", 4), "file")); sv_reach("parsed"); }

// a keyword, N arbitrary bytes (newlines and truncation included), and one of several continuations
static const char* heads[] = { "msgid ", "msgid \"k\"\nmsgstr ", "msgctxt ", "msgid \"k\"\nmsgid_plural \"p\"\nmsgstr[", "msgid \"k\"\nmsgid_plural ", "#", "msgid \"k\"\nmsgstr \"a\"\n\"", "msgid \"k\"\nmsgid_plural \"p\"\nmsgstr[0] \"x\"\n",
  "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\nmsgid \"k\"\nmsgstr \"", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=", "msgid \"\"\nmsgstr \"Plural-Forms:", "msgid \"\"\nmsgstr \"Content-Type:", "\xef\xbb", "#, fuzzy\nmsgid \"k\"\nmsgstr \"", "msgid", "msgstr" };
static const char* tails[] = { "", "\n", "\"", "\"\n", "\\n\"\n\nmsgid \"q\"\nmsgstr \"Q\"", "] \"y\"\n\n" };
SV_ENTRY c02_heads() {
  warm();
  unsigned h = sv_range(0, sizeof heads / sizeof *heads - 1, "head"), t = sv_range(0, sizeof tails / sizeof *tails - 1, "tail");
  if (h >= 8 && h <= 11) IM.fail_open = sv_bool("no converter");
  std::string mid = sv_str(sv_param("N", 3), "mid");
  guarded(heads[h] + mid + tails[t]); sv_reach("parsed");
}
static const char* text =
  "# c\nmsgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=koi8-r\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n"
  "#, fuzzy\n#: a.c\nmsgctxt \"c\"\nmsgid \"a\\\"b\"\nmsgstr \"x\\ty\"\n\"z\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n \"1\"\n\n#~ msgid \"o\"\n#~ msgstr \"O\"\n\nmsgid \"l\"\nmsgstr \"L\"\n";
// a realistic file with K arbitrary bytes written anywhere, cut anywhere after them or not at all
SV_ENTRY c02_window() {
  warm();
  IM.fail_open = sv_param("FAIL", 0) != 0; std::string s = text; size_t k = sv_param("K", 1), all = s.size();
  size_t at = sv_range(0, (uint32_t)(all - k), "at"); size_t cut = sv_range(0, (uint32_t)sv_param("CUT", 3), "cut");
  if (k) { std::string w = sv_str(k, "window"); s = s.substr(0, at) + w + s.substr(at + k); }
  if (cut == 1) s = s.substr(0, at + k); else if (cut == 2) s = s.substr(0, at + k + 1); else if (cut == 3) s.erase(at + k, 1); 
  guarded(s); sv_reach("parsed");
}
// big shapes: very long lines, many lines, many continuation lines, all lengths up to a bound
SV_ENTRY c02_big() {
  warm();
  size_t n = sv_range(0, (uint32_t)sv_param("L", 40), "n") * sv_param("STRIDE", 9); unsigned kind = sv_range(0, 5, "kind");
  char c; sv_symbolic(&c, 1, "byte"); std::string s, x(n, c);
  if (kind == 0) s = "msgid \"" + std::string(n, 'k') + "\"\nmsgstr \"" + std::string(n, 'v') + c + "\"\n";
  else if (kind == 1) s = std::string(n, '#') + c + "\nmsgid \"a\"\nmsgstr \"b\"";
  else if (kind == 2) { s = "msgid \"a\"\nmsgstr \"\"\n"; for (size_t i = 0; i < n / 4; ++i) s += "\"ab\"\n"; s += c; }
  else if (kind == 3) { for (size_t i = 0; i < n / 16; ++i) s += "msgid \"a\"\nmsgstr \"b\"\n\n"; s += c; }
  else if (kind == 4) { for (size_t i = 0; i < n; ++i) s += "\n"; s += c; s += "\nmsgid \"a\"\nmsgstr \"b\"\n"; }
  else { s = "msgid \"a\"\nmsgid_plural \"b\"\n"; for (size_t i = 0; i < n / 16; ++i) s += std::string("msgstr[") + (char)('0' + i % 10) + "] \"x\"\n"; s += c; }
  guarded(s); sv_reach("parsed");
}
// tens of thousands of lines of one kind: neither the stack nor the memory in use grows with them
SV_ENTRY c02_deep() {
  warm(); unsigned kind = sv_range(0, 7, "kind"); size_t n = (size_t)sv_param("M", 20000); char c; sv_symbolic(&c, 1, "byte"); std::string s, line = "\"a\"\n";
  switch (kind) { case 0: s = "msgid \"k\"\nmsgstr \"\"\n"; break; case 1: s = "msgid \"\"\n"; break; case 2: line = "# c\n"; break; case 3: line = "\n"; break; case 4: line = "x\n"; break; case 5: line = "msgid \"\n"; break; case 6: line = "msgid \"a\"\n\n"; break; case 7: line = "\\\\"; s = "msgid \"k\"\nmsgstr \""; break; }
  for (size_t i = 0; i < n; ++i) s += line; s += c; s += "\n"; guarded(s); sv_reach("parsed");
}
// unreadable streams
SV_ENTRY c02_badstream() {
  warm(); Dictionary d; unsigned k = sv_range(0, 2, "state"); std::istringstream in("msgid \"a\"\nmsgstr \"b\"\n\n");
  if (k == 0) in.setstate(std::ios::badbit); else if (k == 1) in.setstate(std::ios::failbit); else in.setstate(std::ios::eofbit);
  POParser::parse("t.po", in, d); sv_check(d.translate("a") == "a", "nothing is read from an unreadable stream"); sv_reach("returned");
}
