// C17: IConv against a model of the system converter (POSIX contract)
#include "common.hpp"
#include "tinygettext/iconv.hpp"
#include "iconv_model.hpp"
static void all_closed() { sv_check(IM.opens == IM.closes && IM.live == 0, "every descriptor opened is closed exactly once"); sv_check(IM.bad_use == 0, "no descriptor is used or closed that is not open"); }
// one conversion, any output growth, any text
SV_ENTRY c17_exact() {
  quiet(); IM.keyed = sv_bool("keyed"); IM.expand = sv_range(1, (uint32_t)sv_param("E", 9), "bytes per byte"); IM.prefix = sv_range(0, 3, "prefix"); std::string t = sv_str_upto(0, (size_t)sv_param("N", 4), "text");
  { IConv c("FROM", "To"); sv_check(IM.opens == 1, "a converter is opened"); std::string got = c.convert(t); sv_obs(got); std::string want = im_expected_k(t, "FROM", "TO"); sv_check(sv_eq(got, want), "exactly the converter's bytes are returned"); sv_reach("exact"); }
  all_closed();
}
SV_ENTRY c17_long() {
  quiet(); IM.expand = sv_range(1, 7, "bytes per byte"); size_t n = sv_range(0, (uint32_t)sv_param("L", 60), "len"); std::string t(n, 'a'); if (n) t[sv_range(0, 1, "end") ? n - 1 : n / 2] = sv_str(1, "byte")[0];
  { IConv c("A", "B"); std::string got = c.convert(t), want = im_expected_k(t, "A", "B"); sv_check(sv_eq(got, want), "exactly the converter's bytes are returned"); std::string again = c.convert(t); sv_check(sv_eq(again, want), "the same object converts the same text again"); sv_reach("long"); }
  all_closed();
}
// every byte of a text arbitrary, any length up to L
SV_ENTRY c17_wide() {
  quiet(); IM.expand = sv_range(1, 4, "bytes per byte"); IM.prefix = sv_range(0, 1, "prefix"); std::string t = sv_str((size_t)sv_range(0, (uint32_t)sv_param("L", 80), "len"), "text");
  { IConv c("A", "B"); std::string got = c.convert(t), want = im_expected_k(t, "A", "B"); sv_check(sv_eq(got, want), "exactly the converter's bytes are returned"); sv_reach("wide"); }
  all_closed();
}
static char flip(char c, const char* name) { if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) return c; char b = (char)sv_u8(name); sv_assume(sv_or(b == c, b == (char)(c ^ 32))); return b; }
// names equal but for letter case: no converter, the text itself
SV_ENTRY c17_equal() {
  quiet(); IM.keyed = true; static const char* const names[] = { "UTF-8", "iso-8859-1", "Big5", "x", "", "koi8-r", "my-cs_a" }; std::string a = names[sv_range(0, 6, "name")], b = a; for (char& c : a) c = flip(c, "from"); for (char& c : b) c = flip(c, "to");
  unsigned how = sv_range(0, 2, "how"); std::string t = sv_str_upto(0, (size_t)sv_param("N", 4), "text");
  { IConv c; std::string u = c.convert(t); sv_check(sv_eq(u, t), "an object without charsets returns the text"); if (how == 1) c.set_charsets("other", "charset"); if (how == 2) { IM.fail_open = true; try { c.set_charsets("other", "charset"); sv_check(false, "a converter that cannot be opened is reported"); } catch (std::exception&) {} }
    c.set_charsets(a, b); std::string got = c.convert(t); sv_check(sv_eq(got, t), "equal charsets leave the text unchanged"); sv_check(IM.live == 0, "no descriptor stays open"); sv_reach("equal"); }
  all_closed();
}
// names that differ in one byte other than by letter case do need a converter
SV_ENTRY c17_differ() {
  quiet(); IM.keyed = true; static const char* const names[] = { "UTF-8", "iso-8859-1", "[a]z@`{", "my-cs_z" }; std::string a = names[sv_range(0, 3, "name")], b = a; size_t i = sv_range(0, (uint32_t)a.size() - 1, "at"); std::string x = sv_str(1, "byte"); sv_assume(x[0] != 0); char p = a[i], q = x[0]; b[i] = q;
  auto up = [](char c) { return (uint32_t)sv_select32(sv_and(c >= 'a', c <= 'z'), (unsigned char)c - 32u, (unsigned char)c); }; bool same = up(p) == up(q); bool swap = sv_bool("swap"); std::string from = swap ? b : a, to = swap ? a : b;
  { IConv c(from, to); std::string got = c.convert("text"); if (same) { sv_check(IM.opens == 0 && got == "text", "equal ignoring case needs no conversion"); sv_reach("equal"); } else { sv_check(IM.opens == 1, "different charsets need a converter"); sv_reach("different"); } }
  all_closed();
}
// histories: opening, failing to open, valid and invalid text, in any order
SV_ENTRY c17_history() {
  quiet(); IM.keyed = true; IM.expand = 1 + 4 * sv_range(0, 1, "growth"); IM.bad = 0x80; IM.incomplete = 0x81; IM.shifts = true; // 0x0e shifts, 0x0f shifts back
  unsigned k = (unsigned)sv_param("K", 3);
  { IConv c; std::string from, to; bool clean = true; // clean: the converter is in its initial state
    for (unsigned i = 0; i < k; ++i) {
      unsigned op = sv_range(0, 6, "op");
      if (op <= 3) { // set charsets; possibly failing
        static const char* const cs[] = { "A", "B", "a", "C" }; std::string f = cs[op], t = sv_bool("to") ? "B" : "D"; IM.fail_open = op == 3; IM.open_errno = sv_bool("errno") ? EINVAL : EMFILE; bool need = !(f == t); bool thrown = false; int before = IM.open_calls;
        try { c.set_charsets(f, t); } catch (std::exception&) { thrown = true; }
        sv_check(thrown == (need && op == 3), "an exception is thrown exactly when the converter cannot be opened"); sv_check(IM.open_calls == before + (need ? 1 : 0), "one attempt to open"); if (need && op != 3) { from = f; to = t; } else from = to = ""; clean = true; IM.fail_open = false;
        sv_check(IM.live == (need && op != 3 ? 1 : 0), "the previous descriptor is closed, the new one open"); if (thrown) sv_reach("cannot open");
      } else {
        std::string t, want; bool invalid = false, leave = false; std::string b = sv_str((size_t)sv_param("N", 1), "text"); for (char x : b) sv_assume(sv_and(sv_and(x != (char)0x80, x != (char)0x81), sv_and(x != 0x0e, x != 0x0f)));
        if (op == 4) t = want = b; else if (op == 5) { unsigned v = sv_range(0, 4, "invalid"); invalid = true; t = v == 4 ? std::string("\x0e\x81") : v == 0 ? b + "\x80" : v == 1 ? "q" + b + "\x81" : v == 2 ? std::string("\x0e\x80") : std::string("\x80") + b; want = v == 0 ? b : v == 1 ? "q" + b : std::string(); }
        else { t = std::string("\x0e") + b + "\x0f"; leave = true; want = b; }
        std::string got = c.convert(t);
        if (from.empty()) sv_check(sv_eq(got, t), "without a converter the text is returned unchanged");
        else if (clean) { std::string e; if (leave) e = im_shifted(want, from, to, true); else e = im_shifted(want, from, to, false); sv_check(sv_eq(got, e), invalid ? "of an invalid text, what the converter produced is returned" : "invalid text or failed openings before do not corrupt a conversion"); if (invalid) sv_reach("invalid"); else sv_reach("valid"); }
      }
    }
    if (sv_bool("copy of the past")) { std::string g = c.convert("z"); sv_check(sv_eq(g, from.empty() ? std::string("z") : im_shifted("z", from, to, false)), "the object stays usable"); } }
  all_closed();
}
// construction that fails leaks nothing
SV_ENTRY c17_construct() {
  quiet(); IM.fail_open = sv_bool("fail"); IM.open_errno = sv_bool("einval") ? EINVAL : ENOMEM; std::string f = sv_str((size_t)sv_param("N", 3), "from"); for (char c : f) sv_assume(c != 0); bool thrown = false, std_ = true; uint64_t live = sv_live_heap();
  try { IConv c(f + "-x", "Y"); c.convert("z"); } catch (std::exception&) { thrown = true; } catch (...) { thrown = true; std_ = false; }
  sv_check(thrown == IM.fail_open && std_, "a converter that cannot be opened is reported by exception"); if (thrown) sv_reach("cannot open"); else sv_reach("open"); all_closed(); (void)live;
}
// through the parser: the charset of a file, several files one after the other
SV_ENTRY c17_files() {
  quiet(); IM.keyed = true; IM.bad = 0x80; IM.expand = 1 + 4 * sv_range(0, 1, "growth"); Dictionary d("UTF-8"); unsigned k = (unsigned)sv_param("K", 2);
  for (unsigned i = 0; i < k; ++i) {
    static const char* const cs[] = { "UTF-8", "ISO-8859-1", "none", "koi8-r" }; unsigned c = sv_range(0, 3, "charset"); IM.fail_open = c == 2; std::string v = sv_str(1, "value"); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), sv_and(v[0] != '\n', v[0] != (char)0x80))); bool bad = sv_bool("invalid entry before"); std::string id = "m" + std::to_string(i);
    std::string t = std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=") + cs[c] + "\\n\"\n\n" + (bad ? "msgid \"bad\"\nmsgstr \"x\x80y\"\n\n" : "") + "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n"; bool thrown = false;
    try { parse(t, d); } catch (std::exception&) { thrown = true; }
    sv_check(thrown == (c == 2), "a file whose charset cannot be converted is reported by exception, others are read"); std::string g = d.translate(id);
    if (c == 2) { sv_check(g == id, "nothing of the file is used unconverted"); sv_reach("cannot open"); } else { std::string e = c == 0 ? v : im_expected_k(v, cs[c], "UTF-8"); sv_check(sv_eq(g, e), "each file is converted from its own charset"); sv_reach("file"); }
    sv_check(IM.live == 0, "the parser closes its converter");
  }
  all_closed();
}
// a target charset with shift states: every text is converted on its own, whatever was converted before
SV_ENTRY c17_stateful() {
  quiet(); IM.out_shifts = true; IM.bad = 0x80; IM.incomplete = 0x81; IM.expand = sv_range(1, (uint32_t)sv_param("E", 5), "bytes per byte"); unsigned k = (unsigned)sv_param("K", 2);
  { IConv c("FROM", "To"); for (unsigned i = 0; i < k; ++i) { std::string t = sv_str_upto(0, (size_t)sv_param("N", 3), "text"); for (char x : t) sv_assume(sv_and(x != (char)0x80, x != (char)0x81)); unsigned how = i + 1 < k ? sv_range(0, 2, "how") : 0;
      if (how == 0) { std::string got = c.convert(t), want = im_stateful(t); sv_check(sv_eq(got, want), "exactly the converter's bytes are returned, whatever was converted before"); sv_obs(got); sv_reach("valid"); } else { std::string got = c.convert(t + (how == 1 ? "\x80" : "\x81")); sv_reach("invalid"); } } }
  all_closed();
}
// long texts, around the sizes of common buffers
SV_ENTRY c17_huge() {
  quiet(); IM.expand = sv_range(0, 2, "bytes per byte") * 3 + 1; IM.prefix = sv_range(0, 1, "prefix") * 3; size_t n = telling(sv_param("L", 10000), "length"); std::string t(n, 'a'); t[n - 1] = sv_str(1, "byte")[0]; bool bad = sv_bool("invalid"); if (bad) { IM.bad = 0xff; t[n / 2] = (char)0xff; sv_assume((unsigned char)t[n - 1] != 0xff); if (n / 2 == n - 1) return; }
  { IConv c("A", "B"); std::string got = c.convert(t); if (bad) { std::string part = im_expected_k(t.substr(0, n / 2), "A", "B"); sv_check(got.size() <= part.size() && sv_eq(got, part.substr(0, got.size())), "nothing but converted bytes is returned"); t[n / 2] = 'a'; got = c.convert(t); } sv_check(sv_eq(got, im_expected_k(t, "A", "B")), "exactly the converter's bytes are returned, however many"); sv_reach("huge"); }
  all_closed();
}
// many conversions, openings or failures on one object or on one after the other
SV_ENTRY c17_repeat() {
  quiet(); IM.keyed = true; IM.bad = 0x80; size_t n = telling(sv_param("N", 1100), "count"); unsigned what = sv_range(0, 5, "what"); std::string b = sv_str(2, "text"); for (char c : b) sv_assume(c != (char)0x80); bool ok = true;
  { IConv c("A", "B"); for (size_t i = 1; i < n; ++i) switch (what) { case 0: if (c.convert("abc") != im_expected_k("abc", "A", "B")) ok = false; break; case 1: c.convert("a\x80"); break; case 2: c.set_charsets("A", i % 2 ? "C" : "B"); break; case 3: IM.fail_open = true; try { c.set_charsets("X", "Y"); ok = false; } catch (std::exception&) {} IM.fail_open = false; break; case 4: { IConv x("B", "A"); if (x.convert("z") != im_expected_k("z", "B", "A")) ok = false; break; } default: if (c.convert(std::string(i % 40, 'x')) != im_expected_k(std::string(i % 40, 'x'), "A", "B")) ok = false; }
    if (what == 2 || what == 3) c.set_charsets("A", "B"); std::string got = c.convert(b); sv_check(ok && sv_eq(got, im_expected_k(b, "A", "B")), "a conversion is exact however many there were before"); sv_check(IM.live == 1, "one descriptor is open"); sv_reach("repeated"); }
  all_closed();
}
// several objects at once
SV_ENTRY c17_several() {
  quiet(); IM.keyed = true; static const char* const cs[] = { "A", "B", "b", "C" }; unsigned f[2], t[2]; for (unsigned i = 0; i < 2; ++i) { f[i] = sv_range(0, 3, "from"); t[i] = sv_range(0, 3, "to"); } std::string x = sv_str_upto(1, (size_t)sv_param("N", 4), "text"); bool order = sv_bool("order"), same = sv_bool("same text"); std::string y = same ? x : sv_str(x.size(), "other text");
  { IConv a(cs[f[0]], cs[t[0]]), b(cs[f[1]], cs[t[1]]); std::string ra, rb; if (order) { ra = a.convert(x); rb = b.convert(y); ra = a.convert(x); } else { rb = b.convert(y); ra = a.convert(x); rb = b.convert(y); } auto want = [&](unsigned i, const std::string& s) { auto up = [](const char* c) { return *c == 'b' ? 'B' : *c; }; return up(cs[f[i]]) == up(cs[t[i]]) ? s : im_expected_k(s, cs[f[i]], cs[t[i]]); }; sv_check(sv_eq(ra, want(0, x)) && sv_eq(rb, want(1, y)), "a converter converts what it converts alone, whatever others do"); sv_reach("several"); }
  all_closed();
}
