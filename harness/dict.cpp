// C05 plural lookup, C06 exact map, C07 contexts, C08 untranslated messages: Dictionary against a reference
#include "plural.hpp"
#include "iconv_model.hpp"
static void warm() { quiet(); PluralForms::from_string("x"); }
static std::string form_name(const char* tag, unsigned i) { return std::string("<") + tag + std::to_string(i) + ">"; }

// ------------------------------------------------------------------ C05
struct Forms { bool present = false; std::vector<std::string> v; };
static Forms choose_forms(const char* tag, unsigned maxf) {
  Forms f; f.present = sv_bool("present"); if (!f.present) return f;
  unsigned n = sv_range(0, maxf, "forms"), holes = n ? sv_range(0, (1u << n) - 1, "holes") : 0;
  for (unsigned i = 0; i < n; ++i) f.v.push_back(holes >> i & 1 ? std::string() : form_name(tag, i));
  return f;
}
static uint32_t index_of(const PluralForms& pf, unsigned h, int n) {
  if (h >= NHEADERS) return 0;
  if (n >= 0) { uint32_t np, v; plural_reference(plural_headers[h], (uint32_t)n, np, v); return v; }
  return pf.get_plural(n); // a negative count selects what the rule gives for it
}
static void put(Dictionary& d, bool ctx, const Forms& f) { if (f.present) { if (ctx) d.add_translation("ctx", "id", "ids", f.v); else d.add_translation("id", "ids", f.v); } }
static std::string ask(Dictionary& d, bool ctx, int n) { return ctx ? d.translate_ctxt_plural("ctx", "id", "ids", n) : d.translate_plural("id", "ids", n); }
// every rule (or none) x every number of stored forms with any of them empty x every int count
SV_ENTRY c05_lookup() {
  warm(); unsigned h = sv_range(0, NHEADERS, "header"); Dictionary d; PluralForms pf; if (h < NHEADERS) { pf = PluralForms::from_string(plural_headers[h]); d.set_plural_forms(pf); }
  bool ctx = sv_bool("ctx"); Forms f = choose_forms("f", (unsigned)sv_param("F", 4)); put(d, ctx, f);
  if (sv_bool("decoy")) { Forms g; g.present = true; g.v.assign(6, "decoy"); put(d, !ctx, g); d.add_translation("ids", "decoy"); d.add_translation("ctx2", "id", "ids", g.v); }
  int n = sv_bool("neg") ? (int)(sv_u32("n") | 0x80000000u) : (int)(sv_u32("n") & 0x7fffffffu);
  std::string got = ask(d, ctx, n); uint32_t k = (uint32_t)sv_concretize(index_of(pf, h, n));
  if (f.present && k < f.v.size() && !f.v[k].empty()) { sv_check(got == f.v[k], "the stored form the rule selects is returned"); sv_reach("form"); }
  else { bool one = n == 1; sv_check(got == (one ? "id" : "ids"), "without a usable form the English rule decides between msgid and msgid_plural"); sv_reach("english"); }
  sv_obs(got);
}
// a fallback dictionary (itself with its own rule and fallback) supplies what is missing
SV_ENTRY c05_fallback() {
  warm(); static const unsigned rules[] = { 0, 2, 3, 10, 23, 24, NHEADERS };
  Dictionary d[3]; PluralForms pf[3]; unsigned h[3]; Forms f[3]; static const char* tags[] = { "a", "b", "c" };
  unsigned links = sv_range(0, 2, "links"); bool ctx = sv_bool("ctx");
  for (unsigned i = 0; i <= links; ++i) { h[i] = rules[i == 0 ? sv_range(0, 6, "rule") : (i == 1 ? sv_range(1, 3, "rule") : 6)]; if (h[i] < NHEADERS) { pf[i] = PluralForms::from_string(plural_headers[h[i]]); d[i].set_plural_forms(pf[i]); } f[i] = choose_forms(tags[i], i == 0 ? 3 : i == 1 ? 2 : 1); put(d[i], ctx, f[i]); if (i) d[i - 1].addFallback(&d[i]); }
  int n = (int)sv_u32("n"); if (sv_bool("neg")) n |= (int)0x80000000; else n &= 0x7fffffff;
  std::string got = ask(d[0], ctx, n);
  for (unsigned i = 0; i <= links; ++i) { uint32_t k = (uint32_t)sv_concretize(index_of(pf[i], h[i], n)); if (f[i].present && k < f[i].v.size() && !f[i].v[k].empty()) { sv_check(got == f[i].v[k], "the first dictionary with a usable form supplies it, by its own rule"); sv_reach("form"); return; } }
  bool one = n == 1; sv_check(got == (one ? "id" : "ids"), "the English rule decides when no dictionary has a usable form"); sv_reach("english");
}
// forms read from a .po file, in any order and with gaps
SV_ENTRY c05_parsed() {
  warm(); static const unsigned rules[] = { 0, 2, 5, 11, 16, 23, 24, NHEADERS }; unsigned h = rules[sv_range(0, 7, "rule")];
  unsigned maxf = (unsigned)sv_param("F", 3); unsigned set = sv_range(1, (1u << maxf) - 1, "set"), holes = sv_range(0, (1u << maxf) - 1, "holes"), rot = sv_range(0, maxf - 1, "rotation"); bool rev = sv_bool("reverse"), ctx = sv_bool("ctx");
  if (holes & ~set) return;
  std::string t = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n"; if (h < NHEADERS) t += "\"" + std::string(plural_headers[h]) + "\\n\"\n";
  t += "\n"; if (ctx) t += "msgctxt \"ctx\"\n"; t += "msgid \"id\"\nmsgid_plural \"ids\"\n";
  for (unsigned j = 0; j < maxf; ++j) { unsigned i = (j + rot) % maxf; if (rev) i = maxf - 1 - i; if (set >> i & 1) t += "msgstr[" + std::to_string(i) + "] \"" + (holes >> i & 1 ? std::string() : form_name("f", i)) + "\"\n"; }
  Dictionary d; parse(t, d); PluralForms pf = d.get_plural_forms(); sv_check((bool)pf == (h < NHEADERS), "the header's rule is in force");
  int n = (int)(sv_u32("n") & 0x7fffffffu); std::string got = ask(d, ctx, n); uint32_t k = (uint32_t)sv_concretize(index_of(pf, h, n));
  if (k < maxf && (set >> k & 1) && !(holes >> k & 1)) sv_check(got == form_name("f", k), "the form with the selected index is returned"); else { bool one = n == 1; sv_check(got == (one ? "id" : "ids"), "a missing or empty form gives the English default"); sv_reach("english"); }
  sv_obs(got); sv_reach("parsed");
}

// up to ten forms, in file order or reversed, any one of them missing: every stored form is reachable and none is lost
SV_ENTRY c05_ten() {
  warm(); unsigned nf = sv_range(1, 10, "forms"), gap = sv_range(0, nf, "gap"); bool rev = sv_bool("reverse"), ctx = sv_bool("ctx"), two = sv_bool("continued"); static const unsigned rules[] = { 0, 2, 9, 16, 23, 24, NHEADERS }; unsigned h = rules[sv_range(0, 6, "rule")];
  std::string v = sv_str(1, "value"); sv_assume(sv_and(sv_and(v[0] != '"', v[0] != '\\'), v[0] != '\n'));
  std::string t = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n"; if (h < NHEADERS) t += "\"" + std::string(plural_headers[h]) + "\\n\"\n"; t += "\n"; if (ctx) t += "msgctxt \"ctx\"\n"; t += "msgid \"id\"\nmsgid_plural \"ids\"\n";
  for (unsigned j = 0; j < nf; ++j) { unsigned i = rev ? nf - 1 - j : j; if (i == gap) continue; t += "msgstr[" + std::to_string(i) + "] \"" + v + "\"\n" + (two ? "" : ""); if (two) t += "\"" + std::to_string(i) + "\"\n"; else t.insert(t.size() - 2, std::to_string(i)); }
  if (nf == 1 && gap == 0) return;
  Dictionary d; parse(t + "\nmsgid \"z\"\nmsgstr \"Z\"\n", d); PluralForms pf = d.get_plural_forms(); int n = (int)(sv_u32("n") & 0x7fffffffu); std::string got = ask(d, ctx, n); uint32_t k = (uint32_t)sv_concretize(index_of(pf, h, n));
  if (k < nf && k != gap) sv_check(sv_eq(got, v + std::to_string(k)), "the form with the selected index is returned"); else { bool one = n == 1; sv_check(got == (one ? "id" : "ids"), "a missing form gives the English default"); sv_reach("english"); }
  std::vector<std::string> f; unsigned c = 0; auto take = [&](const std::string& i, const std::vector<std::string>& x) { if (i == "id") { f = x; ++c; } }; if (ctx) d.foreach_ctxt([&](const std::string&, const std::string& i, const std::vector<std::string>& x) { take(i, x); }); else d.foreach(take);
  sv_check(c == 1 && d.translate("z") == "Z", "the entry is stored once, the next one too"); unsigned top = gap == nf - 1 ? nf - 1 : nf; sv_check(f.size() >= top, "no form is lost"); for (unsigned i = 0; i < top && i < f.size(); ++i) sv_check(sv_eq(f[i], i == gap ? std::string() : v + std::to_string(i)), "every form is stored under its own index"); sv_reach("parsed");
}
// forms of any values, equal ones and empty ones included, in order or reversed
SV_ENTRY c05_equal() {
  warm(); unsigned nf = sv_range(2, (uint32_t)sv_param("F", 4), "forms"); bool rev = sv_bool("reverse"), ctx = sv_bool("ctx"); static const unsigned rules[] = { 9, 16, 24, NHEADERS }; unsigned h = rules[sv_range(0, 3, "rule")]; std::vector<std::string> v; for (unsigned i = 0; i < nf; ++i) v.push_back(sv_bool("empty") ? std::string() : plain_byte("value"));
  std::string t = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n"; if (h < NHEADERS) t += "\"" + std::string(plural_headers[h]) + "\\n\"\n"; t += "\n"; if (ctx) t += "msgctxt \"ctx\"\n"; t += "msgid \"id\"\nmsgid_plural \"ids\"\n"; for (unsigned j = 0; j < nf; ++j) { unsigned i = rev ? nf - 1 - j : j; t += "msgstr[" + std::to_string(i) + "] \"" + v[i] + "\"\n"; }
  Dictionary d; parse(t, d); PluralForms pf = d.get_plural_forms(); int n = (int)(sv_u32("n") & 0x7fffffffu); uint32_t k = (uint32_t)sv_concretize(index_of(pf, h, n)); std::string got = ask(d, ctx, n); if (k < nf && !v[k].empty()) sv_check(sv_eq(got, v[k]), "the form with the selected index is returned, whatever the forms are"); else { bool one = n == 1; sv_check(got == (one ? "id" : "ids"), "a missing or empty form gives the English default"); sv_reach("english"); } sv_reach("parsed");
}
// forms that equal the msgid, the plural or each other, or are arbitrary: they are returned all the same; a fallback does not replace them
SV_ENTRY c05_values() {
  warm(); unsigned h = sv_range(0, 1, "rule") ? 9 : 2; bool ctx = sv_bool("ctx"), fb = sv_bool("fallback"), sym = sv_bool("arbitrary"); Dictionary d, e; d.set_plural_forms(PluralForms::from_string(plural_headers[h])); e.set_plural_forms(PluralForms::from_string(plural_headers[2]));
  static const char* const vals[] = { "id", "ids", "x", "ctx", " ", "ID" }; Forms f; f.present = true; unsigned nf = h == 9 ? 3 : 2; for (unsigned i = 0; i < nf; ++i) f.v.push_back(sym ? sv_str(2, "form") : std::string(vals[sv_range(0, 5, "value")])); put(d, ctx, f); if (fb) { Forms g; g.present = true; g.v.assign(2, "fallback"); put(e, ctx, g); d.addFallback(&e); }
  if (sv_bool("decoy")) { Forms g; g.present = true; g.v.assign(3, "decoy"); put(d, !ctx, g); }
  uint32_t n = sv_u32("n") & 0x7fffffffu; std::string got = ask(d, ctx, (int)n); uint32_t np, k; plural_reference(plural_headers[h], n, np, k); k = (uint32_t)sv_concretize(k); sv_check(k < nf && sv_eq(got, f.v[k < nf ? k : 0]), "a stored non-empty form is returned whatever its text"); sv_reach("value");
}

// ------------------------------------------------------------------ C06, C07
struct Rec { bool ctx; std::string c, id; std::vector<std::string> v; };
struct Model {
  std::vector<Rec> r;
  Rec* find(bool ctx, const std::string& c, const std::string& id) { for (auto& x : r) if (x.ctx == ctx && (!ctx || sv_eq(x.c, c)) && sv_eq(x.id, id)) return &x; return nullptr; }
  Rec& get(bool ctx, const std::string& c, const std::string& id) { if (Rec* x = find(ctx, c, id)) return *x; r.push_back(Rec{ ctx, c, id, {} }); return r.back(); }
};
static void compare(Dictionary& d, Model& m, bool ctx, const std::string& c, const std::string& id) {
  Rec* x = m.find(ctx, c, id); std::string s = ctx ? d.translate_ctxt(c, id) : d.translate(id);
  bool has = x && !x->v.empty() && !x->v[0].empty();
  sv_check(sv_eq(s, has ? x->v[0] : id), "a singular lookup gives what was added last for exactly that message");
  for (int n = 0; n < 3; ++n) { std::string p = ctx ? d.translate_ctxt_plural(c, id, "PLURAL", n) : d.translate_plural(id, "PLURAL", n); unsigned k = n != 1;
    std::string want = x && k < x->v.size() && !x->v[k].empty() ? x->v[k] : n == 1 ? id : std::string("PLURAL");
    sv_check(sv_eq(p, want), "a plural lookup gives what was added last for exactly that message"); }
}
static void enumerate(Dictionary& d, Model& m) {
  std::vector<int> seen(m.r.size(), 0); bool ok = true; unsigned total = 0;
  auto hit = [&](bool ctx, const std::string& c, const std::string& id, const std::vector<std::string>& v) { ++total; bool found = false;
    for (size_t i = 0; i < m.r.size(); ++i) if (m.r[i].ctx == ctx && (!ctx || sv_eq(m.r[i].c, c)) && sv_eq(m.r[i].id, id)) { ++seen[i]; found = true; if (v.size() != m.r[i].v.size()) ok = false; else for (size_t j = 0; j < v.size(); ++j) if (!sv_eq(v[j], m.r[i].v[j])) ok = false; }
    if (!found) ok = false; };
  d.foreach([&](const std::string& id, const std::vector<std::string>& v) { hit(false, "", id, v); });
  d.foreach_ctxt([&](const std::string& c, const std::string& id, const std::vector<std::string>& v) { hit(true, c, id, v); });
  for (int s : seen) if (s != 1) ok = false;
  sv_check(ok && total == m.r.size(), "enumeration visits every stored message exactly once with its current forms");
}
static std::string value(unsigned sel, unsigned step) { return sel == 0 ? std::string() : sel == 1 ? std::string("same") : "value" + std::to_string(step); }
static void addop(Dictionary& d, Model& m, unsigned step, unsigned keymax, bool fixlen) {
  unsigned op = sv_range(0, 3, "op"); bool ctx = op & 1, plural = op & 2; std::string c, id = fixlen ? sv_str(keymax, "id") : sv_str_upto(0, keymax, "id"); if (ctx) c = fixlen ? sv_str(keymax, "ctx") : sv_str_upto(0, keymax, "ctx");
  Rec& r = m.get(ctx, c, id);
  if (plural) { unsigned shape = sv_range(0, 4, "shape"); std::vector<std::string> v; if (shape == 1) v = { value(2, step) }; if (shape == 2) v = { value(2, step), "p" + std::to_string(step) }; if (shape == 3) v = { "", "same", "x" }; if (shape == 4) v = { "same", "" };
    r.v = v; if (ctx) d.add_translation(c, id, "PL", v); else d.add_translation(id, "PL", v); }
  else { std::string s = value(sv_range(0, 2, "value"), step); if (r.v.empty()) r.v.push_back(s); else r.v[0] = s; if (ctx) d.add_translation(c, id, s); else d.add_translation(id, s); }
}
// K additions of any kind with arbitrary keys, then any lookup and enumeration
SV_ENTRY c06_history() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); Model m; unsigned K = (unsigned)sv_param("K", 2), L = (unsigned)sv_param("L", 1);
  for (unsigned k = 0; k < K; ++k) addop(d, m, k, L, sv_param("FIX", 0));
  bool ctx = sv_bool("lookup ctx"); std::string c, id = sv_str(L, "lookup id"); if (ctx) c = sv_str(L, "lookup ctx");
  compare(d, m, ctx, c, id); enumerate(d, m);
  for (auto& r : m.r) compare(d, m, r.ctx, r.c, r.id);
  sv_reach(m.r.size() < K ? "collision" : "distinct");
}
// many messages (several rehashes), long keys that differ in one arbitrary byte at any position
SV_ENTRY c06_many() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); Model m; unsigned N = (unsigned)sv_param("M", 40);
  for (unsigned i = 0; i < N; ++i) { std::string id = "message " + std::to_string(i), c = "context " + std::to_string(i % 3);
    if (i % 4 == 0) { m.get(false, "", id).v = { "v" + id }; d.add_translation(id, "v" + id); } else if (i % 4 == 1) { m.get(true, c, id).v = { "c" + id }; d.add_translation(c, id, "c" + id); }
    else if (i % 4 == 2) { std::vector<std::string> v{ "s" + id, "p" + id }; m.get(false, "", id).v = v; d.add_translation(id, id, v); } else { std::vector<std::string> v{ "s" + id, "p" + id }; m.get(true, c, id).v = v; d.add_translation(c, id, id, v); } }
  std::string key(sv_range(1, 70, "len"), 'k'); std::string a = key, b = key; size_t at = sv_range(0, (uint32_t)key.size() - 1, "at"); a[at] = (char)sv_u8("byte a"); b[at] = (char)sv_u8("byte b");
  bool ctx = sv_bool("ctx"); std::string cx = ctx ? "context 1" : "";
  m.get(ctx, cx, a).v = { "A" }; if (ctx) d.add_translation(cx, a, "A"); else d.add_translation(a, "A");
  compare(d, m, ctx, cx, b); compare(d, m, !ctx, "context 1", a); for (unsigned i = 0; i < m.r.size(); i += 7) compare(d, m, m.r[i].ctx, m.r[i].c, m.r[i].id); enumerate(d, m); sv_reach("many");
}
// re-adding: every pair of kinds on one key, with arbitrary values
SV_ENTRY c06_replace() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); Model m; bool ctx = sv_bool("ctx"); std::string c = "c", id = "id"; unsigned K = (unsigned)sv_param("K", 3);
  for (unsigned k = 0; k < K; ++k) { bool plural = sv_bool("plural"); Rec& r = m.get(ctx, c, id);
    if (plural) { std::vector<std::string> v; unsigned n = sv_range(0, 3, "forms"); for (unsigned i = 0; i < n; ++i) v.push_back(sv_str(1, "form")); r.v = v; if (ctx) d.add_translation(c, id, "PL", v); else d.add_translation(id, "PL", v); }
    else { std::string s = sv_str_upto(0, 1, "value"); if (r.v.empty()) r.v.push_back(s); else r.v[0] = s; if (ctx) d.add_translation(c, id, s); else d.add_translation(id, s); }
    compare(d, m, ctx, c, id); }
  enumerate(d, m); sv_reach("replaced");
}
// C07: three messages, each with any context or none; any lookup
SV_ENTRY c07_direct() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); Model m; unsigned K = (unsigned)sv_param("K", 2), L = (unsigned)sv_param("L", 1);
  for (unsigned k = 0; k < K; ++k) { bool ctx = sv_bool("ctx"), pl = sv_bool("plural"); std::string c = ctx ? sv_str_upto(0, L, "context") : std::string(), id = sv_str_upto(0, L, "id"); std::string s = "v" + std::to_string(k); std::vector<std::string> v{ s, s + "s" };
    Rec& r = m.get(ctx, c, id); if (pl) r.v = v; else if (r.v.empty()) r.v.push_back(s); else r.v[0] = s;
    if (ctx) { if (pl) d.add_translation(c, id, "p", v); else d.add_translation(c, id, s); } else { if (pl) d.add_translation(id, "p", v); else d.add_translation(id, s); } }
  bool ctx = sv_bool("lookup in context"); std::string c = ctx ? sv_str_upto(0, L, "lookup context") : std::string(), id = sv_str_upto(0, L, "lookup id"); compare(d, m, ctx, c, id); sv_reach("looked up");
}
// C07: the same, read from a .po file; contexts and ids of arbitrary ordinary bytes, msgctxt "" included
static std::string plainstr(size_t lo, size_t hi, const char* name) { std::string s = sv_str_upto(lo, hi, name); for (char ch : s) { bool ok = sv_and(sv_and(ch != '"', ch != '\\'), sv_and(ch != '\n', ch != '\0')); sv_assume(ok); } return s; }
// an entry with a context and an empty msgid is an entry like others, whatever its translation looks like
SV_ENTRY c07_header() {
  warm(); static const char* const like[] = { "Content-Type: text/plain; charset=KOI8-R\\n", "Content-Type: text/plain; charset=", "Plural-Forms: nplurals=1; plural=0;\\n", "Project-Id-Version: x\\nPlural-Forms: nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2;\\n", "Language: de\\n", "x" }; unsigned a = sv_range(0, 5, "text"), where = sv_range(0, 2, "where"), kind = sv_range(0, 2, "context"); bool head = sv_bool("header"); std::string b = plain_byte("byte"), c = kind == 0 ? "" : kind == 1 ? "ctx" : plain_byte("context");
  std::string text = like[a], val; text += b; for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\\' && i + 1 < text.size() && text[i + 1] == 'n') { val += '\n'; ++i; } else val += text[i]; std::string e = "msgctxt \"" + c + "\"\nmsgid \"\"\nmsgstr \"" + text + "\"\n\n", h = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n", t;
  if (where == 0) t += e; if (head) t += h; if (where == 1) t += e; t += "msgid \"m\"\nmsgstr \"\xc3\xa4\"\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\n\n"; if (where == 2) t += e; t += "msgid \"z\"\nmsgstr \"Z\"\n"; Dictionary d; parse(t, d);
  sv_check(sv_eq(d.translate_ctxt(c, ""), val), "an entry with a context and an empty msgid is found under them"); sv_check(d.translate("m") == "\xc3\xa4" && d.translate("z") == "Z", "it does not change other entries"); sv_check((bool)d.get_plural_forms() == head && (!head || d.get_plural_forms().get_nplural() == 2), "it is no header"); unsigned n = 0, q = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++n; }); d.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++q; }); sv_check(n == 3 && q == 1, "every entry is stored once"); sv_reach("parsed");
}
SV_ENTRY c07_parsed() {
  warm(); unsigned K = (unsigned)sv_param("K", 2), L = (unsigned)sv_param("L", 1); Model m; std::string t = "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n";
  std::string ids[4]; for (unsigned k = 0; k < K; ++k) { bool ctx = sv_bool("ctx"), pl = sv_bool("plural"); std::string c = ctx ? plainstr(0, L, "context") : std::string(); bool same = k && sv_bool("same id"); std::string id = same ? ids[0] : plainstr(ctx ? 0 : 1, L, "id"); ids[k] = id; if (!ctx && id.empty()) return;
    std::string s = "v" + std::to_string(k); Rec& r = m.get(ctx, c, id); if (pl) r.v = { s, s + "s" }; else if (r.v.empty()) r.v.push_back(s); else r.v[0] = s;
    if (ctx) t += "msgctxt \"" + c + "\"\n"; t += "msgid \"" + id + "\"\n"; if (pl) t += "msgid_plural \"p\"\nmsgstr[0] \"" + s + "\"\nmsgstr[1] \"" + s + "s\"\n"; else t += "msgstr \"" + s + "\"\n"; t += "\n"; }
  Dictionary d; parse(t, d); enumerate(d, m);
  for (unsigned k = 0; k < K; ++k) { compare(d, m, false, "", ids[k]); compare(d, m, true, "", ids[k]); for (auto& r : m.r) compare(d, m, true, r.c, ids[k]); }
  sv_reach("parsed");
}

// ------------------------------------------------------------------ C08
// entries of every shape with every pattern of emptiness in a chain of up to three dictionaries
SV_ENTRY c08_direct() {
  warm(); Dictionary d[3]; unsigned links = sv_range(0, (uint32_t)sv_param("LINKS", 2), "links"); bool ctx = sv_bool("ctx"); std::string id = sv_str_upto(0, (size_t)sv_param("L", 2), "id"), want = id; bool found = false;
  for (unsigned i = 0; i <= links; ++i) { if (i) d[i - 1].addFallback(&d[i]); unsigned shape = sv_range(0, 6, "shape"); std::string tag = "t" + std::to_string(i), first; std::vector<std::string> v;
    switch (shape) { case 0: break; case 1: case 2: first = shape == 2 ? tag : ""; if (ctx) d[i].add_translation("cc", id, first); else d[i].add_translation(id, first); break;
      default: if (shape == 4) v = { "", "" }; if (shape == 5) v = { "", tag + "p" }; if (shape == 6) v = { tag, tag + "p" }; if (!v.empty()) first = v[0]; if (ctx) d[i].add_translation("cc", id, "pl", v); else d[i].add_translation(id, "pl", v); }
    if (sv_bool("decoy")) { if (ctx) d[i].add_translation(id, "decoy"); else d[i].add_translation("", id, "decoy"); d[i].add_translation("other", id, "decoy"); d[i].add_translation(id + "x", "decoy"); }
    if (!found && !first.empty()) { found = true; want = first; } }
  std::string got = ctx ? d[0].translate_ctxt("cc", id) : d[0].translate(id); sv_check(sv_eq(got, want), "a singular lookup gives the first non-empty translation, or the msgid unchanged"); sv_reach(found ? "translated" : "untranslated"); sv_obs(got);
}
// translations that equal the msgid, the context or any other text are translations: no fallback replaces them
SV_ENTRY c08_values() {
  warm(); bool ctx = sv_bool("ctx"), pl = sv_bool("plural"), fb = sv_bool("fallback"); std::string id = sv_str_upto(0, (size_t)sv_param("L", 2), "id"), c = sv_str_upto(0, 1, "context"), v = sv_bool("same as id") ? id : sv_str_upto(0, (size_t)sv_param("L", 2), "value"); Dictionary d, e; std::vector<std::string> f{ v, "forms" };
  if (ctx) { if (pl) d.add_translation(c, id, "p", f); else d.add_translation(c, id, v); e.add_translation(c, id, "fallback"); } else { if (pl) d.add_translation(id, "p", f); else d.add_translation(id, v); e.add_translation(id, "fallback"); } if (fb) d.addFallback(&e);
  std::string got = ctx ? d.translate_ctxt(c, id) : d.translate(id); std::string want = !v.empty() ? v : fb ? "fallback" : id; sv_check(sv_eq(got, want), "a non-empty translation is returned whatever its text"); sv_reach("values");
}
// .po entries whose strings are empty or not, in every combination; the header is never a translation
SV_ENTRY c08_parsed() {
  warm(); bool header = sv_bool("header"), ctx = sv_bool("ctx"), pl = sv_bool("plural"); unsigned bits = sv_range(0, 3, "nonempty"); std::string body = plainstr(0, (size_t)sv_param("L", 2), "header bytes");
  std::string t; if (header) t = "msgid \"\"\nmsgstr \"\"\n\"" + body + "\\n\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
  if (ctx) t += "msgctxt \"c\"\n"; t += "msgid \"id\"\n"; if (pl) t += std::string("msgid_plural \"ids\"\nmsgstr[0] \"") + (bits & 1 ? "eins" : "") + "\"\nmsgstr[1] \"" + (bits & 2 ? "viele" : "") + "\"\n"; else t += std::string("msgstr \"") + (bits & 1 ? "eins" : "") + (bits & 2 ? "\"\n\"zwei" : "") + "\"\n";
  if (sv_bool("second header")) t += "\nmsgid \"\"\nmsgstr \"X-Other: " + body + "\\n\"\n";
  Dictionary d; parse(t, d);
  std::string want = pl ? (bits & 1 ? "eins" : "id") : (std::string(bits & 1 ? "eins" : "") + (bits & 2 ? "zwei" : "")); if (want.empty()) want = "id";
  sv_check((ctx ? d.translate_ctxt("c", "id") : d.translate("id")) == want, "an entry with an empty translation counts as untranslated");
  sv_check(d.translate("").empty() && d.translate_ctxt("", "").empty() && d.translate_ctxt("c", "").empty(), "the header is not a translation of the empty string");
  sv_check(d.translate("other") == "other" && d.translate_ctxt("c", "other") == "other" && d.translate_ctxt("zz", "id") == "id", "an unknown message is returned unchanged");
  bool clean = true; d.foreach([&](const std::string& k, const std::vector<std::string>&) { if (k.empty()) clean = false; }); sv_check(clean, "the header is not stored as a message"); sv_reach("parsed");
}
// an entry without translation counts as untranslated: it does not take an existing translation away, in the same file or in the next
SV_ENTRY c08_later() {
  warm(); bool ctx = sv_bool("ctx"), pl = sv_bool("plural"), two = sv_bool("two files"), before = sv_bool("empty one first"); std::string c = ctx ? "msgctxt \"c\"\n" : "", v = plainstr(1, (size_t)sv_param("L", 2), "value");
  std::string full = c + "msgid \"id\"\n" + (pl ? "msgid_plural \"ids\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"x" + v + "\"\n\n" : "msgstr \"" + v + "\"\n\n"), e = c; unsigned shape = sv_range(0, 5, "empty entry");
  static const char* const shapes[] = { "msgid \"id\"\nmsgstr \"\"\n\n", "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"\n\n", "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"\"\n\n", "msgid \"\"\n\"id\"\nmsgstr \"\"\n\"\"\n\n", "msgid \"id\"\nmsgid_plural \"\"\nmsgstr[2] \"\"\n\n", "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[1] \"\"\n\"\"\nmsgstr[0] \"\"\n\n" };
  e += shapes[shape]; std::string h = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n"; Dictionary d; std::string a = before ? e : full, b = before ? full : e; if (two) { parse(h + a, d); parse(h + b, d); } else parse(h + a + b, d);
  std::string got = ctx ? d.translate_ctxt("c", "id") : d.translate("id"), many = ctx ? d.translate_ctxt_plural("c", "id", "ids", 5) : d.translate_plural("id", "ids", 5);
  sv_check(sv_eq(got, v), "an entry without translation does not take an existing one away"); sv_check(sv_eq(many, pl ? "x" + v : std::string("ids")), "an entry without translation does not take existing forms away"); sv_reach("later");
}
// keys, contexts and values of telling lengths that differ in the last byte only
SV_ENTRY c06_sizes() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); size_t n = telling(sv_param("L", 5000), "length"), cut = sv_range(0, 2, "where"); std::string k(n, 'k'), a = k, b = k; size_t at = cut == 0 ? n - 1 : cut == 1 ? n / 2 : 0; a[at] = (char)sv_u8("byte a"); b[at] = (char)sv_u8("byte b"); bool same = a[at] == b[at];
  bool parsed = sv_bool("parsed"); unsigned what = sv_range(0, 2, "part"); if (parsed) for (const std::string* s : { &a, &b }) { char c = (*s)[at]; sv_assume(sv_and(sv_and(c != '"', c != '\\'), c != '\n')); }
  auto add = [&](const std::string& s, const std::string& v) { if (what == 0) { if (parsed) parse("msgid \"" + s + "\"\nmsgstr \"" + v + "\"\n", d); else d.add_translation(s, v); } else if (what == 1) { if (parsed) parse("msgctxt \"" + s + "\"\nmsgid \"id\"\nmsgid_plural \"" + s + "s\"\nmsgstr[0] \"" + v + "\"\nmsgstr[1] \"" + v + "s\"\n", d); else d.add_translation(s, "id", "ids", { v, v + "s" }); } else { if (parsed) parse("msgctxt \"c\"\nmsgid \"" + s + "\"\nmsgstr \"" + v + s + "\"\n", d); else d.add_translation("c", s, v + s); } };
  auto get = [&](const std::string& s) { return what == 0 ? d.translate(s) : what == 1 ? d.translate_ctxt_plural(s, "id", "ids", 2) : d.translate_ctxt("c", s); };
  add(a, "A"); add(b, "B"); std::string ta = what == 1 ? "s" : what == 2 ? a : "", tb = what == 1 ? "s" : what == 2 ? b : ""; sv_check(sv_eq(get(a), (same ? "B" : "A") + ta), "long keys are compared as a whole"); sv_check(sv_eq(get(b), "B" + tb), "long keys are compared as a whole"); sv_check(get(k + "k") == (what == 1 ? std::string("ids") : k + "k"), "a longer key is another key"); sv_reach("sizes");
}
// several thousand messages, plain and in context
SV_ENTRY c06_thousands() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); unsigned n = (unsigned)sv_param("M", 1500); bool ctx = sv_bool("ctx"), many = sv_bool("contexts"); auto c = [&](unsigned i) { return many ? "c" + std::to_string(i) : std::string("c"); }; auto id = [&](unsigned i) { return many ? std::string("id") : "m" + std::to_string(i); }; if (!ctx && many) return;
  for (unsigned i = 0; i < n; ++i) { if (ctx) { if (i % 2) d.add_translation(c(i), id(i), "v" + std::to_string(i)); else d.add_translation(c(i), id(i), "ps", { "v" + std::to_string(i), "w" }); } else { if (i % 2) d.add_translation(id(i), "v" + std::to_string(i)); else d.add_translation(id(i), "ps", { "v" + std::to_string(i), "w" }); } }
  bool ok = true; for (unsigned i = 0; i < n; ++i) if ((ctx ? d.translate_ctxt(c(i), id(i)) : d.translate(id(i))) != "v" + std::to_string(i)) ok = false; unsigned total = 0; d.foreach([&](const std::string&, const std::vector<std::string>&) { ++total; }); d.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++total; }); sv_check(ok && total == n, "a dictionary holds as many messages as are added"); sv_reach("thousands");
}
// untranslated ids and translations of telling lengths
SV_ENTRY c08_sizes() {
  warm(); Dictionary d, f; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); size_t n = telling(sv_param("L", 5000), "length"); std::string k(n, 'k'); unsigned at = sv_range(0, 2, "where"); k[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = (char)sv_u8("byte"); std::string p = k + "s"; if (sv_bool("fallback")) d.addFallback(&f); unsigned has = sv_range(0, 4, "stored");
  if (has == 1) d.add_translation("other", "x"); if (has == 2) d.add_translation("c", "other", "x"); if (has == 3) d.add_translation("c", k, ""); if (has == 4) d.add_translation(k, p, std::vector<std::string>{ "", "" });
  sv_check(sv_eq(d.translate(k), k) && sv_eq(d.translate_ctxt("c", k), k), "an untranslated message is returned as it is, however long"); sv_check(sv_eq(d.translate_plural(k, p, 1), k) && sv_eq(d.translate_plural(k, p, 2), p) && sv_eq(d.translate_ctxt_plural("c", k, p, 1), k) && sv_eq(d.translate_ctxt_plural("c", k, p, 0), p), "an untranslated message is returned as it is, however long");
  Dictionary e; e.add_translation("a", k); e.add_translation("c", "a", "as", { k, p }); e.set_plural_forms(PluralForms::from_string(plural_headers[2])); sv_check(sv_eq(e.translate("a"), k) && sv_eq(e.translate_ctxt_plural("c", "a", "as", 3), p), "a translation is returned as it is, however long"); sv_reach("sizes");
}
// long contexts and ids of telling lengths: context and id are never confused or joined
SV_ENTRY c07_sizes() {
  warm(); Dictionary d; size_t n = telling(sv_param("L", 5000), "length"); unsigned cut = sv_range(0, 3, "cut"); std::string s(n + 1, 'x'); s[n / 2] = (char)sv_u8("byte"); size_t at = cut == 0 ? 0 : cut == 1 ? n : cut == 2 ? n / 2 : n - 1; std::string c = s.substr(0, at), id = s.substr(at); d.add_translation(c, id, "in context"); d.add_translation(s, "plain");
  sv_check(d.translate_ctxt(c, id) == "in context", "a message in context is found by its context and id"); sv_check(d.translate(s) == "plain", "a message without context is found"); sv_check(sv_eq(d.translate_ctxt("", s), at == 0 ? std::string("in context") : s), "context and id are separate"); sv_check(sv_eq(d.translate_ctxt(s, ""), at == n + 1 ? std::string("in context") : std::string()), "context and id are separate"); if (at) sv_check(sv_eq(d.translate(id), id), "a message in context is not found without it"); sv_reach("sizes");
}
// one message added many times in one of three ways, others meanwhile untouched
SV_ENTRY c06_repeat() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); size_t n = telling(sv_param("N", 1100), "count"); unsigned how = sv_range(0, 3, "how"); bool ctx = sv_bool("ctx"); std::string v = sv_str(1, "value"), o = sv_str(1, "other"); d.add_translation("other", o); d.add_translation("c", "other", "others", { o, o });
  auto one = [&](unsigned kind, const std::string& x) { if (kind == 1) { std::vector<std::string> f{ x, x + "s" }; if (ctx) d.add_translation("c", "id", "ids", f); else d.add_translation("id", "ids", f); } else if (ctx) d.add_translation("c", "id", x); else d.add_translation("id", x); };
  auto at = [&](size_t i) { return how == 0 ? std::string("same") : "v" + std::to_string(i); }; for (size_t i = 0; i + 1 < n; ++i) one(how == 2 ? 1 : how == 3 ? (unsigned)(i & 1) : 0, at(i)); bool plural = sv_bool("last plural"); one(plural, "L" + v); std::string s = ctx ? d.translate_ctxt("c", "id") : d.translate("id"), p = ctx ? d.translate_ctxt_plural("c", "id", "ids", 2) : d.translate_plural("id", "ids", 2), x = ctx ? d.translate("id") : d.translate_ctxt("c", "id");
  std::vector<std::string> f; unsigned c = 0; auto take = [&](const std::string& i, const std::vector<std::string>& y) { if (i == "id") { f = y; ++c; } }; if (ctx) d.foreach_ctxt([&](const std::string&, const std::string& i, const std::vector<std::string>& y) { take(i, y); }); else d.foreach(take);
  sv_check(sv_eq(s, "L" + v), "a singular lookup gives what was added last, however often something was added"); sv_check(c == 1 && !f.empty(), "one message is stored"); if (plural) sv_check(sv_eq(p, "L" + v + "s"), "a plural lookup gives what was added last"); else sv_check(p == "ids" || f.size() > 1, "a plural lookup gives what was added last"); sv_check(x == "id", "the message exists only where it was added"); sv_check(sv_eq(d.translate("other"), o) && sv_eq(d.translate_ctxt_plural("c", "other", "others", 2), o), "other messages stay as they are"); sv_reach("repeated");
}
// lookups after every step: what was asked before never decides
SV_ENTRY c06_looked() {
  warm(); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2])); Model m; std::string a = sv_str(1, "a"), b = sv_str(1, "b"); bool missing = sv_bool("asked before"); unsigned k = (unsigned)sv_param("K", 3); auto all = [&] { for (const std::string* i : { &a, &b }) { compare(d, m, false, "", *i); compare(d, m, true, "c", *i); } }; if (missing) all();
  for (unsigned i = 0; i < k; ++i) { unsigned op = sv_range(0, 7, "op"); const std::string& id = op & 4 ? b : a; bool ctx = op & 1; std::string v = sv_bool("empty") ? std::string() : "v" + std::to_string(i); Rec& r = m.get(ctx, "c", id);
    if (op & 2) { std::vector<std::string> f{ v, "p" + std::to_string(i) }; if (ctx) d.add_translation("c", id, "PLURAL", f); else d.add_translation(id, "PLURAL", f); r.v = f; } else { if (ctx) d.add_translation("c", id, v); else d.add_translation(id, v); if (r.v.empty()) r.v.push_back(v); else r.v[0] = v; } all(); }
  enumerate(d, m); sv_reach("looked up");
}
// rules and forms that change between lookups with any one count
SV_ENTRY c05_changes() {
  warm(); static const unsigned rules[] = { 0, 2, 3, 9 }; Dictionary d, e; std::vector<std::string> f, g; int h = -1; bool ctx = sv_bool("ctx"), fb = false; int n = (int)(sv_u32("n") & 0x7fffffffu); unsigned k = (unsigned)sv_param("K", 3);
  auto pick = [&](const std::vector<std::string>& v, int rule, std::string& out) { uint32_t np, x = 0; if (rule >= 0) plural_reference(plural_headers[rule], (uint32_t)n, np, x); x = (uint32_t)sv_concretize(x); if (x < v.size() && !v[x].empty()) { out = v[x]; return true; } return false; };
  for (unsigned i = 0; i < k; ++i) { unsigned op = sv_range(0, 7, "op"); if (op < 4) { h = (int)rules[op]; d.set_plural_forms(PluralForms::from_string(plural_headers[h])); } else if (op < 6) { f.clear(); for (unsigned j = 0; j < op - 2; ++j) f.push_back("f" + std::to_string(i) + std::to_string(j)); if (ctx) d.add_translation("ctx", "id", "ids", f); else d.add_translation("id", "ids", f); } else if (op == 6) { g = { "g" + std::to_string(i) }; if (ctx) e.add_translation("ctx", "id", "ids", g); else e.add_translation("id", "ids", g); } else { fb = true; d.addFallback(&e); }
    std::string got = ask(d, ctx, n), want; bool one = n == 1; if (!pick(f, h, want) && !(fb && pick(g, -1, want))) want = one ? "id" : "ids"; sv_check(got == want, "a lookup follows the rule and the forms as they are at that moment"); }
  sv_reach("changes");
}
// a message that is asked for before and after translations and fallbacks come in
SV_ENTRY c08_changes() {
  warm(); Dictionary d, e; bool ctx = sv_bool("ctx"), fb = false; std::string id = sv_str((size_t)sv_param("L", 1), "id"), v, w; unsigned k = (unsigned)sv_param("K", 3); auto look = [&](Dictionary& x) { return ctx ? x.translate_ctxt("c", id) : x.translate(id); };
  auto add = [&](Dictionary& x, const std::string& t, bool pl) { if (pl) { std::vector<std::string> f{ t, "pl" }; if (ctx) x.add_translation("c", id, "ids", f); else x.add_translation(id, "ids", f); } else if (ctx) x.add_translation("c", id, t); else x.add_translation(id, t); };
  for (unsigned i = 0; i < k; ++i) { sv_check(sv_eq(look(d), !v.empty() ? v : fb && !w.empty() ? w : id), "a lookup gives the translation there is at that moment, or the msgid"); unsigned op = sv_range(0, 6, "op"); std::string t = op & 1 ? std::string() : "t" + std::to_string(i); if (op < 4) { add(d, t, op & 2); v = t; } else if (op < 6) { add(e, t, sv_bool("plural")); w = t; } else { d.addFallback(&e); fb = true; } }
  sv_check(sv_eq(look(d), !v.empty() ? v : fb && !w.empty() ? w : id), "a lookup gives the translation there is at that moment, or the msgid"); sv_check(sv_eq(look(e), w.empty() ? id : w), "a fallback dictionary stays what it is"); sv_reach("changes");
}
// pairs of ids that weak comparisons (sums, products with 31 or 33, case, width, normalisation, prefixes) take for equal
SV_ENTRY c06_pairs() {
  warm(); static const char* const ps[][2] = { { "Aa", "BB" }, { "AaAa", "BBBB" }, { "Ab", "BA" }, { "ab", "ba" }, { "abc", "cba" }, { "a", "A" }, { "a ", "a" }, { " a", "a" }, { "a", "a\n" }, { "a\n", "a\\n" }, { "\xc3\xa4", "a\xcc\x88" }, { "\xc3\xa4", "\xe4" }, { "a\x01", "a" }, { "%s", "%d" }, { "a.", "a" }, { "&a", "a" }, { "_a", "a" }, { "a:", "a" }, { "0", "00" }, { "1", "1.0" }, { "c|a", "a" }, { "\x80", "\xff" }, { "a\x04" "b", "ab" }, { "a\r", "a" }, { "a\t", "a " } };
  unsigned i = sv_range(0, sizeof ps / sizeof *ps - 1, "pair"), ctx = sv_range(0, 2, "context"); bool swap = sv_bool("swap"), both = sv_bool("both"), pl = sv_bool("plural"); std::string a = ps[i][swap], b = ps[i][!swap], v = sv_str(1, "value"); Dictionary d; d.set_plural_forms(PluralForms::from_string(plural_headers[2]));
  auto add = [&](const std::string& k, const std::string& t) { std::string c = ctx == 1 ? "c" : k, id = ctx == 2 ? "id" : k; if (pl) { std::vector<std::string> f{ t, t + "s" }; if (ctx) d.add_translation(c, id, id + "s", f); else d.add_translation(id, id + "s", f); } else if (ctx) d.add_translation(c, id, t); else d.add_translation(id, t); };
  auto get = [&](const std::string& k) { std::string c = ctx == 1 ? "c" : k, id = ctx == 2 ? "id" : k; std::string s = ctx ? d.translate_ctxt(c, id) : d.translate(id); if (!pl) return s; return s + "|" + (ctx ? d.translate_ctxt_plural(c, id, "none", 2) : d.translate_plural(id, "none", 2)); };
  auto want = [&](const std::string& k, const std::string* t) { std::string s = t ? *t : ctx == 2 ? std::string("id") : k; return pl ? s + "|" + (t ? *t + "s" : std::string("none")) : s; }; std::string va = "A" + v, vb = "B" + v; add(a, va); sv_check(sv_eq(get(b), want(b, nullptr)), "a message that was not added stays untranslated"); if (both) add(b, vb); sv_check(sv_eq(get(a), want(a, &va)), "ids are compared byte for byte"); sv_check(sv_eq(get(b), want(b, both ? &vb : nullptr)), "ids are compared byte for byte"); sv_reach("pairs");
}
