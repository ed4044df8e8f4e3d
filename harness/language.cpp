// C10 matching and resolution, C11 locale strings, C12 names and aliases, C25 language values
#include "common.hpp"
#include "iconv_model.hpp"
#include <set>
#include <unordered_set>
struct Spec { const char *l, *c, *m; };
static const Spec known[] = {
#include "languages.inc"
};
static const unsigned NK = sizeof known / sizeof *known;
struct Alias { const char *name, *spec; };
static const Alias aliases[] = {
#include "aliases.inc"
};
static const unsigned NA = sizeof aliases / sizeof *aliases;
static void warm() { quiet(); Language::from_name("x"); Language::from_spec("x"); }
static std::string spec_str(const Spec& s) { std::string r = s.l; if (*s.c) r += std::string("_") + s.c; if (*s.m) r += std::string("@") + s.m; return r; }
static Language lang(unsigned i) { return Language::from_spec(known[i].l, known[i].c, known[i].m); }
// the documented ranking: country equal / unspecified / different, then modifier equal / unspecified / different
static int rank3(const std::string& a, const std::string& b) { return a == b ? 0 : a.empty() || b.empty() ? 1 : 2; }
static const int table[3][3] = { { 9, 8, 5 }, { 7, 6, 3 }, { 4, 2, 1 } };
static int score(const std::string& c1, const std::string& m1, const std::string& c2, const std::string& m2) { return table[rank3(c1, c2)][rank3(m1, m2)]; }
static std::string nonul(size_t n, const char* name) { std::string s = sv_str(n, name); for (char c : s) sv_assume(c != 0); return s; }
// index of the first known language of each distinct code
static std::vector<unsigned> code_starts() { std::vector<unsigned> v; std::set<std::string> seen; for (unsigned i = 0; i < NK; ++i) if (seen.insert(known[i].l).second) v.push_back(i); return v; }
static bool is_code(const std::string& s) { for (const Spec& k : known) if (s == k.l) return true; return false; }

// ---- C10
// every pair of known languages
SV_ENTRY c10_match() {
  warm(); unsigned i = sv_range(0, NK - 1, "i"), j = sv_range(0, NK - 1, "j"); Language a = lang(i), b = lang(j); int s = Language::match(a, b);
  bool same = std::string(known[i].l) == known[j].l; int want = same ? score(known[i].c, known[i].m, known[j].c, known[j].m) : 0;
  sv_check(s == want, "the match score ranks country and modifier as documented and is 0 for different languages"); sv_check(Language::match(b, a) == s, "matching is symmetric");
  if (i == j) sv_reach("self"); else if (same) sv_reach("variants");
}
static std::string part(unsigned code, bool country, unsigned maxlen) { // any short string, or a part some language of this code (or "ZZ") has, with one arbitrary byte
  unsigned how = sv_range(0, 2, "how"); if (how == 0) { size_t n = sv_range(0, maxlen, "len"); return nonul(n, "part"); }
  std::vector<std::string> pool; std::set<std::string> seen; for (const Spec& k : known) if (std::string(k.l) == known[code].l) { std::string p = country ? k.c : k.m; if (!p.empty() && seen.insert(p).second) pool.push_back(p); }
  pool.push_back(country ? "ZZ" : "unknown"); std::string p = pool[sv_range(0, (uint32_t)pool.size() - 1, "which")];
  if (how == 2) { p[sv_range(0, (uint32_t)p.size() - 1, "at")] = nonul(1, "byte")[0]; } return p;
}
static void resolve_check(const std::string& l, const std::string& c, const std::string& m, const Language& r) {
  int best = 0; for (const Spec& k : known) if (l == k.l) { int s = score(k.c, k.m, c, m); if (s > best) best = s; }
  if (!best) { sv_check(!r || r.get_language() == l, "an unknown language code is never resolved to another language"); return; }
  sv_check((bool)r, "a known language code always resolves"); if (!r) return;
  sv_check(r.get_language() == l, "resolution keeps the language code");
  sv_check(score(r.get_country(), r.get_modifier(), c, m) >= best, "resolution picks a variant with the best score");
  sv_check(Language::from_env(r.str()) == r, "the resolved language is a known one");
}
SV_ENTRY c10_resolve() {
  warm(); std::vector<unsigned> st = code_starts(); unsigned code = st[sv_range(0, (uint32_t)st.size() - 1, "code")]; unsigned L = (unsigned)sv_param("L", 2);
  std::string c = part(code, true, L), m = part(code, false, L); Language r = Language::from_spec(known[code].l, c, m);
  resolve_check(known[code].l, c, m, r); sv_reach("resolved"); if (r) sv_obs(r.str());
}
SV_ENTRY c10_unknown() {
  warm(); std::string l = sv_str_upto(0, (size_t)sv_param("L", 3), "code"); unsigned v = sv_range(0, 3, "variant"); std::string c = v & 1 ? "DE" : "", m = v & 2 ? "latin" : ""; Language r = Language::from_spec(l, c, m);
  bool kn = is_code(l); if (kn) { sv_check((bool)r && r.get_language() == l, "a known code resolves to that language"); sv_reach("known"); } else { sv_check(!r || r.get_language() == l, "an unknown code is undefined"); if (!r) { sv_check(r.str().empty() && r == Language(), "an unknown code gives the undefined language"); sv_reach("unknown"); } }
}
SV_ENTRY c10_self() {
  warm(); unsigned i = sv_range(0, NK - 1, "i"); const Spec& k = known[i]; Language a = lang(i); sv_check((bool)a && a.get_language() == k.l && a.get_country() == k.c && a.get_modifier() == k.m, "every known language resolves from its own parts to itself");
  sv_check(a.str() == spec_str(k), "str() is language, country, modifier"); sv_check(Language::from_env(a.str()) == a && Language::from_name(a.str()) == a, "every known language resolves from its own str() to itself");
  sv_check(Language::from_env(std::string(k.l) + (*k.c ? "_" : "") + k.c + ".UTF-8" + (*k.m ? "@" : "") + k.m) == a, "a codeset does not change the result"); sv_obs(a.str()); sv_reach("self");
}
// one request after another: of the same code with any of its countries and modifiers, or of another code
SV_ENTRY c10_history() {
  warm(); std::vector<unsigned> st = code_starts(); unsigned at = sv_range(0, (uint32_t)st.size() - 1, "code"), code = st[at]; std::vector<std::string> pc{ "", "ZZ" }, pm{ "", "unknown" }; std::set<std::string> seen; for (const Spec& k : known) if (std::string(k.l) == known[code].l) { if (*k.c && seen.insert(k.c).second) pc.push_back(k.c); if (*k.m && seen.insert(std::string("@") + k.m).second) pm.push_back(k.m); }
  std::string l1 = known[code].l, l2 = l1, c1 = pc[sv_range(0, (uint32_t)pc.size() - 1, "country")], m1 = pm[sv_range(0, (uint32_t)pm.size() - 1, "modifier")], c2, m2; unsigned how = sv_range(0, 3, "second");
  if (how == 0) { c2 = pc[sv_range(0, (uint32_t)pc.size() - 1, "country")]; m2 = pm[sv_range(0, (uint32_t)pm.size() - 1, "modifier")]; } else if (how == 1) { c2 = m1; m2 = c1; } else if (how == 2) { l2 = known[st[(at + 1 + 11 * sv_range(0, 3, "other")) % st.size()]].l; c2 = c1; m2 = m1; } else { l2 = l1 + sv_str(1, "byte"); c2 = c1; m2 = m1; }
  bool env = how < 3 && sv_bool("locale string"); auto get = [&](const std::string& l, const std::string& c, const std::string& m) { return env ? Language::from_env(l + (c.empty() ? "" : "_" + c) + (m.empty() ? "" : "@" + m)) : Language::from_spec(l, c, m); }; Language a = get(l1, c1, m1), b = get(l2, c2, m2); resolve_check(l1, c1, m1, a); resolve_check(l2, c2, m2, b); Language a2 = get(l1, c1, m1); sv_check(a2 == a, "the same request gives the same language again"); sv_reach("history");
}
// ---- C11
struct Parts { std::string l, c, m; };
static Parts split(const std::string& s) { // LANG[_COUNTRY][.CODESET][@MODIFIER], read left to right
  Parts p; size_t i = 0, n = s.size(); while (i < n && s[i] != '_' && s[i] != '.' && s[i] != '@') p.l += s[i++];
  if (i < n && s[i] == '_') { ++i; while (i < n && s[i] != '.' && s[i] != '@') p.c += s[i++]; }
  while (i < n && s[i] != '@') ++i; if (i < n) p.m = s.substr(i + 1);
  return p;
}
static void env_check(const std::string& s) {
  for (char c : s) sv_assume(c != 0);
  Language r = Language::from_env(s); Parts p = split(s); Language w = Language::from_spec(p.l, p.c, p.m);
  sv_check(r == w, "a locale string splits into language, country and modifier"); if (r) { resolve_check(p.l, p.c, p.m, r); sv_reach("defined"); } else sv_reach("undefined");
}
SV_ENTRY c11_any() {
  warm(); static const char* pre[] = { "", "de", "sr", "sr_RS", "pt_", "ca_ES@", "sr.", "sr_ME.UTF-8", "zh_CN@a" }; std::string s = pre[sv_range(0, 8, "prefix")]; s += sv_str_upto(0, (size_t)sv_param("N", 4), "rest"); env_check(s);
}
SV_ENTRY c11_window() { // full locale strings with K bytes replaced, inserted or removed anywhere
  warm(); static const char* base[] = { "sr_RS.UTF-8@latin", "de_DE.ISO_8859_1", "de@a_b.c", "pt_BR", "en.UTF-8", "ca_ES.UTF-8@valencia", "_DE", ".@_", "sr_RS@ije.latin", "zh_TW.Big5@x@y" };
  std::string s = base[sv_range(0, 9, "base")]; unsigned k = (unsigned)sv_param("K", 1), op = sv_range(0, 2, "op"); size_t at = sv_range(0, (uint32_t)s.size(), "at");
  std::string t = s.substr(0, at); if (op != 2) t += sv_str(k, "bytes"); size_t from = at + (op == 1 ? 0 : k); if (from < s.size()) t += s.substr(from); env_check(t);
}
SV_ENTRY c11_long() { // long parts
  warm(); static const unsigned lens[] = { 0, 1, 15, 16, 31, 300 }; std::string s = "sr"; unsigned shape = sv_range(0, 15, "shape"); char b = (char)sv_u8("byte");
  if (shape & 1) s += "_" + std::string(lens[sv_range(0, 5, "country")], 'R') + b; if (shape & 2) s += "." + std::string(lens[sv_range(0, 5, "codeset")], 'u'); if (shape & 4) s += std::string("@") + b + std::string(lens[sv_range(0, 5, "modifier")], 'm'); if (shape & 8) s += b; env_check(s);
}
// ---- C12
static std::string lower(std::string s) { for (char& c : s) { bool up = sv_and(c >= 'A', c <= 'Z'); c = (char)sv_select32(up, (uint32_t)(unsigned char)(c + 32), (uint32_t)(unsigned char)c); } return s; }
SV_ENTRY c12_case() { // every alias with every letter in either case
  warm(); unsigned a = sv_range(0, NA - 1, "alias"); std::string n = aliases[a].name, s = sv_str(n.size(), "name");
  for (size_t i = 0; i < n.size(); ++i) { bool ok = n[i] >= 'a' && n[i] <= 'z' ? sv_or(s[i] == n[i], s[i] == (char)(n[i] - 32)) : s[i] == n[i]; sv_assume(ok); }
  Language r = Language::from_name(s); sv_check((bool)r && r.str() == aliases[a].spec, "an alias resolves to its language in every combination of upper and lower case"); sv_reach("alias");
}
static void nonalias(const std::string& s) {
  for (char c : s) sv_assume(c != 0); std::string l = lower(s); for (const Alias& a : aliases) { std::string n = a.name; if (n.size() == l.size()) sv_assume(!sv_eq(l, n)); }
  sv_check(Language::from_name(s) == Language::from_env(s), "a name that is not an alias is interpreted as a locale string, unchanged"); sv_reach("locale string");
}
SV_ENTRY c12_other() { warm(); static const char* pre[] = { "", "de_D", "PT_", "sr_RS@", "fr.", "germa", "DEUTSC", "japanese." }; std::string s = pre[sv_range(0, 7, "prefix")]; s += sv_str_upto(0, (size_t)sv_param("N", 3), "rest");
  if (s == "no_NO" || s == "ja_JP" || s == "ko_KR") return; nonalias(s); }
SV_ENTRY c12_near() { // an alias with one byte replaced, inserted or removed
  warm(); unsigned a = sv_range(0, NA - 1, "alias"), op = sv_range(0, 3, "op"); std::string s = aliases[a].name; size_t at = sv_range(0, (uint32_t)s.size(), "at"); std::string b = sv_str(1, "byte");
  std::string t = op == 0 ? s.substr(0, at) + b + s.substr(at) : op == 1 ? s.substr(0, at) + (at < s.size() ? b + s.substr(at + 1) : "") : op == 2 ? s.substr(0, at) + (at < s.size() ? s.substr(at + 1) : "") : s + b + "x"; nonalias(t);
}
SV_ENTRY c12_locale() { // every known language by its own str(), its code's case kept
  warm(); unsigned i = sv_range(0, NK - 1, "i"); std::string s = spec_str(known[i]); static const char* suf[] = { "", ".UTF-8" }; if (!*known[i].m) s += suf[sv_range(0, 1, "codeset")]; Language r = Language::from_name(s); sv_check((bool)r && r.str() == spec_str(known[i]), "a locale string given as a name resolves to that language"); sv_reach("locale");
}
// ---- C25
static void pair_check(const Language& a, const Language& b) {
  bool same = a.get_language() == b.get_language() && a.get_country() == b.get_country() && a.get_modifier() == b.get_modifier();
  sv_check((a == b) == same, "equal exactly when language, country and modifier are the same"); sv_check((a != b) == !same, "inequality is the negation of equality"); sv_check((b == a) == same, "equality is symmetric");
  bool lt = a < b, gt = b < a; sv_check((lt ? 1 : 0) + (gt ? 1 : 0) + (same ? 1 : 0) == 1, "exactly one of less, equal, greater");
  if (same) sv_check(Language_hash()(a) == Language_hash()(b), "equal languages hash equally");
  sv_check((a.str() == b.str()) == same, "distinct languages have distinct str()");
  std::set<Language> s; s.insert(a); s.insert(b); s.insert(a); sv_check(s.size() == (same ? 1u : 2u) && s.count(a) == 1 && s.count(b) == 1, "a set neither loses nor duplicates languages");
  std::unordered_set<Language, Language_hash> u; u.insert(a); u.insert(b); u.insert(a); sv_check(u.size() == (same ? 1u : 2u) && u.count(a) == 1 && u.count(b) == 1, "a hash set neither loses nor duplicates languages");
}
static void value_check(const Language& a) {
  std::string w = a.get_language(); if (!a.get_country().empty()) w += "_" + a.get_country(); if (!a.get_modifier().empty()) w += "@" + a.get_modifier(); sv_check(a.str() == w, "str() is language, _country, @modifier");
  sv_check((bool)a == !a.get_language().empty(), "a language is undefined exactly when it has no code"); if (!a) { sv_check(a.get_name().empty() && a.get_localized_name().empty() && a.str().empty() && a.get_country().empty() && a.get_modifier().empty() && a == Language(), "an undefined language has empty parts, name and string"); sv_reach("undefined"); }
  else { sv_check(!a.get_name().empty() && !a.get_localized_name().empty() && a != Language(), "a defined language has a name"); }
}
static Language any(unsigned code, unsigned L) { unsigned k = sv_range(0, 3, "kind"); if (k == 0) return Language(); if (k == 1) { std::string s = nonul(2, "unknown"); return Language::from_env(s); } std::string c = part(code, true, L), m = k == 2 ? std::string() : part(code, false, L); return Language::from_spec(known[code].l, c, m); }
SV_ENTRY c25_pairs() { warm(); unsigned i = sv_range(0, NK, "i"), j = sv_range(0, NK, "j"); Language a = i < NK ? lang(i) : Language(), b = j < NK ? lang(j) : Language::from_env("zz_ZZ"); pair_check(a, b); if (i < NK && j < NK) sv_check((a == b) == (i == j), "different known languages differ"); if (i == j) value_check(a); sv_reach("pair"); }
SV_ENTRY c25_requests() { // languages obtained from arbitrary requests
  warm(); static const char* codes[] = { "sr", "pt", "de", "ca", "zh", "en" }; unsigned L = (unsigned)sv_param("L", 2); const char* cc = codes[sv_range(0, (uint32_t)sv_param("CODES", 4) - 1, "code")]; unsigned code = 0; while (std::string(known[code].l) != cc) ++code;
  Language a = any(code, L); unsigned k = sv_range(0, 2, "other"); Language b = k == 0 ? Language::from_env(a.str()) : k == 1 ? Language::from_spec(cc, nonul(2, "country")) : Language::from_spec("fr", "FR"); value_check(a); value_check(b); pair_check(a, b); if (k == 0) sv_check(a == b, "a language resolves from its own str()"); sv_reach("requests");
}
SV_ENTRY c25_order() { // transitivity and all containers at once
  warm(); unsigned i = sv_range(0, NK - 1, "i"); Language a = lang(i); std::set<Language> all; std::unordered_set<Language, Language_hash> un; for (unsigned k = 0; k < NK; ++k) { all.insert(lang((k * 97 + i) % NK)); un.insert(lang(k)); } sv_check(all.size() == NK && un.size() == NK, "a set of all known languages holds every one of them");
  Language prev; bool ok = true, first = true; for (const Language& x : all) { if (!first && !(prev < x)) ok = false; bool lt = a < x; (void)lt; prev = x; first = false; } sv_check(ok, "ordering is transitive over all known languages"); bool below = true; for (const Language& x : all) { if (x == a) { below = false; continue; } if (below ? !(x < a) : !(a < x)) ok = false; } sv_check(ok, "ordering agrees with the order of the whole set"); sv_reach("order");
}
// known countries and modifiers with anything added to, inserted in or cut off from them
SV_ENTRY c10_near() {
  warm(); std::vector<unsigned> st = code_starts(); unsigned code = st[sv_range(0, (uint32_t)st.size() - 1, "code")]; std::vector<Spec> pool; for (const Spec& k : known) if (std::string(k.l) == known[code].l && (*k.c || *k.m)) pool.push_back(k); if (pool.empty()) return; Spec k = pool[sv_range(0, (uint32_t)pool.size() - 1, "variant")]; std::string c = k.c, m = k.m; std::string& x = !*k.c || (*k.m && sv_bool("modifier")) ? m : c; unsigned how = sv_range(0, 3, "how");
  if (how == 0) x += nonul(1, "byte"); else if (how == 1) { size_t at = sv_range(0, (uint32_t)x.size() - 1, "at"); x.insert(at, nonul(1, "byte")); } else if (how == 2) x.resize(sv_range(0, (uint32_t)x.size() - 1, "cut")); else x += x; Language r = Language::from_spec(known[code].l, c, m); resolve_check(known[code].l, c, m, r); sv_reach("resolved"); if (how == 2) return; Language y = Language::from_env(std::string(known[code].l) + (c.empty() ? "" : "_") + (sv_bool("codeset") ? c + ".UTF-8" : c) + (m.empty() ? "" : "@") + m); if (c.find_first_of(".@") == std::string::npos) sv_check(y == r, "a locale string resolves like its parts");
}
// alias lookups one after the other: each like the only one
SV_ENTRY c12_history() {
  warm(); unsigned i = sv_range(0, NA - 1, "first"), j = sv_range(0, NA - 1, "second"); Language a = Language::from_name(aliases[i].name), b = Language::from_name(aliases[j].name), c = Language::from_name("deutschland"), e = Language::from_name("th"); sv_check(a == Language::from_env(aliases[i].spec) && b == Language::from_env(aliases[j].spec), "an alias gives its locale whatever was looked up before"); sv_check(!c && e == Language::from_env("th"), "other names give what they give whatever was looked up before"); std::string n = aliases[i].name; unsigned how = sv_range(0, 5, "near"); if (how == 0) n.pop_back(); else if (how == 1) n += "e"; else if (how == 2) n += ".UTF-8"; else if (how == 3) n = n.substr(1); else if (how == 4) n[n.size() / 2] = (char)(n[n.size() / 2] ^ 1); else n += "_XX"; if (j != (i + 1 + how) % NA) return; bool alias = false; for (const Alias& x : aliases) if (n == x.name) alias = true; Language::from_name(aliases[i].name); Language near = Language::from_name(n); if (!alias) sv_check(near == Language::from_env(n), "a name near an alias is read as a locale string whatever was looked up before"); sv_reach("history");
}
// long names
SV_ENTRY c12_long() {
  warm(); unsigned i = sv_range(0, NA - 1, "alias"); size_t n = telling(sv_param("L", 1100), "length"); unsigned how = sv_range(0, 2, "how"); std::string s = aliases[i].name, x(n, how == 0 ? 'x' : how == 1 ? ' ' : 'e'); x[n / 2] = nonul(1, "byte")[0]; s = sv_bool("before") ? x + s : s + x; sv_check(Language::from_name(s) == Language::from_env(s), "a name that is not an alias is read as a locale string"); sv_reach("locale string");
}
