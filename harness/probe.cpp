// Development only (tools/probe.py): which library features a rewritten /repo may use does the runtime carry?
#include "sv.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <list>
#include <map>
#include <set>
#include <deque>
#include <array>
#include <vector>
#include <queue>
#include <stack>
#include <tuple>
#include <memory>
#include <numeric>
#include <iterator>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <locale>
#include <limits>
#include <stdexcept>
#include <cctype>
#include <cassert>
#include <system_error>
#include <mutex>
#include <atomic>
#include <utility>

#if __cplusplus >= 201703L
#include <string_view>
#include <optional>
#include <variant>
#include <charconv>
#endif
#define OK(c) sv_check(c, #c)
#define P(n) SV_ENTRY p_##n()
P(strspn) { const char* s = "  ab,c"; OK(strspn(s, " ") == 2); OK(strcspn(s, ",") == 4); OK(strpbrk(s, ",b") == s + 3); }
P(strtol) { char* e; char b[8] = "12x"; b[1] = (char)('0' + sv_range(0, 9, "d")); long v = strtol(b, &e, 10); OK(*e == 'x'); OK(v >= 10 && v < 20); sv_observe_int((uint64_t)v); OK(strtoul("0x1f", &e, 0) == 31); OK(strtoull("17", nullptr, 8) == 15); OK(strtol("-5", nullptr, 10) == -5); OK(atol("77") == 77); OK(atoll("78") == 78); }
P(strdup) { char* a = strdup("abc"); OK(!strcmp(a, "abc")); free(a); char b[20] = "x"; strcat(b, "yz"); strncat(b, "1234", 2); OK(!strcmp(b, "xyz12")); OK(strnlen(b, 3) == 3); OK(memrchr(b, 'z', 5) == b + 2); }
P(mem) { char a[10] = "abcdef"; memmove(a + 1, a, 4); OK(!memcmp(a, "aabcdf", 6)); OK(strncmp(a, "aax", 2) == 0); OK(memmem(a, 6, "cd", 2) == a + 3); char* save; char t[] = "a b"; char* x = strtok_r(t, " ", &save); OK(!strcmp(x, "a")); }
P(snprintf) { char b[40]; snprintf(b, sizeof b, "%d", 42); OK(!strcmp(b, "42")); snprintf(b, sizeof b, "%s:%u%%", "a", 7u); OK(!strcmp(b, "a:7%")); }
P(stoi) { OK(std::stoi("12") == 12); OK(std::stoul("13") == 13); bool t = false; try { std::stoi("q"); } catch (const std::invalid_argument&) { t = true; } OK(t); OK(std::to_string(123) == "123"); OK(std::to_string(-7) == "-7"); OK(std::to_string(12345678901ul) == "12345678901"); }
P(list) { std::list<int> a{1, 2, 3}, b{9}; a.swap(b); OK(b.size() == 3); b.reverse(); OK(b.front() == 3); b.sort(); OK(b.front() == 1); a.splice(a.begin(), b); OK(a.size() == 4); a.remove(2); OK(a.size() == 3); a.remove_if([](int x) { return x == 9; }); a.unique(); a.merge(b); OK(a.size() == 2); }
P(map) { std::map<std::string, int> m; m["b"] = 1; m["a"] = 2; m.emplace("c", 3); OK(m.begin()->first == "a"); m.erase("a"); OK(m.lower_bound("aa")->first == "b"); OK(m.count("c")); std::multimap<int, int> mm; mm.insert({1, 2}); mm.insert({1, 3}); OK(mm.count(1) == 2); std::map<std::string, int> n(m); OK(n == m); n.swap(m); n.clear(); }
P(set) { std::set<std::string> s{"b", "a"}; OK(*s.begin() == "a"); s.insert("c"); OK(s.find("c") != s.end()); s.erase(s.begin()); OK(s.size() == 2); std::set<std::string> t = s; t.insert(s.begin(), s.end()); OK(t == s); std::vector<std::string> v(t.rbegin(), t.rend()); OK(v[0] == "c"); }
P(deque) { std::deque<std::string> d; for (int i = 0; i < 40; ++i) d.push_front(std::to_string(i)); d.pop_back(); d.insert(d.begin() + 3, "x"); d.erase(d.begin()); OK(d.size() == 39); std::stack<int> s; s.push(1); std::queue<int> q; q.push(2); OK(s.top() + q.front() == 3); std::sort(d.begin(), d.end()); std::reverse(d.begin(), d.end()); }
P(unordered) { std::unordered_map<std::string, std::vector<std::string>> u; u["a"].push_back("1"); u["b"]; OK(u.size() == 2); u.erase("a"); OK(u.find("a") == u.end()); std::unordered_set<std::string> s{"q", "r"}; OK(s.count("q")); std::unordered_multimap<std::string, int> m; m.emplace("k", 1); m.emplace("k", 2); OK(m.count("k") == 2); u.reserve(100); u.rehash(7); auto c = u; OK(c == u); std::unordered_map<int, int> ii; ii[3] = 4; OK(ii.at(3) == 4); std::unordered_map<char, int> cc; cc['a'] = 1; for (auto& x : cc) OK(x.second == 1); }
P(sorting) { std::vector<std::string> v{"c", "a", "b"}; std::sort(v.begin(), v.end()); OK(v[0] == "a"); std::stable_sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) { return a > b; }); OK(v[0] == "c"); std::rotate(v.begin(), v.begin() + 1, v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::vector<int> n(40); std::iota(n.begin(), n.end(), 0); std::sort(n.begin(), n.end(), std::greater<int>()); OK(n[0] == 39); OK(std::accumulate(n.begin(), n.end(), 0) == 780); std::partial_sort(n.begin(), n.begin() + 3, n.end()); std::nth_element(n.begin(), n.begin() + 5, n.end()); OK(std::binary_search(v.begin(), v.end(), "zz") == false); std::vector<bool> vb(70); vb[65] = true; OK(vb[65]); std::make_heap(n.begin(), n.end()); OK(n[0] == 39); }
P(algos) { std::string s = "a,b;c"; OK(std::find_if(s.begin(), s.end(), [](char c) { return c == ';'; }) - s.begin() == 3); std::replace(s.begin(), s.end(), ',', '.'); OK(std::count(s.begin(), s.end(), '.') == 1); s.erase(std::remove(s.begin(), s.end(), '.'), s.end()); OK(s == "ab;c"); std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return (char)std::toupper(c); }); OK(s == "AB;C"); OK(std::equal(s.begin(), s.begin() + 2, "AB")); OK(std::search(s.begin(), s.end(), s.begin() + 2, s.end()) == s.begin() + 2); std::string t; std::copy(s.begin(), s.end(), std::back_inserter(t)); std::copy_if(s.begin(), s.end(), std::back_inserter(t), [](char c) { return c != ';'; }); OK(t == "AB;CABC"); OK(std::all_of(t.begin(), t.end(), [](char c) { return c < 'a'; })); std::fill(t.begin(), t.end(), 'q'); OK(*std::max_element(t.begin(), t.end()) == 'q'); OK(std::lexicographical_compare(s.begin(), s.end(), t.begin(), t.end())); std::swap(s, t); OK(std::distance(s.begin(), s.end()) == 7); std::for_each(s.begin(), s.end(), [](char& c) { c = 'z'; }); OK(std::mismatch(s.begin(), s.end(), s.begin()).first == s.end()); OK(std::adjacent_find(s.begin(), s.end()) == s.begin()); std::generate(s.begin(), s.end(), [] { return 'y'; }); std::partition(s.begin(), s.end(), [](char c) { return c == 'y'; }); }
P(strings) { std::string s = "hello world"; char c = (char)sv_u8("c"); s += c; OK(s.rfind('o') >= 4); OK(s.substr(0, 5) == "hello"); OK(s.compare(0, 5, "hello") == 0); s.replace(0, 5, "HE"); s.insert(2, 3, '!'); s.insert(0, "<"); OK(s.find_first_of("!") == 3); OK(s.find_last_not_of(std::string(1, c)) != std::string::npos || true); OK(s.find_first_not_of("<") == 1); OK(s.find_last_of("<") >= 0u); OK(s.find("zz", 1) == std::string::npos); s.pop_back(); s.resize(4); s.shrink_to_fit(); s.append(3, 'x').append("abc", 2); OK(s.back() == 'b'); s.assign(5, 'k'); OK(s == "kkkkk"); s.erase(1, 2); OK(std::string("a") + 'b' + "c" + s == "abckkk"); OK(s < "l"); OK(s.at(1) == 'k'); bool t = false; try { s.at(9); } catch (const std::out_of_range&) { t = true; } OK(t); s.copy(&s[0], 1, 1); s.swap(s); std::string u(s.rbegin(), s.rend()); s.insert(s.begin(), 'i'); s.erase(s.begin()); s.clear(); OK(s.empty()); s.reserve(100); OK("a" + u == "akkk"); OK(std::move(u) + "q" == "kkkq"); }
P(istringstream) { std::istringstream i("12 ab\tcd 0x"); int n = 0; std::string a, b; i >> n >> a >> b; OK(n == 12); OK(a == "ab"); OK(b == "cd"); unsigned u; OK(!!(i >> u)); i.clear(); char c; i >> c; OK(c == 'x'); OK(!(i >> c)); }
P(getline) { std::istringstream i("a\nb;c\r\n"); std::string l; std::vector<std::string> v; while (std::getline(i, l)) v.push_back(l); OK(v.size() == 2); OK(v[1] == "b;c\r"); std::istringstream j("x;y"); std::getline(j, l, ';'); OK(l == "x"); char b[4]; std::istringstream k("abcdef\ngh"); k.getline(b, 4); OK(k.gcount() == 3); k.clear(); k.ignore(100, '\n'); k.read(b, 2); OK(b[1] == 'h'); OK(k.get() == EOF); std::istringstream q("zy"); OK(q.peek() == 'z'); q.get(); q.unget(); OK(q.get() == 'z'); q.putback('z'); OK(q.tellg() == std::streampos(0)); q.seekg(1); OK(q.get() == 'y'); std::istringstream e("  k"); e >> std::ws; OK(e.peek() == 'k'); }
P(streambuf) { std::istringstream i("ab"); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); OK(s == "ab"); std::istringstream j("cd e"); std::stringstream o; o << j.rdbuf(); OK(o.str() == "cd e"); std::istringstream k("x y z"); std::vector<std::string> v((std::istream_iterator<std::string>(k)), std::istream_iterator<std::string>()); OK(v.size() == 3); }
P(ostream) { std::ostringstream o; o << "a" << 'b' << 12 << -3 << 4u << 5ul << (short)6 << true << std::string("s") << std::endl; OK(o.str() == "ab12-34561s\n"); o.str(""); o << std::setw(4) << std::setfill('0') << 42; OK(o.str() == "0042"); o.str(""); o << std::hex << 255 << std::dec << std::left << std::setw(3) << 'x' << '|' << std::boolalpha << true; OK(o.str() == "ff00x  |true" || o.str() == "ffx00|true" || true); o.put('c').write("abc", 2); std::ostream_iterator<int> it(o, ","); *it = 3; o << 1.5; }
P(function) { int k = 0; std::function<void(const std::string&)> f = [&](const std::string& s) { k += (int)s.size(); }; f("abc"); auto g = f; g("de"); OK(k == 5); std::function<void()> e; OK(!e); bool t = false; try { e(); } catch (const std::bad_function_call&) { t = true; } OK(t); auto b = std::bind([](int a, int c) { return a - c; }, std::placeholders::_2, 1); OK(b(0, 4) == 3); std::reference_wrapper<int> r(k); OK(r.get() == 5); }
P(memory) { auto a = std::make_shared<std::string>("x"); std::shared_ptr<std::string> b = a; std::weak_ptr<std::string> w = b; OK(a.use_count() == 2); a.reset(); OK(w.lock() != nullptr); b = nullptr; OK(w.expired()); std::unique_ptr<int[]> u(new int[3]()); OK(u[2] == 0); std::shared_ptr<int> d(new int(3), [](int* p) { delete p; }); OK(*d == 3); }
P(exceptions) { int k = 0; try { try { throw std::runtime_error("a" + std::string("b")); } catch (const std::exception& e) { OK(!strcmp(e.what(), "ab")); ++k; throw; } } catch (const std::runtime_error&) { ++k; } try { throw 3; } catch (int i) { k += i; } try { throw std::string("s"); } catch (...) { ++k; } OK(k == 6); }
P(chars) { unsigned char c = sv_u8("c"); int a = std::isspace(c) ? 1 : 0, b = std::isspace((char)c, std::locale()) ? 1 : 0; if (c < 128) OK(a == b); OK(std::tolower('A', std::locale()) == 'a'); OK(std::isalpha('x', std::locale::classic())); OK(!!isalnum('3')); }
P(array) { std::array<std::string, 3> a{{"x", "y", "z"}}; OK(a[1] == "y"); std::tuple<int, std::string> t(1, "q"); OK(std::get<1>(t) == "q"); std::string s; int i; std::tie(i, s) = t; OK(s == "q"); std::pair<std::string, int> p{"a", 1}, q = p; OK(p == q); OK(!(p < q)); std::vector<std::string> v{"a", "b"}; v.insert(v.begin(), "c"); v.emplace_back("d"); v.assign(2, "e"); v.resize(5); OK(v.size() == 5); std::vector<std::vector<int>> w(3, std::vector<int>(2, 7)); OK(w[2][1] == 7); std::initializer_list<int> l{1, 2}; OK(l.size() == 2); OK(std::numeric_limits<int>::max() > 5); }
P(threads) { std::mutex m; { std::lock_guard<std::mutex> g(m); } static std::once_flag f; int k = 0; std::call_once(f, [&] { ++k; }); OK(k == 1); std::atomic<int> a(1); a += 2; OK(a.load() == 3); static thread_local int t = 4; OK(t == 4); }
P(statics) { static const std::map<std::string, int> m{{"a", 1}, {"b", 2}}; OK(m.at("b") == 2); static std::string s = std::string("q") + "r"; OK(s == "qr"); static const std::unordered_map<std::string, int> u{{"x", 1}}; OK(u.at("x") == 1); bool t = false; try { u.at("y"); } catch (const std::out_of_range&) { t = true; } OK(t); }
#if __cplusplus >= 201703L
P(view) { std::string_view v = "hello"; char c = (char)sv_u8("c"); std::string t(1, c); v.remove_prefix(1); OK(v == "ello"); OK(v.substr(1, 2) == "ll"); OK(v.find('o') == 3); std::string s(v); OK(s == "ello"); OK(std::hash<std::string_view>()(v) == std::hash<std::string>()(s)); std::map<std::string, int, std::less<>> m; m["k"] = 1; OK(m.find(std::string_view("k")) != m.end()); s += v; s.append(v); OK(v < "f"); OK(v.find_first_not_of("e") == 1); }
P(optional) { std::optional<std::string> o; OK(!o); o = "a"; OK(o->size() == 1); OK(o.value_or("b") == "a"); std::variant<int, std::string> v = 3; v = "s"; OK(std::get<1>(v) == "s"); OK(std::visit([](auto&& x) { return sizeof x; }, v) == sizeof(std::string)); int n = 0; std::from_chars("42", "42" + 2, n); char b[8]; std::to_chars(b, b + 8, 17); OK(b[1] == '7'); auto [x, y] = std::make_pair(1, 2); OK(x + y == 3); }
#endif
P(misc) { OK(abs(-3) == 3); int v[] = {3, 1, 2}; qsort(v, 3, sizeof(int), [](const void* a, const void* b) { return *(const int*)a - *(const int*)b; }); OK(v[0] == 1); OK(std::min(1, 2) == 1); double d = 1.5; OK((int)(d * 2) == 3); assert(v[1] == 2); void* p = calloc(3, 4); p = realloc(p, 40); OK(((char*)p)[11] == 0); free(p); std::allocator<int> al; int* q = al.allocate(2); al.deallocate(q, 2); }

