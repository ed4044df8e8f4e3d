// The part of libstdc++.so / libc that the library needs, in source form, so that it can be
// executed symbolically together with the real tinygettext sources and the real libstdc++ headers.
// (-fno-access-control -fno-builtin)
#define _GLIBCXX_USE_CXX11_ABI 1
#define __NO_INLINE__ 1
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0 // so that members can be specialised
#include <string>
#include <streambuf>
#include <istream>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <new>
#include <locale>
#include <typeinfo>
#include <unordered_map>
#include <map>
#include <list>
#include <bits/functexcept.h>
#undef __USE_EXTERN_INLINES
#include <ext/stdio_filebuf.h>
#include <cstdarg>
#include <functional>
#include <memory>
#include <pthread.h>
#include <mutex>
#include <optional>
#include <variant>

// ---------------------------------------------------------------- libc
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (b[i] == (unsigned char)c) return (void*)(b + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
// "C" locale classification, without branches; a harness may put another locale into force (sv_locale): one that has
// arbitrary classes and letter cases for one byte of 0x80..0xff, and its own upper case of i and lower case of I
uint32_t sv_select32(bool, uint32_t, uint32_t);
struct SvLocale { int on; unsigned x, space, alpha, upper, lower, up, low, ui, li; } sv_loc;
void sv_locale(int on, unsigned x, unsigned space, unsigned alpha, unsigned upper, unsigned lower, unsigned up, unsigned low, unsigned ui, unsigned li) { sv_loc = { on, x, space, alpha, upper, lower, up, low, ui, li }; }
static inline int sv_is(int c, unsigned flag) { return sv_loc.on ? (((unsigned)c & 255u) == sv_loc.x) & (int)flag : 0; }
static inline int sv_isupper(int c) { return (unsigned)(c - 'A') <= 25u; }
static inline int sv_islower(int c) { return (unsigned)(c - 'a') <= 25u; }
static inline int sv_isalpha(int c) { return (unsigned)((c | 32) - 'a') <= 25u; }
int isspace(int c) { return ((c == ' ') | ((unsigned)(c - 9) <= 4u)) | sv_is(c, sv_loc.space); }
int isblank(int c) { return ((c == ' ') | (c == '\t')) | sv_is(c, sv_loc.space); }
int isdigit(int c) { return (unsigned)(c - '0') <= 9u; }
int isupper(int c) { return sv_isupper(c) | sv_is(c, sv_loc.upper); }
int islower(int c) { return sv_islower(c) | sv_is(c, sv_loc.lower); }
int isalpha(int c) { return sv_isalpha(c) | sv_is(c, sv_loc.alpha); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return ((unsigned)(c - 32) <= 94u) | sv_is(c, 1u ^ sv_loc.space) | sv_is(c, sv_loc.alpha); }
int isgraph(int c) { return ((unsigned)(c - 33) <= 93u) | sv_is(c, sv_loc.alpha); }
int iscntrl(int c) { return ((unsigned)c <= 31u) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') <= 5u); }
static inline int sv_tolower(int c) { return c + (sv_isupper(c) << 5); }
static inline int sv_toupper(int c) { return c - (sv_islower(c) << 5); }
int tolower(int c) { int r = sv_tolower(c); if (sv_loc.on) { r = (int)sv_select32(c == 'I', sv_loc.li, (uint32_t)r); r = (int)sv_select32(((unsigned)c & 255u) == sv_loc.x, sv_loc.low, (uint32_t)r); } return r; }
int toupper(int c) { int r = sv_toupper(c); if (sv_loc.on) { r = (int)sv_select32(c == 'i', sv_loc.ui, (uint32_t)r); r = (int)sv_select32(((unsigned)c & 255u) == sv_loc.x, sv_loc.up, (uint32_t)r); } return r; }
// strtol and friends: saturating, errno as in libc
int* __errno_location() noexcept;
static unsigned long sv_strtoul(const char* s, char** end, int base, bool* negp, bool* over) {
  const char* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false; *over = false;
  for (;; ++p) { unsigned c = (unsigned char)*p, d; if (isdigit((int)c)) d = c - '0'; else if (isalpha((int)c)) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true; if (v > (~0ul - d) / (unsigned)base) *over = true; else v = v * (unsigned)base + d; }
  if (end) *end = (char*)(any ? p : s); *negp = neg; return v;
}
unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long v = sv_strtoul(s, e, b, &n, &o); if (o) { *__errno_location() = 34; return ~0ul; } return n ? 0ul - v : v; }
long strtol(const char* s, char** e, int b) { bool n, o; unsigned long v = sv_strtoul(s, e, b, &n, &o), lim = n ? 1ul << 63 : ~0ul >> 1; if (o || v > lim) { *__errno_location() = 34; v = lim; } return (long)(n ? 0ul - v : v); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
// <stdlib.h> renames strtol to __isoc23_strtol; callers compiled otherwise use the plain names
#define PLAIN(R, n) R plain_##n(const char* s, char** e, int b) __asm__(#n); R plain_##n(const char* s, char** e, int b) { return n(s, e, b); }
PLAIN(long, strtol) PLAIN(unsigned long, strtoul) PLAIN(long long, strtoll) PLAIN(unsigned long long, strtoull)
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
long long atoll(const char* s) { return strtol(s, nullptr, 10); }
static bool sv_in(char c, const char* set) { for (; *set; ++set) if (*set == c) return true; return false; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && sv_in(s[n], set)) ++n; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !sv_in(s[n], set)) ++n; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : nullptr; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); for (; n && *s; --n) *p++ = *s++; *p = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s++)) ++d; return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); for (size_t i = 0; i < n; ++i) p[i] = s[i]; return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) ++s; return (char*)s; }
void* rawmemchr(const void* p, int c) { const unsigned char* b = (const unsigned char*)p; while (*b != (unsigned char)c) ++b; return (void*)b; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; while (n--) if (b[n] == (unsigned char)c) return (void*)(b + n); return nullptr; }
int memcmp(const void*, const void*, size_t);
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { for (size_t i = 0; i + nn <= hn; ++i) if (!memcmp((const char*)h + i, n, nn)) return (char*)h + i; return nullptr; }
int strncasecmp(const char*, const char*, size_t);
char* strcasestr(const char* h, const char* n) { size_t k = strlen(n); for (;; ++h) { if (!strncasecmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* strtok_r(char* s, const char* d, char** save) { if (!s) s = *save; s += strspn(s, d); if (!*s) { *save = s; return nullptr; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *save = e + 1; } else *save = e; return s; }
char* sv_shared_strtok; // shared by all threads, as in libc
char* strtok(char* s, const char* d) { char*& save = sv_shared_strtok; return strtok_r(s, d, &save); }
int sv_locale_changes; // times the program's locale was asked to change
char* setlocale(int, const char* l) noexcept { if (l) ++sv_locale_changes; return const_cast<char*>(sv_loc.on ? "xx_XX" : "C"); }
int sv_locale_changed() { return sv_locale_changes; }
int strcasecmp(const char*, const char*);
int strcoll(const char* a, const char* b) { if (sv_loc.on) { int d = strcasecmp(a, b); if (d) return d; } return strcmp(a, b); }
int isascii(int c) { return (unsigned)c <= 127u; }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* b = (char*)base; for (size_t i = 1; i < n; ++i) for (size_t j = i; j && cmp(b + (j - 1) * w, b + j * w) > 0; --j) for (size_t k = 0; k < w; ++k) { char t = b[j * w + k]; b[j * w + k] = b[(j - 1) * w + k]; b[(j - 1) * w + k] = t; } }
void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) { size_t lo = 0; while (lo < n) { size_t m = lo + (n - lo) / 2; const char* p = (const char*)base + m * w; int c = cmp(key, p); if (!c) return (void*)p; if (c > 0) lo = m + 1; else n = m; } return nullptr; }
int sv_lockop(void* word, int op);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return sv_lockop(&m->__data.__lock, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ? 2 : 1); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return sv_lockop(&m->__data.__lock, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP ? 2 : 5); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return sv_lockop(&m->__data.__lock, 4); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { *m = {}; if (a) m->__data.__kind = *(const int*)a; return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) noexcept { *(int*)a = 0; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) noexcept { *(int*)a = k; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { *m = {}; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return sv_lockop(&m->__data.__readers, 3); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return sv_lockop(&m->__data.__readers, 1); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return sv_lockop(&m->__data.__readers, 4); }
int pthread_once(pthread_once_t* c, void (*f)()) { if (!__atomic_load_n(c, __ATOMIC_ACQUIRE)) { sv_lockop(c, 6); *c = 1; f(); sv_lockop(c, 7); } else sv_lockop(c, 8); return 0; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { ++a; ++b; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d) return d; if (!*a) break; } return 0; }
char* strerror(int) { return const_cast<char*>("error"); }
void* __dso_handle;
void __once_proxy();
}

namespace std {
// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }

static char* dupstr(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupstr("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { ::operator delete((void*)_M_p); _M_p = dupstr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { ::operator delete((void*)_M_p); }
#define EXC1(T) \
  T::T(const string& s) : exception(), _M_msg(s) {} \
  T::T(const char* s) : exception(), _M_msg(s, strlen(s)) {} \
  T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
  T::~T() noexcept {} \
  const char* T::what() const noexcept { return _M_msg._M_p; }
EXC1(logic_error)
EXC1(runtime_error)
#define EXC2(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EXC2(domain_error, logic_error) EXC2(invalid_argument, logic_error) EXC2(length_error, logic_error) EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error) EXC2(overflow_error, runtime_error) EXC2(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }

// ---------------------------------------------------------------- locale, ios_base
static struct { alignas(16) char b[sizeof(ctype<char>)]; } the_ctype;
extern "C" char __libc_single_threaded; extern "C" { char __libc_single_threaded = 0; }
static locale::_Impl* the_impl();
locale::locale() noexcept : _M_impl(the_impl()) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
locale::facet::~facet() {}

void locale::facet::_S_initialize_once() {}
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)sv_toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = (char)sv_toupper((unsigned char)*lo); return hi; }
char ctype<char>::do_tolower(char c) const { return (char)sv_tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* lo, const char* hi) const { for (; lo < hi; ++lo) *lo = (char)sv_tolower((unsigned char)*lo); return hi; }
locale locale::global(const locale&) { ++sv_locale_changes; return locale(); }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw() { return true; }
template<> const ctype<char>& use_facet<ctype<char>>(const locale&) { return *(const ctype<char>*)the_ctype.b; }
template<> bool has_facet<ctype<char>>(const locale&) throw() { return true; }
// libstdc++ constructs basic_ios members lazily through basic_ios::init
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
  _M_callbacks(nullptr), _M_word_zero(), _M_word_size(0), _M_word(nullptr), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
class fail_exc : public exception {};
#define LABEL(n) __asm__(n)
struct fake_facets { ctype_base::mask table[256] = {}; const locale::facet* tab[1]; alignas(16) char impl[sizeof(locale::_Impl)];
  fake_facets() { ctype<char>* c = (ctype<char>*)the_ctype.b; for (int i = 0; i < 128; ++i) table[i] = (ctype_base::mask)((isspace(i) ? ctype_base::space : 0) | (isblank(i) ? ctype_base::blank : 0) | (isdigit(i) ? ctype_base::digit : 0) | (isupper(i) ? ctype_base::upper : 0) | (islower(i) ? ctype_base::lower : 0) | (isalpha(i) ? ctype_base::alpha : 0) | (isprint(i) ? ctype_base::print : 0) | (ispunct(i) ? ctype_base::punct : 0) | (iscntrl(i) ? ctype_base::cntrl : 0) | (isxdigit(i) ? ctype_base::xdigit : 0));
    new (c) ctype<char>(table, false, 1);
    c->_M_widen_ok = 1; for (int i = 0; i < 256; ++i) c->_M_widen[i] = (char)i; c->_M_narrow_ok = 1; for (int i = 0; i < 256; ++i) c->_M_narrow[i] = (char)i;
    tab[0] = c; locale::_Impl* p = (locale::_Impl*)impl; p->_M_facets = tab; p->_M_facets_size = 1; } };
__attribute__((init_priority(101))) static fake_facets FF;
locale::id std::ctype<char>::id;
size_t locale::id::_M_id() const throw() { return this == &std::ctype<char>::id ? 0 : 1; }
static locale::_Impl* the_impl() { return (locale::_Impl*)FF.impl; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void __throw_ios_failure(const char*) { throw fail_exc(); }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; }

// ---------------------------------------------------------------- stream members that format numbers
template<class T> static ostream& putnum(ostream& o, T v, bool neg) {
  char b[24]; int i = 24; do { b[--i] = (char)('0' + (int)(v % 10)); v /= 10; } while (v); if (neg) b[--i] = '-'; return __ostream_insert(o, b + i, 24 - i);
}
#define INS(T, m, e) template<> template<> ostream& ostream::_M_insert(T v) { ostream* self = this; (void)self; e; }
INS(long, l, return putnum<unsigned long>(*self, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0))
INS(unsigned long, m, return putnum<unsigned long>(*self, v, false))
INS(long long, x, return self->_M_insert<long>((long)v))
INS(unsigned long long, y, return self->_M_insert<unsigned long>((unsigned long)v))
INS(bool, b, return self->_M_insert<long>((long)v))
INS(const void*, PKv, return self->_M_insert<unsigned long>((unsigned long)v))
INS(double, d, return *self << "?")
// extraction of numbers: decimal, as the C locale reads them
template<class T> static istream& getnum(istream& in, T& v, bool sgn, unsigned long maxpos, unsigned long maxneg) {
  istream::sentry ok(in, false);
  if (ok) {
    ios_base::iostate err = ios_base::goodbit; basic_streambuf<char>* sb = in.rdbuf(); int c = sb->sgetc(); bool neg = false, any = false, over = false; unsigned long n = 0;
    if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
    while (c != -1 && ::isdigit(c)) { unsigned d = (unsigned)(c - '0'); any = true; if (n > (~0ul - d) / 10) over = true; else n = n * 10 + d; c = sb->snextc(); }
    if (c == -1) err = ios_base::eofbit;
    if (!any) { v = 0; err = ios_base::iostate(err | ios_base::failbit); }
    else if (over || n > (neg && sgn ? maxneg : maxpos)) { v = (T)(neg && sgn ? 0ul - maxneg : maxpos); err = ios_base::iostate(err | ios_base::failbit); }
    else v = (T)(neg ? 0ul - n : n);
    if (err) in.setstate(err);
  }
  return in;
}
#define EXT(T, m, s, p, n) template<> template<> istream& istream::_M_extract(T& v) { return getnum<T>(*this, v, s, p, n); }
EXT(long, l, true, ~0ul >> 1, 1ul << 63) EXT(unsigned long, m, false, ~0ul, 0) EXT(unsigned int, j, false, ~0u, 0) EXT(unsigned short, t, false, 65535, 0) EXT(long long, x, true, ~0ul >> 1, 1ul << 63) EXT(unsigned long long, y, false, ~0ul, 0) EXT(bool, b, false, 1, 0)
template<> istream& istream::operator>>(int& v) { return getnum<int>(*this, v, true, 2147483647, 2147483648ul); }
template<> istream& istream::operator>>(short& v) { return getnum<short>(*this, v, true, 32767, 32768); }
template<> istream& operator>>(istream& in, string& str) {
  size_t extracted = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, false);
  if (ok) {
    str.erase(); streamsize w = in.width(); size_t n = w > 0 ? (size_t)w : str.max_size(); basic_streambuf<char>* sb = in.rdbuf(); int c = sb->sgetc();
    while (extracted < n && c != -1 && !::isspace(c)) { str += (char)c; ++extracted; c = sb->snextc(); }
    if (extracted < n && c == -1) err = ios_base::iostate(err | ios_base::eofbit);
    in.width(0);
  }
  if (!extracted) err = ios_base::iostate(err | ios_base::failbit);
  if (err) in.setstate(err);
  return in;
}
template<> istream& istream::getline(char* s, streamsize n, char delim) {
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit; sentry ok(*this, true);
  if (ok) {
    basic_streambuf<char>* sb = rdbuf(); int c = sb->sgetc();
    while (_M_gcount + 1 < n && c != -1 && (char)c != delim) { *s++ = (char)c; ++_M_gcount; c = sb->snextc(); }
    if (c == -1) err = ios_base::iostate(err | ios_base::eofbit);
    else if ((char)c == delim) { ++_M_gcount; sb->sbumpc(); }
    else err = ios_base::iostate(err | ios_base::failbit);
  }
  if (n > 0) *s = 0;
  if (!_M_gcount) err = ios_base::iostate(err | ios_base::failbit);
  if (err) setstate(err);
  return *this;
}
template<> istream& istream::ignore(streamsize n) { _M_gcount = 0; sentry ok(*this, true); if (ok) { basic_streambuf<char>* sb = rdbuf(); while (_M_gcount < n) { if (sb->sbumpc() == -1) { setstate(ios_base::eofbit); break; } ++_M_gcount; } } return *this; }
template<> istream& istream::ignore(streamsize n, int delim) { _M_gcount = 0; sentry ok(*this, true); if (ok) { basic_streambuf<char>* sb = rdbuf(); bool all = n == 0x7fffffffffffffff; while (all || _M_gcount < n) { int c = sb->sbumpc(); if (c == -1) { setstate(ios_base::eofbit); break; } ++_M_gcount; if (c == delim) break; } } return *this; }
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) { streamsize n = 0; eof = true; for (int c = in->sgetc(); c != -1; c = in->snextc()) { if (out->sputc((char)c) == -1) { eof = false; break; } ++n; } return n; }
// getline: same contract as libstdc++ (string untouched when the stream is not good on entry)
template<> istream& getline(istream& in, string& str, char delim) {
  size_t extracted = 0; ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok(in, true);
  if (ok) {
    str.erase();
    try {
      basic_streambuf<char>* sb = in.rdbuf(); int c = sb->sgetc();
      while (extracted < str.max_size() && c != -1 && (char)c != delim) { str += (char)c; ++extracted; c = sb->snextc(); }
      if (c == -1) err = ios_base::iostate(err | ios_base::eofbit);
      else if ((char)c == delim) { ++extracted; sb->sbumpc(); }
      else err = ios_base::iostate(err | ios_base::failbit);
    } catch (...) { in._M_setstate(ios_base::badbit); } // as in libstdc++: rethrown only if the stream asks for it
  }
  if (!extracted) err = ios_base::iostate(err | ios_base::failbit);
  if (err) in.setstate(err);
  return in;
}

template class basic_string<char>;
template string operator+(const char*, const string&);
template string operator+(char, const string&);
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template istream& ws(istream&);
template istream& operator>>(istream&, char&);
template istream& operator>>(istream&, unsigned char&);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const string&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template bool operator==(const allocator<char>&, const allocator<char>&);
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;

struct null_cerr { ostream o; null_cerr() : o(nullptr) {} };
#define DEFSTREAM(n) ostream n(nullptr);
extern ostream cerr, cout, clog;
__attribute__((init_priority(101))) ostream cerr(nullptr);
__attribute__((init_priority(101))) ostream cout(nullptr);
__attribute__((init_priority(101))) ostream clog(nullptr);

// ---------------------------------------------------------------- hashing: equal keys hash equal; nothing else is promised.
// Depends on the length only, so that symbolic keys do not split paths.
size_t _Hash_bytes(const void*, size_t len, size_t seed) { return len * 0x9E3779B97F4A7C15ull ^ seed; }
namespace __detail {
static const unsigned long primes[] = { 1, 2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (unsigned long p : primes) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const {
  if (nelt + nins > _M_next_resize) { size_t want = nelt + nins; if (!_M_next_resize && want < 11) want = 11; if (want >= nbkt) { size_t a = want + 1, b = nbkt * 2; return { true, _M_next_bkt(a > b ? a : b) }; } _M_next_resize = nbkt; }
  return { false, 0 };
}
}

// ---------------------------------------------------------------- red-black tree (std::map/std::set)
typedef _Rb_tree_node_base NB;
static NB* inc(NB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB* dec(NB* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB* _Rb_tree_increment(NB* x) throw() { return inc(x); }
const NB* _Rb_tree_increment(const NB* x) throw() { return inc(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw() { return dec(x); }
const NB* _Rb_tree_decrement(const NB* x) throw() { return dec(const_cast<NB*>(x)); }
static void rotl(NB* const x, NB*& root) { NB* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(NB* const x, NB*& root) { NB* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& header) throw() {
  NB*& root = header._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NB* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { NB* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { NB* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } }
  }
  root->_M_color = _S_black;
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& header) throw() {
  NB*& root = header._M_parent; NB*& leftmost = header._M_left; NB*& rightmost = header._M_right;
  NB* y = z; NB* x = nullptr; NB* xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { NB* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { NB* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) { NB* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { NB* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

// ---------------------------------------------------------------- std::list hooks
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const q = this->_M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
} // namespace std

namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" void sv_thread(int k);
extern "C" void sv_concurrent(void (*f)(int, void*), void* arg) { sv_thread(1); f(0, arg); sv_thread(2); f(1, arg); sv_thread(0); }
