// Native side of sv_locale: <ctype.h> of a program that has set a locale which treats one byte, i and I its own way.
// (a compiled locale would do, but the sandbox has none; these definitions take the place of libc's in the native build)
#include <cstddef>
#include <locale>
extern "C" int strcmp(const char*, const char*) noexcept;
struct SvLocale { int on; unsigned x, space, alpha, upper, lower, up, low, ui, li; };
static SvLocale L;
enum { UP = 1 << 8, LO = 1 << 9, AL = 1 << 10, DI = 1 << 11, XD = 1 << 12, SP = 1 << 13, PR = 1 << 14, GR = 1 << 15, BL = 1 << 0, CN = 1 << 1, PU = 1 << 2, AN = 1 << 3 };
static unsigned short cls[384]; static int up[384], low[384]; static bool built;
static void build() {
  for (int i = -128; i < 256; ++i) {
    unsigned b = (unsigned)i & 255u; unsigned short m = 0; int u = i, l = i; bool hi = b >= 128;
    if (i >= 0 && !hi) { bool A = b - 'A' <= 25u, a = b - 'a' <= 25u, d = b - '0' <= 9u; if (A) m |= UP; if (a) m |= LO; if (A | a) m |= AL | AN; if (d) m |= DI | XD | AN; if ((b | 32) - 'a' <= 5u) m |= XD; if (b == 32 || b - 9 <= 4u) m |= SP; if (b == 32 || b == 9) m |= BL; if (b - 32 <= 94u) m |= PR; if (b - 33 <= 93u) m |= GR; if (b < 32 || b == 127) m |= CN; if ((m & GR) && !(m & AN)) m |= PU; if (a) u = i - 32; if (A) l = i + 32; }
    if (L.on) { if (b == 'i') u = (int)L.ui; if (b == 'I') l = (int)L.li; if (b == L.x && i != -1) { if (L.space) m |= SP | BL; if (L.alpha) m |= AL | AN | GR | PR; if (L.upper) m |= UP; if (L.lower) m |= LO; u = (int)L.up; l = (int)L.low; } }
    cls[i + 128] = m; up[i + 128] = u; low[i + 128] = l;
  }
  built = true;
}
static inline bool in(int c) { return c >= -128 && c < 256; }
static int is(int c, int f) { if (!built) build(); return in(c) && (cls[c + 128] & f); }
extern "C" {
void sv_locale(int on, unsigned x, unsigned space, unsigned alpha, unsigned upper, unsigned lower, unsigned u, unsigned low_, unsigned ui, unsigned li) { L = { on, x, space, alpha, upper, lower, u, low_, ui, li }; build(); }
int isspace(int c) { return is(c, SP); } int isblank(int c) { return is(c, BL); } int isdigit(int c) { return is(c, DI); } int isupper(int c) { return is(c, UP); } int islower(int c) { return is(c, LO); }
int isalpha(int c) { return is(c, AL); } int isalnum(int c) { return is(c, AN); } int isprint(int c) { return is(c, PR); } int isgraph(int c) { return is(c, GR); } int iscntrl(int c) { return is(c, CN); } int ispunct(int c) { return is(c, PU); } int isxdigit(int c) { return is(c, XD); }
int toupper(int c) { if (!built) build(); return in(c) ? up[c + 128] : c; } int tolower(int c) { if (!built) build(); return in(c) ? low[c + 128] : c; }
const unsigned short** __ctype_b_loc() { static const unsigned short* p; if (!built) build(); p = cls + 128; return &p; }
const int** __ctype_toupper_loc() { static const int* p; if (!built) build(); p = up + 128; return &p; }
const int** __ctype_tolower_loc() { static const int* p; if (!built) build(); p = low + 128; return &p; }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d || !*a) return d; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d || !*a) return d; } return 0; }
static int changes; char* setlocale(int, const char* l) { if (l) ++changes; return const_cast<char*>(L.on ? "xx_XX" : "C"); } int sv_locale_changed() { return changes; }
int strcoll(const char* a, const char* b) { if (L.on) { int d = strcasecmp(a, b); if (d) return d; } return strcmp(a, b); }
}
std::locale std::locale::global(const std::locale&) { ++changes; return std::locale(); }
