// POSIX-contract model of the system converter, used in both the symbolic and the native build.
// Model behaviour: each input byte b becomes `expand` output bytes  b, b+1, b+2 ...; byte `bad` (if any) is an
// invalid sequence (EILSEQ), byte `incomplete` at the very end of input is an incomplete one (EINVAL).
#pragma once
#include <iconv.h>
#include <errno.h>
#include <string>
#include <vector>
struct IconvModel {
  int failed = 0, open_calls = 0, opens = 0, closes = 0, live = 0, bad_use = 0, resets = 0;
  bool shifts = false, shifted[8] = {}; bool out_shifts = false, out_shifted[8] = {}; // out_shifts: the target charset has shift states: bytes with bit 6 are written shifted, after 0x0e, the others after 0x0f; a reset with a buffer writes what returns to the initial state
  //   // shifts: 0x0e shifts to another set (bytes + 0x40), 0x0f shifts back; the state survives between calls until a reset
  bool fail_open = false; bool keyed = false; unsigned char shift[8] = {};   // keyed: bytes are moved by an amount that depends on both charset names
  int open_errno = EINVAL;
  unsigned expand = 1; int bad = -1, incomplete = -1; unsigned prefix = 0;   // prefix: bytes emitted once after open/reset (like a BOM)
  std::string from, to; std::vector<std::string> inputs; bool pending[8] = {}; bool open_slot[8] = {};
};
static IconvModel IM;
static char im_slots[8];
static inline unsigned char im_shift(const std::string& from, const std::string& to) { unsigned a = 0; for (char c : from) a = a * 3 + (unsigned char)(c >= 'a' && c <= 'z' ? c - 32 : c); for (char c : to) a = a * 5 + (unsigned char)(c >= 'a' && c <= 'z' ? c - 32 : c); return (unsigned char)(a | 1); }
static int im_slot(iconv_t cd) { for (int i = 0; i < 8; ++i) if ((char*)cd == &im_slots[i]) return i; return -1; }
extern "C" iconv_t iconv_open(const char* to, const char* from) {
  IM.open_calls++; IM.from = from; IM.to = to;
  if (IM.fail_open) { IM.failed++; errno = IM.open_errno; return (iconv_t)-1; }
  for (int i = 0; i < 8; ++i) if (!IM.open_slot[i]) { IM.open_slot[i] = true; IM.shifted[i] = IM.out_shifted[i] = false; IM.pending[i] = IM.prefix != 0; IM.opens++; IM.live++; IM.shift[i] = IM.keyed ? im_shift(IM.from, IM.to) : 0; return (iconv_t)&im_slots[i]; }
  IM.failed++; errno = EMFILE; return (iconv_t)-1;
}
extern "C" int iconv_close(iconv_t cd) {
  int s = im_slot(cd); if (s < 0 || !IM.open_slot[s]) { IM.bad_use++; errno = EBADF; return -1; }
  IM.open_slot[s] = false; IM.closes++; IM.live--; return 0;
}
extern "C" size_t iconv(iconv_t cd, char** in, size_t* inl, char** out, size_t* outl) {
  int s = im_slot(cd); if (s < 0 || !IM.open_slot[s]) { IM.bad_use++; errno = EBADF; return (size_t)-1; }
  if (!in || !*in) { // reset; may write a closing sequence when a buffer is given
    IM.resets++; if (IM.out_shifted[s] && out && *out) { if (*outl < 1) { errno = E2BIG; return (size_t)-1; } **out = 0x0f; ++*out; --*outl; } IM.out_shifted[s] = false; IM.shifted[s] = false; IM.pending[s] = IM.prefix != 0; return 0; }
  if (*inl) IM.inputs.push_back(std::string(*in, *inl)); else IM.inputs.push_back(std::string());
  if (IM.pending[s]) {
    if (*outl < IM.prefix) { errno = E2BIG; return (size_t)-1; }
    for (unsigned k = 0; k < IM.prefix; ++k) { **out = (char)('A' + k); ++*out; --*outl; }
    IM.pending[s] = false;
  }
  while (*inl) {
    unsigned char b = (unsigned char)**in;
    if (IM.bad >= 0 && b == (unsigned)IM.bad) { errno = EILSEQ; return (size_t)-1; }
    if (IM.incomplete >= 0 && *inl == 1 && b == (unsigned)IM.incomplete) { errno = EINVAL; return (size_t)-1; }
    if (IM.shifts && (b == 0x0e || b == 0x0f)) { IM.shifted[s] = b == 0x0e; ++*in; --*inl; continue; }
    if (IM.out_shifts) { bool up = (b & 0x40) != 0; unsigned need = up != IM.out_shifted[s] ? IM.expand + 1 : IM.expand; if (*outl < need) { errno = E2BIG; return (size_t)-1; } if (up != IM.out_shifted[s]) { **out = (char)(up ? 0x0e : 0x0f); ++*out; --*outl; IM.out_shifted[s] = up; } }
    if (*outl < IM.expand) { errno = E2BIG; return (size_t)-1; }
    for (unsigned k = 0; k < IM.expand; ++k) { **out = (char)(b + k + IM.shift[s] + (IM.shifted[s] ? 0x40 : 0)); ++*out; --*outl; }
    ++*in; --*inl;
  }
  return 0;
}
// what a correct conversion of text yields (first conversion after open)
static inline std::string im_expected(const std::string& t) { std::string o; for (unsigned k = 0; k < IM.prefix; ++k) o += (char)('A' + k); for (unsigned char b : t) for (unsigned k = 0; k < IM.expand; ++k) o += (char)(b + k); return o; }
static inline std::string im_keyed(const std::string& t, const std::string& from, const std::string& to) { unsigned char k = im_shift(from, to); std::string o; for (unsigned char b : t) o += (char)(b + k); return o; }
static inline std::string im_expected_k(const std::string& t, const std::string& from, const std::string& to) { std::string o = std::string(); unsigned char k0 = IM.keyed ? im_shift(from, to) : 0; for (unsigned k = 0; k < IM.prefix; ++k) o += (char)('A' + k); for (unsigned char b : t) for (unsigned k = 0; k < IM.expand; ++k) o += (char)(b + k + k0); return o; }
static inline std::string im_shifted(const std::string& t, const std::string& from, const std::string& to, bool sh) { std::string o; unsigned char k0 = IM.keyed ? im_shift(from, to) : 0; for (unsigned char b : t) for (unsigned k = 0; k < IM.expand; ++k) o += (char)(b + k + k0 + (sh ? 0x40 : 0)); return o; }
// the whole of what a converter into a charset with shift states writes for t, the return to the initial state included
static inline std::string im_stateful(const std::string& t) { std::string o; bool up = false; for (unsigned char b : t) { bool u = (b & 0x40) != 0; if (u != up) o += (char)(u ? 0x0e : 0x0f); up = u; for (unsigned k = 0; k < IM.expand; ++k) o += (char)(b + k); } if (up) o += (char)0x0f; return o; }
