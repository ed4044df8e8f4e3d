// Harness interface.  In the symbolic build the sv_* functions are engine builtins;
// in the native build (counterexample replay, path validation) they are in sv_native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
void sv_symbolic(void* p, size_t n, const char* name);      // n unconstrained bytes
uint8_t sv_u8(const char* name);
uint32_t sv_u32(const char* name);
uint32_t sv_range(uint32_t lo, uint32_t hi, const char* name); // lo..hi inclusive, one path per value
void sv_assume(bool c);
void sv_check(bool c, const char* msg);                     // proof obligation
void sv_fail(const char* msg) __attribute__((noreturn));
void sv_reach(const char* label);                           // vacuity witness
bool sv_bytes_eq(const void* a, const void* b, size_t n);   // one formula, no path split
bool sv_and(bool a, bool b);
bool sv_or(bool a, bool b);
uint32_t sv_select32(bool c, uint32_t a, uint32_t b);
uint64_t sv_concretize(uint64_t v);                         // split into one path per value
uint8_t sv_concretize8(uint8_t v);
void sv_observe(const void* p, size_t n);                   // compared native vs symbolic on sampled paths
void sv_observe_int(uint64_t v);
uint64_t sv_param(const char* name, uint64_t dflt);         // bound, set by the runner
bool sv_is_symbolic();
void sv_note(const char* msg, uint64_t v);
uint64_t sv_live_heap();
void sv_locale(int on, unsigned x, unsigned space, unsigned alpha, unsigned upper, unsigned lower, unsigned up, unsigned low, unsigned ui, unsigned li); // the locale the program has set: off (C), or classes and letter cases of byte x, upper case of i and lower case of I
int sv_locale_changed(); // how often the program's locale was changed
void sv_concurrent(void (*f)(int thread, void* arg), void* arg); // f in two threads at once (the native build runs them under ThreadSanitizer)
}
// ---- conveniences built on the primitives
static inline bool sv_bool(const char* name) { return sv_range(0, 1, name) != 0; }
static inline std::string sv_str(size_t n, const char* name) { std::string s(n, '\0'); if (n) sv_symbolic(&s[0], n, name); return s; }
static inline std::string sv_str_upto(size_t lo, size_t hi, const char* name) { size_t n = lo; if (hi > lo) n = sv_range((uint32_t)lo, (uint32_t)hi, "len"); return sv_str(n, name); }
static inline bool sv_eq(const std::string& a, const std::string& b) { return a.size() == b.size() && sv_bytes_eq(a.data(), b.data(), a.size()); }
static inline void sv_obs(const std::string& s) { sv_observe(s.data(), s.size()); }
#define SV_ENTRY extern "C" void
