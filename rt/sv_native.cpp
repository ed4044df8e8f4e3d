// Native runtime for the harness interface: reads the solver's values from a file, runs the same
// harness against the real library (gcc, ASan+UBSan, real libstdc++), and says what happened.
#include "sv.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <sys/resource.h>
#include <sys/stat.h>
#include <ftw.h>
#include <thread>
#include <atomic>
struct In { std::string name; unsigned width; std::vector<unsigned long long> v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long> params; static std::string entryName;
static void out(const char* k, const char* m) { printf("%s %s\n", k, m); fflush(stdout); }
static const In& next(const char* name, unsigned w, size_t n) {
  if (pos >= ins.size()) { out("MISMATCH", name); _exit(12); }
  const In& i = ins[pos++];
  std::string want = *name ? name : "_"; for (char& c : want) if (c == ' ') c = '_';
  if (i.name != want || i.width != w || i.v.size() != n) { out("MISMATCH", name); _exit(12); }
  return i;
}
extern "C" {
void sv_symbolic(void* p, size_t n, const char* name) { const In& i = next(name, 8, n); for (size_t k = 0; k < n; ++k) ((unsigned char*)p)[k] = (unsigned char)i.v[k]; }
uint8_t sv_u8(const char* name) { return (uint8_t)next(name, 8, 1).v[0]; }
uint32_t sv_u32(const char* name) { return (uint32_t)next(name, 32, 1).v[0]; }
uint32_t sv_range(uint32_t lo, uint32_t hi, const char* name) { uint32_t v = (uint32_t)next(name, 32, 1).v[0]; if (v < lo || v > hi) { out("ASSUME", name); _exit(11); } return v; }
void sv_assume(bool c) { if (!c) { out("ASSUME", ""); _exit(11); } }
void sv_check(bool c, const char* msg) { if (!c) { out("FAIL", msg); _exit(10); } }
void sv_fail(const char* msg) { out("FAIL", msg); _exit(10); }
void sv_reach(const char* l) { out("REACH", l); }
bool sv_bytes_eq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
bool sv_and(bool a, bool b) { return a & b; }
bool sv_or(bool a, bool b) { return a | b; }
uint32_t sv_select32(bool c, uint32_t a, uint32_t b) { return c ? a : b; }
uint64_t sv_concretize(uint64_t v) { return v; }
uint8_t sv_concretize8(uint8_t v) { return v; }
static std::string obs;
static void ob(unsigned long long v) { char b[32]; snprintf(b, sizeof b, "%s%llu", obs.empty() ? "" : ",", v); obs += b; }
void sv_observe(const void* p, size_t n) { ob(n); for (size_t i = 0; i < n; ++i) ob(((const unsigned char*)p)[i]); }
void sv_observe_int(uint64_t v) { ob(v); }
uint64_t sv_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : (uint64_t)it->second; }
bool sv_is_symbolic() { return false; }
void sv_note(const char* m, uint64_t v) { fprintf(stderr, "note: %s %llu\n", m, (unsigned long long)v); }
size_t __sanitizer_get_current_allocated_bytes();
void sv_concurrent(void (*f)(int, void*), void* arg) { const char* r = getenv("TGSYM_ROUNDS"); int rounds = r ? atoi(r) : 0; time_t end = time(nullptr) + 2; /* later attempts repeat the operations */ std::atomic<int> ready(0); auto run = [&](int t) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) {} f(t, arg); for (int i = 0; i < rounds && time(nullptr) < end; ++i) f(t, arg); }; std::thread a(run, 0), b(run, 1); a.join(); b.join(); }
uint64_t sv_live_heap() { return __sanitizer_get_current_allocated_bytes(); }
}
// file tree of real files in a scratch directory of the runner (TGSYM_SCRATCH), or /tmp
static std::string fsroot;
static int rmone(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
extern "C" {
void sv_fs_done() { if (!fsroot.empty()) { if (chdir("/")) {} nftw(fsroot.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); fsroot.clear(); } }
void sv_fs_open(int) { sv_fs_done(); const char* d = getenv("TGSYM_SCRATCH"); std::string t = std::string(d ? d : "/tmp") + "/tgfsXXXXXX"; if (!mkdtemp(&t[0]) || chdir(t.c_str())) _exit(2); fsroot = t; atexit(sv_fs_done); }
void sv_fs_root(char* out) { strcpy(out, fsroot.c_str()); }
void sv_fs_add(const char* p, size_t pn, int kind, const char* d, size_t dn) {
  std::string path = fsroot + "/" + std::string(p, pn), t = path; int rc = 0;
  if (kind == 1) { rc = mkdir(path.c_str(), 0755); } else {
    if (kind >= 2) { static int n; t = fsroot + "." + std::to_string(n++); t = fsroot + "/../" + t.substr(t.rfind('/') + 1); rc = symlink(t.c_str(), path.c_str()); }
    if (kind == 3) rc |= mkdir(t.c_str(), 0755); else { FILE* f = fopen(t.c_str(), "wb"); if (!f) rc = 1; else { if (fwrite(d, 1, dn, f) != dn) rc = 1; fclose(f); } }
  }
  if (rc) { out("MISMATCH", "cannot make the file tree"); _exit(12); }
}
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  char kind[16], name[256];
  while (fscanf(f, "%15s %255s", kind, name) == 2) {
    if (!strcmp(kind, "ENTRY")) entryName = name;
    else if (!strcmp(kind, "PARAM")) { long v; if (fscanf(f, "%ld", &v) != 1) return 2; params[name] = v; }
    else if (!strcmp(kind, "IN")) { In i; i.name = name; size_t n; if (fscanf(f, "%u %zu", &i.width, &n) != 2) return 2; for (size_t k = 0; k < n; ++k) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 2; i.v.push_back(v); } ins.push_back(i); }
    else return 2;
  }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entryName.c_str());
  if (!fn) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 2; }
  try { fn(); }
  catch (std::exception& e) { out("UNCAUGHT", e.what()); _exit(13); }
  catch (...) { out("UNCAUGHT", "?"); _exit(13); }
  if (pos != ins.size()) { out("MISMATCH", "unused inputs"); _exit(12); }
  out("OBS", obs.c_str()); out("DONE", "");
  fflush(stdout); 
  return 0;
}
