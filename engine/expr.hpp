// Hash-consed bit-vector expressions (width 1..64) and the solver interface.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>

struct Sup { // support set: which symbolic variables an expression depends on
  static const int W = 4;
  uint64_t b[W] = {0,0,0,0};
  bool empty() const { return !(b[0]|b[1]|b[2]|b[3]); }
  bool meets(const Sup& o) const { return (b[0]&o.b[0])|(b[1]&o.b[1])|(b[2]&o.b[2])|(b[3]&o.b[3]); }
  bool within(const Sup& o) const { return !((b[0]&~o.b[0])|(b[1]&~o.b[1])|(b[2]&~o.b[2])|(b[3]&~o.b[3])); }
  void add(const Sup& o) { for(int i=0;i<W;i++) b[i]|=o.b[i]; }
  void set(unsigned v) { b[v>>6] |= 1ull<<(v&63); }
  bool has(unsigned v) const { return b[v>>6]>>(v&63)&1; }
  int count() const { int n=0; for(int i=0;i<W;i++) n+=__builtin_popcountll(b[i]); return n; }
  int first() const { for(int i=0;i<W;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
};
typedef Sup Set256; // also used as a set of byte values
static const unsigned MAXVARS = 256;

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    ZEXT, SEXT, EXTRACT, CONCAT, EQ, ULT, ULE, SLT, SLE, ITE };

struct Expr {
  Op op; uint8_t w; bool bytevar /*support is exactly one 8-bit variable*/; bool hasdiv=false /*contains a division by a constant*/;
  uint32_t id; uint64_t k; Expr *a, *b, *c;
  Sup sup; uint32_t size;
  uint64_t stamp, val;
  void *zbv, *zbool; Set256* table; Expr* neg;
};
typedef Expr* E;

inline uint64_t maskw(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
inline int64_t sx(uint64_t v, unsigned w) { if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

// concrete evaluation of one operator; *ok=false on a division trap
uint64_t evalop(Op op, unsigned w, uint64_t a, uint64_t b, unsigned aw, bool* ok);

E mkConst(unsigned w, uint64_t v);
E mkSym(unsigned w, unsigned var);
E mkBin(Op op, E a, E b);
E mkExt(Op op, E a, unsigned w);           // ZEXT / SEXT
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
E mkNot(E a);                              // width 1
uint64_t evalE(E e, const std::vector<uint64_t>& model);
const Set256& byteTable(E e);              // e->bytevar && e->w==1
std::string show(E e, int depth = 6);

// value = concrete or symbolic
struct Val { E e; uint64_t c; };
inline Val V(uint64_t c) { return Val{nullptr, c}; }
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
inline Val fromE(E e) { return e->op==CONST ? Val{nullptr,e->k} : Val{e,0}; }

struct SolverStats { uint64_t queries=0, sat=0, unsat=0, cachehits=0, table=0, unknown=0, dumped=0; double time=0; };
extern SolverStats SS;
extern unsigned solverTimeoutMs;
extern std::string dumpDir; extern unsigned dumpEvery, dumpMax;
// 1 sat, 0 unsat, -1 unknown; on sat fills (var,value) pairs for the support of cs
int solve(const std::vector<E>& cs, std::vector<std::pair<unsigned,uint64_t>>& out);
void solverInit();
