#include "expr.hpp"
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <z3.h>
#include <unistd.h>
static int getpid_(){return getpid();}

static uint32_t nextId = 1;
static uint64_t curStamp = 1;

struct HC { // hash-consing table
  std::vector<E> slots; size_t n=0;
  HC() : slots(1<<16, nullptr) {}
  static uint64_t h(Op op, unsigned w, uint64_t k, E a, E b, E c) {
    uint64_t x = op*0x9E3779B97F4A7C15ull ^ (uint64_t)w<<56 ^ k*0xC2B2AE3D27D4EB4Full;
    auto mix=[&](E e){ x ^= (e?e->id:0)+0x9E3779B97F4A7C15ull+(x<<6)+(x>>2); x*=0xff51afd7ed558ccdull; x^=x>>33; };
    mix(a);mix(b);mix(c); return x;
  }
  void grow() {
    std::vector<E> o(slots.size()*2,nullptr); o.swap(slots);
    for(E e:o) if(e){ size_t i=h(e->op,e->w,e->k,e->a,e->b,e->c)&(slots.size()-1); while(slots[i]) i=(i+1)&(slots.size()-1); slots[i]=e; }
  }
  E get(Op op, unsigned w, uint64_t k, E a, E b, E c) {
    size_t m=slots.size()-1, i=h(op,w,k,a,b,c)&m;
    while(E e=slots[i]) { if(e->op==op&&e->w==w&&e->k==k&&e->a==a&&e->b==b&&e->c==c) return e; i=(i+1)&m; }
    E e=new Expr(); e->op=op; e->w=w; e->k=k; e->a=a; e->b=b; e->c=c; e->id=nextId++; e->size=1;
    e->hasdiv = (op==UDIV||op==UREM) && b->op==CONST;
    for(E x:{a,b,c}) if(x){ e->hasdiv|=x->hasdiv; e->sup.add(x->sup); e->size+=x->size; if(e->size>1000000) e->size=1000000; }
    if(op==SYM) { e->sup.set(k); e->bytevar = w==8; }
    else { e->bytevar = e->sup.count()==1; for(E x:{a,b,c}) if(x && !x->sup.empty() && !x->bytevar) e->bytevar=false; }
    slots[i]=e; if(++n*2>slots.size()) grow();
    return e;
  }
};
static HC* hc = new HC;

E mkConst(unsigned w, uint64_t v) { return hc->get(CONST,w,v&maskw(w),nullptr,nullptr,nullptr); }
E mkSym(unsigned w, unsigned var) { if(var>=MAXVARS){fprintf(stderr,"too many symbolic variables\n");exit(3);} return hc->get(SYM,w,var,nullptr,nullptr,nullptr); }

uint64_t evalop(Op op, unsigned w, uint64_t a, uint64_t b, unsigned aw, bool* ok) {
  uint64_t m=maskw(w);
  switch(op) {
    case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
    case UDIV: if(!b){ if(ok)*ok=false; return m; } return (a/b)&m;
    case UREM: if(!b){ if(ok)*ok=false; return a; } return (a%b)&m;
    case SDIV: { int64_t x=sx(a,w),y=sx(b,w); if(!y){ if(ok)*ok=false; return x<0?1:m; } if(y==-1) return (0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
    case SREM: { int64_t x=sx(a,w),y=sx(b,w); if(!y){ if(ok)*ok=false; return a; } if(y==-1) return 0; return (uint64_t)(x%y)&m; }
    case AND: return a&b; case OR: return a|b; case XOR: return a^b;
    case SHL: return b>=w?0:(a<<b)&m; case LSHR: return b>=w?0:a>>b;
    case ASHR: { int64_t x=sx(a,w); return (uint64_t)(x>>(b>=w?w-1:b))&m; }
    case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b;
    case SLT: return sx(a,aw)<sx(b,aw); case SLE: return sx(a,aw)<=sx(b,aw);
    default: abort();
  }
}
static bool isC(E e){return e->op==CONST;}
static bool isC(E e,uint64_t v){return e->op==CONST && e->k==(v&maskw(e->w));}

E mkNot(E a) {
  if(a->w!=1){ fprintf(stderr,"not of width %u: %s\n",a->w,show(a,4).c_str()); abort(); }
  if(isC(a)) return mkConst(1,!a->k);
  if(a->neg) return a->neg;
  E r;
  if(a->op==XOR && isC(a->b,1)) r=a->a;
  else r=hc->get(XOR,1,0,a,mkConst(1,1),nullptr);
  a->neg=r; r->neg=a; return r;
}
E mkExt(Op op, E a, unsigned w) {
  if(a->w==w) return a;
  if(isC(a)) return mkConst(w, op==ZEXT?a->k:(uint64_t)sx(a->k,a->w));
  if(a->op==ZEXT) return mkExt(ZEXT,a->a,w); // also for SEXT: top bit is 0
  if(op==SEXT && a->op==SEXT) return mkExt(SEXT,a->a,w);
  if(a->op==ITE && isC(a->b) && isC(a->c)) return mkIte(a->a,mkExt(op,a->b,w),mkExt(op,a->c,w));
  return hc->get(op,w,0,a,nullptr,nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if(lo==0 && w==a->w) return a;
  if(isC(a)) return mkConst(w,a->k>>lo);
  switch(a->op) {
    case EXTRACT: return mkExtract(a->a,lo+a->k,w);
    case CONCAT: if(lo+w<=a->b->w) return mkExtract(a->b,lo,w); if(lo>=a->b->w) return mkExtract(a->a,lo-a->b->w,w); break;
    case ZEXT: if(lo>=a->a->w) return mkConst(w,0); if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo==0) return mkExt(ZEXT,a->a,w); break;
    case SEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo==0) return mkExt(SEXT,a->a,w); break;
    case AND: if(isC(a->b)){ uint64_t m=a->b->k>>lo&maskw(w); if(!m) return mkConst(w,0); if(m==maskw(w)) return mkExtract(a->a,lo,w); if(lo) break; }
    // fallthrough
    case OR: case XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
    case ADD: case SUB: case MUL: if(lo==0) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    case ITE: return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w));
    default: break;
  }
  return hc->get(EXTRACT,w,lo,a,nullptr,nullptr);
}
E mkConcat(E hi, E lo) {
  if(isC(hi)&&isC(lo)) return mkConst(hi->w+lo->w, hi->k<<lo->w|lo->k);
  if(isC(hi,0)) return mkExt(ZEXT,lo,hi->w+lo->w);
  if(hi->op==EXTRACT && lo->op==EXTRACT && hi->a==lo->a && hi->k==lo->k+lo->w) return mkExtract(hi->a,lo->k,hi->w+lo->w);
  if(hi->op==EXTRACT && hi->k>=lo->w && mkExtract(hi->a,hi->k-lo->w,lo->w)==lo) return mkExtract(hi->a,hi->k-lo->w,hi->w+lo->w); // bytes of one value put back together
  // concat(extract(x,n,..), x-low) where x was zero/sign extended
  if(hi->op==EXTRACT && hi->a->op==SEXT && hi->k==lo->w && lo->op!=EXTRACT && hi->a->a==lo) return mkExtract(hi->a,0,hi->w+lo->w);
  return hc->get(CONCAT,hi->w+lo->w,0,hi,lo,nullptr);
}
E mkIte(E c, E a, E b) {
  if(c->w!=1||a->w!=b->w){ fprintf(stderr,"ite width mismatch: %s / %s / %s\n",show(c,4).c_str(),show(a,4).c_str(),show(b,4).c_str()); abort(); }
  if(isC(c)) return c->k?a:b;
  if(a==b) return a;
  if(a->w==1) {
    if(isC(a)&&isC(b)) return a->k?c:mkNot(c);
    if(isC(a,1)) return mkBin(OR,c,b); if(isC(a,0)) return mkBin(AND,mkNot(c),b);
    if(isC(b,0)) return mkBin(AND,c,a); if(isC(b,1)) return mkBin(OR,mkNot(c),a);
  }
  if(c->op==XOR && c->w==1 && isC(c->b,1)) return mkIte(c->a,b,a);
  return hc->get(ITE,a->w,0,c,a,b);
}
static bool nonneg(E e) { // top bit known to be zero
  switch(e->op) { case CONST: return !(e->k>>(e->w-1)&1); case ZEXT: return true; case AND: return nonneg(e->a)||nonneg(e->b); case OR: case XOR: return nonneg(e->a)&&nonneg(e->b);
    case UREM: return nonneg(e->b)||nonneg(e->a); case UDIV: return nonneg(e->a); case LSHR: return nonneg(e->a)||(isC(e->b)&&e->b->k>0&&e->b->k<e->w); case ITE: return nonneg(e->b)&&nonneg(e->c); default: return false; }
}
E mkBin(Op op, E a, E b) {
  if(op==SREM && !isC(b,0) && nonneg(a) && nonneg(b)) op=UREM;
  if(op==SDIV && !isC(b,0) && nonneg(a) && nonneg(b)) op=UDIV;
  if(a->w!=b->w){ fprintf(stderr,"width mismatch: %s / %s\n",show(a,4).c_str(),show(b,4).c_str()); abort(); }
  unsigned w=a->w; bool cmp = op>=EQ&&op<=SLE; unsigned rw=cmp?1:w;
  if(isC(a)&&isC(b)) { bool ok=true; uint64_t r=evalop(op,w,a->k,b->k,w,&ok); return mkConst(rw,r); }
  // canonical: constant right for commutative
  if((op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ) && (isC(a) || (!isC(b) && a->id>b->id))) std::swap(a,b);
  switch(op) {
    case ADD: if(isC(b,0)) return a; if(isC(b)&&a->op==ADD&&isC(a->b)) return mkBin(ADD,a->a,mkConst(w,a->b->k+b->k)); break;
    case SUB: if(a==b) return mkConst(w,0); if(isC(b)) return mkBin(ADD,a,mkConst(w,0-b->k)); break;
    case MUL: if(isC(b,0)) return b; if(isC(b,1)) return a; break;
    case AND: if(a==b) return a; if(isC(b,0)) return b; if(isC(b,~0ull)) return a;
      if(isC(b) && a->op==ZEXT && (b->k & maskw(a->a->w))==maskw(a->a->w)) return a;
      if(isC(b) && a->op==ZEXT) return mkExt(ZEXT,mkBin(AND,a->a,mkConst(a->a->w,b->k)),w);
      if(w==1 && (a->neg==b)) return mkConst(1,0); break;
    case OR: if(a==b) return a; if(isC(b,0)) return a; if(isC(b,~0ull)) return b; if(w==1 && a->neg==b) return mkConst(1,1); break;
    case XOR: if(a==b) return mkConst(w,0); if(isC(b,0)) return a; if(w==1&&isC(b,1)) return mkNot(a);
      break;
    case SHL: case LSHR: case ASHR: if(isC(b,0)) return a;
      if(isC(b) && b->k<w && op==SHL && a->op==ZEXT && a->a->w + b->k <= w && false) {}
      break;
    case UDIV: if(isC(b,1)) return a; break;
    case SDIV: if(isC(b,1)) return a; break;
    case UREM: case SREM: if(isC(b,1)) return mkConst(w,0); break;
    case EQ:
      if(a==b) return mkConst(1,1);
      if(w==1) { if(isC(b)) return b->k?a:mkNot(a); if(a->neg==b) return mkConst(1,0); }
      if(isC(b)) {
        if(a->op==ZEXT) return (b->k>>a->a->w)?mkConst(1,0):mkBin(EQ,a->a,mkConst(a->a->w,b->k));
        if(a->op==SEXT) return ((uint64_t)sx(b->k,a->a->w)&maskw(w))!=b->k?mkConst(1,0):mkBin(EQ,a->a,mkConst(a->a->w,b->k));
        if(a->op==ADD&&isC(a->b)) return mkBin(EQ,a->a,mkConst(w,b->k-a->b->k));
        if(a->op==XOR&&isC(a->b)) return mkBin(EQ,a->a,mkConst(w,b->k^a->b->k));
        if(a->op==CONCAT) return mkBin(AND,mkBin(EQ,a->a,mkConst(a->a->w,b->k>>a->b->w)),mkBin(EQ,a->b,mkConst(a->b->w,b->k)));
        if(a->op==ITE && (isC(a->b)||isC(a->c))) return mkIte(a->a,mkBin(EQ,a->b,b),mkBin(EQ,a->c,b));
      }
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkBin(EQ,a->a,b->a);
      if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mkBin(EQ,a->a,b->a);
      break;
    case ULT: if(a==b) return mkConst(1,0); if(isC(b,0)) return mkConst(1,0); if(isC(b,1)) return mkBin(EQ,a,mkConst(w,0));
      if(isC(a,maskw(w))) return mkConst(1,0); goto rel;
    case ULE: if(a==b||isC(a,0)||isC(b,maskw(w))) return mkConst(1,1); if(isC(b,0)) return mkBin(EQ,a,b); goto rel;
    case SLT: if(a==b) return mkConst(1,0); goto rel;
    case SLE: if(a==b) return mkConst(1,1); goto rel;
    rel:
      if(a->op==ZEXT && b->op==ZEXT && a->a->w==b->a->w) return mkBin(op==SLT?ULT:op==SLE?ULE:op,a->a,b->a);
      if((op==ULT||op==ULE) && a->op==ZEXT && isC(b)) { if(b->k>maskw(a->a->w)) return mkConst(1,1); return mkBin(op,a->a,mkConst(a->a->w,b->k)); }
      if((op==ULT||op==ULE) && b->op==ZEXT && isC(a)) { if(a->k>maskw(b->a->w)) return mkConst(1,0); return mkBin(op,mkConst(b->a->w,a->k),b->a); }
      if((op==SLT||op==SLE) && a->op==SEXT && b->op==SEXT && a->a->w==b->a->w) return mkBin(op,a->a,b->a);
      if((op==SLT||op==SLE) && a->op==ZEXT && isC(b) && sx(b->k,w)>=0) return mkBin(op==SLT?ULT:ULE,a,b);
      if((op==SLT||op==SLE) && b->op==ZEXT && isC(a) && sx(a->k,w)>=0) return mkBin(op==SLT?ULT:ULE,a,b);
      if(a->op==ITE && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->c,b));
      if(b->op==ITE && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->c));
      break;
    default: break;
  }
  return hc->get(op,rw,0,a,b,nullptr);
}

static uint64_t evalRec(E e, const std::vector<uint64_t>& m) {
  if(e->stamp==curStamp) return e->val;
  uint64_t r;
  switch(e->op) {
    case CONST: return e->k;
    case SYM: r = e->k<m.size()?m[e->k]&maskw(e->w):0; break;
    case ZEXT: r=evalRec(e->a,m); break;
    case SEXT: r=(uint64_t)sx(evalRec(e->a,m),e->a->w)&maskw(e->w); break;
    case EXTRACT: r=(evalRec(e->a,m)>>e->k)&maskw(e->w); break;
    case CONCAT: r=evalRec(e->a,m)<<e->b->w|evalRec(e->b,m); break;
    case ITE: r=evalRec(e->a,m)?evalRec(e->b,m):evalRec(e->c,m); break;
    default: r=evalop(e->op,e->w,evalRec(e->a,m),evalRec(e->b,m),e->a->w,nullptr);
  }
  e->stamp=curStamp; e->val=r; return r;
}
uint64_t evalE(E e, const std::vector<uint64_t>& model) { ++curStamp; return evalRec(e,model); }

const Set256& byteTable(E e) {
  if(!e->table) {
    e->table=new Set256; int v=e->sup.first();
    std::vector<uint64_t> m(v+1,0);
    for(unsigned i=0;i<256;i++){ m[v]=i; if(evalE(e,m)) e->table->set(i); }
  }
  return *e->table;
}

std::string show(E e, int d) {
  static const char* n[]={"const","sym","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","zext","sext","extract","concat","==","<u","<=u","<s","<=s","ite"};
  if(e->op==CONST) return std::to_string(e->k);
  if(e->op==SYM) return "v"+std::to_string(e->k)+":"+std::to_string(e->w);
  if(d<=0) return "...";
  std::string s=std::string("(")+n[e->op]; for(E x:{e->a,e->b,e->c}) if(x) s+=" "+show(x,d-1);
  if(e->op==EXTRACT) s+="@"+std::to_string(e->k); return s+":"+std::to_string(e->w)+")";
}

// ---------------------------------------------------------------- Z3
SolverStats SS; unsigned solverTimeoutMs=8000; std::string dumpDir; unsigned dumpEvery=0, dumpMax=0;
static Z3_context Z; static Z3_solver slv; static int sinceReset=0;
void solverInit() {
  Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); Z=Z3_mk_context(c);  /* not _rc: terms live as long as the context, so no temporary can be collected under us */ Z3_del_config(c);
  Z3_set_error_handler(Z,[](Z3_context cc,Z3_error_code ec){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(cc,ec)); _exit(3); });
}
static void mkSolver() {
  if(slv) Z3_solver_dec_ref(Z,slv);
  slv=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,slv);
  Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p);
  Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),solverTimeoutMs);
  Z3_solver_set_params(Z,slv,p); Z3_params_dec_ref(Z,p); sinceReset=0;
}
static Z3_ast zbv(E e); 
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(Z,a); return a; }
static Z3_ast zbool(E e) {
  if(e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch(e->op) {
    case CONST: r=e->k?Z3_mk_true(Z):Z3_mk_false(Z); break;
    case EQ: if(e->a->w==1) r=Z3_mk_eq(Z,zbool(e->a),zbool(e->b)); else r=Z3_mk_eq(Z,zbv(e->a),zbv(e->b)); break;
    case ULT: r=Z3_mk_bvult(Z,zbv(e->a),zbv(e->b)); break; case ULE: r=Z3_mk_bvule(Z,zbv(e->a),zbv(e->b)); break;
    case SLT: r=Z3_mk_bvslt(Z,zbv(e->a),zbv(e->b)); break; case SLE: r=Z3_mk_bvsle(Z,zbv(e->a),zbv(e->b)); break;
    case AND: { Z3_ast x[2]={zbool(e->a),zbool(e->b)}; r=Z3_mk_and(Z,2,x); break; }
    case OR: { Z3_ast x[2]={zbool(e->a),zbool(e->b)}; r=Z3_mk_or(Z,2,x); break; }
    case XOR: if(isC(e->b,1)) r=Z3_mk_not(Z,zbool(e->a)); else r=Z3_mk_xor(Z,zbool(e->a),zbool(e->b)); break;
    case ITE: r=Z3_mk_ite(Z,zbool(e->a),zbool(e->b),zbool(e->c)); break;
    default: r=Z3_mk_eq(Z,zbv(e),Z3_mk_unsigned_int64(Z,1,Z3_mk_bv_sort(Z,1)));
  }
  e->zbool=keep(r); return r;
}
static Z3_ast zbv(E e) {
  if(e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r; Z3_sort s=Z3_mk_bv_sort(Z,e->w);
  if((e->op==UDIV||e->op==UREM) && isC(e->b) && e->b->k) { // quotient and remainder as variables; divDefs states what they are
    char nm[40]; snprintf(nm,40,e->op==UDIV?"q%u_%llu_%u":"r%u_%llu_%u",e->a->id,(unsigned long long)e->b->k,e->w);
    r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),s); e->zbv=keep(r); return r; }
  bool viaBool = e->w==1 && (e->op==EQ||e->op==ULT||e->op==ULE||e->op==SLT||e->op==SLE||e->op==AND||e->op==OR||e->op==XOR||e->op==ITE);
  if(viaBool) r=Z3_mk_ite(Z,zbool(e),Z3_mk_unsigned_int64(Z,1,s),Z3_mk_unsigned_int64(Z,0,s));
  else switch(e->op) {
    case CONST: r=Z3_mk_unsigned_int64(Z,e->k,s); break;
    case SYM: { char nm[32]; snprintf(nm,32,"v%u_%u",(unsigned)e->k,e->w); r=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),s); break; }
    case ADD: r=Z3_mk_bvadd(Z,zbv(e->a),zbv(e->b)); break; case SUB: r=Z3_mk_bvsub(Z,zbv(e->a),zbv(e->b)); break;
    case MUL: r=Z3_mk_bvmul(Z,zbv(e->a),zbv(e->b)); break; case UDIV: r=Z3_mk_bvudiv(Z,zbv(e->a),zbv(e->b)); break;
    case SDIV: r=Z3_mk_bvsdiv(Z,zbv(e->a),zbv(e->b)); break; case UREM: r=Z3_mk_bvurem(Z,zbv(e->a),zbv(e->b)); break;
    case SREM: r=Z3_mk_bvsrem(Z,zbv(e->a),zbv(e->b)); break; case AND: r=Z3_mk_bvand(Z,zbv(e->a),zbv(e->b)); break;
    case OR: r=Z3_mk_bvor(Z,zbv(e->a),zbv(e->b)); break; case XOR: r=Z3_mk_bvxor(Z,zbv(e->a),zbv(e->b)); break;
    case SHL: r=Z3_mk_bvshl(Z,zbv(e->a),zbv(e->b)); break; case LSHR: r=Z3_mk_bvlshr(Z,zbv(e->a),zbv(e->b)); break;
    case ASHR: r=Z3_mk_bvashr(Z,zbv(e->a),zbv(e->b)); break;
    case ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->a->w,zbv(e->a)); break; case SEXT: r=Z3_mk_sign_ext(Z,e->w-e->a->w,zbv(e->a)); break;
    case EXTRACT: r=Z3_mk_extract(Z,e->k+e->w-1,e->k,zbv(e->a)); break;
    case CONCAT: r=Z3_mk_concat(Z,zbv(e->a),zbv(e->b)); break;
    case ITE: r=Z3_mk_ite(Z,zbool(e->a),zbv(e->b),zbv(e->c)); break;
    default: abort();
  }
  e->zbv=keep(r); return r;
}
static void collectSyms(E e, std::vector<E>& out) { // distinct SYM nodes below e
  if(e->stamp==curStamp) return; e->stamp=curStamp;
  if(e->op==SYM) out.push_back(e);
  for(E x:{e->a,e->b,e->c}) if(x && !x->sup.empty()) collectSyms(x,out);
}
// a = q*c + r, r < c, no overflow: exactly one (q,r) for every a, so asserting it restricts nothing
static void divDefs(E e, std::vector<Z3_ast>& out) {
  if(!e->hasdiv||e->stamp==curStamp) return; e->stamp=curStamp;
  for(E x:{e->a,e->b,e->c}) if(x) divDefs(x,out);
  if((e->op==UDIV||e->op==UREM) && isC(e->b) && e->b->k) {
    E Q=hc->get(UDIV,e->w,0,e->a,e->b,nullptr), R=hc->get(UREM,e->w,0,e->a,e->b,nullptr); Z3_ast q=zbv(Q), r=zbv(R), a=zbv(e->a), c=zbv(e->b);
    if(Q->stamp==curStamp && R->stamp==curStamp && Q!=e && R!=e) return;
    (e==Q?R:Q)->stamp=curStamp;
    out.push_back(Z3_mk_bvule(Z,q,zbv(mkConst(e->w,maskw(e->w)/e->b->k)))); out.push_back(Z3_mk_bvult(Z,r,c)); out.push_back(Z3_mk_bvule(Z,r,a));
    out.push_back(Z3_mk_eq(Z,Z3_mk_bvmul(Z,q,c),Z3_mk_bvsub(Z,a,r)));
  }
}
struct CacheEnt { int r; std::vector<std::pair<unsigned,uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h=1469598103934665603ull; for(auto x:v){h^=x;h*=1099511628211ull;} return h; } };
static std::unordered_map<std::vector<uint32_t>,CacheEnt,VH> qcache;

int solve(const std::vector<E>& cs, std::vector<std::pair<unsigned,uint64_t>>& out) {
  out.clear();
  std::vector<uint32_t> key; for(E e:cs){ if(isC(e)){ if(!e->k) return 0; continue; } key.push_back(e->id); }
  std::sort(key.begin(),key.end());
  auto it=qcache.find(key); if(it!=qcache.end()){ SS.cachehits++; out=it->second.m; return it->second.r; }
  if(!slv || ++sinceReset>3000) mkSolver();
  auto t0=std::chrono::steady_clock::now();
  Z3_solver_push(Z,slv);
  for(E e:cs) if(!isC(e)) Z3_solver_assert(Z,slv,zbool(e));
  { std::vector<Z3_ast> dd; ++curStamp; for(E e:cs) divDefs(e,dd); for(Z3_ast d:dd) Z3_solver_assert(Z,slv,d); }
  Z3_lbool r=Z3_solver_check(Z,slv); Z3_solver used=slv, alt=nullptr;
  if(r==Z3_L_UNDEF) { // second attempt: Z3's QF_BV tactic on the same assertions
    Z3_ast_vector av=Z3_solver_get_assertions(Z,slv); Z3_ast_vector_inc_ref(Z,av);
    alt=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,alt);
    Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),solverTimeoutMs*8); Z3_solver_set_params(Z,alt,p); Z3_params_dec_ref(Z,p);
    for(unsigned i=0;i<Z3_ast_vector_size(Z,av);i++) Z3_solver_assert(Z,alt,Z3_ast_vector_get(Z,av,i));
    r=Z3_solver_check(Z,alt); used=alt; Z3_ast_vector_dec_ref(Z,av);
  }
  SS.queries++;
  int res = r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(res==1) {
    SS.sat++;
    std::vector<E> syms; ++curStamp; for(E e:cs) collectSyms(e,syms);
    Z3_model m=Z3_solver_get_model(Z,used); Z3_model_inc_ref(Z,m);
    for(E s:syms){ Z3_ast v; uint64_t x=0; if(Z3_model_eval(Z,m,zbv(s),true,&v)){ Z3_inc_ref(Z,v); Z3_get_numeral_uint64(Z,v,(uint64_t*)&x); Z3_dec_ref(Z,v);} out.push_back({(unsigned)s->k,x}); }
    Z3_model_dec_ref(Z,m);
  } else if(res==0) SS.unsat++; else SS.unknown++;
  if(dumpEvery && res>=0 && SS.dumped<dumpMax && SS.queries%dumpEvery==0) {
    SS.dumped++; char fn[300]; snprintf(fn,300,"%s/q_%d_%llu_%s.smt2",dumpDir.c_str(),(int)getpid_(),(unsigned long long)SS.queries,res?"sat":"unsat");
    if(FILE*f=fopen(fn,"w")){ fprintf(f,"(set-logic QF_BV)\n%s\n(check-sat)\n",Z3_solver_to_string(Z,slv)); fclose(f); }
  }
  if(res<0 && getenv("TG_DUMPUNK")) { char fn[300]; snprintf(fn,300,"/tmp/w/unk_%d_%llu.smt2",(int)getpid_(),(unsigned long long)SS.queries); if(FILE*f=fopen(fn,"w")){ fprintf(f,"%s\n(check-sat)\n",Z3_solver_to_string(Z,slv)); fclose(f);} }
  Z3_solver_pop(Z,slv,1);
  SS.time+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  if(alt) Z3_solver_dec_ref(Z,alt);
  if(qcache.size()>200000) qcache.clear();
  if(res>=0) qcache[key]=CacheEnt{res,out};
  return res;
}
