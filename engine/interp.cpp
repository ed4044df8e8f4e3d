// tgsym: bounded symbolic execution of LLVM IR (opaque pointers, LLVM 18) with Z3.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdarg>
#include <fstream>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
using std::vector; using std::string;
namespace L = llvm;

// ------------------------------------------------------------------ options
static string outDir=".", entry, repoPrefix="/repo/";
static double timeLimit=60; static int maxWorkers=1; static uint64_t maxSteps=20000000; static unsigned maxSamples=24; static int maxViol=4; static bool useTable=true, audit=false;
static std::map<string,long> params;
static unsigned maxDepth=1500;
static std::set<string> rtGlobals; // globals of the runtime model: stand-ins for the C++ library's own, which it synchronises

// ------------------------------------------------------------------ shared statistics
struct Shared {
  std::atomic<int> active, stop, nviol, unsupported, incomplete, labLock, nlab;
  std::atomic<uint64_t> paths, killed, forks, insts, queries, sat, unsat, unknown, cacheh, table, audits, auditBad, obligations, obligConst, samples, nextSample, maxPathSteps, solverUs, maxVars, dumped;
  struct Lab { char name[80]; std::atomic<uint64_t> n; } lab[200];
  char lines[65536]; char funcs[4096];
  char firstUnsupported[400];
};
static Shared* G;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double deadline;

// ------------------------------------------------------------------ memory
struct Obj { uint32_t rc=1; uint64_t size; uint8_t* b; E* s=nullptr; uint16_t gen; uint8_t kind; bool ro=false, sh=false, priv=false; const char* name=""; 
  ~Obj(){ free(b); free(s);} };
enum { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_EXTERN, K_EXC };
static const unsigned SLOTB=20; static const uint64_t SLOTM=(1u<<SLOTB)-1;
inline uint64_t mkAddr(uint32_t slot, uint16_t gen){ return ((uint64_t)gen<<SLOTB|slot)<<32; }
static Obj* newObj(uint64_t size, int kind, const char* name, int fill){ Obj* o=new Obj; o->size=size; o->b=(uint8_t*)malloc(size?size:1); memset(o->b,fill,size); o->kind=kind; o->name=name; o->gen=1; return o; }

struct Func;
struct Frame { Func* f; uint32_t pc; uint32_t base; vector<uint32_t> allocas; uint64_t stepIn; };
struct SymObj { string name; unsigned first, count, width; };
struct Exc { uint64_t obj, ti, dtor; int handlers=0; bool rethrown=false; uint64_t adj=0; };

struct State {
  vector<Frame> st; vector<Val> regs; vector<Obj*> objs; std::deque<std::pair<uint32_t,uint16_t>> freeSlots;
  vector<E> pc; vector<uint32_t> decidedT, decidedF; vector<uint64_t> model; vector<Set256> dom; Sup entangled;
  vector<SymObj> syms; unsigned nvars=0; uint64_t steps=0; vector<Exc> excs; vector<uint64_t> caught; uint64_t lpObj=0, lpSel=0;
  vector<std::pair<Val,unsigned>> obs; uint64_t heapLive=0; std::map<string,uint64_t> kv; vector<const char*> reached;
  bool rangeOn=false; uint32_t rangeLo=0, rangeHi=0; unsigned rangeVar=0;
  struct Conc { int thread=0, locks=0, rlocks=0, guards=0; bool atomic=false; vector<std::pair<uint64_t,uint64_t>> locked; std::map<uint64_t,size_t> released; size_t ordered=0; } cc; // thread: 1 or 2 while that thread's part runs; locked: what thread 1 wrote under a lock; released: atomics and guards it stored to, and how many of those writes came before; ordered: how many of them thread 2 has seen through one of these
  State(){}
  State(const State& o):st(o.st),regs(o.regs),objs(o.objs),freeSlots(o.freeSlots),pc(o.pc),decidedT(o.decidedT),decidedF(o.decidedF),model(o.model),dom(o.dom),entangled(o.entangled),syms(o.syms),nvars(o.nvars),steps(o.steps),excs(o.excs),caught(o.caught),lpObj(o.lpObj),lpSel(o.lpSel),obs(o.obs),heapLive(o.heapLive),kv(o.kv),reached(o.reached),rangeOn(o.rangeOn),rangeLo(o.rangeLo),rangeHi(o.rangeHi),rangeVar(o.rangeVar),cc(o.cc){ for(Obj*x:objs) if(x) x->rc++; }
  ~State(){ for(Obj*x:objs) if(x && --x->rc==0) delete x; }
  uint64_t addObj(Obj* o){
    uint32_t slot; uint16_t gen=1;
    if(freeSlots.size()>512){ slot=freeSlots.front().first; gen=freeSlots.front().second; freeSlots.pop_front(); o->gen=gen; objs[slot]=o; }
    else { slot=objs.size(); if(slot>SLOTM){fprintf(stderr,"out of slots\n");_exit(3);} objs.push_back(o); o->gen=gen; }
    return mkAddr(slot,gen);
  }
  void freeObj(uint32_t slot){ Obj*o=objs[slot]; uint16_t g=(o->gen+1)&0xfff; if(!g) g=1; if(--o->rc==0) delete o; objs[slot]=nullptr; freeSlots.push_back({slot,g}); }
  Obj* find(uint64_t a){ uint32_t s=(a>>32)&SLOTM; if(s>=objs.size()) return nullptr; Obj*o=objs[s]; if(!o||o->gen!=(a>>52)) return nullptr; return o; }
  Obj* writable(uint64_t a){ uint32_t s=(a>>32)&SLOTM; Obj*o=objs[s]; if(o->rc>1){ Obj*n=new Obj(*o); n->rc=1; n->b=(uint8_t*)malloc(o->size?o->size:1); memcpy(n->b,o->b,o->size); if(o->s){ n->s=(E*)malloc(sizeof(E)*(o->size?o->size:1)); memcpy(n->s,o->s,sizeof(E)*o->size);} o->rc--; objs[s]=n; return n;} return o; }
};

// ------------------------------------------------------------------ decoded code
enum IOp : uint16_t { I_BIN, I_ICMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_JMP, I_SWITCH, I_CALL, I_RET, I_SELECT, I_COPY, I_LPAD, I_RESUME, I_UNREACH, I_NOP, I_BAD, I_INTR, I_FP };
struct Edge { uint32_t target; vector<std::pair<int,int>> copies; };
struct Inst { IOp op; uint8_t sub=0, w=0, w2=0; int dst=-1, a=0,b=0,c=0; uint64_t imm=0; uint32_t x=0; uint32_t line=0; };
struct CallInfo { Func* target=nullptr; int callee=0; vector<int> args; vector<unsigned> widths; vector<uint64_t> byval; int dst=-1; unsigned nret=0, retw=0; bool invoke=false; Edge normal, unwind; uint32_t lpad=0; string desc; };
struct GepInfo { int base; int64_t off; vector<std::pair<int,uint64_t>> idx; vector<unsigned> idxw; };
struct SwitchInfo { int v; unsigned w; vector<std::pair<uint64_t,unsigned>> cases; unsigned def; vector<Edge> edges; };
struct LpadInfo { bool cleanup; vector<std::pair<bool,uint64_t>> clauses; };
typedef void (*BuiltinFn)(State&, CallInfo&, Val*, Val&);
struct Func { L::Function* F; string name; bool decoded=false; BuiltinFn bi=nullptr; vector<Inst> code; vector<CallInfo> calls; vector<GepInfo> geps; vector<SwitchInfo> sws; vector<LpadInfo> lps; vector<Edge> edges; vector<string> bads; unsigned nslots=0; vector<int> argSlots; unsigned nargs=0; uint32_t fid=0; bool isRepo=false; };
static vector<Val> cpool; // constants: operand -1-i
static std::unordered_map<uint64_t,int> cpoolIdx;
static int constOp(uint64_t v){ auto it=cpoolIdx.find(v); if(it!=cpoolIdx.end()) return it->second; cpool.push_back(V(v)); int r=-(int)cpool.size(); cpoolIdx[v]=r; return r; }

static L::Module* M; static const L::DataLayout* DL;
static std::unordered_map<const L::Function*,Func*> funcs;
static std::unordered_map<uint64_t,Func*> funcByAddr;
static std::unordered_map<const L::GlobalValue*,uint64_t> gaddr;
static std::unordered_map<string,BuiltinFn> builtins;
static std::map<std::pair<string,unsigned>,uint32_t> lineIds; static vector<std::pair<string,unsigned>> lineTab(1);
static std::map<string,uint32_t> funcIds; static vector<string> funcTab(1);
static std::unordered_map<uint32_t,uint32_t> lineFunc;

// path-ending events
struct EndPath { int kind; }; // 0 finished, 1 killed (assumption), 2 reported
struct Unsupported { string msg; };
static void unsup(const string& s){ throw Unsupported{s}; }

static string typeStr(L::Type* t){ string s; L::raw_string_ostream o(s); t->print(o); return s; }
static void flatten(L::Type* t, vector<unsigned>& w) {
  if(t->isIntegerTy()){ unsigned n=t->getIntegerBitWidth(); if(n>64) unsup("integer type i"+std::to_string(n)); w.push_back(n); }
  else if(t->isPointerTy()) w.push_back(64);
  else if(t->isFloatTy()) w.push_back(32); else if(t->isDoubleTy()) w.push_back(64);
  else if(auto*s=L::dyn_cast<L::StructType>(t)) for(auto*e:s->elements()) flatten(e,w);
  else if(auto*a=L::dyn_cast<L::ArrayType>(t)) for(uint64_t i=0;i<a->getNumElements();i++) flatten(a->getElementType(),w);
  else if(auto*v=L::dyn_cast<L::FixedVectorType>(t)) for(unsigned i=0;i<v->getNumElements();i++) flatten(v->getElementType(),w);
  else if(t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) {}
  else if(t->isX86_FP80Ty()) unsup("x86_fp80"); else unsup("type "+typeStr(t));
}
static unsigned nflat(L::Type* t){ vector<unsigned> w; flatten(t,w); return w.size(); }

static uint64_t addrOf(const L::GlobalValue* g){ auto it=gaddr.find(g); if(it==gaddr.end()){ if(auto*a=L::dyn_cast<L::GlobalAlias>(g)) return addrOf(L::cast<L::GlobalValue>(a->getAliasee()->stripPointerCasts())); unsup("address of "+g->getName().str()); } return it->second; }
static void constFlat(const L::Constant* c, vector<uint64_t>& out);
static uint64_t const1(const L::Constant* c){ vector<uint64_t> v; constFlat(c,v); if(v.size()!=1) unsup("aggregate constant"); return v[0]; }
static void constFlat(const L::Constant* c, vector<uint64_t>& out) {
  L::Type* t=c->getType();
  if(auto*i=L::dyn_cast<L::ConstantInt>(c)){ if(i->getBitWidth()>64) unsup("wide constant"); out.push_back(i->getZExtValue()); return; }
  if(L::isa<L::ConstantPointerNull>(c)){ out.push_back(0); return; }
  if(auto*f=L::dyn_cast<L::ConstantFP>(c)){ out.push_back(f->getValueAPF().bitcastToAPInt().getZExtValue()); return; }
  if(L::isa<L::UndefValue>(c)||L::isa<L::ConstantAggregateZero>(c)){ out.insert(out.end(),nflat(t),0); return; }
  if(auto*g=L::dyn_cast<L::GlobalValue>(c)){ out.push_back(addrOf(g)); return; }
  if(L::isa<L::ConstantStruct>(c)||L::isa<L::ConstantArray>(c)||L::isa<L::ConstantVector>(c)){ for(unsigned i=0;i<c->getNumOperands();i++) constFlat(L::cast<L::Constant>(c->getOperand(i)),out); return; }
  if(auto*d=L::dyn_cast<L::ConstantDataSequential>(c)){ for(unsigned i=0;i<d->getNumElements();i++) constFlat(d->getElementAsConstant(i),out); return; }
  if(auto*e=L::dyn_cast<L::ConstantExpr>(c)) {
    if(auto*gep=L::dyn_cast<L::GEPOperator>(e)){ L::APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) unsup("constant gep"); out.push_back(const1(L::cast<L::Constant>(gep->getPointerOperand()))+off.getSExtValue()); return; }
    unsigned w=t->isPointerTy()?64:t->isIntegerTy()?t->getIntegerBitWidth():64;
    switch(e->getOpcode()) {
      case L::Instruction::BitCast: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast: constFlat(e->getOperand(0),out); return;
      case L::Instruction::PtrToInt: case L::Instruction::Trunc: out.push_back(const1(e->getOperand(0))&maskw(w)); return;
      case L::Instruction::Add: out.push_back((const1(e->getOperand(0))+const1(e->getOperand(1)))&maskw(w)); return;
      case L::Instruction::Sub: out.push_back((const1(e->getOperand(0))-const1(e->getOperand(1)))&maskw(w)); return;
      case L::Instruction::Xor: out.push_back(const1(e->getOperand(0))^const1(e->getOperand(1))); return;
      case L::Instruction::ICmp: { auto p=(L::CmpInst::Predicate)e->getPredicate(); uint64_t a=const1(e->getOperand(0)),b=const1(e->getOperand(1)); if(p==L::CmpInst::ICMP_EQ){out.push_back(a==b);return;} if(p==L::CmpInst::ICMP_NE){out.push_back(a!=b);return;} break; }
      default: break;
    }
    string s; L::raw_string_ostream o(s); e->print(o); unsup("constant expression "+s);
  }
  unsup("constant of type "+typeStr(t));
}
static void initMem(uint8_t* p, const L::Constant* c) {
  L::Type* t=c->getType();
  if(L::isa<L::ConstantAggregateZero>(c)||L::isa<L::UndefValue>(c)) return;
  if(auto*d=L::dyn_cast<L::ConstantDataSequential>(c)){ auto r=d->getRawDataValues(); memcpy(p,r.data(),r.size()); return; }
  if(auto*s=L::dyn_cast<L::ConstantStruct>(c)){ auto*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initMem(p+sl->getElementOffset(i),s->getOperand(i)); return; }
  if(L::isa<L::ConstantArray>(c)){ uint64_t sz=DL->getTypeAllocSize(L::cast<L::ArrayType>(t)->getElementType()); for(unsigned i=0;i<c->getNumOperands();i++) initMem(p+i*sz,L::cast<L::Constant>(c->getOperand(i))); return; }
  uint64_t v=const1(c); memcpy(p,&v,DL->getTypeStoreSize(t));
}

static uint32_t lineIdOf(const L::Instruction& I, string* fn=nullptr) {
  const L::DILocation* loc=I.getDebugLoc(); // innermost repo scope on the inline chain
  while(loc) {
    string f=loc->getFilename().str(); if(f.size()&&f[0]!='/') f=loc->getDirectory().str()+"/"+f;
    if(f.compare(0,repoPrefix.size(),repoPrefix)==0 && loc->getLine()) {
      auto key=std::make_pair(f.substr(repoPrefix.size()),loc->getLine());
      auto it=lineIds.find(key); uint32_t id;
      if(it==lineIds.end()){ id=lineTab.size(); lineTab.push_back(key); lineIds[key]=id; } else id=it->second;
      if(auto*sp=loc->getScope()->getSubprogram()) { string n=sp->getLinkageName().empty()?sp->getName().str():L::demangle(sp->getLinkageName().str()); auto&fi=funcIds[n]; if(!fi){ fi=funcTab.size(); funcTab.push_back(n);} lineFunc[id]=fi; }
      return id<65536?id:0;
    }
    loc=loc->getInlinedAt();
  }
  return 0;
}

struct Decoder {
  Func& fn; std::unordered_map<const L::Value*,int> slot; std::unordered_map<const L::BasicBlock*,uint32_t> bbStart;
  Decoder(Func&f):fn(f){}
  int newSlots(unsigned n){ int r=fn.nslots; fn.nslots+=n; return r; }
  void ops(const L::Value* v, vector<int>& out) {
    if(auto*c=L::dyn_cast<L::Constant>(v)){ vector<uint64_t> k; constFlat(c,k); vector<unsigned> w; flatten(v->getType(),w); for(size_t i=0;i<k.size();i++) out.push_back(constOp(k[i]&maskw(w[i]))); return; }
    auto it=slot.find(v); if(it==slot.end()) unsup("unmapped value"); unsigned n=nflat(v->getType()); for(unsigned i=0;i<n;i++) out.push_back(it->second+i);
  }
  int op(const L::Value* v){ vector<int> o; ops(v,o); if(o.size()!=1) unsup("aggregate operand"); return o[0]; }
  static unsigned width(L::Type* t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
  struct PendEdge { const L::BasicBlock *from,*to; Edge* e; };
  Edge edge(const L::BasicBlock* from, const L::BasicBlock* to) {
    Edge e; e.target=0; pend.push_back({from,to});
    for(auto& phi:to->phis()) { vector<int> src; ops(phi.getIncomingValueForBlock(from),src); int d=slot[&phi]; for(size_t i=0;i<src.size();i++) e.copies.push_back({d+(int)i,src[i]}); }
    e.target=blockIndex[to]; return e; // block index, fixed up later
  }
  vector<std::pair<const L::BasicBlock*,const L::BasicBlock*>> pend; std::unordered_map<const L::BasicBlock*,uint32_t> blockIndex;
  void run() {
    L::Function& F=*fn.F;
    for(auto& a:F.args()){ unsigned n=nflat(a.getType()); int s=newSlots(n); slot[&a]=s; for(unsigned i=0;i<n;i++) fn.argSlots.push_back(s+i); }
    fn.nargs=fn.argSlots.size();
    uint32_t bi=0;
    for(auto& B:F){ blockIndex[&B]=bi++; for(auto& I:B) if(!I.getType()->isVoidTy()) { unsigned n; try { n=nflat(I.getType()); } catch(Unsupported&) { n=1; } slot[&I]=newSlots(n); } }
    vector<uint32_t> start(bi);
    for(auto& B:F) { start[blockIndex[&B]]=fn.code.size(); for(auto& I:B) { size_t k=fn.code.size(); uint32_t ln=lineIdOf(I); try { one(I); } catch(Unsupported& u) { fn.code.resize(k); Inst in; in.op=I_BAD; in.x=fn.bads.size(); string s; L::raw_string_ostream o(s); I.print(o); fn.bads.push_back(u.msg+" in "+s); fn.code.push_back(in); } for(;k<fn.code.size();k++) fn.code[k].line=ln; } }
    for(auto& e:fn.edges) e.target=start[e.target];
    for(auto& c:fn.calls) if(c.invoke){ c.normal.target=start[c.normal.target]; c.unwind.target=start[c.unwind.target]; }
    for(auto& s:fn.sws) for(auto& e:s.edges) e.target=start[e.target];
    fn.decoded=true;
  }
  void emit(Inst i){ fn.code.push_back(i); }
  void one(L::Instruction& I) {
    Inst in; in.dst = I.getType()->isVoidTy()?-1:slot[&I];
    using LI=L::Instruction;
    if(L::isa<L::PHINode>(I)) return;
    if(L::isa<L::DbgInfoIntrinsic>(I)) return;
    if(auto* B=L::dyn_cast<L::BinaryOperator>(&I)) {
      if(I.getType()->isFPOrFPVectorTy()) { vector<int> x,y; ops(B->getOperand(0),x); ops(B->getOperand(1),y); vector<unsigned> w; flatten(I.getType(),w); for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_FP; k.sub=B->getOpcode(); k.w=w[i]; k.dst=in.dst+i; k.a=x[i]; k.b=y[i]; emit(k);} return; }
      vector<int> x,y; ops(B->getOperand(0),x); ops(B->getOperand(1),y); vector<unsigned> w; flatten(I.getType(),w);
      Op o; switch(B->getOpcode()){ case LI::Add:o=ADD;break;case LI::Sub:o=SUB;break;case LI::Mul:o=MUL;break;case LI::UDiv:o=UDIV;break;case LI::SDiv:o=SDIV;break;case LI::URem:o=UREM;break;case LI::SRem:o=SREM;break;case LI::And:o=AND;break;case LI::Or:o=OR;break;case LI::Xor:o=XOR;break;case LI::Shl:o=SHL;break;case LI::LShr:o=LSHR;break;case LI::AShr:o=ASHR;break;default: unsup("binop"); o=ADD; }
      for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_BIN; k.sub=o; k.w=w[i]; k.dst=in.dst+i; k.a=x[i]; k.b=y[i]; emit(k);} return;
    }
    if(auto* C=L::dyn_cast<L::ICmpInst>(&I)) {
      vector<int> x,y; ops(C->getOperand(0),x); ops(C->getOperand(1),y); vector<unsigned> w; flatten(C->getOperand(0)->getType(),w);
      Op o; bool sw=false,ng=false;
      switch(C->getPredicate()){ case L::CmpInst::ICMP_EQ:o=EQ;break;case L::CmpInst::ICMP_NE:o=EQ;ng=true;break;case L::CmpInst::ICMP_ULT:o=ULT;break;case L::CmpInst::ICMP_ULE:o=ULE;break;case L::CmpInst::ICMP_UGT:o=ULT;sw=true;break;case L::CmpInst::ICMP_UGE:o=ULE;sw=true;break;
        case L::CmpInst::ICMP_SLT:o=SLT;break;case L::CmpInst::ICMP_SLE:o=SLE;break;case L::CmpInst::ICMP_SGT:o=SLT;sw=true;break;case L::CmpInst::ICMP_SGE:o=SLE;sw=true;break;default:unsup("icmp");o=EQ;}
      for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_ICMP; k.sub=o; k.w=w[i]; k.w2=ng; k.dst=in.dst+i; k.a=sw?y[i]:x[i]; k.b=sw?x[i]:y[i]; emit(k);} return;
    }
    if(auto* U=L::dyn_cast<L::UnaryOperator>(&I)) { vector<int> x; ops(U->getOperand(0),x); vector<unsigned> w; flatten(I.getType(),w); for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_FP; k.sub=LI::FNeg; k.w=w[i]; k.dst=in.dst+i; k.a=x[i]; emit(k);} return; }
    if(auto* C=L::dyn_cast<L::FCmpInst>(&I)) { vector<int> x,y; ops(C->getOperand(0),x); ops(C->getOperand(1),y); vector<unsigned> w; flatten(C->getOperand(0)->getType(),w); for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_FP; k.sub=LI::FCmp; k.w=w[i]; k.w2=C->getPredicate(); k.dst=in.dst+i; k.a=x[i]; k.b=y[i]; emit(k);} return; }
    if(auto* C=L::dyn_cast<L::CastInst>(&I)) {
      vector<int> x; ops(C->getOperand(0),x); vector<unsigned> ws,wd; flatten(C->getSrcTy(),ws); flatten(C->getDestTy(),wd);
      unsigned o=C->getOpcode();
      if(o==LI::FPToUI||o==LI::FPToSI||o==LI::UIToFP||o==LI::SIToFP||o==LI::FPTrunc||o==LI::FPExt) { for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_FP; k.sub=o; k.w=ws[i]; k.w2=wd[i]; k.dst=in.dst+i; k.a=x[i]; emit(k);} return; }
      if(ws.size()!=wd.size()) unsup("vector bitcast");
      for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_CAST; k.sub=(o==LI::SExt)?SEXT:(o==LI::Trunc)?EXTRACT:ZEXT; k.w=ws[i]; k.w2=wd[i]; if(o==LI::PtrToInt&&wd[i]<64) k.sub=EXTRACT; k.dst=in.dst+i; k.a=x[i]; emit(k);} return;
    }
    if(auto* Ld=L::dyn_cast<L::LoadInst>(&I)) { in.sub=Ld->isAtomic(); memop(in,I.getType(),op(Ld->getPointerOperand()),nullptr); return; }
    if(auto* S=L::dyn_cast<L::StoreInst>(&I)) { in.sub=S->isAtomic(); vector<int> v; ops(S->getValueOperand(),v); memop(in,S->getValueOperand()->getType(),op(S->getPointerOperand()),&v); return; }
    if(auto* g=L::dyn_cast<L::GetElementPtrInst>(&I)) {
      if(I.getType()->isVectorTy()) unsup("vector gep");
      GepInfo gi; gi.base=op(g->getPointerOperand()); gi.off=0;
      for(auto it=L::gep_type_begin(g);it!=L::gep_type_end(g);++it) {
        L::Value* ix=it.getOperand();
        if(auto*st=it.getStructTypeOrNull()){ gi.off+=DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t sz=DL->getTypeAllocSize(it.getIndexedType());
        if(auto*ci=L::dyn_cast<L::ConstantInt>(ix)) gi.off+=ci->getSExtValue()*(int64_t)sz; else { gi.idx.push_back({op(ix),sz}); gi.idxw.push_back(ix->getType()->getIntegerBitWidth()); }
      }
      in.op=I_GEP; in.x=fn.geps.size(); fn.geps.push_back(gi); emit(in); return;
    }
    if(auto* A=L::dyn_cast<L::AllocaInst>(&I)) { in.op=I_ALLOCA; in.imm=DL->getTypeAllocSize(A->getAllocatedType()); in.a=op(A->getArraySize()); emit(in); return; }
    if(auto* B=L::dyn_cast<L::BranchInst>(&I)) {
      if(B->isUnconditional()){ in.op=I_JMP; in.x=fn.edges.size(); fn.edges.push_back(edge(I.getParent(),B->getSuccessor(0))); }
      else { in.op=I_BR; in.a=op(B->getCondition()); Edge t=edge(I.getParent(),B->getSuccessor(0)), f=edge(I.getParent(),B->getSuccessor(1)); in.x=fn.edges.size(); fn.edges.push_back(t); fn.edges.push_back(f); }
      emit(in); return;
    }
    if(auto* S=L::dyn_cast<L::SwitchInst>(&I)) {
      SwitchInfo si; si.v=op(S->getCondition()); si.w=width(S->getCondition()->getType()); std::map<const L::BasicBlock*,unsigned> em;
      auto get=[&](const L::BasicBlock*b){ auto it=em.find(b); if(it!=em.end()) return it->second; unsigned k=si.edges.size(); si.edges.push_back(edge(I.getParent(),b)); em[b]=k; return k; };
      si.def=get(S->getDefaultDest()); for(auto&c:S->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(),get(c.getCaseSuccessor())});
      in.op=I_SWITCH; in.x=fn.sws.size(); fn.sws.push_back(si); emit(in); return;
    }
    if(auto* R=L::dyn_cast<L::ReturnInst>(&I)) { in.op=I_RET; in.x=fn.edges.size(); Edge e; e.target=0; if(R->getReturnValue()){ vector<int> v; ops(R->getReturnValue(),v); for(int k:v) e.copies.push_back({0,k}); } fn.edges.push_back(e); emit(in); return; }
    if(auto* S=L::dyn_cast<L::SelectInst>(&I)) {
      vector<int> x,y,c; ops(S->getTrueValue(),x); ops(S->getFalseValue(),y); ops(S->getCondition(),c); vector<unsigned> w; flatten(I.getType(),w); bool p=I.getType()->isPtrOrPtrVectorTy()||I.getType()->isStructTy();
      for(size_t i=0;i<x.size();i++){ Inst k=in; k.op=I_SELECT; k.w=w[i]; k.w2=p; k.dst=in.dst+i; k.a=c[c.size()>1?i:0]; k.b=x[i]; k.c=y[i]; emit(k);} return;
    }
    if(auto* E_=L::dyn_cast<L::ExtractValueInst>(&I)) { vector<int> v; ops(E_->getAggregateOperand(),v); unsigned off=aggOff(E_->getAggregateOperand()->getType(),E_->getIndices()); unsigned n=nflat(I.getType()); for(unsigned i=0;i<n;i++) copy(in.dst+i,v[off+i]); return; }
    if(auto* N=L::dyn_cast<L::InsertValueInst>(&I)) { vector<int> v,x; ops(N->getAggregateOperand(),v); ops(N->getInsertedValueOperand(),x); unsigned off=aggOff(I.getType(),N->getIndices()); for(size_t i=0;i<v.size();i++) copy(in.dst+i, i>=off&&i<off+x.size()?x[i-off]:v[i]); return; }
    if(auto* X=L::dyn_cast<L::ExtractElementInst>(&I)) { auto*ci=L::dyn_cast<L::ConstantInt>(X->getIndexOperand()); if(!ci) unsup("variable extractelement"); vector<int> v; ops(X->getVectorOperand(),v); copy(in.dst,v[ci->getZExtValue()]); return; }
    if(auto* X=L::dyn_cast<L::InsertElementInst>(&I)) { auto*ci=L::dyn_cast<L::ConstantInt>(X->getOperand(2)); if(!ci) unsup("variable insertelement"); vector<int> v; ops(X->getOperand(0),v); v[ci->getZExtValue()]=op(X->getOperand(1)); for(size_t i=0;i<v.size();i++) copy(in.dst+i,v[i]); return; }
    if(auto* X=L::dyn_cast<L::ShuffleVectorInst>(&I)) { vector<int> v; ops(X->getOperand(0),v); ops(X->getOperand(1),v); auto m=X->getShuffleMask(); for(size_t i=0;i<m.size();i++) copy(in.dst+i,m[i]<0?constOp(0):v[m[i]]); return; }
    if(L::isa<L::FreezeInst>(I)) { vector<int> v; ops(I.getOperand(0),v); for(size_t i=0;i<v.size();i++) copy(in.dst+i,v[i]); return; }
    if(auto* P=L::dyn_cast<L::LandingPadInst>(&I)) {
      LpadInfo li; li.cleanup=P->isCleanup(); for(unsigned i=0;i<P->getNumClauses();i++){ if(P->isCatch(i)) li.clauses.push_back({true,const1(P->getClause(i))}); else li.clauses.push_back({false,0}); }
      in.op=I_LPAD; in.x=fn.lps.size(); fn.lps.push_back(li); emit(in); return;
    }
    if(auto* R=L::dyn_cast<L::ResumeInst>(&I)) { vector<int> v; ops(R->getOperand(0),v); in.op=I_RESUME; in.a=v[0]; emit(in); return; }
    if(L::isa<L::UnreachableInst>(I)) { in.op=I_UNREACH; emit(in); return; }
    if(L::isa<L::FenceInst>(I)) return;
    if(auto* R=L::dyn_cast<L::AtomicRMWInst>(&I)) { // single-threaded: load, op, store
      unsigned w=width(I.getType()); int p=op(R->getPointerOperand()), v=op(R->getValOperand()); Inst l=in; l.op=I_LOAD; l.sub=1; l.w=w; l.a=p; emit(l); int t=newSlots(1);
      Op o; switch(R->getOperation()){ case L::AtomicRMWInst::Add:o=ADD;break;case L::AtomicRMWInst::Sub:o=SUB;break;case L::AtomicRMWInst::And:o=AND;break;case L::AtomicRMWInst::Or:o=OR;break;case L::AtomicRMWInst::Xor:o=XOR;break;case L::AtomicRMWInst::Xchg: { Inst s; s.op=I_STORE; s.sub=1; s.w=w; s.a=p; s.b=v; emit(s); return; } default: unsup("atomicrmw"); o=ADD; }
      Inst b; b.op=I_BIN; b.sub=o; b.w=w; b.dst=t; b.a=in.dst; b.b=v; emit(b); Inst s; s.op=I_STORE; s.sub=1; s.w=w; s.a=p; s.b=t; emit(s); return;
    }
    if(auto* X=L::dyn_cast<L::AtomicCmpXchgInst>(&I)) { // single-threaded: load, compare, select, store
      int p=op(X->getPointerOperand()), c=op(X->getCompareOperand()), v=op(X->getNewValOperand()); unsigned w=width(X->getNewValOperand()->getType()); Inst l=in; l.op=I_LOAD; l.sub=1; l.w=w; l.a=p; emit(l);
      Inst k=in; k.op=I_ICMP; k.sub=EQ; k.w=w; k.w2=false; k.dst=in.dst+1; k.a=in.dst; k.b=c; emit(k); int t=newSlots(1); Inst q; q.op=I_SELECT; q.w=w; q.w2=X->getNewValOperand()->getType()->isPointerTy(); q.dst=t; q.a=in.dst+1; q.b=v; q.c=in.dst; emit(q); Inst st; st.op=I_STORE; st.sub=1; st.w=w; st.a=p; st.b=t; emit(st); return;
    }
    if(auto* CB=L::dyn_cast<L::CallBase>(&I)) { call(*CB,in); return; }
    unsup("instruction");
  }
  void copy(int d,int s){ Inst k; k.op=I_COPY; k.dst=d; k.a=s; emit(k); }
  unsigned aggOff(L::Type* t, L::ArrayRef<unsigned> idx){ unsigned off=0; for(unsigned i:idx){ if(auto*s=L::dyn_cast<L::StructType>(t)){ for(unsigned k=0;k<i;k++) off+=nflat(s->getElementType(k)); t=s->getElementType(i);} else { auto*a=L::cast<L::ArrayType>(t); off+=i*nflat(a->getElementType()); t=a->getElementType(); } } return off; }
  void memLeaves(L::Type* t, uint64_t off, vector<std::pair<uint64_t,unsigned>>& out){ if(auto*s=L::dyn_cast<L::StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) memLeaves(s->getElementType(i),off+sl->getElementOffset(i),out);} else if(auto*a=L::dyn_cast<L::ArrayType>(t)){ uint64_t z=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) memLeaves(a->getElementType(),off+i*z,out);} else if(auto*v=L::dyn_cast<L::FixedVectorType>(t)){ uint64_t z=DL->getTypeStoreSize(v->getElementType()); if(v->getElementType()->isIntegerTy(1)) unsup("bit vector memory"); for(unsigned i=0;i<v->getNumElements();i++) memLeaves(v->getElementType(),off+i*z,out);} else { unsigned w=width(t); if(!w||w>64) unsup("memory type "+typeStr(t)); out.push_back({off,w}); } }
  void memop(Inst in, L::Type* t, int ptr, vector<int>* val) {
    vector<std::pair<uint64_t,unsigned>> lv; memLeaves(t,0,lv);
    for(size_t i=0;i<lv.size();i++) {
      int p=ptr; if(lv[i].first){ Inst g; g.op=I_GEP; g.dst=p=newSlots(1); g.x=fn.geps.size(); GepInfo gi; gi.base=ptr; gi.off=lv[i].first; fn.geps.push_back(gi); emit(g); }
      Inst k; k.op=val?I_STORE:I_LOAD; k.sub=in.sub; k.w=lv[i].second; k.a=p; if(val) k.b=(*val)[i]; else k.dst=in.dst+i; emit(k);
    }
  }
  void call(L::CallBase& CB, Inst in);
};

static Func* getFunc(L::Function* F) {
  auto it=funcs.find(F); if(it!=funcs.end()) return it->second;
  Func* f=new Func; f->F=F; f->name=F->getName().str(); auto b=builtins.find(f->name); if(b!=builtins.end()) f->bi=b->second; funcs[F]=f; return f;
}
static void ensure(Func* f){ if(!f->decoded){ if(f->F->isDeclaration()) unsup("external function "+L::demangle(f->name)+" ["+f->name+"]"); Decoder(*f).run(); } }

// ------------------------------------------------------------------ executor
static std::deque<State*> work; static State* cur;
static uint64_t localInsts=0; static bool isRoot=true; static uint64_t localPaths=0; static uint64_t sampleSeq=0;

static void jstr(FILE* f, const string& s){ fputc('"',f); for(unsigned char c:s){ if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
static void writeInputs(FILE* f, State& s, const vector<uint64_t>& m) {
  fprintf(f,"\"inputs\":["); bool first=true;
  for(auto& o:s.syms){ fprintf(f,"%s{\"name\":",first?"":","); jstr(f,o.name); fprintf(f,",\"width\":%u,\"values\":[",o.width); for(unsigned i=0;i<o.count;i++) fprintf(f,"%s%llu",i?",":"",(unsigned long long)(o.first+i<m.size()?m[o.first+i]&maskw(o.width):0)); fprintf(f,"]}"); first=false; }
  fprintf(f,"]");
}
static string where(State& s) { string r; for(size_t i=s.st.size();i-->0 && r.size()<1500;){ auto& fr=s.st[i]; r+=L::demangle(fr.f->name).substr(0,160); if(fr.f->decoded&&fr.pc<fr.f->code.size()){ uint32_t ln=fr.f->code[fr.pc].line; if(ln) r+=" ("+lineTab[ln].first+":"+std::to_string(lineTab[ln].second)+")"; } if(i) r+=" < "; } return r; }
static void report(State& s, const string& kind, const string& msg, const vector<uint64_t>& model) {
  int n=G->nviol.fetch_add(1); if(n>=64) { G->stop=1; return; }
  string fn=outDir+"/violation_"+std::to_string(n)+".json"; FILE* f=fopen((fn+".tmp").c_str(),"w"); if(!f) return;
  fprintf(f,"{\"kind\":"); jstr(f,kind); fprintf(f,",\"message\":"); jstr(f,msg); fprintf(f,",\"where\":"); jstr(f,where(s)); fprintf(f,",\"pathlen\":%zu,",s.pc.size()); writeInputs(f,s,model); fprintf(f,"}\n"); fclose(f); rename((fn+".tmp").c_str(),fn.c_str());
  if(n+1>=maxViol) G->stop=1;
}
[[noreturn]] static void violation(State& s, const string& kind, const string& msg){ report(s,kind,msg,s.model); throw EndPath{2}; }

static bool contains(const vector<uint32_t>& v, uint32_t x){ return std::binary_search(v.begin(),v.end(),x); }
static void insertS(vector<uint32_t>& v, uint32_t x){ auto it=std::lower_bound(v.begin(),v.end(),x); if(it==v.end()||*it!=x) v.insert(it,x); }
static void noteDecided(State& s, E c, bool v){ insertS(v?s.decidedT:s.decidedF,c->id); E n=mkNot(c); insertS(v?s.decidedF:s.decidedT,n->id); }

static void addConstraint(State& s, E c) { // c holds under s.model
  if(c->op==CONST) return;
  if(c->op==AND && c->w==1) { addConstraint(s,c->a); addConstraint(s,c->b); noteDecided(s,c,true); return; }
  s.pc.push_back(c); noteDecided(s,c,true);
  if(c->bytevar) { int v=c->sup.first(); const Set256& t=byteTable(c); for(int i=0;i<4;i++) s.dom[v].b[i]&=t.b[i]; }
  else s.entangled.add(c->sup);
}
// satisfiability of PC-slice and extra; on sat, m gets a full model
static int query(State& s, E extra, vector<uint64_t>& m) {
  Sup clo=extra->sup; vector<E> cs{extra}; vector<char> used(s.pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]&&s.pc[i]->sup.meets(clo)){ used[i]=1; cs.push_back(s.pc[i]); if(!s.pc[i]->sup.within(clo)){ clo.add(s.pc[i]->sup); ch=true; } } }
  vector<std::pair<unsigned,uint64_t>> out; int r=solve(cs,out);
  if(r==1){ m=s.model; if(m.size()<s.nvars) m.resize(s.nvars,0); for(auto&p:out) m[p.first]=p.second;
    for(E e:cs) if(!evalE(e,m)) unsup("internal: solver model does not satisfy "+show(e)); }
  return r;
}
static void pushState(State* n){ work.push_back(n); G->forks++; }

// Which way does the current path go on c?  If both ways are feasible, a copy of the
// state taking the other way is queued; it re-executes the current instruction.
static bool decide(State& s, E c) {
  if(c->op==CONST) return c->k;
  if(contains(s.decidedT,c->id)) return true;
  if(contains(s.decidedF,c->id)) return false;
  if(s.model.size()<s.nvars) s.model.resize(s.nvars,0);
  bool v=evalE(c,s.model); E other=v?mkNot(c):c;
  vector<uint64_t> m; int r;
  if(useTable && c->bytevar && !s.entangled.has(c->sup.first())) {
    int var=c->sup.first(); const Set256& t=byteTable(other); r=0;
    for(int i=0;i<4;i++){ uint64_t x=t.b[i]&s.dom[var].b[i]; if(x){ r=1; m=s.model; m[var]=i*64+__builtin_ctzll(x); break; } }
    SS.table++;
    if(audit){ vector<uint64_t> m2; int r2=query(s,other,m2); G->audits++; if(r2!=r) { G->auditBad++; unsup("byte-table verdict differs from Z3"); } }
  } else r=query(s,other,m);
  if(r<0) unsup("solver gave no answer on "+show(other));
  if(r==1) {
    State* n=new State(s); n->model=m; addConstraint(*n,other); pushState(n);
    addConstraint(s, v?c:mkNot(c));
  } else noteDecided(s,c,v);
  return v;
}
static uint64_t concretize(State& s, const Val& v, unsigned w) {
  if(!v.e) return v.c;
  for(;;){ if(s.model.size()<s.nvars) s.model.resize(s.nvars,0); uint64_t x=evalE(v.e,s.model); if(decide(s,mkBin(EQ,v.e,mkConst(w,x)))) return x; }
}
static string hex(uint64_t x){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)x); return b; }
// Two threads run the same operation (sv_thread 1, then 2). What existed before is shared: writing it is a race unless it happens under
// a lock, atomically, or while constructing a function static; what thread 1 wrote under a lock may be read by thread 2 only under one.
[[noreturn]] static void raceOn(State& s, Obj* o, const char* what, bool wr){ violation(s,"race",string(what)+(wr?": unsynchronised write to '":": unsynchronised read of '")+o->name+"', which another thread "+(wr?"can use":"writes")+" at the same time"); }
static void concAccess(State& s, Obj* o, uint64_t a, uint64_t n, bool wr, const char* what){
  auto& c=s.cc; if(!o->sh||c.guards||c.atomic||!n) return;
  if(wr){ if(!c.locks) raceOn(s,o,what,true); if(c.thread==1) c.locked.push_back({a,n}); }
  else if(c.thread==2&&!c.locks&&!c.rlocks) for(size_t i=c.ordered;i<c.locked.size();i++) if(a<c.locked[i].first+c.locked[i].second&&c.locked[i].first<a+n) raceOn(s,o,what,false);
}
static void concAcquire(State& s, uint64_t a){ auto& c=s.cc; if(c.thread!=2) return; auto i=c.released.find(a); if(i!=c.released.end()) c.ordered=std::max(c.ordered,i->second); }
static void concRelease(State& s, uint64_t a){ if(s.cc.thread==1) s.cc.released[a]=s.cc.locked.size(); }
static Obj* access(State& s, uint64_t a, uint64_t n, bool wr, const char* what) {
  Obj* o=s.find(a); uint64_t off=a&0xffffffffull;
  if(!o) { if(a<65536) violation(s,"memory",string(what)+": null or near-null pointer "+hex(a)); violation(s,"memory",string(what)+": dangling or wild pointer "+hex(a)); }
  if(o->kind==K_EXTERN && !wr) unsup(string("read of external object ")+o->name);
  if(o->kind==K_FUNC) violation(s,"memory",string(what)+": data access to a function");
  if(off>o->size||n>o->size-off) violation(s,"memory",string(what)+": out of bounds access at offset "+std::to_string(off)+" size "+std::to_string(n)+" of object '"+o->name+"' of size "+std::to_string(o->size));
  if(wr&&o->ro) violation(s,"memory",string(what)+": write to read-only object "+o->name);
  if(s.cc.thread) concAccess(s,o,a,n,wr,what);
  return o;
}
static Val readObj(Obj* o, uint64_t off, unsigned w) {
  unsigned n=(w+7)/8;
  if(o->s) { bool any=false; for(unsigned i=0;i<n;i++) if(o->s[off+i]) any=true;
    if(any){ E r=nullptr; for(unsigned i=0;i<n;i++){ E b=o->s[off+i]?o->s[off+i]:mkConst(8,o->b[off+i]); r=r?mkConcat(b,r):b; } if(w<8*n) r=mkExtract(r,0,w); return fromE(r); } }
  uint64_t x=0; memcpy(&x,o->b+off,n); return V(x&maskw(w));
}
static Val load(State& s, const Val& p, unsigned w) {
  unsigned n=(w+7)/8;
  if(!p.e) { Obj*o=access(s,p.c,n,false,"load"); return readObj(o,p.c&0xffffffffull,w); }
  uint64_t a=evalE(p.e,s.model); Obj* o=s.find(a);
  if(o && o->size>=n && o->size<=512 && o->kind!=K_FUNC && o->kind!=K_EXTERN) {
    uint64_t base=a&~0xffffffffull;
    if(decide(s,mkBin(ULE,mkBin(SUB,p.e,mkConst(64,base)),mkConst(64,o->size-n)))) {
      bool al = n==1 || decide(s,mkBin(EQ,mkBin(AND,p.e,mkConst(64,n-1)),mkConst(64,0)));
      if(al){ E r=nullptr; for(uint64_t off=0;off+n<=o->size;off+=n){ E v=toE(readObj(o,off,w),w); r=r?mkIte(mkBin(EQ,p.e,mkConst(64,base+off)),v,r):v; } return fromE(r); }
    }
  }
  a=concretize(s,p,64); o=access(s,a,n,false,"load"); return readObj(o,a&0xffffffffull,w);
}
static void symArr(Obj* o){ if(!o->s) o->s=(E*)calloc(o->size?o->size:1,sizeof(E)); }
static void storeObj(Obj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n=(w+7)/8;
  if(!v.e){ uint64_t x=v.c; memcpy(o->b+off,&x,n); if(o->s) for(unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
  symArr(o); E e=w<8*n?mkExt(ZEXT,v.e,8*n):v.e;
  for(unsigned i=0;i<n;i++){ E b=mkExtract(e,8*i,8); if(b->op==CONST){ o->b[off+i]=b->k; o->s[off+i]=nullptr; } else o->s[off+i]=b; }
}
static void store(State& s, const Val& p, const Val& v, unsigned w) {
  uint64_t a=concretize(s,p,64); access(s,a,(w+7)/8,true,"store"); storeObj(s.writable(a),a&0xffffffffull,v,w);
}
static void copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n, const char* what) {
  if(!n) return; Obj* so=access(s,sr,n,false,what); access(s,d,n,true,what); Obj* dd=s.writable(d); so=s.find(sr);
  uint64_t od=d&0xffffffffull, os=sr&0xffffffffull; memmove(dd->b+od,so->b+os,n);
  if(so->s){ symArr(dd); memmove(dd->s+od,so->s+os,n*sizeof(E)); } else if(dd->s) memset(dd->s+od,0,n*sizeof(E));
}
static string cstr(State& s, uint64_t a, size_t max=200){ string r; Obj*o=s.find(a); if(!o) return "?"; for(uint64_t i=a&0xffffffffull;i<o->size&&r.size()<max;i++){ if(o->s&&o->s[i]){ r+='?'; continue;} if(!o->b[i]) break; r+=(char)o->b[i]; } return r; }

// -------- floating point: on concrete values only (a symbolic operand is split into its values first)
static double fpVal(uint64_t v, unsigned w){ if(w==32){ float f; uint32_t u=(uint32_t)v; memcpy(&f,&u,4); return f; } double d; memcpy(&d,&v,8); return d; }
static uint64_t fpBits(double d, unsigned w){ if(w==32){ float f=(float)d; uint32_t u; memcpy(&u,&f,4); return u; } uint64_t u; memcpy(&u,&d,8); return u; }
static uint64_t fpOp(unsigned o, unsigned w, unsigned w2, uint64_t x, uint64_t y) {
  using LI=L::Instruction;
  switch(o) {
    case LI::UIToFP: return fpBits(w2==32?(double)(float)x:(double)x,w2);
    case LI::SIToFP: return fpBits(w2==32?(double)(float)sx(x,w):(double)sx(x,w),w2);
    case LI::FPToUI: { double d=fpVal(x,w); return d>-1&&d<18446744073709551616.0?(uint64_t)d&maskw(w2):0; }
    case LI::FPToSI: { double d=fpVal(x,w); return d>=-9223372036854775808.0&&d<9223372036854775808.0?(uint64_t)(int64_t)d&maskw(w2):0; }
    case LI::FPExt: case LI::FPTrunc: return fpBits(fpVal(x,w),w2);
    case LI::FNeg: return fpBits(-fpVal(x,w),w);
    case LI::FCmp: { double a=fpVal(x,w), b=fpVal(y,w); bool un=a!=a||b!=b; switch((L::CmpInst::Predicate)w2){ case L::CmpInst::FCMP_OEQ: return !un&&a==b; case L::CmpInst::FCMP_ONE: return !un&&a!=b; case L::CmpInst::FCMP_OLT: return !un&&a<b; case L::CmpInst::FCMP_OLE: return !un&&a<=b; case L::CmpInst::FCMP_OGT: return !un&&a>b; case L::CmpInst::FCMP_OGE: return !un&&a>=b; case L::CmpInst::FCMP_ORD: return !un; case L::CmpInst::FCMP_UNO: return un;
      case L::CmpInst::FCMP_UEQ: return un||a==b; case L::CmpInst::FCMP_UNE: return un||a!=b; case L::CmpInst::FCMP_ULT: return un||a<b; case L::CmpInst::FCMP_ULE: return un||a<=b; case L::CmpInst::FCMP_UGT: return un||a>b; case L::CmpInst::FCMP_UGE: return un||a>=b; case L::CmpInst::FCMP_TRUE: return 1; default: return 0; } }
    default: { double a=fpVal(x,w), b=fpVal(y,w); if(w==32){ float r, p=(float)a, q=(float)b; switch(o){ case LI::FAdd: r=p+q; break; case LI::FSub: r=p-q; break; case LI::FMul: r=p*q; break; case LI::FDiv: r=p/q; break; default: unsup("floating point operation"); r=0; } return fpBits(r,32); }
      double r; switch(o){ case LI::FAdd: r=a+b; break; case LI::FSub: r=a-b; break; case LI::FMul: r=a*b; break; case LI::FDiv: r=a/b; break; default: unsup("floating point operation"); r=0; } return fpBits(r,64); }
  }
}
// -------- calls and unwinding
static Val reg(State& s, const Frame& f, int o){ return o>=0?s.regs[f.base+o]:cpool[-o-1]; }
static void takeEdge(State& s, Frame& f, const Edge& e) {
  size_t n=e.copies.size();
  if(n==1) s.regs[f.base+e.copies[0].first]=reg(s,f,e.copies[0].second);
  else if(n){ Val tmp[64]; vector<Val> big; Val* t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=reg(s,f,e.copies[i].second); for(size_t i=0;i<n;i++) s.regs[f.base+e.copies[i].first]=t[i]; }
  f.pc=e.target;
}
static void popFrame(State& s){ Frame& f=s.st.back(); for(uint32_t sl:f.allocas) s.freeObj(sl); s.regs.resize(f.base); s.st.pop_back(); }
static void pushFrame(State& s, Func* fn, const Val* args, size_t n) {
  ensure(fn); if(s.st.size()>=maxDepth) violation(s,"nontermination","call depth exceeds "+std::to_string(maxDepth));
  Frame f; f.f=fn; f.pc=0; f.base=s.regs.size(); f.stepIn=s.steps; s.regs.resize(f.base+fn->nslots,V(0)); for(size_t i=0;i<n&&i<fn->argSlots.size();i++) s.regs[f.base+fn->argSlots[i]]=args[i]; s.st.push_back(std::move(f));
}
static uint64_t rdPtr(State& s, uint64_t a){ Val v=load(s,V(a),64); if(v.e) unsup("symbolic rtti"); return v.c; }
static uint64_t vtSI=0, vtVMI=0;
static bool tiMatch(State& s, uint64_t t, uint64_t want, uint64_t& adj) {
  if(t==want) return true; Obj* o=s.find(t); if(!o||o->kind==K_EXTERN) { if(o) unsup(string("external typeinfo ")+o->name); return false; }
  uint64_t vt=rdPtr(s,t)>>32;
  if(vtSI&&vt==vtSI>>32) return tiMatch(s,rdPtr(s,t+16),want,adj);
  if(vtVMI&&vt==vtVMI>>32){ uint64_t fc=rdPtr(s,t+16); unsigned n=fc>>32; for(unsigned i=0;i<n;i++){ uint64_t b=rdPtr(s,t+24+16*i), fl=rdPtr(s,t+32+16*i); uint64_t sub=0; if(fl&1) continue; if(tiMatch(s,b,want,sub)){ adj+= (int64_t)fl>>8; adj+=sub; return true; } } }
  return false;
}
static Exc& excOf(State& s, uint64_t obj){ for(auto&e:s.excs) if(e.obj==obj) return e; unsup("unknown exception object"); throw 0; }
static string tiName(State& s, uint64_t ti){ Obj*o=s.find(ti); return o?L::demangle(o->name):"?"; }
static void unwind(State& s, uint64_t obj) {
  Exc& ex=excOf(s,obj);
  for(;;) {
    if(s.st.empty()) abort();
    Frame& f=s.st.back(); Inst& in=f.f->code[f.pc];
    if(in.op==I_CALL && f.f->calls[in.x].invoke) {
      CallInfo& ci=f.f->calls[in.x]; uint32_t t=ci.unwind.target; while(t<f.f->code.size()&&f.f->code[t].op!=I_LPAD) t++;
      LpadInfo& lp=f.f->lps[f.f->code[t].x]; bool hit=lp.cleanup; uint64_t sel=0;
      for(auto&c:lp.clauses){ if(!c.first) continue; uint64_t adj=0; if(c.second==0){ sel=1; hit=true; ex.adj=0; break; } if(tiMatch(s,ex.ti,c.second,adj)){ sel=(c.second>>32)&SLOTM; hit=true; ex.adj=adj; break; } }
      if(hit){ s.lpObj=obj; s.lpSel=sel; takeEdge(s,f,ci.unwind); return; }
    }
    if(s.st.size()==1) violation(s,"exception","exception of type "+tiName(s,ex.ti)+" escapes");
    popFrame(s);
  }
}
static void finishCall(State& s, CallInfo& ci) { Frame& f=s.st.back(); if(ci.invoke) takeEdge(s,f,ci.normal); else f.pc++; }

static void doCall(State& s, Inst& in) {
  Frame* f=&s.st.back(); CallInfo& ci=f->f->calls[in.x]; Func* t=ci.target;
  if(!t){ uint64_t a=concretize(s,reg(s,*f,ci.callee),64); auto it=funcByAddr.find(a); if(it==funcByAddr.end()) violation(s,"memory","indirect call to a non-function "+hex(a)); t=it->second; }
  Val av[64]; size_t n=ci.args.size(); if(n>64) unsup("too many arguments"); for(size_t i=0;i<n;i++) av[i]=reg(s,*f,ci.args[i]);
  if(t->bi) { Val r=V(0); size_t depth=s.st.size(); uint32_t pc=f->pc; t->bi(s,ci,av,r); f=&s.st.back();
    if(s.st.size()!=depth||f->pc!=pc) return; // the builtin moved control itself
    if(ci.dst>=0&&ci.nret==1) s.regs[f->base+ci.dst]=r; finishCall(s,ci); return; }
  ensure(t);
  for(size_t i=0;i<n;i++) if(i<ci.byval.size()&&ci.byval[i]){ uint64_t sa=concretize(s,av[i],64); uint64_t d=s.addObj(newObj(ci.byval[i],K_STACK,"byval",0)); f->allocas.push_back((d>>32)&SLOTM); copyMem(s,d,sa,ci.byval[i],"byval"); av[i]=V(d); }
  pushFrame(s,t,av,n);
}

static void runIntr(State& s, Frame& f, Inst& in);

static void step(State& s) {
  Frame& f=s.st.back(); Inst& in=f.f->code[f.pc]; Val* R=s.regs.data()+f.base;
  #define OPV(o) ((o)>=0?R[o]:cpool[-(o)-1])
  if(in.line && !G->lines[in.line]) { G->lines[in.line]=1; auto it=lineFunc.find(in.line); if(it!=lineFunc.end()&&it->second<4096) G->funcs[it->second]=1; }
  switch(in.op) {
    case I_BIN: { Val a=OPV(in.a), b=OPV(in.b);
      if(in.sub>=UDIV&&in.sub<=SREM){ if(!b.e){ if(!b.c) violation(s,"arithmetic","division by zero"); } else if(decide(s,mkBin(EQ,b.e,mkConst(in.w,0)))) violation(s,"arithmetic","division by zero"); }
      if(!a.e&&!b.e) { bool ok=true; R[in.dst]=V(evalop((Op)in.sub,in.w,a.c,b.c,in.w,&ok)); }
      else R[in.dst]=fromE(mkBin((Op)in.sub,toE(a,in.w),toE(b,in.w))); f.pc++; return; }
    case I_ICMP: { Val a=OPV(in.a), b=OPV(in.b); if(!a.e&&!b.e) R[in.dst]=V(evalop((Op)in.sub,1,a.c,b.c,in.w,nullptr)^in.w2);
      else { E e=mkBin((Op)in.sub,toE(a,in.w),toE(b,in.w)); if(in.w2) e=mkNot(e); R[in.dst]=fromE(e); } f.pc++; return; }
    case I_CAST: { Val a=OPV(in.a); if(!a.e) R[in.dst]=V(in.sub==SEXT?(uint64_t)sx(a.c,in.w)&maskw(in.w2):a.c&maskw(in.w2));
      else R[in.dst]=fromE(in.sub==EXTRACT?mkExtract(a.e,0,in.w2):mkExt((Op)in.sub,a.e,in.w2)); f.pc++; return; }
    case I_LOAD: { Val p=OPV(in.a); if(in.sub&&s.cc.thread){ p=V(concretize(s,p,64)); concAcquire(s,p.c); s.cc.atomic=true; } Val r=load(s,p,in.w); s.cc.atomic=false; R[in.dst]=r; f.pc++; return; }
    case I_STORE: { Val p=OPV(in.a), v=OPV(in.b); if(in.sub&&s.cc.thread){ p=V(concretize(s,p,64)); concRelease(s,p.c); s.cc.atomic=true; } store(s,p,v,in.w); s.cc.atomic=false; f.pc++; return; }
    case I_GEP: { GepInfo& g=f.f->geps[in.x]; Val b=OPV(g.base); Val r; if(!b.e) r=V(b.c+g.off); else r=fromE(mkBin(ADD,b.e,mkConst(64,g.off)));
      for(size_t i=0;i<g.idx.size();i++){ Val x=OPV(g.idx[i].first); unsigned w=g.idxw[i]; if(!x.e){ uint64_t d=(uint64_t)sx(x.c,w)*g.idx[i].second; if(!r.e) r=V(r.c+d); else r=fromE(mkBin(ADD,r.e,mkConst(64,d))); }
        else { E d=mkBin(MUL,mkExt(SEXT,x.e,64),mkConst(64,g.idx[i].second)); r=fromE(mkBin(ADD,toE(r,64),d)); } }
      R[in.dst]=r; f.pc++; return; }
    case I_ALLOCA: { uint64_t n=concretize(s,OPV(in.a),64)*in.imm; uint64_t a=s.addObj(newObj(n,K_STACK,"stack variable",0xAA)); f.allocas.push_back((a>>32)&SLOTM); s.regs[f.base+in.dst]=V(a); f.pc++; return; }
    case I_JMP: takeEdge(s,f,f.f->edges[in.x]); return;
    case I_BR: { Val c=OPV(in.a); bool t=c.e?decide(s,c.e):c.c&1; takeEdge(s,f,f.f->edges[in.x+(t?0:1)]); return; }
    case I_SWITCH: { SwitchInfo& si=f.f->sws[in.x]; Val v=OPV(si.v);
      if(!v.e){ unsigned e=si.def; for(auto&c:si.cases) if(c.first==v.c){ e=c.second; break; } takeEdge(s,f,si.edges[e]); return; }
      vector<E> cond(si.edges.size(),mkConst(1,0)); for(auto&c:si.cases) cond[c.second]=mkBin(OR,cond[c.second],mkBin(EQ,v.e,mkConst(si.w,c.first)));
      for(size_t k=0;k<si.edges.size();k++) if(k!=si.def && decide(s,cond[k])) { takeEdge(s,f,si.edges[k]); return; }
      takeEdge(s,f,si.edges[si.def]); return; }
    case I_CALL: doCall(s,in); return;
    case I_INTR: runIntr(s,f,in); return;
    case I_RET: { Edge& e=f.f->edges[in.x]; Val rv[16]; size_t n=e.copies.size(); if(n>16) unsup("large return"); for(size_t i=0;i<n;i++) rv[i]=OPV(e.copies[i].second);
      popFrame(s); if(s.st.empty()) throw EndPath{0};
      Frame& p=s.st.back(); Inst& ci=p.f->code[p.pc]; CallInfo& c=p.f->calls[ci.x]; if(c.dst>=0) for(size_t i=0;i<n&&i<c.nret;i++) s.regs[p.base+c.dst+i]=rv[i]; finishCall(s,c); return; }
    case I_FP: { Val a=OPV(in.a), b=V(0); bool bin=in.sub!=L::Instruction::FNeg&&!(in.sub>=L::Instruction::CastOpsBegin&&in.sub<L::Instruction::CastOpsEnd); if(bin) b=OPV(in.b);
      uint64_t x=a.e?concretize(s,a,in.w):a.c, y=b.e?concretize(s,b,in.w):b.c; Val r=V(fpOp(in.sub,in.w,in.w2,x,y)); Frame& g=s.st.back(); s.regs[g.base+in.dst]=r; g.pc++; return; }
    case I_SELECT: { Val c=OPV(in.a), a=OPV(in.b), b=OPV(in.c); if(!c.e) R[in.dst]=c.c&1?a:b; else if(in.w2){ bool t=decide(s,c.e); R[in.dst]=t?a:b; } else R[in.dst]=fromE(mkIte(c.e,toE(a,in.w),toE(b,in.w))); f.pc++; return; }
    case I_COPY: R[in.dst]=OPV(in.a); f.pc++; return;
    case I_LPAD: R[in.dst]=V(s.lpObj); R[in.dst+1]=V(s.lpSel); f.pc++; return;
    case I_RESUME: { uint64_t o=concretize(s,OPV(in.a),64); if(s.st.size()==1) violation(s,"exception","exception escapes"); popFrame(s); unwind(s,o); return; }
    case I_UNREACH: violation(s,"ub","control reached an unreachable point"); 
    case I_BAD: unsup(f.f->bads[in.x]); return;
    default: unsup("op");
  }
}

// -------- intrinsics
static void runIntr(State& s, Frame& f, Inst& in) {
  CallInfo& ci=f.f->calls[in.x]; Val a[8]; for(size_t i=0;i<ci.args.size()&&i<8;i++) a[i]=reg(s,f,ci.args[i]);
  unsigned w=ci.widths.empty()?0:ci.widths[0]; auto id=(L::Intrinsic::ID)in.imm; Val r=V(0); int dst=ci.dst;
  auto set=[&](int k,Val v){ s.regs[f.base+dst+k]=v; };
  auto bin=[&](Op o,Val x,Val y,unsigned ww){ return fromE(mkBin(o,toE(x,ww),toE(y,ww))); };
  switch(id) {
    case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: { uint64_t n=concretize(s,a[2],64), d=concretize(s,a[0],64), q=concretize(s,a[1],64); copyMem(s,d,q,n,"memcpy"); break; }
    case L::Intrinsic::memset: { uint64_t n=concretize(s,a[2],64), d=concretize(s,a[0],64); if(n){ access(s,d,n,true,"memset"); Obj*o=s.writable(d); for(uint64_t i=0;i<n;i++) storeObj(o,(d&0xffffffffull)+i,a[1],8);} break; }
    case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::invariant_start: case L::Intrinsic::invariant_end: case L::Intrinsic::donothing: case L::Intrinsic::stackrestore: case L::Intrinsic::prefetch: break;
    case L::Intrinsic::stacksave: set(0,V(0)); break;
    case L::Intrinsic::assume: break;
    case L::Intrinsic::expect: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: case L::Intrinsic::ssa_copy: set(0,a[0]); break;
    case L::Intrinsic::threadlocal_address: set(0,a[0]); break;
    case L::Intrinsic::is_constant: set(0,V(0)); break;
    case L::Intrinsic::objectsize: set(0,V(maskw(ci.retw))); break;
    case L::Intrinsic::umax: set(0,fromE(mkIte(toE(bin(ULT,a[0],a[1],w),1),toE(a[1],w),toE(a[0],w)))); break;
    case L::Intrinsic::umin: set(0,fromE(mkIte(toE(bin(ULT,a[0],a[1],w),1),toE(a[0],w),toE(a[1],w)))); break;
    case L::Intrinsic::smax: set(0,fromE(mkIte(toE(bin(SLT,a[0],a[1],w),1),toE(a[1],w),toE(a[0],w)))); break;
    case L::Intrinsic::smin: set(0,fromE(mkIte(toE(bin(SLT,a[0],a[1],w),1),toE(a[0],w),toE(a[1],w)))); break;
    case L::Intrinsic::abs: set(0,fromE(mkIte(toE(bin(SLT,a[0],V(0),w),1),toE(bin(SUB,V(0),a[0],w),w),toE(a[0],w)))); break;
    case L::Intrinsic::usub_sat: set(0,fromE(mkIte(toE(bin(ULT,a[0],a[1],w),1),mkConst(w,0),toE(bin(SUB,a[0],a[1],w),w)))); break;
    case L::Intrinsic::uadd_sat: { Val x=bin(ADD,a[0],a[1],w); set(0,fromE(mkIte(toE(bin(ULT,x,a[0],w),1),mkConst(w,maskw(w)),toE(x,w)))); break; }
    case L::Intrinsic::uadd_with_overflow: { Val x=bin(ADD,a[0],a[1],w); set(0,x); set(1,bin(ULT,x,a[0],w)); break; }
    case L::Intrinsic::usub_with_overflow: set(0,bin(SUB,a[0],a[1],w)); set(1,bin(ULT,a[0],a[1],w)); break;
    case L::Intrinsic::sadd_with_overflow: { Val x=bin(ADD,a[0],a[1],w); set(0,x); E sa=toE(bin(SLT,a[0],V(0),w),1), sb=toE(bin(SLT,a[1],V(0),w),1), sr=toE(bin(SLT,x,V(0),w),1); set(1,fromE(mkBin(AND,mkBin(EQ,sa,sb),mkNot(mkBin(EQ,sa,sr))))); break; }
    case L::Intrinsic::ssub_with_overflow: { Val x=bin(SUB,a[0],a[1],w); set(0,x); E sa=toE(bin(SLT,a[0],V(0),w),1), sb=toE(bin(SLT,a[1],V(0),w),1), sr=toE(bin(SLT,x,V(0),w),1); set(1,fromE(mkBin(AND,mkNot(mkBin(EQ,sa,sb)),mkNot(mkBin(EQ,sa,sr))))); break; }
    case L::Intrinsic::umul_with_overflow: case L::Intrinsic::smul_with_overflow: {
      if(a[0].e||a[1].e){ if(w>32) { a[0]=V(concretize(s,a[0],w)); a[1]=V(concretize(s,a[1],w)); } else { Op x=id==L::Intrinsic::umul_with_overflow?ZEXT:SEXT; E p=mkBin(MUL,mkExt(x,toE(a[0],w),64),mkExt(x,toE(a[1],w),64)); E lo=mkExtract(p,0,w); set(0,fromE(lo)); set(1,fromE(mkNot(mkBin(EQ,p,mkExt(x,lo,64))))); break; } }
      if(id==L::Intrinsic::umul_with_overflow){ unsigned __int128 p=(unsigned __int128)a[0].c*a[1].c; set(0,V((uint64_t)p&maskw(w))); set(1,V(p>>w?1:0)); }
      else { __int128 p=(__int128)sx(a[0].c,w)*sx(a[1].c,w); set(0,V((uint64_t)p&maskw(w))); set(1,V(p!=(__int128)sx((uint64_t)p&maskw(w),w))); } break; }
    case L::Intrinsic::ctpop: { E t=mkConst(w,0); for(unsigned i=0;i<w;i++) t=mkBin(ADD,t,mkExt(ZEXT,mkExtract(toE(a[0],w),i,1),w)); set(0,fromE(t)); break; }
    case L::Intrinsic::ctlz: { E t=mkConst(w,w); for(unsigned i=0;i<w;i++) t=mkIte(mkExtract(toE(a[0],w),i,1),mkConst(w,w-1-i),t); set(0,fromE(t)); break; }
    case L::Intrinsic::cttz: { E t=mkConst(w,w); for(unsigned i=w;i-->0;) t=mkIte(mkExtract(toE(a[0],w),i,1),mkConst(w,i),t); set(0,fromE(t)); break; }
    case L::Intrinsic::bswap: { E t=nullptr; for(unsigned i=0;i<w;i+=8){ E b=mkExtract(toE(a[0],w),i,8); t=t?mkConcat(t,b):b; } set(0,fromE(t)); break; }
    case L::Intrinsic::fshl: case L::Intrinsic::fshr: { if(a[2].e) unsup("symbolic funnel shift"); unsigned k=a[2].c%w; if(id==L::Intrinsic::fshr) k=(w-k)%w; E x=toE(a[0],w),y=toE(a[1],w); if(id==L::Intrinsic::fshr&&k==0){ set(0,fromE(y)); break; } E t=k?mkBin(OR,mkBin(SHL,x,mkConst(w,k)),mkBin(LSHR,y,mkConst(w,w-k))):x; set(0,fromE(t)); break; }
    case L::Intrinsic::vector_reduce_add: case L::Intrinsic::vector_reduce_or: case L::Intrinsic::vector_reduce_and: case L::Intrinsic::vector_reduce_xor: { Op o=id==L::Intrinsic::vector_reduce_add?ADD:id==L::Intrinsic::vector_reduce_or?OR:id==L::Intrinsic::vector_reduce_and?AND:XOR; Val t=reg(s,f,ci.args[0]); for(size_t i=1;i<ci.args.size();i++) t=bin(o,t,reg(s,f,ci.args[i]),w); set(0,t); break; }
    case L::Intrinsic::eh_typeid_for: set(0,V((a[0].c>>32)&SLOTM)); break;
    case L::Intrinsic::trap: case L::Intrinsic::debugtrap: violation(s,"ub","trap");
    case L::Intrinsic::ubsantrap: violation(s,"ub","undefined behaviour trap, kind "+std::to_string(a[0].c));
    case L::Intrinsic::load_relative: unsup("load.relative"); break;
    case L::Intrinsic::ceil: case L::Intrinsic::floor: case L::Intrinsic::fabs: case L::Intrinsic::trunc: case L::Intrinsic::round: case L::Intrinsic::rint: case L::Intrinsic::nearbyint: { double d=fpVal(concretize(s,a[0],w),w); d=id==L::Intrinsic::ceil?__builtin_ceil(d):id==L::Intrinsic::floor?__builtin_floor(d):id==L::Intrinsic::fabs?__builtin_fabs(d):id==L::Intrinsic::trunc?__builtin_trunc(d):id==L::Intrinsic::round?__builtin_round(d):__builtin_rint(d); set(0,V(fpBits(d,w))); break; }
    case L::Intrinsic::fmuladd: { if(w!=64) unsup("float fmuladd"); double x=fpVal(concretize(s,a[0],w),w),y=fpVal(concretize(s,a[1],w),w),z=fpVal(concretize(s,a[2],w),w); double p=x*y; set(0,V(fpBits(p+z,w))); break; }
    default: unsup("intrinsic "+ci.desc);
  }
  s.st.back().pc++;
}
void Decoder::call(L::CallBase& CB, Inst in) {
  if(CB.isInlineAsm()) { if(CB.getType()->isVoidTy()) return; unsup("inline asm"); }
  CallInfo ci; ci.dst=in.dst; vector<unsigned> rw; flatten(CB.getType(),rw); ci.nret=rw.size(); ci.retw=rw.empty()?0:rw[0];
  L::Function* F=CB.getCalledFunction(); if(!F) if(auto*fa=L::dyn_cast<L::Function>(CB.getCalledOperand()->stripPointerCasts())) F=fa;
  if(!F) if(auto*al=L::dyn_cast<L::GlobalAlias>(CB.getCalledOperand()->stripPointerCasts())) F=L::dyn_cast<L::Function>(al->getAliasee()->stripPointerCasts());
  bool intr=F&&F->isIntrinsic();
  if(intr && (F->getName().starts_with("llvm.dbg")||F->getIntrinsicID()==L::Intrinsic::experimental_noalias_scope_decl||F->getIntrinsicID()==L::Intrinsic::assume||F->getIntrinsicID()==L::Intrinsic::lifetime_start||F->getIntrinsicID()==L::Intrinsic::lifetime_end)) return;
  for(unsigned i=0;i<CB.arg_size();i++){ if(CB.getArgOperand(i)->getType()->isMetadataTy()) continue; size_t k=ci.args.size(); ops(CB.getArgOperand(i),ci.args); vector<unsigned> w; flatten(CB.getArgOperand(i)->getType(),w); for(unsigned x:w) ci.widths.push_back(x);
    ci.byval.resize(ci.args.size(),0); if(CB.isByValArgument(i)) ci.byval[k]=DL->getTypeAllocSize(CB.getParamByValType(i)); }
  if(F) ci.desc=F->getName().str();
  if(intr){ vector<unsigned> w; in.op=I_INTR; in.imm=F->getIntrinsicID();
    if(F->getIntrinsicID()==L::Intrinsic::umax||F->getIntrinsicID()==L::Intrinsic::umin||F->getIntrinsicID()==L::Intrinsic::smax||F->getIntrinsicID()==L::Intrinsic::smin) if(CB.getType()->isVectorTy()) unsup("vector minmax");
    in.x=fn.calls.size(); fn.calls.push_back(ci); emit(in); if(auto*iv=L::dyn_cast<L::InvokeInst>(&CB)){ Inst j; j.op=I_JMP; j.x=fn.edges.size(); fn.edges.push_back(edge(CB.getParent(),iv->getNormalDest())); emit(j);} return; }
  if(F) ci.target=getFunc(F); else ci.callee=op(CB.getCalledOperand());
  if(auto*iv=L::dyn_cast<L::InvokeInst>(&CB)){ ci.invoke=true; ci.normal=edge(CB.getParent(),iv->getNormalDest()); ci.unwind=edge(CB.getParent(),iv->getUnwindDest()); }
  in.op=I_CALL; in.x=fn.calls.size(); fn.calls.push_back(ci); emit(in);
}

// -------- builtins
#define BI(name) static void name(State& s, CallInfo& ci, Val* a, Val& r)
BI(b_malloc){ uint64_t n=concretize(s,a[0],64); if(n>(1u<<28)) violation(s,"nontermination","allocation of "+std::to_string(n)+" bytes"); s.heapLive+=n; if(s.heapLive>(1u<<28)) violation(s,"nontermination","live heap exceeds 256 MiB"); r=V(s.addObj(newObj(n,K_HEAP,"heap block",0xCB))); }
BI(b_calloc){ uint64_t n=concretize(s,a[0],64)*concretize(s,a[1],64); if(n>(1u<<28)) violation(s,"nontermination","allocation of "+std::to_string(n)+" bytes"); s.heapLive+=n; r=V(s.addObj(newObj(n,K_HEAP,"heap block",0))); }
BI(b_free){ uint64_t p=concretize(s,a[0],64); if(!p) return; Obj*o=s.find(p); if(o&&s.cc.thread) concAccess(s,o,p,o->size,true,"free"); if(!o) violation(s,"memory","free of a dangling or wild pointer (double free?) "+hex(p)); if(o->kind!=K_HEAP||(p&0xffffffffull)) violation(s,"memory","free of a pointer that is not the start of a heap block"); s.heapLive-=o->size; s.freeObj((p>>32)&SLOTM); }
BI(b_realloc){ uint64_t p=concretize(s,a[0],64), n=concretize(s,a[1],64); if(n>(1u<<28)) violation(s,"nontermination","allocation of "+std::to_string(n)+" bytes"); Obj*o=nullptr; if(p){ o=s.find(p); if(o&&s.cc.thread) concAccess(s,o,p,o->size,true,"realloc"); if(!o||o->kind!=K_HEAP||(p&0xffffffffull)) violation(s,"memory","realloc of a pointer that is not a live heap block"); }
  s.heapLive+=n; uint64_t d=s.addObj(newObj(n,K_HEAP,"heap block",0xCB)); if(p){ uint64_t k=std::min<uint64_t>(n,o->size); if(k) copyMem(s,d,p,k,"realloc"); o=s.find(p); s.heapLive-=o->size; s.freeObj((p>>32)&SLOTM); } r=V(d); }
BI(b_memcmp){ uint64_t n=concretize(s,a[2],64), p=concretize(s,a[0],64), q=concretize(s,a[1],64); if(!n){ r=V(0); return; }
  Obj*x=access(s,p,n,false,"memcmp"); Obj*y=access(s,q,n,false,"memcmp"); uint64_t op=p&0xffffffffull, oq=q&0xffffffffull;
  E res=mkConst(32,0); for(uint64_t i=n;i-->0;){ E u=toE(readObj(x,op+i,8),8), v=toE(readObj(y,oq+i,8),8); res=mkIte(mkBin(EQ,u,v),res,mkIte(mkBin(ULT,u,v),mkConst(32,-1),mkConst(32,1))); } r=fromE(res); }
static E bytesEq(State& s, uint64_t p, uint64_t q, uint64_t n){ if(!n) return mkConst(1,1); Obj*x=access(s,p,n,false,"bcmp"); Obj*y=access(s,q,n,false,"bcmp"); E res=mkConst(1,1); for(uint64_t i=0;i<n;i++) res=mkBin(AND,res,mkBin(EQ,toE(readObj(x,(p&0xffffffffull)+i,8),8),toE(readObj(y,(q&0xffffffffull)+i,8),8))); return res; }
BI(b_bcmp){ uint64_t n=concretize(s,a[2],64), p=concretize(s,a[0],64), q=concretize(s,a[1],64); r=fromE(mkIte(bytesEq(s,p,q,n),mkConst(32,0),mkConst(32,1))); }
BI(b_sv_eq){ uint64_t n=concretize(s,a[2],64), p=concretize(s,a[0],64), q=concretize(s,a[1],64); r=fromE(bytesEq(s,p,q,n)); }
BI(b_memcpy){ uint64_t n=concretize(s,a[2],64), d=concretize(s,a[0],64), q=concretize(s,a[1],64); copyMem(s,d,q,n,"memcpy"); r=V(d); }
BI(b_memset){ uint64_t n=concretize(s,a[2],64), d=concretize(s,a[0],64); if(n){ access(s,d,n,true,"memset"); Obj*o=s.writable(d); Val v=a[1].e?fromE(mkExtract(a[1].e,0,8)):V(a[1].c&255); for(uint64_t i=0;i<n;i++) storeObj(o,(d&0xffffffffull)+i,v,8);} r=V(d); }
static uint64_t errnoAddr;
BI(b_errno){ r=V(errnoAddr); }
BI(b_guard_acquire){ s.cc.atomic=true; Val v=load(s,a[0],8); s.cc.atomic=false; r=V(v.c?0:1); if(!v.c) s.cc.guards++; else concAcquire(s,a[0].c); }
BI(b_guard_release){ store(s,a[0],V(1),8); s.cc.guards--; concRelease(s,a[0].c); }
BI(b_guard_abort){ s.cc.guards--; }
BI(b_sv_thread){ int k=concretize(s,a[0],32); if(k==1&&(s.cc.locks||s.cc.guards)) unsup("thread started under a lock"); if(s.cc.thread&&(s.cc.locks||s.cc.rlocks)) violation(s,"nontermination","a lock is still held when the operation is over"); s.cc.thread=k; if(k!=2){ s.cc.locked.clear(); s.cc.released.clear(); s.cc.ordered=0; } if(k) for(Obj*o:s.objs) if(o&&!o->priv&&(o->kind==K_HEAP||o->kind==K_GLOBAL)) o->sh=true; }
BI(b_sv_lockop){ // (lock word, operation): 1 lock, 2 lock again allowed (recursive), 3 read lock, 4 unlock, 5 try lock (0 on success); 6 and 7 enter and leave a once-routine
  uint64_t p=concretize(s,a[0],64); int op=(int)concretize(s,a[1],32); r=V(0); if(op==6){ s.cc.guards++; return; } if(op==7){ s.cc.guards--; concRelease(s,p); return; } if(op==8){ concAcquire(s,p); return; }
  s.cc.atomic=true; int32_t n=(int32_t)load(s,V(p),32).c; // the word: 0 free, -1 written by one owner, k>0 locked k times (recursive or readers)
  if(op==1||op==5){ if(n){ if(op==5) r=V(16); else violation(s,"nontermination","deadlock: locking a mutex that this thread already holds"); } else { n=-1; s.cc.locks++; } }
  else if(op==2){ n++; s.cc.locks++; } else if(op==3){ if(n<0) violation(s,"nontermination","deadlock: read lock on a lock that this thread holds"); n++; s.cc.rlocks++; }
  else if(op==4){ if(n<0){ n=0; s.cc.locks--; } else if(n>0){ n--; if(s.cc.rlocks) s.cc.rlocks--; else s.cc.locks--; } }
  store(s,V(p),V((uint32_t)n),32); s.cc.atomic=false; }
BI(b_nop){ r=V(0); }
BI(b_abort){ violation(s,"abort","abort() called"); }
BI(b_exit){ violation(s,"abort","exit() called"); }
BI(b_terminate){ violation(s,"abort","std::terminate called"); }
BI(b_assert){ violation(s,"abort","assertion failed: "+cstr(s,a[0].c)); }
static bool rdByte(State& s, uint64_t p, Val& v){ Obj*o=access(s,p,1,false,"printf"); v=readObj(o,p&0xffffffffull,8); return v.e||v.c; }
BI(b_snprintf){ // %d %i %u %x %o %c %s %% with l, z, h, width, zero and minus
  uint64_t dst=concretize(s,a[0],64), cap=concretize(s,a[1],64), f=concretize(s,a[2],64); size_t k=3; vector<Val> out; Val c;
  auto next=[&](unsigned& w)->Val{ if(k>=ci.args.size()) unsup("snprintf arguments"); w=ci.widths[k]; return a[k++]; };
  while(rdByte(s,f,c)) { if(c.e) unsup("symbolic format"); ++f; if(c.c!='%'){ out.push_back(c); continue; }
    bool zero=false, left=false; unsigned wd=0, w=0; int lng=0; for(;;){ rdByte(s,f++,c); if(c.c=='0') zero=true; else if(c.c=='-') left=true; else break; } while(c.c>='1'&&c.c<='9'||(wd&&c.c=='0')){ wd=wd*10+(c.c-'0'); rdByte(s,f++,c); } while(c.c=='l'||c.c=='z'||c.c=='h'||c.c=='j'){ if(c.c!='h') lng=1; rdByte(s,f++,c); }
    vector<Val> t; switch(c.c){ case '%': t.push_back(V('%')); break; case 'c': { Val v=next(w); t.push_back(fromE(mkExtract(toE(v,w),0,8))); break; } case 's': { Val v=next(w); uint64_t q=concretize(s,v,64); Val b; for(;;){ rdByte(s,q++,b); uint64_t x=b.e?concretize(s,b,8):b.c; if(!x) break; t.push_back(V(x)); } break; }
      case 'd': case 'i': case 'u': case 'x': case 'o': { Val v=next(w); uint64_t x=v.e?concretize(s,v,w):v.c; char b[40]; if(c.c=='d'||c.c=='i') snprintf(b,40,"%lld",(long long)sx(x,lng?64:32)); else { if(!lng) x&=0xffffffffull; snprintf(b,40,c.c=='u'?"%llu":c.c=='x'?"%llx":"%llo",(unsigned long long)x); } for(char*z=b;*z;++z) t.push_back(V((uint8_t)*z)); break; }
      default: unsup(string("snprintf conversion ")+(char)c.c); }
    size_t pad=wd>t.size()?wd-t.size():0; if(left){ out.insert(out.end(),t.begin(),t.end()); out.insert(out.end(),pad,V(' ')); } else if(zero){ size_t sg=!t.empty()&&!t[0].e&&t[0].c=='-'; out.insert(out.end(),t.begin(),t.begin()+sg); out.insert(out.end(),pad,V('0')); out.insert(out.end(),t.begin()+sg,t.end()); } else { out.insert(out.end(),pad,V(' ')); out.insert(out.end(),t.begin(),t.end()); } }
  if(cap){ uint64_t n=std::min<uint64_t>(out.size(),cap-1); access(s,dst,n+1,true,"snprintf"); Obj*o=s.writable(dst); for(uint64_t i=0;i<n;i++) storeObj(o,(dst&0xffffffffull)+i,out[i],8); storeObj(o,(dst&0xffffffffull)+n,V(0),8); } r=V((uint32_t)out.size()); }
BI(b_sprintf){ Val b[64]; size_t n=std::min<size_t>(ci.args.size(),62); b[0]=a[0]; b[1]=V(1u<<20); for(size_t i=1;i<n;i++) b[i+1]=a[i]; CallInfo c2; c2.args=ci.args; c2.args.push_back(0); c2.widths=ci.widths; c2.widths.insert(c2.widths.begin()+1,64);
  uint64_t d=concretize(s,a[0],64); Obj*o=s.find(d); if(!o) violation(s,"memory","sprintf to a dangling pointer"); Val tmp; uint64_t buf=s.addObj(newObj(1u<<12,K_HEAP,"sprintf",0)); b[0]=V(buf); b[1]=V(1u<<12); b_snprintf(s,c2,b,tmp); copyMem(s,d,buf,tmp.c+1,"sprintf"); s.freeObj((buf>>32)&SLOTM); r=tmp; }
BI(b_gassert){ violation(s,"abort","libstdc++ assertion failed: "+cstr(s,a[3].c)+" in "+cstr(s,a[2].c)); }
BI(b_purevirt){ violation(s,"abort","pure virtual function called"); }
BI(b_alloc_exc){ uint64_t n=concretize(s,a[0],64); r=V(s.addObj(newObj(n,K_EXC,"exception",0xCB))); }
BI(b_throw){ Exc e; e.obj=a[0].c; e.ti=a[1].c; e.dtor=a[2].c; for(auto&x:s.excs) if(x.obj==e.obj){ x=e; unwind(s,e.obj); return; } s.excs.push_back(e); unwind(s,e.obj); }
BI(b_begin_catch){ uint64_t o=a[0].c; Exc& e=excOf(s,o); e.handlers++; e.rethrown=false; s.caught.push_back(o); r=V(o+e.adj); }
BI(b_end_catch){ if(s.caught.empty()) unsup("end_catch without catch"); uint64_t o=s.caught.back(); s.caught.pop_back(); Exc& e=excOf(s,o); if(--e.handlers==0 && !e.rethrown && e.dtor){ Func* d=funcByAddr[e.dtor]; if(!d) unsup("exception destructor"); if(d->bi) return; Val x=V(o); pushFrame(s,d,&x,1); } }
BI(b_rethrow){ if(s.caught.empty()) violation(s,"abort","rethrow without active exception (std::terminate)"); uint64_t o=s.caught.back(); excOf(s,o).rethrown=true; unwind(s,o); }
BI(b_get_exc_ptr){ r=V(a[0].c+excOf(s,a[0].c).adj); }

// harness interface
static void newVars(State& s, const string& name, unsigned count, unsigned width, unsigned& first) {
  first=s.nvars; s.syms.push_back({name,first,count,width}); s.nvars+=count; if(s.nvars>MAXVARS) unsup("too many symbolic variables"); s.model.resize(s.nvars,0);
  Set256 full; for(int i=0;i<4;i++) full.b[i]=~0ull; s.dom.resize(s.nvars,full); uint64_t mv=G->maxVars; while(s.nvars>mv&&!G->maxVars.compare_exchange_weak(mv,s.nvars)); }
BI(b_sv_symbolic){ uint64_t p=concretize(s,a[0],64), n=concretize(s,a[1],64); if(n) access(s,p,n,true,"sv_symbolic"); unsigned f; newVars(s,cstr(s,a[2].c),n,8,f); if(n){ Obj*o=s.writable(p); symArr(o); for(uint64_t i=0;i<n;i++) o->s[(p&0xffffffffull)+i]=mkSym(8,f+i); } }
BI(b_sv_u32){ unsigned f; newVars(s,cstr(s,a[0].c),1,32,f); r=Val{mkSym(32,f),0}; }
// a fresh variable in lo..hi, one path per value: every value is feasible because the variable is fresh
BI(b_sv_range){
  if(!s.rangeOn){ s.rangeLo=concretize(s,a[0],32); s.rangeHi=concretize(s,a[1],32); if(s.rangeLo>s.rangeHi) throw EndPath{1}; newVars(s,cstr(s,a[2].c),1,32,s.rangeVar); s.rangeOn=true; }
  while(s.rangeLo<s.rangeHi){ uint32_t mid=s.rangeLo+(s.rangeHi-s.rangeLo)/2; State* n=new State(s); n->rangeLo=mid+1; pushState(n); s.rangeHi=mid; } // the copy re-executes this call
  s.model[s.rangeVar]=s.rangeLo; addConstraint(s,mkBin(EQ,mkSym(32,s.rangeVar),mkConst(32,s.rangeLo))); s.rangeOn=false; r=V(s.rangeLo); }
BI(b_sv_u8){ unsigned f; newVars(s,cstr(s,a[0].c),1,8,f); r=Val{mkSym(8,f),0}; }
static void constrain(State& s, E c) { // assume
  if(c->op==CONST){ if(!c->k) throw EndPath{1}; return; }
  if(!evalE(c,s.model)){ vector<uint64_t> m; int q=query(s,c,m); if(q<0) unsup("solver gave no answer"); if(q==0) throw EndPath{1}; s.model=m; } addConstraint(s,c); }
BI(b_sv_assume){ constrain(s,toE(a[0],1)); }
BI(b_sv_concretize){ r=V(concretize(s,a[0],64)); }
BI(b_sv_concretize8){ r=V(concretize(s,a[0],8)); }
BI(b_sv_check){ string msg=cstr(s,a[1].c); G->obligations++;
  if(!a[0].e){ G->obligConst++; if(!(a[0].c&1)) { report(s,"property",msg,s.model); throw EndPath{2}; } return; }
  E c=a[0].e; vector<uint64_t> m; int q=query(s,mkNot(c),m); if(q<0) unsup("solver gave no answer on an assertion: "+msg);
  if(q==1){ report(s,"property",msg,m); if(!evalE(c,s.model)) throw EndPath{2}; addConstraint(s,c); } else noteDecided(s,c,true); }
BI(b_sv_fail){ G->obligations++; report(s,"property",cstr(s,a[0].c),s.model); throw EndPath{2}; }
static void markLabel(const char* name){ for(int i=0;i<G->nlab;i++) if(!strcmp(G->lab[i].name,name)){ G->lab[i].n++; return; }
  int z=0; while(!G->labLock.compare_exchange_weak(z,1)) z=0; for(int i=0;i<G->nlab;i++) if(!strcmp(G->lab[i].name,name)){ G->lab[i].n++; G->labLock=0; return; }
  int i=G->nlab; if(i<200){ strncpy(G->lab[i].name,name,79); G->lab[i].n=1; G->nlab=i+1; } G->labLock=0; }
BI(b_sv_reach){ string l=cstr(s,a[0].c); markLabel(l.c_str()); }
BI(b_sv_observe){ uint64_t p=concretize(s,a[0],64), n=concretize(s,a[1],64); s.obs.push_back({V(n),32}); if(n){ Obj*o=access(s,p,n,false,"sv_observe"); for(uint64_t i=0;i<n;i++) s.obs.push_back({readObj(o,(p&0xffffffffull)+i,8),8}); } }
BI(b_sv_observe_int){ s.obs.push_back({a[0],64}); }
BI(b_sv_param){ string n=cstr(s,a[0].c); auto it=params.find(n); r=it!=params.end()?V((uint64_t)it->second):a[1]; }
BI(b_sv_is_symbolic){ r=V(1); }
BI(b_sv_note){ fprintf(stderr,"note: %s %s\n",cstr(s,a[0].c).c_str(), a[1].e?show(a[1].e).c_str():std::to_string(a[1].c).c_str()); }
BI(b_sv_live_heap){ uint64_t n=0; for(Obj*o:s.objs) if(o&&o->kind==K_HEAP) n++; r=V(n); }
BI(b_sv_select){ r=fromE(mkIte(toE(a[0],1),toE(a[1],ci.widths[1]),toE(a[2],ci.widths[1]))); }
BI(b_sv_and){ r=fromE(mkBin(AND,toE(a[0],1),toE(a[1],1))); }
BI(b_sv_or){ r=fromE(mkBin(OR,toE(a[0],1),toE(a[1],1))); }

static void registerBuiltins() {
  for(const char* n:{"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","_ZnwmSt11align_val_t"}) builtins[n]=b_malloc;
  for(const char* n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) builtins[n]=b_free;
  builtins["calloc"]=b_calloc; builtins["realloc"]=b_realloc; builtins["memcmp"]=b_memcmp; builtins["bcmp"]=b_bcmp; builtins["memcpy"]=b_memcpy; builtins["memmove"]=b_memcpy; builtins["memset"]=b_memset;
  builtins["__errno_location"]=b_errno; builtins["__cxa_guard_acquire"]=b_guard_acquire; builtins["__cxa_guard_abort"]=b_guard_abort; builtins["sv_thread"]=b_sv_thread; builtins["sv_lockop"]=b_sv_lockop; builtins["__cxa_guard_release"]=b_guard_release;
  for(const char* n:{"__cxa_atexit","__cxa_thread_atexit","_ZSt21ios_base_library_initv","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","__cxa_free_exception"}) builtins[n]=b_nop;
  builtins["abort"]=b_abort; builtins["exit"]=b_exit; builtins["_exit"]=b_exit; builtins["_ZSt9terminatev"]=b_terminate; builtins["__assert_fail"]=b_assert; builtins["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=b_gassert; builtins["__cxa_pure_virtual"]=b_purevirt;
  builtins["__cxa_allocate_exception"]=b_alloc_exc; builtins["__cxa_throw"]=b_throw; builtins["__cxa_begin_catch"]=b_begin_catch; builtins["__cxa_end_catch"]=b_end_catch; builtins["__cxa_rethrow"]=b_rethrow; builtins["__cxa_get_exception_ptr"]=b_get_exc_ptr;
  builtins["sv_symbolic"]=b_sv_symbolic; builtins["sv_u32"]=b_sv_u32; builtins["sv_range"]=b_sv_range; builtins["sv_u8"]=b_sv_u8; builtins["sv_assume"]=b_sv_assume; builtins["sv_concretize"]=b_sv_concretize; builtins["sv_concretize8"]=b_sv_concretize8; builtins["sv_check"]=b_sv_check; builtins["sv_fail"]=b_sv_fail; builtins["sv_reach"]=b_sv_reach;
  builtins["sv_observe"]=b_sv_observe; builtins["sv_observe_int"]=b_sv_observe_int; builtins["sv_param"]=b_sv_param; builtins["sv_is_symbolic"]=b_sv_is_symbolic; builtins["sv_note"]=b_sv_note; builtins["sv_bytes_eq"]=b_sv_eq; builtins["sv_live_heap"]=b_sv_live_heap; builtins["sv_select32"]=b_sv_select; builtins["sv_and"]=b_sv_and; builtins["sv_or"]=b_sv_or;
  builtins["snprintf"]=b_snprintf; builtins["sprintf"]=b_sprintf;
  for(const char* n:{"_ZSt18uncaught_exceptionv","_ZSt19uncaught_exceptionsv"}) builtins[n]=b_nop;
}

// ------------------------------------------------------------------ driver
static SolverStats lastSS;
static void flushStats(){
  SolverStats& last=lastSS; G->queries+=SS.queries-last.queries; G->sat+=SS.sat-last.sat; G->unsat+=SS.unsat-last.unsat; G->unknown+=SS.unknown-last.unknown; G->cacheh+=SS.cachehits-last.cachehits; G->table+=SS.table-last.table; G->dumped+=SS.dumped-last.dumped; G->solverUs+=(uint64_t)((SS.time-last.time)*1e6); last=SS; G->insts+=localInsts; localInsts=0; }
static void samplePath(State& s) {
  uint64_t p=G->paths.load(); if(G->samples>=maxSamples) return; uint64_t nx=G->nextSample.load(); if(p<nx) return; if(!G->nextSample.compare_exchange_strong(nx, std::max(nx+1,(uint64_t)(nx*1.35)))) return;
  int k=G->samples++; string fn=outDir+"/sample_"+std::to_string(k)+".json"; FILE*f=fopen((fn+".tmp").c_str(),"w"); if(!f) return;
  fprintf(f,"{"); writeInputs(f,s,s.model); fprintf(f,",\"obs\":["); bool first=true; for(auto&o:s.obs){ uint64_t v=o.first.e?evalE(o.first.e,s.model):o.first.c; fprintf(f,"%s%llu",first?"":",",(unsigned long long)v); first=false; } fprintf(f,"],\"pathlen\":%zu}\n",s.pc.size()); fclose(f); rename((fn+".tmp").c_str(),fn.c_str());
}
static double lastSplit=0;
static bool trySplit() { // hand the older half of the pending states to a new worker process
  if(work.size()<1) return false;
  double t=now(); if(t-lastSplit<0.005) return false; // a fork is not free
  int a=G->active.load(); if(a>=maxWorkers) return false; if(!G->active.compare_exchange_strong(a,a+1)) return false;
  flushStats(); fflush(nullptr);
  pid_t p=fork();
  if(p<0){ G->active--; return false; }
  if(p==0){ isRoot=false; SS=SolverStats(); lastSS=SolverStats(); State* mine=work.front(); work.clear(); work.push_back(mine); cur=nullptr; lastSplit=now(); throw 42; }
  lastSplit=now(); delete work.front(); work.pop_front(); return true;
}
static bool expired(){ if(G->stop) return true; if(now()>deadline){ G->incomplete=1; G->stop=1; return true; } return false; }
static void exploreLoop() {
  for(;;) {
    try {
      while(!work.empty()) {
        if(expired()) break;
        State* s=work.back(); work.pop_back(); cur=s; uint64_t k=0;
        try {
          for(;;) {
            step(*s); ++s->steps; ++k; ++localInsts;
            if((k&4095)==0){ if(expired()){ cur=nullptr; delete s; flushStats(); return; } if(maxWorkers>1&&work.size()>=1) while(work.size()>=1&&G->active<maxWorkers&&trySplit()); 
              if(s->steps>maxSteps) violation(*s,"nontermination","more than "+std::to_string(maxSteps)+" instructions on one path"); }
          }
        } catch(EndPath& e) {
          if(e.kind==0){ G->paths++; localPaths++; uint64_t ms=G->maxPathSteps; while(s->steps>ms&&!G->maxPathSteps.compare_exchange_weak(ms,s->steps)); samplePath(*s); }
          else if(e.kind==1) G->killed++;
        } catch(Unsupported& u) {
          if(G->unsupported.fetch_add(1)==0){ string m=u.msg+" at "+where(*s); strncpy(G->firstUnsupported,m.c_str(),399); } G->stop=1;
        }
        cur=nullptr; delete s;
        if(maxWorkers>1) while(work.size()>=2&&G->active<maxWorkers&&trySplit());
      }
      flushStats(); return;
    } catch(int) { /* now a child worker: continue with its own work list */ }
  }
}

int main(int argc, char** argv) {
  string bc; 
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="-o") outDir=nx(); else if(a=="-e") entry=nx(); else if(a=="-t") timeLimit=atof(nx().c_str()); else if(a=="-j") maxWorkers=atoi(nx().c_str()); else if(a=="-steps") maxSteps=strtoull(nx().c_str(),0,10); else if(a=="-samples") maxSamples=atoi(nx().c_str()); else if(a=="-maxviol") maxViol=atoi(nx().c_str()); else if(a=="-notable") useTable=false; else if(a=="-audit") audit=true; else if(a=="-repo") repoPrefix=nx(); else if(a=="-rtglobals"){ std::ifstream f(nx()); string l; while(std::getline(f,l)) rtGlobals.insert(l); } else if(a=="-smt") solverTimeoutMs=atoi(nx().c_str()); else if(a=="-dump"){ dumpDir=outDir; dumpEvery=atoi(nx().c_str()); dumpMax=20; }
    else if(a=="-p"){ string p=nx(); auto e=p.find('='); params[p.substr(0,e)]=atol(p.c_str()+e+1); } else bc=a; }
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl);
  double t0=now(); deadline=t0+timeLimit;
  G=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); G->active=1;
  solverInit(); registerBuiltins();
  L::LLVMContext ctx; L::SMDiagnostic err; auto m=L::parseIRFile(bc,err,ctx); if(!m){ err.print("tgsym",L::errs()); return 3; } M=m.get(); DL=&M->getDataLayout();
  State* s0=new State; s0->objs.push_back(nullptr); // slot 0 unused
  vector<std::pair<L::GlobalVariable*,uint64_t>> inits;
  for(auto& F:*M) { if(F.isIntrinsic()) continue; uint64_t a=s0->addObj(newObj(1,K_FUNC,strdup(F.getName().str().c_str()),0)); gaddr[&F]=a; funcByAddr[a]=getFunc(&F); }
  for(auto& g:M->globals()) { uint64_t sz=DL->getTypeAllocSize(g.getValueType()); const char* nm=strdup(g.getName().str().c_str());
    if(g.isDeclaration()){ uint64_t a=s0->addObj(newObj(std::max<uint64_t>(sz,256),K_EXTERN,nm,0)); gaddr[&g]=a; if(!strcmp(nm,"_ZTVN10__cxxabiv120__si_class_type_infoE")) vtSI=a; if(!strcmp(nm,"_ZTVN10__cxxabiv121__vmi_class_type_infoE")) vtVMI=a; }
    else { Obj* o=newObj(sz,K_GLOBAL,nm,0); o->priv=g.isThreadLocal()||rtGlobals.count(nm); uint64_t a=s0->addObj(o); gaddr[&g]=a; inits.push_back({&g,a}); } }
  errnoAddr=s0->addObj(newObj(4,K_GLOBAL,"errno",0)); s0->find(errnoAddr)->priv=true;
  for(auto& p:inits){ try { Obj*o=s0->find(p.second); initMem(o->b,p.first->getInitializer()); o->ro=p.first->isConstant(); } catch(Unsupported& u){ fprintf(stderr,"global %s: %s\n",p.first->getName().str().c_str(),u.msg.c_str()); return 3; } }
  for(auto& F:*M) for(auto& B:F) for(auto& I:B) if(I.getDebugLoc()) lineIdOf(I); // fix ids before any worker is forked
  size_t totalLines=lineTab.size()-1;
  // static constructors, then the harness
  string fatal; double initT=0;
  auto runConcrete=[&](Func* f){ pushFrame(*s0,f,nullptr,0); try { for(;;){ step(*s0); ++localInsts; if(!work.empty()) unsup("symbolic branch in static constructor"); } } catch(EndPath& e){ if(e.kind) unsup("static constructor failed"); } };
  try {
    if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*arr=L::dyn_cast<L::ConstantArray>(gc->getInitializer())) { vector<std::pair<uint64_t,L::Function*>> cs; for(auto& e:arr->operands()){ auto*st=L::cast<L::ConstantStruct>(e); if(auto*f=L::dyn_cast<L::Function>(st->getOperand(1))) cs.push_back({L::cast<L::ConstantInt>(st->getOperand(0))->getZExtValue(),f}); } std::stable_sort(cs.begin(),cs.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&c:cs) runConcrete(getFunc(c.second)); }
    L::Function* E0=M->getFunction(entry); if(!E0||E0->isDeclaration()) unsup("no harness "+entry);
    pushFrame(*s0,getFunc(E0),nullptr,0);
  } catch(Unsupported& u){ fatal=u.msg+" at "+where(*s0); G->unsupported=1; strncpy(G->firstUnsupported,fatal.c_str(),399); }
  initT=now()-t0;
  if(fatal.empty()) { work.push_back(s0); exploreLoop(); }
  if(!isRoot){ flushStats(); G->active--; fflush(nullptr); int st; while(waitpid(-1,&st,WNOHANG)>0); 
    // orphaned grandchildren are reaped by whoever inherits them; wait for direct children so none outlives us
    while(waitpid(-1,&st,0)>0) if(!WIFEXITED(st)||WEXITSTATUS(st)){ G->unsupported++; snprintf(G->firstUnsupported,399,"worker died with status %d",st); }
    _exit(0); }
  G->active--; { int st; while(waitpid(-1,&st,0)>0) if(!WIFEXITED(st)||WEXITSTATUS(st)){ G->unsupported++; snprintf(G->firstUnsupported,399,"worker died with status %d",st); G->stop=1; } }
  FILE* f=fopen((outDir+"/result.json").c_str(),"w"); if(!f) return 3;
  fprintf(f,"{\"entry\":"); jstr(f,entry); fprintf(f,",\"complete\":%s,\"violations\":%d,\"unsupported\":%d,\"unsupported_msg\":",(!G->incomplete&&!G->unsupported&&(G->nviol<maxViol))?"true":"false",G->nviol.load(),G->unsupported.load()); jstr(f,G->firstUnsupported);
  #define U(x) (unsigned long long)G->x.load()
  fprintf(f,",\"timeout\":%s,\"paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"table_decided\":%llu,\"audits\":%llu,\"audit_mismatch\":%llu,\"obligations\":%llu,\"obligations_path_decided\":%llu,\"max_path_steps\":%llu,\"solver_s\":%.3f,\"max_vars\":%llu,\"samples\":%llu,\"dumped\":%llu,\"init_s\":%.2f,\"wall_s\":%.2f",G->incomplete?"true":"false",U(paths),U(killed),U(forks),U(insts),U(queries),U(sat),U(unsat),U(unknown),U(cacheh),U(table),U(audits),U(auditBad),U(obligations),U(obligConst),U(maxPathSteps),G->solverUs.load()/1e6,U(maxVars),U(samples),U(dumped),initT,now()-t0);
  fprintf(f,",\"labels\":{"); for(int i=0;i<G->nlab;i++){ fprintf(f,"%s",i?",":""); jstr(f,G->lab[i].name); fprintf(f,":%llu",(unsigned long long)G->lab[i].n.load()); }
  fprintf(f,"},\"repo_lines_total\":%zu,\"repo_functions\":[",totalLines); bool first=true; for(size_t i=1;i<funcTab.size()&&i<4096;i++) if(G->funcs[i]){ fprintf(f,"%s",first?"":","); jstr(f,funcTab[i]); first=false; }
  fprintf(f,"],\"repo_lines\":{"); { std::map<string,vector<unsigned>> by; for(size_t i=1;i<lineTab.size()&&i<65536;i++) if(G->lines[i]) by[lineTab[i].first].push_back(lineTab[i].second); bool ff=true; for(auto&p:by){ fprintf(f,"%s",ff?"":","); jstr(f,p.first); fprintf(f,":["); std::sort(p.second.begin(),p.second.end()); for(size_t i=0;i<p.second.size();i++) fprintf(f,"%s%u",i?",":"",p.second[i]); fprintf(f,"]"); ff=false; } }
  fprintf(f,"}}\n"); fclose(f); fflush(nullptr); _exit(0);
}
