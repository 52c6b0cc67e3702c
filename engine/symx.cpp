// symx: bounded symbolic executor for LLVM IR (path forking, byte-precise memory, z3 decides).
#include "expr.h"
#include <z3.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <cstdarg>
#include <memory>
#include <set>
#include <deque>
#include <chrono>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
using namespace llvm;
typedef uint64_t u64;

static ExprPool P;
static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static std::string optEntry="harness", optOut="-"; static double optTime=300; static u64 optSteps=20000000; static int optJobs=1; static int optMaxErr=1; static u64 optMaxPaths=~0ull; static bool optVerbose=false; static std::string optArg; static size_t optMemMB=3500;
static double t0;

// ---------------------------------------------------------------- solver
struct SolverStats { u64 queries=0, z3calls=0, hits=0, sat=0, unsat=0, unknown=0; double z3time=0; } S;
static Z3_context zc; static Z3_solver zs; static std::vector<Z3_ast> zmemo;
static Z3_ast tr(Expr*e){
  if(e->id<zmemo.size()&&zmemo[e->id]) return zmemo[e->id];
  Z3_context c=zc; Z3_ast r;
  auto bv1=[&](Z3_ast b){ Z3_sort s=Z3_mk_bv_sort(c,1); return Z3_mk_ite(c,b,Z3_mk_unsigned_int64(c,1,s),Z3_mk_unsigned_int64(c,0,s)); };
  Z3_ast a=e->a?tr(e->a):nullptr,b=e->b?tr(e->b):nullptr,d=e->d?tr(e->d):nullptr;
  switch(e->op){
  case O_CONST: r=Z3_mk_unsigned_int64(c,e->c,Z3_mk_bv_sort(c,e->w)); break;
  case O_VAR: { std::string n="v"+std::to_string(e->c); r=Z3_mk_const(c,Z3_mk_string_symbol(c,n.c_str()),Z3_mk_bv_sort(c,8)); break; }
  case O_ADD: r=Z3_mk_bvadd(c,a,b); break; case O_SUB: r=Z3_mk_bvsub(c,a,b); break; case O_MUL: r=Z3_mk_bvmul(c,a,b); break;
  case O_UDIV: r=Z3_mk_bvudiv(c,a,b); break; case O_SDIV: r=Z3_mk_bvsdiv(c,a,b); break;
  case O_UREM: r=Z3_mk_bvurem(c,a,b); break; case O_SREM: r=Z3_mk_bvsrem(c,a,b); break;
  case O_AND: r=Z3_mk_bvand(c,a,b); break; case O_OR: r=Z3_mk_bvor(c,a,b); break; case O_XOR: r=Z3_mk_bvxor(c,a,b); break;
  case O_SHL: r=Z3_mk_bvshl(c,a,b); break; case O_LSHR: r=Z3_mk_bvlshr(c,a,b); break; case O_ASHR: r=Z3_mk_bvashr(c,a,b); break;
  case O_EQ: r=bv1(Z3_mk_eq(c,a,b)); break; case O_ULT: r=bv1(Z3_mk_bvult(c,a,b)); break; case O_ULE: r=bv1(Z3_mk_bvule(c,a,b)); break;
  case O_SLT: r=bv1(Z3_mk_bvslt(c,a,b)); break; case O_SLE: r=bv1(Z3_mk_bvsle(c,a,b)); break;
  case O_ZEXT: r=Z3_mk_zero_ext(c,e->w-e->a->w,a); break; case O_SEXT: r=Z3_mk_sign_ext(c,e->w-e->a->w,a); break;
  case O_EXTRACT: r=Z3_mk_extract(c,e->c+e->w-1,e->c,a); break; case O_CONCAT: r=Z3_mk_concat(c,a,b); break;
  case O_ITE: r=Z3_mk_ite(c,Z3_mk_eq(c,a,Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1))),b,d); break;
  default: abort();
  }
  if(e->id>=zmemo.size()) zmemo.resize(e->id*2+16,nullptr);
  zmemo[e->id]=r; return r;
}
struct QRes { int res; std::vector<uint8_t> model; }; // 0 unsat 1 sat 2 unknown
struct VH { size_t operator()(const std::vector<uint32_t>&v) const { size_t h=v.size(); for(auto x:v) h=h*1000003u ^ x; return h; } };
static std::unordered_map<std::vector<uint32_t>,QRes,VH> qcache;

// is  /\pc /\ q  satisfiable ? model of relevant variables written into m when sat
static int solve(const std::vector<Expr*>&pc, Expr*q, uint8_t*m){
  if(ExprPool::isC(q)) { if(!q->c) return 0; if(true) { /* pc assumed satisfiable */ return 1; } }
  S.queries++;
  static std::vector<Expr*> sl; sl.clear(); sl.push_back(q); VarSet vs=*q->vs;
  static std::vector<char> used; used.assign(pc.size(),0);
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]&&(*pc[i]->vs&vs)){ used[i]=1; sl.push_back(pc[i]); if(!pc[i]->vs->subset(vs)){ vs|=*pc[i]->vs; ch=true; } } }
  std::vector<int> vars; vs.each([&](int i){ vars.push_back(i); });
  std::vector<uint32_t> key; key.reserve(sl.size()); static std::vector<Expr*> cn; cn.clear();
  if(vars.size()==1){ static std::vector<int> map1(MAXVARS,0);
    for(auto e:sl){ if(!e->canon){ std::unordered_map<Expr*,Expr*> memo; e->canon=P.rename(e,map1,memo); } cn.push_back(e->canon); } }
  else { std::vector<int> map(MAXVARS,0); for(size_t i=0;i<vars.size();i++) map[vars[i]]=i; std::unordered_map<Expr*,Expr*> memo; for(auto e:sl) cn.push_back(P.rename(e,map,memo)); }
  for(auto e:cn) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key);
  if(it==qcache.end()){
    S.z3calls++; double t=now(); QRes r;
    Z3_context c=zc; Z3_solver_push(c,zs); Z3_ast one=Z3_mk_unsigned_int64(c,1,Z3_mk_bv_sort(c,1));
    for(auto e:cn) Z3_solver_assert(c,zs,Z3_mk_eq(c,tr(e),one));
    Z3_lbool lr=Z3_solver_check(c,zs);
    r.res = lr==Z3_L_FALSE?0: lr==Z3_L_TRUE?1:2;
    if(r.res==1){ Z3_model md=Z3_solver_get_model(c,zs); Z3_model_inc_ref(c,md); for(size_t i=0;i<vars.size();i++){ Z3_ast v; uint64_t nv=0; if(!Z3_model_eval(c,md,tr(P.V(i)),true,&v)||!Z3_get_numeral_uint64(c,v,&nv)){ fprintf(stderr,"symx: model\n"); exit(4); } r.model.push_back((uint8_t)nv); } Z3_model_dec_ref(c,md);
      // cross-check the model against the expressions (guards the translation)
      uint8_t mm[MAXVARS]; memset(mm,0,sizeof mm); for(size_t i=0;i<vars.size();i++) mm[i]=r.model[i];
      for(auto e:cn) if(!P.eval(e,mm)){ fprintf(stderr,"symx: model mismatch\n"); exit(4); } }
    Z3_solver_pop(c,zs,1); S.z3time+=now()-t;
    if(r.res==0) S.unsat++; else if(r.res==1) S.sat++; else S.unknown++;
    it=qcache.emplace(key,std::move(r)).first;
  } else S.hits++;
  if(it->second.res==1&&m) for(size_t i=0;i<vars.size();i++) m[vars[i]]=it->second.model[i];
  return it->second.res;
}

// ---------------------------------------------------------------- program
struct Val { u64 c; Expr*e; };
struct Opnd { int slot; u64 c; };
struct Fn;
enum K : uint8_t { K_BIN, K_CMP, K_LOAD, K_STORE, K_GEP, K_BR, K_CBR, K_SWITCH, K_RET, K_CALL, K_ALLOCA, K_ZEXT, K_SEXT, K_TRUNC, K_COPY, K_SELECT, K_EXTRACTV, K_INSERTV, K_UNREACH, K_UNSUP, K_NOP, K_FREEZE };
struct Ins {
  K k; Op op; uint8_t w, w2; bool neg, swp, isptr; int dst; int n; int bb, bb2;
  std::vector<Opnd> o; std::vector<std::pair<u64,int>> cases; std::vector<u64> scale;
  Fn*callee; const Instruction*ll; std::vector<u64> sizes; u64 sz; std::string msg; int curbb;
};
struct Phi { int dst; std::vector<Opnd> in; int n; };
struct Blk { int start; std::vector<int> preds; std::vector<Phi> phis; };
struct Fn { std::string name; Function*f; bool decl; bool decoded=false; int nslots=0; std::vector<Ins> code; std::vector<Blk> blks; std::vector<int> argslots; bool vararg; u64 addr; int builtin=-1; bool repo=false; bool entered=false; std::string file; u64 forks=0; std::vector<char> cov; };
static std::unordered_map<Function*,Fn*> fns; static std::vector<Fn*> fnv; static std::unordered_map<std::string,Fn*> fnByName;
static const DataLayout*DL; static Module*M;
static const u64 FBASE=0x7000000000000000ull; static const int SLOT=26; static const u64 OFF0=1<<20;

struct Obj { int rc=0; u64 size; uint8_t kind; /*0 global 1 heap 2 stack*/ bool freed=false, ro=false, lib=false; std::vector<uint8_t> d; std::vector<Expr*> s; const char*name=""; };
struct Ref { Obj*p; Ref():p(0){} Ref(Obj*o):p(o){ if(p)p->rc++; } Ref(const Ref&o):p(o.p){ if(p)p->rc++; } Ref(Ref&&o):p(o.p){o.p=0;} ~Ref(){ drop(); } void drop(){ if(p&&!--p->rc) delete p; p=0; }
  Ref&operator=(const Ref&o){ if(o.p)o.p->rc++; drop(); p=o.p; return *this; } Ref&operator=(Ref&&o){ std::swap(p,o.p); return *this; } };
struct Frame { Fn*f; int pc; int bb; std::vector<Val> r; std::vector<int> allocas; int dst; int ndst; std::vector<Val> va; };
struct VarInfo { std::string name; };
struct State { std::vector<Ref> objs; std::vector<Frame> fr; std::vector<Expr*> pc; uint8_t m[MAXVARS]; std::vector<std::string> vars; VarSet fixed; long live=0; u64 steps=0; int depth=0; u64 libw=0; };

static inline u64 baseOf(int id){ return ((u64)(id+1)<<SLOT)|OFF0; }
struct PathEnd { std::string kind,msg; bool err; };
[[noreturn]] static void fail(const std::string&k,const std::string&m){ throw PathEnd{k,m,true}; }
[[noreturn]] static void endPath(const char*k){ throw PathEnd{k,"",false}; }

static std::deque<State*> work; static u64 nPaths=0,nForks=0,nSteps=0,nAssumeKill=0,nAsserts=0; static std::map<std::string,u64> reach; static std::vector<std::string> errors; static u64 nErr=0; static std::set<std::string> errSigs; static bool incomplete=false; static std::string incompleteWhy; static u64 nSteplimit=0; static std::vector<std::string> samples;
static u64 maxConstr=0;

static State*clone(State*s){ State*n=new State(*s); nForks++; n->depth++; s->depth++; s->fr.back().f->forks++; return n; }
static void addC(State&s,Expr*e){ if(ExprPool::isC(e)) return; s.pc.push_back(e); 
  if(e->op==O_EQ&&ExprPool::isC(e->b)&&e->a->op==O_VAR) s.fixed.set(e->a->c); if(s.pc.size()>maxConstr) maxConstr=s.pc.size(); }

static void addConj(State&s,Expr*e){ if(e->op==O_AND&&e->w==1){ addConj(s,e->a); addConj(s,e->b); } else addC(s,e); }

// decide a boolean condition; forks when both are feasible. Returns the value on the current path.
static bool decide(State&s,Expr*c){
  if(ExprPool::isC(c)) return c->c;
  if(c->vs->subset(s.fixed)) return P.eval(c,s.m);
  bool v=P.eval(c,s.m);
  Expr*oth=v?P.Not(c):c; Expr*mine=v?c:P.Not(c);
  uint8_t m2[MAXVARS]; memcpy(m2,s.m,sizeof m2);
  int r=solve(s.pc,oth,m2);
  if(r==2){ incomplete=true; incompleteWhy="solver unknown"; r=0; }
  if(r==1){ State*n=clone(&s); memcpy(n->m,m2,sizeof m2); addConj(*n,oth); work.push_back(n); /* n re-executes the current instruction */ addConj(s,mine); }
  return v;
}
static u64 concretize(State&s,Expr*e){
  if(ExprPool::isC(e)) return e->c;
  u64 v=P.eval(e,s.m);
  if(e->vs->subset(s.fixed)) return v;
  Expr*eq=P.Eq(e,P.C(v,e->w));
  uint8_t m2[MAXVARS]; memcpy(m2,s.m,sizeof m2);
  int r=solve(s.pc,P.Not(eq),m2);
  if(r==2){ incomplete=true; incompleteWhy="solver unknown"; r=0; }
  if(r==1){ State*n=clone(&s); memcpy(n->m,m2,sizeof m2); addConj(*n,P.Not(eq)); work.push_back(n); addConj(s,eq); }
  return v;
}
static inline u64 conc(State&s,Val&v,unsigned w){ if(!v.e) return v.c; u64 c=concretize(s,v.e); v.c=c; v.e=nullptr; (void)w; return c; }
static inline Expr* toE(const Val&v,unsigned w){ return v.e?v.e:P.C(v.c,w); }
static inline Val fromE(Expr*e){ if(ExprPool::isC(e)) return Val{e->c,nullptr}; return Val{0,e}; }

static std::string fmt(const char*f,...){ char b[1024]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
static int newObj(State&s,u64 size,uint8_t kind,uint8_t fill,const char*name){
  if(size>(1ull<<(SLOT))-OFF0-4096) { incomplete=true; incompleteWhy="allocation beyond the model (64 MiB)"; endPath("hugealloc"); }
  Obj*o=new Obj; o->size=size; o->kind=kind; o->d.assign(size,fill); o->name=name; s.objs.push_back(Ref(o)); return s.objs.size()-1; }
static const Instruction*curI(State&s){ if(s.fr.empty()) return nullptr; auto&f=s.fr.back(); if(f.pc<(int)f.f->code.size()) return f.f->code[f.pc].ll; return nullptr; }
static Obj*lookup(State&s,u64 addr,u64 n,bool wr,u64&off,const char*what){
  if(addr<4096) fail("null-deref",fmt("%s of %llu bytes through a null pointer (address %#llx)",wr?"write":"read",(unsigned long long)n,(unsigned long long)addr));
  u64 id=(addr>>SLOT)-1;
  if(addr>=FBASE||id>=s.objs.size()||!s.objs[id].p) fail("wild-pointer",fmt("%s through an invalid pointer %#llx",wr?"write":"read",(unsigned long long)addr));
  Obj*o=s.objs[id].p; off=addr-baseOf(id);
  if(o->freed) fail("use-after-free",fmt("%s of a released block (size %llu)",wr?"write":"read",(unsigned long long)o->size));
  if((int64_t)off<0||off+n>o->size) fail("out-of-bounds",fmt("%s of %llu bytes at offset %lld of a %llu byte %s block",wr?"write":"read",(unsigned long long)n,(long long)off,(unsigned long long)o->size,o->kind==1?"heap":o->kind==2?"stack":"global"));
  if(wr&&o->ro) fail("readonly-write","write to constant memory");
  if(wr&&o->lib){ s.libw++; static bool said; if(!said&&getenv("SYMX_LIBW")){ said=true; fprintf(stderr,"lib write to %s\n",o->name); } }
  if(wr&&o->rc>1){ Obj*n2=new Obj(*o); n2->rc=0; s.objs[id]=Ref(n2); o=n2; }
  (void)what; return o;
}
static Val loadv(State&s,u64 addr,unsigned bytes){
  u64 off; Obj*o=lookup(s,addr,bytes,false,off,"load");
  bool sy=false; if(!o->s.empty()) for(unsigned i=0;i<bytes;i++) if(o->s[off+i]) { sy=true; break; }
  if(!sy){ u64 v=0; for(unsigned i=0;i<bytes;i++) v|=(u64)o->d[off+i]<<(8*i); return Val{v,nullptr}; }
  Expr*e=nullptr; for(unsigned i=0;i<bytes;i++){ Expr*b=o->s[off+i]?o->s[off+i]:P.C(o->d[off+i],8); e=e?P.Concat(b,e):b; }
  return fromE(e);
}
static void storev(State&s,u64 addr,unsigned bytes,const Val&v,unsigned w){
  u64 off; Obj*o=lookup(s,addr,bytes,true,off,"store");
  if(!v.e){ for(unsigned i=0;i<bytes;i++) o->d[off+i]=(uint8_t)(v.c>>(8*i)); if(!o->s.empty()) for(unsigned i=0;i<bytes;i++) o->s[off+i]=nullptr; return; }
  if(o->s.empty()) o->s.assign(o->size,nullptr);
  Expr*e=v.e; if(e->w<bytes*8) e=P.ZExt(e,bytes*8); (void)w;
  for(unsigned i=0;i<bytes;i++){ Expr*b=P.Extract(e,8*i,8); if(ExprPool::isC(b)){ o->d[off+i]=(uint8_t)b->c; o->s[off+i]=nullptr; } else o->s[off+i]=b; }
}
static Expr*byteAt(State&s,u64 addr){ Val v=loadv(s,addr,1); return toE(v,8); }

// ---- constants
static std::unordered_map<const GlobalVariable*,int> gids; static State*initS;
static u64 fnAddr(Function*f){ return fns[f]->addr; }
static u64 constVal(const Constant*c){
  if(auto i=dyn_cast<ConstantInt>(c)) return i->getBitWidth()<=64? i->getZExtValue() : i->getValue().trunc(64).getZExtValue();
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
  if(auto f=dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if(auto f=dyn_cast<Function>(c)) return fnAddr(const_cast<Function*>(f));
  if(auto g=dyn_cast<GlobalVariable>(c)) return baseOf(gids.at(g));
  if(auto a=dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if(auto ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) break; return constVal(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
    case Instruction::Add: return constVal(ce->getOperand(0))+constVal(ce->getOperand(1));
    case Instruction::Sub: return constVal(ce->getOperand(0))-constVal(ce->getOperand(1));
    case Instruction::Trunc: return constVal(ce->getOperand(0))&MASK(ce->getType()->getIntegerBitWidth());
    default: break; }
  }
  std::string t; raw_string_ostream os(t); c->print(os); fprintf(stderr,"symx: unsupported constant %s\n",os.str().c_str()); exit(3);
}
static void initMem(Obj*o,u64 off,const Constant*c){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
  if(auto d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy(&o->d[off],r.data(),r.size()); return; }
  if(auto a=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initMem(o,off+i*es,a->getOperand(i)); return; }
  if(auto st=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(st->getType()); for(unsigned i=0;i<st->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),st->getOperand(i)); return; }
  u64 v=constVal(c); unsigned n=DL->getTypeStoreSize(t); for(unsigned i=0;i<n;i++) o->d[off+i]=(uint8_t)(v>>(8*i));
}

// ---- decoding
static unsigned typeSlots(Type*t){ if(auto st=dyn_cast<StructType>(t)){ unsigned n=0; for(auto*e:st->elements()) n+=typeSlots(e); return n; } if(auto at=dyn_cast<ArrayType>(t)) return at->getNumElements()*typeSlots(at->getElementType()); if(t->isVoidTy()) return 0; return 1; }
static bool typeOK(Type*t){ if(t->isVectorTy()) return false; if(t->isIntegerTy()) return t->getIntegerBitWidth()<=64; if(t->isStructTy()||t->isArrayTy()){ for(unsigned i=0;i<t->getNumContainedTypes();i++) if(!typeOK(t->getContainedType(i))) return false; return true; } return t->isPointerTy()||t->isVoidTy()||t->isDoubleTy()||t->isFloatTy()||t->isLabelTy()||t->isMetadataTy(); }
static unsigned tw(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()||t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void flatSizes(Type*t,std::vector<Type*>&v){ if(auto st=dyn_cast<StructType>(t)){ for(auto*e:st->elements()) flatSizes(e,v); } else if(auto at=dyn_cast<ArrayType>(t)){ for(unsigned i=0;i<at->getNumElements();i++) flatSizes(at->getElementType(),v);} else v.push_back(t); }
static void decode(Fn*F){
  F->decoded=true; Function*f=F->f; std::unordered_map<const Value*,int> sl; int n=0;
  for(auto&a:f->args()){ sl[&a]=n; F->argslots.push_back(n); n+=std::max(1u,typeSlots(a.getType())); }
  std::unordered_map<const BasicBlock*,int> bi; int k=0; for(auto&b:*f) bi[&b]=k++;
  for(auto&b:*f) for(auto&i:b) if(!i.getType()->isVoidTy()){ sl[&i]=n; n+=std::max(1u,typeSlots(i.getType())); }
  F->nslots=n;
  auto opn=[&](const Value*v)->Opnd{ if(auto c=dyn_cast<Constant>(v)){ if(typeSlots(c->getType())>1||c->getType()->isStructTy()) return Opnd{-2,0}; return Opnd{-1,constVal(c)}; } auto it=sl.find(v); if(it==sl.end()) return Opnd{-1,0}; return Opnd{it->second,0}; };
  auto opns=[&](const Value*v,std::vector<Opnd>&o){ unsigned ns=typeSlots(v->getType());
    if(ns==1&&!v->getType()->isAggregateType()){ o.push_back(opn(v)); return; }
    if(auto c=dyn_cast<Constant>(v)){ for(unsigned i=0;i<ns;i++){ u64 x=0; if(!isa<UndefValue>(c)&&!isa<ConstantAggregateZero>(c)) if(auto e=c->getAggregateElement(i)) x=constVal(e); o.push_back(Opnd{-1,x}); } return; }
    int b=sl[v]; for(unsigned i=0;i<ns;i++) o.push_back(Opnd{b+(int)i,0}); };
  for(auto&b:*f){ Blk bl; bl.start=F->code.size(); int cb=bi[&b];
    bool first=true;
    for(auto&i:b){
      if(auto ph=dyn_cast<PHINode>(&i)){ if(first){ for(unsigned j=0;j<ph->getNumIncomingValues();j++) bl.preds.push_back(bi[ph->getIncomingBlock(j)]); first=false; }
        unsigned ns=std::max(1u,typeSlots(ph->getType())); for(unsigned q=0;q<ns;q++){ Phi p; p.dst=sl[ph]+q; for(int pb:bl.preds){ const Value*in=nullptr; for(unsigned j=0;j<ph->getNumIncomingValues();j++) if(bi[ph->getIncomingBlock(j)]==pb) { in=ph->getIncomingValue(j); break; } std::vector<Opnd> t; opns(in,t); p.in.push_back(t[q]); } bl.phis.push_back(p); }
        continue; }
      Ins x; x.ll=&i; x.callee=nullptr; x.dst=i.getType()->isVoidTy()?-1:sl[&i]; x.k=K_UNSUP; x.w=tw(i.getType()); x.n=typeSlots(i.getType()); x.neg=x.swp=false; x.isptr=i.getType()->isPointerTy(); x.curbb=cb; x.sz=0; x.bb=x.bb2=-1; x.w2=0; x.op=O_ADD;
      bool ok=typeOK(i.getType()); for(auto&op:i.operands()) if(!typeOK(op->getType())) ok=false;
      if(ok){
      if(auto bo=dyn_cast<BinaryOperator>(&i)){ static const std::map<unsigned,Op> mp={{Instruction::Add,O_ADD},{Instruction::Sub,O_SUB},{Instruction::Mul,O_MUL},{Instruction::UDiv,O_UDIV},{Instruction::SDiv,O_SDIV},{Instruction::URem,O_UREM},{Instruction::SRem,O_SREM},{Instruction::And,O_AND},{Instruction::Or,O_OR},{Instruction::Xor,O_XOR},{Instruction::Shl,O_SHL},{Instruction::LShr,O_LSHR},{Instruction::AShr,O_ASHR}};
        auto it=mp.find(bo->getOpcode()); if(it!=mp.end()){ x.k=K_BIN; x.op=it->second; x.o={opn(bo->getOperand(0)),opn(bo->getOperand(1))}; } }
      else if(auto c=dyn_cast<ICmpInst>(&i)){ x.k=K_CMP; x.w2=tw(c->getOperand(0)->getType()); x.o={opn(c->getOperand(0)),opn(c->getOperand(1))};
        switch(c->getPredicate()){ case CmpInst::ICMP_EQ:x.op=O_EQ;break; case CmpInst::ICMP_NE:x.op=O_EQ;x.neg=true;break; case CmpInst::ICMP_ULT:x.op=O_ULT;break; case CmpInst::ICMP_ULE:x.op=O_ULE;break; case CmpInst::ICMP_UGT:x.op=O_ULT;x.swp=true;break; case CmpInst::ICMP_UGE:x.op=O_ULE;x.swp=true;break; case CmpInst::ICMP_SLT:x.op=O_SLT;break; case CmpInst::ICMP_SLE:x.op=O_SLE;break; case CmpInst::ICMP_SGT:x.op=O_SLT;x.swp=true;break; case CmpInst::ICMP_SGE:x.op=O_SLE;x.swp=true;break; default: x.k=K_UNSUP; } }
      else if(auto l=dyn_cast<LoadInst>(&i)){ x.k=K_LOAD; x.o={opn(l->getPointerOperand())}; x.sz=DL->getTypeStoreSize(l->getType()); if(l->getType()->isAggregateType()) x.k=K_UNSUP; }
      else if(auto st=dyn_cast<StoreInst>(&i)){ x.k=K_STORE; x.o={opn(st->getPointerOperand()),opn(st->getValueOperand())}; x.w2=tw(st->getValueOperand()->getType()); x.sz=DL->getTypeStoreSize(st->getValueOperand()->getType()); if(st->getValueOperand()->getType()->isAggregateType()) x.k=K_UNSUP; }
      else if(auto g=dyn_cast<GetElementPtrInst>(&i)){ x.k=K_GEP; x.o={opn(g->getPointerOperand())}; u64 coff=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*v=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()) coff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); else { u64 es=DL->getTypeAllocSize(it.getIndexedType()); if(auto ci=dyn_cast<ConstantInt>(v)) coff+=es*(u64)ci->getSExtValue(); else { x.o.push_back(opn(v)); x.scale.push_back(es); x.sizes.push_back(tw(v->getType())); } } } x.sz=coff; }
      else if(auto br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()){ x.k=K_CBR; x.o={opn(br->getCondition())}; x.bb=bi[br->getSuccessor(0)]; x.bb2=bi[br->getSuccessor(1)]; } else { x.k=K_BR; x.bb=bi[br->getSuccessor(0)]; } }
      else if(auto sw=dyn_cast<SwitchInst>(&i)){ x.k=K_SWITCH; x.o={opn(sw->getCondition())}; x.w2=tw(sw->getCondition()->getType()); for(auto&c:sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(),bi[c.getCaseSuccessor()]}); x.bb=bi[sw->getDefaultDest()]; }
      else if(auto r=dyn_cast<ReturnInst>(&i)){ x.k=K_RET; if(r->getReturnValue()) opns(r->getReturnValue(),x.o); }
      else if(auto a=dyn_cast<AllocaInst>(&i)){ x.k=K_ALLOCA; x.sz=DL->getTypeAllocSize(a->getAllocatedType()); x.o={opn(a->getArraySize())}; }
      else if(isa<ZExtInst>(i)){ x.k=K_ZEXT; x.o={opn(i.getOperand(0))}; x.w2=tw(i.getOperand(0)->getType()); }
      else if(isa<SExtInst>(i)){ x.k=K_SEXT; x.o={opn(i.getOperand(0))}; x.w2=tw(i.getOperand(0)->getType()); }
      else if(isa<TruncInst>(i)){ x.k=K_TRUNC; x.o={opn(i.getOperand(0))}; x.w2=tw(i.getOperand(0)->getType()); }
      else if(isa<PtrToIntInst>(i)||isa<IntToPtrInst>(i)||isa<BitCastInst>(i)){ unsigned a=tw(i.getOperand(0)->getType()),b2=tw(i.getType()); x.o={opn(i.getOperand(0))}; x.w2=a; x.k= a==b2?K_COPY: a<b2?K_ZEXT:K_TRUNC; }
      else if(isa<FreezeInst>(i)){ x.k=K_COPY; x.o={opn(i.getOperand(0))}; }
      else if(auto se=dyn_cast<SelectInst>(&i)){ x.k=K_SELECT; x.o={opn(se->getCondition()),opn(se->getTrueValue()),opn(se->getFalseValue())}; if(se->getType()->isAggregateType()) x.k=K_UNSUP; }
      else if(auto ev=dyn_cast<ExtractValueInst>(&i)){ x.k=K_EXTRACTV; std::vector<Opnd> t; opns(ev->getAggregateOperand(),t); Type*ty=ev->getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:ev->getIndices()){ if(auto st=dyn_cast<StructType>(ty)){ for(unsigned q=0;q<ix;q++) off+=typeSlots(st->getElementType(q)); ty=st->getElementType(ix);} else { auto at=cast<ArrayType>(ty); off+=ix*typeSlots(at->getElementType()); ty=at->getElementType(); } } for(unsigned q=0;q<typeSlots(ty);q++) x.o.push_back(t[off+q]); }
      else if(auto iv=dyn_cast<InsertValueInst>(&i)){ x.k=K_EXTRACTV; std::vector<Opnd> t; opns(iv->getAggregateOperand(),t); Type*ty=iv->getType(); unsigned off=0; for(unsigned ix:iv->getIndices()){ if(auto st=dyn_cast<StructType>(ty)){ for(unsigned q=0;q<ix;q++) off+=typeSlots(st->getElementType(q)); ty=st->getElementType(ix);} else { auto at=cast<ArrayType>(ty); off+=ix*typeSlots(at->getElementType()); ty=at->getElementType(); } } std::vector<Opnd> u; opns(iv->getInsertedValueOperand(),u); for(unsigned q=0;q<u.size();q++) t[off+q]=u[q]; x.o=t; }
      else if(isa<UnreachableInst>(i)) x.k=K_UNREACH;
      else if(auto c=dyn_cast<CallInst>(&i)){
        if(isa<DbgInfoIntrinsic>(c)) continue;
        if(auto ii=dyn_cast<IntrinsicInst>(c)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::prefetch||id==Intrinsic::donothing||id==Intrinsic::stackrestore) continue; }
        x.k=K_CALL; Function*cf=c->getCalledFunction(); if(!cf) if(auto*op=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) cf=op; if(cf) x.callee=fns[cf]; else x.callee=nullptr;
        if(c->isInlineAsm()) x.k=K_UNSUP; else {
        x.o.push_back(opn(c->getCalledOperand())); for(auto&a:c->args()) { if(a->getType()->isMetadataTy()) { x.o.push_back(Opnd{-1,0}); x.sizes.push_back(64);} else { x.o.push_back(opn(a)); x.sizes.push_back(tw(a->getType())); if(a->getType()->isAggregateType()) x.k=K_UNSUP; } } } }
      }
      if(x.k==K_UNSUP){ std::string t; raw_string_ostream os(t); i.print(os); x.msg=os.str(); }
      F->code.push_back(std::move(x));
    }
    F->blks.push_back(std::move(bl)); }
  F->cov.assign(F->blks.size(),0);
}

// ---- builtins
enum { B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_MEMCPY,B_MEMMOVE,B_MEMSET,B_BCMP,B_STRCMP,B_SYMBYTES,B_SYMU8,B_SYMRANGE,B_SYMPICK,B_ASSUME,B_ASSERTFAIL,B_LIVE,B_CONC,B_REACH,B_ABORT,B_VASTART,B_VAEND,B_VACOPY,B_SMAX,B_SMIN,B_UMAX,B_UMIN,B_ABS,B_OBJSIZE,B_EXPECT,B_BSWAP,B_CTPOP,B_FSHL,B_FSHR,B_USUBSAT,B_UADDSAT,B_OVF,B_PRUNE,B_ISSYM,B_STACKSAVE,B_ASSERT,B_TRAP,B_PRINT,B_CTLZ,B_CTTZ,B_ISCONST,B_MSIZE,B_LIBW,B_SHARED,B_RETADDR };
static std::map<std::string,int> bmap={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"bcmp",B_BCMP},{"memcmp",B_BCMP+1000},{"strcmp",B_STRCMP},{"sym_bytes",B_SYMBYTES},{"sym_u8",B_SYMU8},{"sym_range",B_SYMRANGE},{"sym_pick",B_SYMPICK},{"sym_assume",B_ASSUME},{"sym_assert_fail",B_ASSERTFAIL},{"sym_live",B_LIVE},{"sym_concretize",B_CONC},{"sym_reach",B_REACH},{"abort",B_ABORT},{"exit",B_ABORT},{"_exit",B_ABORT},{"__assert_fail",B_ABORT},{"sym_is_symbolic",B_ISSYM},{"sym_prune",B_PRUNE},{"sym_assert_",B_ASSERT},{"sym_print",B_PRINT},{"sym_block_size",B_MSIZE},{"sym_lib_writes",B_LIBW},{"sym_is_shared",B_SHARED}};

static std::string cstr(State&s,u64 a,int max=200){ std::string r; for(int i=0;i<max;i++){ Val v=loadv(s,a+i,1); if(v.e){ r+='?'; continue; } if(!v.c) break; r+=(char)v.c; } return r; }
static int newVar(State&s,const std::string&n){ int i=s.vars.size(); if(i>=MAXVARS) { fprintf(stderr,"symx: too many symbolic bytes\n"); exit(3);} s.vars.push_back(n); s.m[i]=0; return i; }
static void copyBytes(State&s,u64 dst,u64 src,u64 n){ if(!n) return; u64 so,d_o; Obj*a=lookup(s,src,n,false,so,"memcpy"); std::vector<uint8_t> t(a->d.begin()+so,a->d.begin()+so+n); std::vector<Expr*> ts; if(!a->s.empty()) ts.assign(a->s.begin()+so,a->s.begin()+so+n);
  Obj*b=lookup(s,dst,n,true,d_o,"memcpy"); memcpy(&b->d[d_o],t.data(),n); if(!ts.empty()){ if(b->s.empty()) b->s.assign(b->size,nullptr); std::copy(ts.begin(),ts.end(),b->s.begin()+d_o); } else if(!b->s.empty()) std::fill(b->s.begin()+d_o,b->s.begin()+d_o+n,nullptr); }
static u64 heapAlloc(State&s,u64 n,uint8_t fill){ int id=newObj(s,n,1,fill,"heap"); s.live++; return baseOf(id); }
static void heapFree(State&s,u64 p){ if(!p) return; u64 id=(p>>SLOT)-1; if(p>=FBASE||p<4096||id>=s.objs.size()||!s.objs[id].p) fail("bad-free",fmt("release of an invalid pointer %#llx",(unsigned long long)p)); Obj*o=s.objs[id].p; if(o->freed) fail("double-free",fmt("block of %llu bytes released twice",(unsigned long long)o->size)); if(o->kind!=1) fail("bad-free","release of a block that is not on the heap"); if(p!=baseOf(id)) fail("bad-free","release of a pointer into the middle of a block");
  Obj*n=new Obj; n->size=o->size; n->kind=1; n->freed=true; s.objs[id]=Ref(n); s.live--; }

static void pushFrame(State&s,Fn*F,const std::vector<Val>&args,int dst,int ndst){
  if(!F->decoded) decode(F); F->entered=true; if(s.fr.size()>4000) fail("stack-overflow","call depth beyond 4000");
  s.fr.emplace_back(); Frame&f=s.fr.back(); f.f=F; f.r.resize(F->nslots); f.dst=dst; f.ndst=ndst; f.bb=0; f.pc=F->blks[0].start; F->cov[0]=1;
  unsigned na=F->argslots.size(); for(unsigned i=0;i<na;i++) f.r[F->argslots[i]]= i<args.size()?args[i]:Val{0,nullptr};
  if(F->vararg) f.va.assign(args.begin()+std::min((size_t)na,args.size()),args.end());
}
static inline Val& slotRef(Frame&f,const Opnd&o,Val&tmp){ if(o.slot>=0) return f.r[o.slot]; tmp=Val{o.c,nullptr}; return tmp; }
static inline Val get(const Frame&f,const Opnd&o){ if(o.slot>=0) return f.r[o.slot]; return Val{o.c,nullptr}; }
static inline void jump(Frame&f,int to){
  Blk&b=f.f->blks[to];
  if(!b.phis.empty()){ int from=f.bb,pi=-1; for(size_t i=0;i<b.preds.size();i++) if(b.preds[i]==from){ pi=i; break; }
    static std::vector<Val> t; t.clear(); for(auto&p:b.phis) t.push_back(get(f,p.in[pi])); for(size_t i=0;i<b.phis.size();i++) f.r[b.phis[i].dst]=t[i]; }
  f.bb=to; f.pc=b.start; f.f->cov[to]=1;
}

static Val doBin(State&s,Op op,Val a,Val b,unsigned w){
  if((op==O_UDIV||op==O_SDIV||op==O_UREM||op==O_SREM)){ if(!b.e){ if(!b.c) fail("div-by-zero","division by zero"); } else { if(decide(s,P.Eq(b.e,P.C(0,w)))) fail("div-by-zero","division by zero"); } }
  if(!a.e&&!b.e) return Val{foldBin(op,a.c,b.c,w),nullptr};
  return fromE(P.Bin(op,toE(a,w),toE(b,w)));
}
static void writeModel(State&s,const std::string&path);

// table read with an address depending on a single byte variable
static bool tableRead(State&s,Expr*addr,unsigned bytes,Val&out){
  if(addr->nv!=1) return false; int v=addr->vs->first();
  // feasible values of that byte
  uint8_t m[MAXVARS]; memcpy(m,s.m,sizeof m); std::vector<Expr*> un; for(auto e:s.pc) if(e->vs->has(v)){ if(e->nv!=1) return false; un.push_back(e); }
  std::map<u64,std::vector<int>> byval; std::set<u64> addrs; std::vector<std::pair<int,u64>> fe;
  for(int k=0;k<256;k++){ m[v]=k; bool ok=true; for(auto e:un) if(!P.eval(e,m)){ ok=false; break; } if(!ok) continue; u64 a=P.eval(addr,m); addrs.insert(a); fe.push_back({k,a}); }
  if(addrs.size()<=2) return false;
  for(auto&p:fe){ u64 a=p.second; u64 id=(a>>SLOT)-1; if(a<4096||a>=FBASE||id>=s.objs.size()||!s.objs[id].p) return false; Obj*o=s.objs[id].p; u64 off=a-baseOf(id); if(o->freed||(int64_t)off<0||off+bytes>o->size) return false; if(!o->s.empty()) for(unsigned i=0;i<bytes;i++) if(o->s[off+i]) return false; u64 val=0; for(unsigned i=0;i<bytes;i++) val|=(u64)o->d[off+i]<<(8*i); byval[val].push_back(p.first); }
  // ite over values; the most frequent value is the default
  u64 def=0; size_t best=0; for(auto&g:byval) if(g.second.size()>best){ best=g.second.size(); def=g.first; }
  Expr*r=P.C(def,bytes*8); Expr*V=P.V(v);
  for(auto&g:byval) if(g.first!=def){ Expr*c=nullptr; size_t i=0; auto&q=g.second; while(i<q.size()){ size_t j=i; while(j+1<q.size()&&q[j+1]==q[j]+1) j++; Expr*t= i==j? P.Eq(V,P.C(q[i],8)) : P.And(P.Bin(O_ULE,P.C(q[i],8),V),P.Bin(O_ULE,V,P.C(q[j],8))); c=c?P.Or(c,t):t; i=j+1; } r=P.Ite(c,P.C(g.first,bytes*8),r); }
  out=fromE(r); return true;
}

// returns true if handled; result in ret
static void builtin(State&s,Frame&f,Ins&x,int b,Fn*F){
  auto A=[&](int i)->Val{ return get(f,x.o[i+1]); };
  auto CA=[&](int i)->u64{ Val tmp; Val&v=slotRef(f,x.o[i+1],tmp); return conc(s,v,x.sizes[i]); };
  auto R=[&](Val v){ if(x.dst>=0) f.r[x.dst]=v; };
  auto RC=[&](u64 v){ R(Val{v,nullptr}); };
  switch(b){
  case B_MALLOC: { u64 n=CA(0); RC(heapAlloc(s,n,0xBE)); break; }
  case B_CALLOC: { u64 a=CA(0),c=CA(1); if(a&&c>(~0ull)/a){ RC(0); break; } RC(heapAlloc(s,a*c,0)); break; }
  case B_REALLOC: { u64 p=CA(0),n=CA(1); if(!p){ RC(heapAlloc(s,n,0xBE)); break; }
    u64 id=(p>>SLOT)-1; if(p>=FBASE||p<4096||id>=s.objs.size()||!s.objs[id].p||p!=baseOf(id)||s.objs[id].p->kind!=1) fail("bad-free","realloc of an invalid pointer"); if(s.objs[id].p->freed) fail("use-after-free","realloc of a released block");
    u64 old=s.objs[id].p->size; if(n==0){ heapFree(s,p); RC(0); break; } u64 q=heapAlloc(s,n,0xBE); copyBytes(s,q,p,std::min(old,n)); heapFree(s,p); RC(q); break; }
  case B_FREE: heapFree(s,CA(0)); break;
  case B_MEMCPY: case B_MEMMOVE: { u64 d=CA(0),sr=CA(1),n=CA(2); if(n>>40) fail("out-of-bounds","memory copy with a negative length"); if(b==B_MEMCPY&&n&&d!=sr&&d<sr+n&&sr<d+n) fail("overlap","memcpy of overlapping blocks"); copyBytes(s,d,sr,n); RC(d); break; }
  case B_MEMSET: { u64 d=CA(0); Val v=A(1); u64 n=CA(2); if(!n){ RC(d); break; } if(n>>40) fail("out-of-bounds","memset with a negative length"); u64 off; Obj*o=lookup(s,d,n,true,off,"memset"); if(v.e){ Expr*e=P.Extract(v.e,0,8); if(o->s.empty()) o->s.assign(o->size,nullptr); for(u64 i=0;i<n;i++) o->s[off+i]=e; } else { memset(&o->d[off],(int)v.c,n); if(!o->s.empty()) std::fill(o->s.begin()+off,o->s.begin()+off+n,nullptr); } RC(d); break; }
  case B_BCMP: case B_BCMP+1000: { u64 a=CA(0),c=CA(1),n=CA(2); Expr*r=P.C(0,32); if(n){ u64 o1; lookup(s,a,n,false,o1,"memcmp"); lookup(s,c,n,false,o1,"memcmp"); }
    for(u64 i=n;i-->0;){ Expr*p=byteAt(s,a+i),*q=byteAt(s,c+i); r=P.Ite(P.Eq(p,q),r,P.Bin(O_SUB,P.ZExt(p,32),P.ZExt(q,32))); } R(fromE(r)); break; }
  case B_STRCMP: { u64 a=CA(0),c=CA(1); std::vector<std::pair<Expr*,Expr*>> v; 
    // unroll while equality is still possible and no terminator is certain
    for(u64 i=0;;i++){ 
      u64 o1; Obj*oa=lookup(s,a+i,1,false,o1,"strcmp"); Expr*p=(!oa->s.empty()&&oa->s[o1])?oa->s[o1]:P.C(oa->d[o1],8); Obj*ob=lookup(s,c+i,1,false,o1,"strcmp"); Expr*q=(!ob->s.empty()&&ob->s[o1])?ob->s[o1]:P.C(ob->d[o1],8);
      v.push_back({p,q}); bool pc=ExprPool::isC(p),qc=ExprPool::isC(q); if(pc&&qc&&(p->c!=q->c||!p->c)) break; if(pc&&!p->c) break; if(qc&&!q->c) break; 
      // may the strings end here? if a later read would leave the block, decide now
      if(!(pc&&qc)){ Expr*cont=P.And(P.Eq(p,q),P.Not(P.Eq(p,P.C(0,8)))); (void)cont; u64 i1=((a+i+1)>>SLOT)-1,i2=((c+i+1)>>SLOT)-1; bool e1=(a+i+1)-baseOf(i1)>=s.objs[i1].p->size,e2=(c+i+1)-baseOf(i2)>=s.objs[i2].p->size; if(e1||e2){ Expr*all=cont; for(auto&z:v) if(z.first!=p||z.second!=q) all=P.And(all,P.Eq(z.first,z.second)); if(!decide(s,all)) break; } }
    }
    Expr*r=P.C(0,32); for(size_t i=v.size();i-->0;){ Expr*p=v[i].first,*q=v[i].second; Expr*d=P.Bin(O_SUB,P.ZExt(p,32),P.ZExt(q,32)); r=P.Ite(P.Eq(p,q),P.Ite(P.Eq(p,P.C(0,8)),P.C(0,32),r),d); } R(fromE(r)); break; }
  case B_SYMBYTES: { u64 d=CA(0),n=CA(1); std::string nm=cstr(s,CA(2)); u64 off; Obj*o=lookup(s,d,n,true,off,"sym"); if(o->s.empty()) o->s.assign(o->size,nullptr); for(u64 i=0;i<n;i++){ int v=newVar(s,nm+"["+std::to_string(i)+"]"); o->s[off+i]=P.V(v); } break; }
  case B_SYMU8: { int v=newVar(s,cstr(s,CA(0))); R(Val{0,P.ZExt(P.V(v),32)}); break; }
  case B_SYMRANGE: case B_SYMPICK: { u64 lo=CA(0),hi=CA(1); int64_t l=(int32_t)lo,h=(int32_t)hi; if(h-l>255) { fprintf(stderr,"range too wide\n"); exit(3);} int v=newVar(s,cstr(s,CA(2))); Expr*e=P.V(v); if(b==B_SYMPICK) s.pc.push_back(P.C(1,1)); else if(h-l<255) addC(s,P.Bin(O_ULE,e,P.C(h-l,8))); Expr*r=P.Bin(O_ADD,P.ZExt(e,32),P.C((uint32_t)l,32));
    if(b==B_SYMPICK){ // fork over every value
      u64 base=l; for(int k=1;k<=h-l;k++){ State*n=clone(&s); Frame&nf=n->fr.back(); n->m[v]=k; n->pc.back()=P.Eq(e,P.C(k,8)); n->fixed.set(v); if(x.dst>=0) nf.r[x.dst]=Val{(u64)(uint32_t)(base+k),nullptr}; nf.pc++; work.push_back(n); }
      s.m[v]=0; s.pc.back()=P.Eq(e,P.C(0,8)); s.fixed.set(v); RC((uint32_t)base); break; }
    R(fromE(r)); break; }
  case B_ASSUME: { Val v=A(0); if(!v.e){ if(!v.c){ nAssumeKill++; endPath("assume"); } break; } Expr*c=P.Not(P.Eq(v.e,P.C(0,v.e->w))); if(ExprPool::isC(c)){ if(!c->c){ nAssumeKill++; endPath("assume"); } break; } if(P.eval(c,s.m)){ addConj(s,c); break; } uint8_t m2[MAXVARS]; memcpy(m2,s.m,sizeof m2); int r=solve(s.pc,c,m2); if(r!=1){ if(r==2){ incomplete=true; incompleteWhy="solver unknown"; } nAssumeKill++; endPath("assume"); } memcpy(s.m,m2,sizeof m2); addConj(s,c); break; }
  case B_ASSERT: { nAsserts++; Val v=A(0); if(!v.e){ if(!v.c) fail("assert",cstr(s,CA(1))); break; } Expr*c=P.Not(P.Eq(v.e,P.C(0,v.e->w))); if(!decide(s,c)) fail("assert",cstr(s,CA(1))); break; }
  case B_ASSERTFAIL: fail("assert",cstr(s,CA(0)));
  case B_LIVE: RC((u64)s.live); break;
  case B_LIBW: RC(s.libw); break; case B_RETADDR: RC(0); break;
  case B_SHARED: { Val v=A(0); u64 r=0; if(!v.e&&v.c<FBASE){ u64 id=(v.c>>SLOT)-1; if(v.c>=4096&&id<s.objs.size()&&s.objs[id].p&&s.objs[id].p->lib) r=1; } RC(r); break; }
  case B_CONC: { RC(CA(0)); break; }
  case B_ISSYM: { RC(A(0).e!=nullptr); break; }
  case B_REACH: reach[cstr(s,CA(0))]++; break;
  case B_PRINT: fprintf(stderr,"[%s] %lld\n",cstr(s,CA(0)).c_str(),(long long)CA(1)); break;
  case B_MSIZE: { u64 a=CA(0); u64 off; Obj*o=lookup(s,a,0,false,off,"size"); RC(o->size-off); break; }
  case B_PRUNE: endPath("prune");
  case B_ABORT: fail("abort","abort/exit called by the code under test");
  case B_TRAP: fail("trap","trap reached");
  case B_VASTART: { u64 ap=CA(0); int id=newObj(s,8*f.va.size()+8,2,0,"va"); f.allocas.push_back(id); for(size_t i=0;i<f.va.size();i++) storev(s,baseOf(id)+8*i,8,f.va[i],64); storev(s,ap,4,Val{48,nullptr},32); storev(s,ap+4,4,Val{176,nullptr},32); storev(s,ap+8,8,Val{baseOf(id),nullptr},64); storev(s,ap+16,8,Val{0,nullptr},64); break; }
  case B_VAEND: break;
  case B_VACOPY: copyBytes(s,CA(0),CA(1),24); break;
  case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: { unsigned w=x.w; Expr*a=toE(A(0),w),*c=toE(A(1),w); Expr*lt=P.Bin((b==B_SMAX||b==B_SMIN)?O_SLT:O_ULT,a,c); R(fromE((b==B_SMAX||b==B_UMAX)?P.Ite(lt,c,a):P.Ite(lt,a,c))); break; }
  case B_ABS: { unsigned w=x.w; Expr*a=toE(A(0),w); R(fromE(P.Ite(P.Bin(O_SLT,a,P.C(0,w)),P.Bin(O_SUB,P.C(0,w),a),a))); break; }
  case B_OBJSIZE: { u64 mn=CA(1); RC(mn?0:~0ull); break; }
  case B_ISCONST: RC(0); break;
  case B_EXPECT: R(A(0)); break;
  case B_BSWAP: { unsigned w=x.w; Expr*a=toE(A(0),w); Expr*r=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*t=P.Extract(a,8*i,8); r=r?P.Concat(r,t):t; } R(fromE(r)); break; }
  case B_CTPOP: { u64 v=CA(0); RC(__builtin_popcountll(v)); break; }
  case B_CTLZ: { u64 v=CA(0); RC(v? __builtin_clzll(v)-(64-x.w): x.w); break; }
  case B_CTTZ: { u64 v=CA(0); RC(v? __builtin_ctzll(v): x.w); break; }
  case B_FSHL: case B_FSHR: { unsigned w=x.w; u64 sh=CA(2)%w; Expr*a=toE(A(0),w),*c=toE(A(1),w); if(!sh){ R(b==B_FSHL?A(0):A(1)); break; } unsigned l=b==B_FSHL?sh:w-sh; R(fromE(P.Bin(O_OR,P.Bin(O_SHL,a,P.C(l,w)),P.Bin(O_LSHR,c,P.C(w-l,w))))); break; }
  case B_USUBSAT: { unsigned w=x.w; Expr*a=toE(A(0),w),*c=toE(A(1),w); R(fromE(P.Ite(P.Bin(O_ULT,a,c),P.C(0,w),P.Bin(O_SUB,a,c)))); break; }
  case B_UADDSAT: { unsigned w=x.w; Expr*a=toE(A(0),w),*c=toE(A(1),w); Expr*t=P.Bin(O_ADD,a,c); R(fromE(P.Ite(P.Bin(O_ULT,t,a),P.C(MASK(w),w),t))); break; }
  default: fprintf(stderr,"symx: builtin %d (%s)\n",b,F->name.c_str()); exit(3);
  }
}

static bool step(State&s); // one instruction
static bool step(State&s){
  Frame&f=s.fr.back(); Ins&x=f.f->code[f.pc];
  switch(x.k){
  case K_BIN: { Val a=get(f,x.o[0]),b=get(f,x.o[1]); f.r[x.dst]=(a.e||b.e||x.op==O_UDIV||x.op==O_SDIV||x.op==O_UREM||x.op==O_SREM)?doBin(s,x.op,a,b,x.w):Val{foldBin(x.op,a.c,b.c,x.w),nullptr}; f.pc++; break; }
  case K_CMP: { Val a=get(f,x.o[0]),b=get(f,x.o[1]); if(x.swp) std::swap(a,b); if(!a.e&&!b.e) f.r[x.dst]=Val{foldBin(x.op,a.c,b.c,x.w2)^(u64)x.neg,nullptr}; else { Expr*e=P.Bin(x.op,toE(a,x.w2),toE(b,x.w2)); if(x.neg) e=P.Not(e); f.r[x.dst]=fromE(e); } f.pc++; break; }
  case K_LOAD: { Val tmp; Val&p=slotRef(f,x.o[0],tmp); u64 ad; if(p.e){ Val out; if(x.sz<=8&&tableRead(s,p.e,x.sz,out)){ if(x.w<x.sz*8&&out.e) out.e=P.Extract(out.e,0,x.w); f.r[x.dst]=out; f.pc++; break; } ad=conc(s,p,64); } else ad=p.c; Val v=loadv(s,ad,x.sz); if(x.w<x.sz*8){ if(v.e) v=fromE(P.Extract(v.e,0,x.w)); else v.c&=MASK(x.w); } f.r[x.dst]=v; f.pc++; break; }
  case K_STORE: { Val tmp; Val&p=slotRef(f,x.o[0],tmp); u64 ad=p.e?conc(s,p,64):p.c; storev(s,ad,x.sz,get(f,x.o[1]),x.w2); f.pc++; break; }
  case K_GEP: { Val b=get(f,x.o[0]); bool sy=b.e; u64 c=b.c+x.sz; Expr*e=b.e?P.Bin(O_ADD,b.e,P.C(x.sz,64)):nullptr; for(size_t i=1;i<x.o.size();i++){ Val v=get(f,x.o[i]); unsigned w=x.sizes[i-1]; if(!v.e&&!sy) c+=(u64)SX(v.c,w)*x.scale[i-1]; else { if(!sy){ sy=true; e=P.C(c,64); } Expr*ie=toE(v,w); if(w<64) ie=P.SExt(ie,64); e=P.Bin(O_ADD,e,P.Bin(O_MUL,ie,P.C(x.scale[i-1],64))); } } f.r[x.dst]=sy?fromE(e):Val{c,nullptr}; f.pc++; break; }
  case K_BR: jump(f,x.bb); break;
  case K_CBR: { Val c=get(f,x.o[0]); bool t; if(!c.e) t=c.c&1; else t=decide(s,c.e); Frame&f2=s.fr.back(); jump(f2,t?x.bb:x.bb2); break; }
  case K_SWITCH: { Val c=get(f,x.o[0]); if(!c.e){ int to=x.bb; for(auto&k:x.cases) if(k.first==(c.c&MASK(x.w2))){ to=k.second; break; } jump(f,to); break; }
    // group the cases by destination, decide one at a time
    u64 mv=P.eval(c.e,s.m); int to=x.bb; for(auto&k:x.cases) if(k.first==mv){ to=k.second; break; }
    Expr*cond=nullptr; if(to!=x.bb){ for(auto&k:x.cases) if(k.second==to){ Expr*q=P.Eq(c.e,P.C(k.first,x.w2)); cond=cond?P.Or(cond,q):q; } } else { for(auto&k:x.cases) if(k.second!=to){ Expr*q=P.Eq(c.e,P.C(k.first,x.w2)); cond=cond?P.Or(cond,q):q; } cond=cond?P.Not(cond):P.C(1,1); }
    bool t=decide(s,cond); (void)t; jump(s.fr.back(),to); break; }
  case K_SELECT: { Val c=get(f,x.o[0]); Val a=get(f,x.o[1]),b=get(f,x.o[2]); if(!c.e) f.r[x.dst]=(c.c&1)?a:b; else if(x.isptr){ bool t=decide(s,c.e); s.fr.back().r[x.dst]=t?a:b; } else f.r[x.dst]=fromE(P.Ite(c.e,toE(a,x.w),toE(b,x.w))); f.pc++; break; }
  case K_ZEXT: { Val a=get(f,x.o[0]); if(a.e) a=fromE(P.ZExt(a.e,x.w)); f.r[x.dst]=a; f.pc++; break; }
  case K_SEXT: { Val a=get(f,x.o[0]); if(a.e) a=fromE(P.SExt(a.e,x.w)); else a.c=(u64)SX(a.c,x.w2)&MASK(x.w); f.r[x.dst]=a; f.pc++; break; }
  case K_TRUNC: { Val a=get(f,x.o[0]); if(a.e) a=fromE(P.Extract(a.e,0,x.w)); else a.c&=MASK(x.w); f.r[x.dst]=a; f.pc++; break; }
  case K_COPY: f.r[x.dst]=get(f,x.o[0]); f.pc++; break;
  case K_EXTRACTV: { std::vector<Val> t; for(auto&o:x.o) t.push_back(get(f,o)); for(size_t i=0;i<t.size();i++) f.r[x.dst+i]=t[i]; f.pc++; break; }
  case K_ALLOCA: { Val tmp; Val&n=slotRef(f,x.o[0],tmp); u64 cnt=conc(s,n,64); int id=newObj(s,x.sz*cnt,2,0xAA,"stack"); Frame&g=s.fr.back(); g.allocas.push_back(id); g.r[x.dst]=Val{baseOf(id),nullptr}; g.pc++; break; }
  case K_RET: { std::vector<Val> rv; for(auto&o:x.o) rv.push_back(get(f,o)); for(int id:f.allocas){ Obj*n=new Obj; n->size=s.objs[id].p->size; n->kind=2; n->freed=true; s.objs[id]=Ref(n); } int dst=f.dst; s.fr.pop_back(); if(s.fr.empty()) endPath("done"); Frame&g=s.fr.back(); if(dst>=0) for(size_t i=0;i<rv.size();i++) g.r[dst+i]=rv[i]; g.pc++; break; }
  case K_CALL: { Fn*F=x.callee; if(!F){ Val tmp; Val&p=slotRef(f,x.o[0],tmp); u64 a=conc(s,p,64); if(a<FBASE||(a-FBASE)/16>=fnv.size()) fail("bad-call",fmt("call through an invalid function pointer %#llx",(unsigned long long)a)); F=fnv[(a-FBASE)/16]; }
    if(F->builtin>=0){ builtin(s,f,x,F->builtin,F); Frame&g=s.fr.back(); g.pc++; break; }
    if(F->decl){ fprintf(stderr,"symx: call to undefined function %s\n",F->name.c_str()); exit(3); }
    std::vector<Val> a; for(size_t i=1;i<x.o.size();i++) a.push_back(get(f,x.o[i])); 
    if(F->vararg){ for(size_t i=0;i<a.size();i++) if(x.sizes[i]<64&&i>=F->argslots.size()&&a[i].e) a[i].e=P.ZExt(a[i].e,64); }
    pushFrame(s,F,a,x.dst,x.n); break; }
  case K_UNREACH: fail("unreachable","unreachable code reached");
  default: fprintf(stderr,"symx: unsupported instruction in %s: %s\n",f.f->name.c_str(),x.msg.c_str()); exit(3);
  }
  return true;
}

static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string stackStr(State&s){ std::string r; for(int i=(int)s.fr.size()-1;i>=0&&i>=(int)s.fr.size()-14;i--){ Frame&f=s.fr[i]; const Instruction*I=f.pc<(int)f.f->code.size()?f.f->code[f.pc].ll:nullptr; std::string loc; if(I) if(auto&d=I->getDebugLoc()) { StringRef fn=d->getFilename(); auto p=fn.rfind('/'); if(p!=StringRef::npos) fn=fn.substr(p+1); loc=" "+fn.str()+":"+std::to_string(d.getLine()); } if(!r.empty()) r+=" < "; r+=f.f->name+loc; } return r; }
static std::string modelStr(State&s){ std::string r="["; for(size_t i=0;i<s.vars.size();i++){ if(i) r+=","; r+=std::to_string(s.m[i]); } return r+"]"; }
static std::string namesStr(State&s){ std::string r="["; for(size_t i=0;i<s.vars.size();i++){ if(i) r+=","; r+="\""+jesc(s.vars[i])+"\""; } return r+"]"; }

static double lastMemChk=0; static bool memLow(){ FILE*f=fopen("/proc/self/statm","r"); if(!f) return false; long a=0,b=0; if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); return (size_t)b*4096/1048576>optMemMB; }

static void runState(State*sp,bool bfs){
  std::unique_ptr<State> s(sp);
  try {
    u64 c=0;
    while(true){ step(*s); s->steps++; nSteps++;
      if(s->steps>optSteps){ nSteplimit++; fail("non-termination",fmt("more than %llu instructions on one path",(unsigned long long)optSteps)); }
      if(!(++c&0xfff)){ if(now()-t0>optTime){ incomplete=true; incompleteWhy="time budget"; return; } }
    }
  } catch(PathEnd&e){
    nPaths++;
    if(!e.err){ if(e.kind=="done"&&samples.size()<8&&(nPaths<4||(nPaths&(nPaths-1))==0)) samples.push_back("{\"names\":"+namesStr(*s)+",\"bytes\":"+modelStr(*s)+"}"); }
    if(e.err){ nErr++; 
      // confirm with the solver that the path is feasible and take its model
      std::string st=stackStr(*s); std::string sig=e.kind+"|"+e.msg+"|"+(st.substr(0,st.find(" < ")));
      Expr*all=P.C(1,1); (void)all; 
      if(errSigs.insert(sig).second&&errors.size()<50){ errors.push_back("{\"kind\":\""+jesc(e.kind)+"\",\"msg\":\""+jesc(e.msg)+"\",\"stack\":\""+jesc(st)+"\",\"names\":"+namesStr(*s)+",\"bytes\":"+modelStr(*s)+",\"constraints\":"+std::to_string(s->pc.size())+"}"); }
    }
  }
}
struct Shared { volatile long ticket; volatile long errs; volatile long idle; };

static void writeOut(FILE*o){
  fprintf(o,"{\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assume_kills\":%llu,\"errors_total\":%llu,\"incomplete\":%s,\"why\":\"%s\",\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"z3_time\":%.3f,\"max_constraints\":%llu,\"wall\":%.3f,",
    (unsigned long long)nPaths,(unsigned long long)nForks,(unsigned long long)nSteps,(unsigned long long)nAsserts,(unsigned long long)nAssumeKill,(unsigned long long)nErr,incomplete?"true":"false",incompleteWhy.c_str(),(unsigned long long)S.queries,(unsigned long long)S.z3calls,(unsigned long long)S.hits,(unsigned long long)S.sat,(unsigned long long)S.unsat,(unsigned long long)S.unknown,S.z3time,(unsigned long long)maxConstr,now()-t0);
  fprintf(o,"\"reach\":{"); bool f=true; for(auto&r:reach){ fprintf(o,"%s\"%s\":%llu",f?"":",",jesc(r.first).c_str(),(unsigned long long)r.second); f=false; } fprintf(o,"},");
  fprintf(o,"\"functions\":["); f=true; for(auto*F:fnv) if(F->entered&&F->repo){ int n=0; for(char c:F->cov) n+=c; fprintf(o,"%s[\"%s\",%d,%d,%llu]",f?"":",",F->name.c_str(),n,(int)F->cov.size(),(unsigned long long)F->forks); f=false; } fprintf(o,"],");
  fprintf(o,"\"samples\":["); f=true; for(auto&e:samples){ fprintf(o,"%s%s",f?"":",",e.c_str()); f=false; } fprintf(o,"],");
  fprintf(o,"\"errors\":["); f=true; for(auto&e:errors){ fprintf(o,"%s%s",f?"":",",e.c_str()); f=false; } fprintf(o,"]}\n"); fflush(o);
}

int main(int argc,char**argv){
  t0=now(); std::string file; std::vector<std::string> hargs;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") optEntry=nx(); else if(a=="--time") optTime=atof(nx().c_str()); else if(a=="--steps") optSteps=strtoull(nx().c_str(),0,10); else if(a=="--jobs") optJobs=atoi(nx().c_str()); else if(a=="--out") optOut=nx(); else if(a=="--max-errors") optMaxErr=atoi(nx().c_str()); else if(a=="--arg") hargs.push_back(nx()); else if(a=="--mem") optMemMB=atoi(nx().c_str()); else if(a=="-v") optVerbose=true; else file=a; }
  { Z3_config cf=Z3_mk_config(); zc=Z3_mk_context(cf); zs=Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc,zs); Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),60000); Z3_solver_set_params(zc,zs,p); }
  LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(file,err,ctx); if(!m){ err.print("symx",errs()); return 3; }
  M=m.get(); DL=&M->getDataLayout(); State*init=new State; memset(init->m,0,sizeof init->m); initS=init;
  int fi=0; for(auto&f:*M){ Fn*F=new Fn; F->name=f.getName().str(); F->f=&f; F->decl=f.isDeclaration(); F->vararg=f.isVarArg(); F->addr=FBASE+16*(fi++); fns[&f]=F; fnv.push_back(F); fnByName[F->name]=F;
    if(auto*sp=f.getSubprogram()){ F->file=sp->getFilename().str(); F->repo=F->file.find("/verif/")==std::string::npos&&F->file.find("rt.c")==std::string::npos&&F->name.rfind("axl",0)==0; if(F->name.rfind("__axl",0)==0) F->repo=true; if(F->file.find("/repo/")!=std::string::npos) F->repo=true; }
    auto it=bmap.find(F->name); if(it!=bmap.end()) F->builtin=it->second;
    if(f.isIntrinsic()){ switch(f.getIntrinsicID()){ case Intrinsic::returnaddress: F->builtin=B_RETADDR; break; case Intrinsic::memcpy: F->builtin=B_MEMCPY; break; case Intrinsic::memmove: F->builtin=B_MEMMOVE; break; case Intrinsic::memset: F->builtin=B_MEMSET; break; case Intrinsic::vastart: F->builtin=B_VASTART; break; case Intrinsic::vaend: F->builtin=B_VAEND; break; case Intrinsic::vacopy: F->builtin=B_VACOPY; break; case Intrinsic::smax: F->builtin=B_SMAX; break; case Intrinsic::smin: F->builtin=B_SMIN; break; case Intrinsic::umax: F->builtin=B_UMAX; break; case Intrinsic::umin: F->builtin=B_UMIN; break; case Intrinsic::abs: F->builtin=B_ABS; break; case Intrinsic::objectsize: F->builtin=B_OBJSIZE; break; case Intrinsic::is_constant: F->builtin=B_ISCONST; break; case Intrinsic::expect: F->builtin=B_EXPECT; break; case Intrinsic::bswap: F->builtin=B_BSWAP; break; case Intrinsic::ctpop: F->builtin=B_CTPOP; break; case Intrinsic::ctlz: F->builtin=B_CTLZ; break; case Intrinsic::cttz: F->builtin=B_CTTZ; break; case Intrinsic::fshl: F->builtin=B_FSHL; break; case Intrinsic::fshr: F->builtin=B_FSHR; break; case Intrinsic::usub_sat: F->builtin=B_USUBSAT; break; case Intrinsic::uadd_sat: F->builtin=B_UADDSAT; break; case Intrinsic::stacksave: F->builtin=B_EXPECT; break; case Intrinsic::trap: case Intrinsic::ubsantrap: F->builtin=B_TRAP; break; default: break; } } }
  for(auto&g:M->globals()){ u64 sz=DL->getTypeAllocSize(g.getValueType()); int id=newObj(*init,g.isDeclaration()?std::max<u64>(sz,64):sz,0,0,strdup(g.getName().str().c_str())); gids[&g]=id; }
  for(auto&g:M->globals()) if(g.hasInitializer()){ Obj*o=init->objs[gids[&g]].p; initMem(o,0,g.getInitializer()); o->ro=g.isConstant(); if(!o->ro){ SmallVector<DIGlobalVariableExpression*,2> gd; g.getDebugInfo(gd); for(auto*x:gd){ std::string fn=x->getVariable()->getFilename().str(); size_t q=fn.rfind('/'); if(q!=std::string::npos) fn=fn.substr(q+1); if(fn.rfind("axl",0)==0) o->lib=true; } } }
  auto it=fnByName.find(optEntry); if(it==fnByName.end()||it->second->decl){ fprintf(stderr,"symx: no entry %s\n",optEntry.c_str()); return 3; }
  std::vector<Val> ha; for(auto&a:hargs) ha.push_back(Val{(u64)(uint32_t)atoi(a.c_str()),nullptr});
  pushFrame(*init,it->second,ha,-1,0); work.push_back(init);
  auto stop=[&]{ return (optMaxErr&&(int)errors.size()>=optMaxErr)||incomplete; };
  // phase 1: breadth first until there is enough work to share
  size_t want=optJobs>1?(size_t)optJobs*24:0;
  if(optJobs>1){ while(!work.empty()&&work.size()<want&&!stop()){ State*s=work.front(); work.pop_front(); runState(s,true); if(now()-t0>optTime){ incomplete=true; incompleteWhy="time budget"; } } }
  if(optJobs<=1||work.empty()||stop()){
    while(!work.empty()&&!stop()){ State*s=work.back(); work.pop_back(); runState(s,false); if(now()-t0>optTime&&!work.empty()){ incomplete=true; incompleteWhy="time budget"; } if(!(nPaths&0x3f)&&memLow()){ incomplete=true; incompleteWhy="memory budget"; } 
      if(optVerbose&&now()-lastMemChk>5){ lastMemChk=now(); fprintf(stderr,"%.0fs paths=%llu queue=%zu steps=%llu z3=%llu (%.1fs) cache=%llu live objs=%zu\n",now()-t0,(unsigned long long)nPaths,work.size(),(unsigned long long)nSteps,(unsigned long long)S.z3calls,S.z3time,(unsigned long long)S.hits,P.all.size()); } }
    FILE*o=optOut=="-"?stdout:fopen(optOut.c_str(),"w"); writeOut(o); if(o!=stdout) fclose(o); fflush(stdout); _exit(0);
  }
  // phase 2: workers take states from a shared ticket counter
  Shared*sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->ticket=0; sh->errs=0;
  std::vector<State*> pool(work.begin(),work.end()); work.clear(); std::vector<pid_t> pids; fflush(stdout);
  for(int j=0;j<optJobs;j++){ pid_t p=fork(); if(p==0){
      if(j>0){ nPaths=nForks=nSteps=nAssumeKill=nAsserts=nErr=0; reach.clear(); errors.clear(); samples.clear(); S=SolverStats(); for(auto*F:fnv) F->forks=0; }
      long t; while((t=__sync_fetch_and_add(&sh->ticket,1))<(long)pool.size()&&!stop()&&!sh->errs){ work.push_back(pool[t]); while(!work.empty()&&!stop()&&!(sh->errs&&optMaxErr)){ State*s=work.back(); work.pop_back(); runState(s,false); if(now()-t0>optTime&&!work.empty()){ incomplete=true; incompleteWhy="time budget"; } if(!(nPaths&0x3f)&&memLow()){ incomplete=true; incompleteWhy="memory budget"; } } }
      if(now()-t0>optTime&&sh->ticket<(long)pool.size()){ incomplete=true; incompleteWhy="time budget"; }
      if(optMaxErr&&(int)errors.size()>=optMaxErr) __sync_fetch_and_add(&sh->errs,1);
      FILE*o=fopen((optOut+"."+std::to_string(j)).c_str(),"w"); writeOut(o); fclose(o); _exit(0); }
    pids.push_back(p); }
  int bad=0; for(auto p:pids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) bad=WIFEXITED(st)?WEXITSTATUS(st):5; }
  _exit(bad);
}
