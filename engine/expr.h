// Hash-consed bit-vector expressions (width 1..64) over byte variables.
#pragma once
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <functional>

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE };

static const int MAXVARS = 512;
struct VarSet {
  uint64_t w[MAXVARS/64];
  VarSet() { memset(w,0,sizeof w); }
  void set(int i){ w[i>>6] |= 1ull<<(i&63); }
  bool has(int i) const { return w[i>>6]>>(i&63)&1; }
  bool operator&(const VarSet&o) const { for(int i=0;i<MAXVARS/64;i++) if(w[i]&o.w[i]) return true; return false; }
  void operator|=(const VarSet&o){ for(int i=0;i<MAXVARS/64;i++) w[i]|=o.w[i]; }
  bool subset(const VarSet&o) const { for(int i=0;i<MAXVARS/64;i++) if(w[i]&~o.w[i]) return false; return true; }
  int count() const { int n=0; for(int i=0;i<MAXVARS/64;i++) n+=__builtin_popcountll(w[i]); return n; }
  int first() const { for(int i=0;i<MAXVARS/64;i++) if(w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
  template<class F> void each(F f) const { for(int i=0;i<MAXVARS/64;i++){ uint64_t x=w[i]; while(x){ int b=__builtin_ctzll(x); f(i*64+b); x&=x-1; } } }
};

struct Expr {
  Op op; uint8_t w; uint32_t id; uint64_t c; Expr *a,*b,*d; const VarSet *vs; int nv;
  // evaluation memo
  uint32_t ep; uint64_t ev;
  Expr *canon;   // single-variable canonical form (variable 0), lazily
};

static inline uint64_t MASK(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline int64_t SX(uint64_t v, unsigned w){ return w>=64? (int64_t)v : ((int64_t)(v<<(64-w)))>>(64-w); }

static inline uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w){
  uint64_t m=MASK(w);
  switch(op){
  case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
  case O_UDIV: return b? a/b : m; case O_UREM: return b? a%b : a;
  case O_SDIV: { int64_t x=SX(a,w),y=SX(b,w); if(!y) return x<0?1:m; if(y==-1) return (0-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
  case O_SREM: { int64_t x=SX(a,w),y=SX(b,w); if(!y) return a; if(y==-1) return 0; return (uint64_t)(x%y)&m; }
  case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
  case O_SHL: return b>=w?0:(a<<b)&m; case O_LSHR: return b>=w?0:a>>b;
  case O_ASHR: { int64_t x=SX(a,w); return (uint64_t)(x>>(b>=w?(w>=64?63:w-1):b))&m; }
  case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
  case O_SLT: return SX(a,w)<SX(b,w); case O_SLE: return SX(a,w)<=SX(b,w);
  default: abort();
  }
}

struct ExprPool {
  struct H { size_t operator()(const Expr*e) const {
    size_t h=e->op*1000003u + e->w*7919u; h=h*31+(size_t)(e->c*0x9E3779B97F4A7C15ull);
    h=h*1000003u ^ (size_t)e->a; h=h*1000003u ^ (size_t)e->b; h=h*1000003u ^ (size_t)e->d; return h ^ (h>>17); } };
  struct E { bool operator()(const Expr*x,const Expr*y) const { return x->op==y->op&&x->w==y->w&&x->c==y->c&&x->a==y->a&&x->b==y->b&&x->d==y->d; } };
  std::unordered_set<Expr*,H,E> tab;
  std::vector<Expr*> all;
  uint32_t epoch=0;
  VarSet *emptyvs = new VarSet();
  Expr *intern(Op op,unsigned w,uint64_t c,Expr*a=nullptr,Expr*b=nullptr,Expr*d=nullptr){
    Expr k; k.op=op;k.w=w;k.c=c;k.a=a;k.b=b;k.d=d;
    auto it=tab.find(&k); if(it!=tab.end()) return *it;
    Expr*n=new Expr(k); n->id=all.size(); n->ep=0; n->ev=0; n->canon=nullptr;
    if(op==O_VAR){ auto v=new VarSet(); v->set(c); n->vs=v; n->nv=1; }
    else {
      const VarSet*s=nullptr; VarSet*own=nullptr;
      for(Expr*x:{a,b,d}) if(x&&x->nv){ if(!s) s=x->vs; else if(s!=x->vs && !x->vs->subset(own?*own:*s)){ if(!own){ own=new VarSet(*s);} *own|=*x->vs; } }
      n->vs = own?own:(s?s:emptyvs); n->nv=n->vs->count();
    }
    all.push_back(n); tab.insert(n); return n;
  }
  Expr* C(uint64_t v,unsigned w){ return intern(O_CONST,w,v&MASK(w)); }
  Expr* V(int i){ return intern(O_VAR,8,i); }
  static bool isC(Expr*e){ return e->op==O_CONST; }
  Expr* Not(Expr*e){ assert(e->w==1); return Eq(e,C(0,1)); }
  Expr* Eq(Expr*a,Expr*b){
    if(a==b) return C(1,1);
    if(isC(a)&&isC(b)) return C(a->c==b->c,1);
    if(isC(a)) std::swap(a,b);
    if(isC(b)){
      uint64_t c=b->c; unsigned w=a->w;
      if(w==1&&c==1) return a;
      switch(a->op){
      case O_EQ: if(w==1&&c==0&&isC(a->b)&&a->b->c==0&&a->a->w==1) return a->a; break;
      case O_ULT: if(c==0) return Bin(O_ULE,a->b,a->a); break;
      case O_ULE: if(c==0) return Bin(O_ULT,a->b,a->a); break;
      case O_SLT: if(c==0) return Bin(O_SLE,a->b,a->a); break;
      case O_SLE: if(c==0) return Bin(O_SLT,a->b,a->a); break;
      case O_ZEXT: if(c>MASK(a->a->w)) return C(0,1); return Eq(a->a,C(c,a->a->w));
      case O_SEXT: { unsigned iw=a->a->w; uint64_t t=c&MASK(iw); if(((uint64_t)SX(t,iw)&MASK(w))!=c) return C(0,1); return Eq(a->a,C(t,iw)); }
      case O_ADD: if(isC(a->b)) return Eq(a->a,C(c-a->b->c,w)); break;
      case O_XOR: if(isC(a->b)) return Eq(a->a,C(c^a->b->c,w)); break;
      case O_CONCAT: { unsigned lw=a->b->w; return And(Eq(a->a,C(c>>lw,a->a->w)),Eq(a->b,C(c,lw))); }
      case O_ITE: if(isC(a->b)||isC(a->d)) return Ite(a->a,Eq(a->b,b),Eq(a->d,b)); break;
      default: break;
      }
    }
    return intern(O_EQ,1,0,a,b);
  }
  Expr* And(Expr*a,Expr*b){ return Bin(O_AND,a,b); }
  Expr* Or(Expr*a,Expr*b){ return Bin(O_OR,a,b); }
  Expr* Bin(Op op,Expr*a,Expr*b){
    if(op==O_EQ) return Eq(a,b);
    unsigned w=a->w; assert(a->w==b->w);
    unsigned rw=(op==O_ULT||op==O_ULE||op==O_SLT||op==O_SLE)?1:w;
    if(isC(a)&&isC(b)) return C(foldBin(op,a->c,b->c,w),rw);
    if(op==O_SUB){ if(a==b) return C(0,w); if(isC(b)) return Bin(O_ADD,a,C(0-b->c,w)); }
    if(isC(a)&&(op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR)) std::swap(a,b);
    if(isC(b)){
      uint64_t c=b->c;
      switch(op){
      case O_ADD: if(!c) return a; if(a->op==O_ADD&&isC(a->b)) return Bin(O_ADD,a->a,C(a->b->c+c,w)); 
        if(a->op==O_ITE&&(isC(a->b)&&isC(a->d))) return Ite(a->a,Bin(op,a->b,b),Bin(op,a->d,b)); break;
      case O_MUL: if(!c) return b; if(c==1) return a; break;
      case O_AND: if(!c) return b; if(c==MASK(w)) return a; 
        if(a->op==O_AND&&isC(a->b)) return Bin(O_AND,a->a,C(a->b->c&c,w));
        if(a->op==O_ZEXT){ if((c&MASK(a->a->w))==MASK(a->a->w)) return a; return ZExt(Bin(O_AND,a->a,C(c,a->a->w)),w);} 
        if(a->op==O_ITE&&(isC(a->b)||isC(a->d))) return Ite(a->a,Bin(op,a->b,b),Bin(op,a->d,b)); break;
      case O_OR: if(!c) return a; if(c==MASK(w)) return b; break;
      case O_XOR: if(!c) return a; if(w==1) return Not(a); 
        if(a->op==O_ITE&&(isC(a->b)||isC(a->d))) return Ite(a->a,Bin(op,a->b,b),Bin(op,a->d,b)); break;
      case O_SHL: case O_LSHR: case O_ASHR: if(!c) return a; if(c>=w&&op!=O_ASHR) return C(0,w); 
        if(op==O_LSHR&&a->op==O_ZEXT&&c>=a->a->w) return C(0,w); break;
      case O_UDIV: case O_SDIV: if(c==1) return a; break;
      case O_ULT: if(!c) return C(0,1); if(c==1) return Eq(a,C(0,w));
        if(a->op==O_ZEXT){ if(c>MASK(a->a->w)) return C(1,1); return Bin(O_ULT,a->a,C(c,a->a->w)); } 
        if(a->op==O_ITE&&isC(a->b)&&isC(a->d)) return Ite(a->a,Bin(op,a->b,b),Bin(op,a->d,b)); break;
      case O_ULE: if(c==MASK(w)) return C(1,1); return Bin(O_ULT,a,C(c+1,w));
      case O_SLT: if(c==(1ull<<(w-1))) return C(0,1);
        if(a->op==O_ZEXT){ if(SX(c,w)<=0) return C(0,1); return Bin(O_ULT,a,b); }
        if(a->op==O_SEXT){ unsigned iw=a->a->w; int64_t s=SX(c,w); int64_t lo=-(1ll<<(iw-1)),hi=(1ll<<(iw-1))-1; if(s<=lo) return C(0,1); if(s>hi) return C(1,1); return Bin(O_SLT,a->a,C(s,iw)); }
        if(a->op==O_ITE&&isC(a->b)&&isC(a->d)) return Ite(a->a,Bin(op,a->b,b),Bin(op,a->d,b)); break;
      case O_SLE: if(c==(MASK(w)>>1)) return C(1,1); return Bin(O_SLT,a,C(c+1,w));
      default: break;
      }
    } else if(isC(a)){
      uint64_t c=a->c;
      switch(op){
      case O_ULT: if(c==MASK(w)) return C(0,1); if(!c) return Not(Eq(b,C(0,w)));
        if(b->op==O_ZEXT){ if(c>=MASK(b->a->w)) return C(0,1); return Bin(O_ULT,C(c,b->a->w),b->a); }
        if(b->op==O_ITE&&isC(b->b)&&isC(b->d)) return Ite(b->a,Bin(op,a,b->b),Bin(op,a,b->d)); break;
      case O_ULE: if(!c) return C(1,1); return Bin(O_ULT,C(c-1,w),b);
      case O_SLT: if(c==(MASK(w)>>1)) return C(0,1);
        if(b->op==O_ZEXT){ if(SX(c,w)<0) return C(1,1); return Bin(O_ULT,a,b); }
        if(b->op==O_SEXT){ unsigned iw=b->a->w; int64_t s=SX(c,w); int64_t lo=-(1ll<<(iw-1)),hi=(1ll<<(iw-1))-1; if(s<lo) return C(1,1); if(s>=hi) return C(0,1); return Bin(O_SLT,C(s,iw),b->a); }
        if(b->op==O_ITE&&isC(b->b)&&isC(b->d)) return Ite(b->a,Bin(op,a,b->b),Bin(op,a,b->d)); break;
      case O_SLE: if(c==(1ull<<(w-1))) return C(1,1); return Bin(O_SLT,C(c-1,w),b);
      case O_SHL: case O_LSHR: case O_UDIV: case O_UREM: if(!c&&op!=O_UDIV&&op!=O_UREM) return a; break;
      default: break;
      }
    }
    if(a==b){ switch(op){ case O_AND: case O_OR: return a; case O_XOR: return C(0,w); case O_ULT: case O_SLT: return C(0,1); case O_ULE: case O_SLE: return C(1,1); default: break; } }
    if(w==1&&(op==O_AND||op==O_OR)&&a->id>b->id) std::swap(a,b);
    if(op==O_OR&&w>1){ // or of disjoint zext/shl -> concat
      if(a->op==O_SHL&&b->op!=O_SHL) std::swap(a,b);
      if(b->op==O_SHL&&isC(b->b)&&a->op==O_ZEXT&&a->a->w<=b->b->c&&b->a->op==O_ZEXT&&b->a->a->w+b->b->c<=w){
        unsigned sh=b->b->c; Expr*lo=ZExt(a->a,sh); Expr*r=Concat(b->a->a,lo); return ZExt(r,w); }
    }
    return intern(op,rw,0,a,b);
  }
  Expr* ZExt(Expr*a,unsigned w){ if(a->w==w) return a; assert(w>a->w); if(isC(a)) return C(a->c,w);
    if(a->op==O_ZEXT) return ZExt(a->a,w);
    if(a->op==O_ITE&&isC(a->b)&&isC(a->d)) return Ite(a->a,ZExt(a->b,w),ZExt(a->d,w));
    return intern(O_ZEXT,w,0,a); }
  Expr* SExt(Expr*a,unsigned w){ if(a->w==w) return a; assert(w>a->w); if(isC(a)) return C((uint64_t)SX(a->c,a->w),w);
    if(a->op==O_SEXT) return SExt(a->a,w); if(a->op==O_ZEXT) return ZExt(a->a,w);
    if(a->op==O_ITE&&isC(a->b)&&isC(a->d)) return Ite(a->a,SExt(a->b,w),SExt(a->d,w));
    return intern(O_SEXT,w,0,a); }
  Expr* Extract(Expr*a,unsigned off,unsigned w){
    if(off==0&&w==a->w) return a; assert(off+w<=a->w);
    if(isC(a)) return C(a->c>>off,w);
    switch(a->op){
    case O_EXTRACT: return Extract(a->a,off+a->c,w);
    case O_ZEXT: if(off>=a->a->w) return C(0,w); if(off+w<=a->a->w) return Extract(a->a,off,w); return ZExt(Extract(a->a,off,a->a->w-off),w);
    case O_SEXT: if(off+w<=a->a->w) return Extract(a->a,off,w); if(off<a->a->w) return SExt(Extract(a->a,off,a->a->w-off),w); return SExt(Extract(a->a,a->a->w-1,1),w);
    case O_CONCAT: { unsigned lw=a->b->w; if(off>=lw) return Extract(a->a,off-lw,w); if(off+w<=lw) return Extract(a->b,off,w);
      return Concat(Extract(a->a,0,off+w-lw),Extract(a->b,off,lw-off)); }
    case O_ITE: if((isC(a->b)&&isC(a->d))) return Ite(a->a,Extract(a->b,off,w),Extract(a->d,off,w)); break;
    case O_AND: case O_OR: case O_XOR: if(off==0||isC(a->b)) return Bin(a->op,Extract(a->a,off,w),Extract(a->b,off,w)); break;
    case O_ADD: case O_SUB: case O_MUL: if(off==0) return Bin(a->op,Extract(a->a,0,w),Extract(a->b,0,w)); break;
    default: break;
    }
    return intern(O_EXTRACT,w,off,a);
  }
  Expr* Concat(Expr*hi,Expr*lo){
    unsigned w=hi->w+lo->w; assert(w<=64);
    if(isC(hi)&&isC(lo)) return C((hi->c<<lo->w)|lo->c,w);
    if(isC(hi)&&hi->c==0) return ZExt(lo,w);
    if(lo->op==O_EXTRACT&&hi->op==O_EXTRACT&&lo->a==hi->a&&hi->c==lo->c+lo->w) return Extract(lo->a,lo->c,w);
    if(hi->op==O_EXTRACT&&hi->a==lo&&hi->c==lo->w) return Extract(lo,0,w);
    if(hi->op==O_ZEXT) return ZExt(Concat(hi->a,lo),w);
    if(hi->op==O_CONCAT && lo->op==O_EXTRACT && hi->b->op==O_EXTRACT && hi->b->a==lo->a && hi->b->c==lo->c+lo->w) return Concat(hi->a,Concat(hi->b,lo));
    return intern(O_CONCAT,w,0,hi,lo);
  }
  Expr* Ite(Expr*k,Expr*a,Expr*b){
    if(isC(k)) return k->c?a:b; if(a==b) return a;
    if(a->w==1){ if(isC(a)&&isC(b)) return a->c? k:Not(k);
      if(isC(a)) return a->c? Or(k,b): And(Not(k),b);
      if(isC(b)) return b->c? Or(Not(k),a): And(k,a); }
    return intern(O_ITE,a->w,0,k,a,b);
  }
  // evaluation
  uint64_t ev(Expr*e,const uint8_t*m){
    if(e->op==O_CONST) return e->c; if(e->op==O_VAR) return m[e->c];
    if(e->ep==epoch) return e->ev;
    uint64_t r;
    switch(e->op){
    case O_ZEXT: r=ev(e->a,m); break;
    case O_SEXT: r=(uint64_t)SX(ev(e->a,m),e->a->w)&MASK(e->w); break;
    case O_EXTRACT: r=(ev(e->a,m)>>e->c)&MASK(e->w); break;
    case O_CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
    case O_ITE: r=ev(e->a,m)?ev(e->b,m):ev(e->d,m); break;
    default: r=foldBin(e->op,ev(e->a,m),ev(e->b,m),e->a->w);
    }
    e->ep=epoch; e->ev=r; return r;
  }
  uint64_t eval(Expr*e,const uint8_t*m){ epoch++; return ev(e,m); }
  // substitute variables by index map (var i -> var map[i])
  Expr* rename(Expr*e,const std::vector<int>&map,std::unordered_map<Expr*,Expr*>&memo){
    if(!e->nv) return e;
    auto it=memo.find(e); if(it!=memo.end()) return it->second;
    Expr*r;
    if(e->op==O_VAR) r=V(map[e->c]);
    else r=intern(e->op,e->w,e->c,e->a?rename(e->a,map,memo):nullptr,e->b?rename(e->b,map,memo):nullptr,e->d?rename(e->d,map,memo):nullptr);
    memo[e]=r; return r;
  }
  std::string str(Expr*e,int depth=0){
    static const char*n[]={"const","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","zext","sext","extract","concat","ite"};
    if(depth>12) return "...";
    if(e->op==O_CONST) return std::to_string(e->c); if(e->op==O_VAR) return "v"+std::to_string(e->c);
    std::string s="("; s+=n[e->op]; if(e->op==O_EXTRACT) s+=":"+std::to_string(e->c); s+=" "+str(e->a,depth+1); if(e->b) s+=" "+str(e->b,depth+1); if(e->d) s+=" "+str(e->d,depth+1); return s+")";
  }
};
