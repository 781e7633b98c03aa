// Hash-consed bit-vector expressions with local simplification, an unsigned
// interval and a variable mask per node; evaluation under a model; and
// translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Mask { uint64_t m[4] = {0,0,0,0};
  void operator|=(const Mask& o){ for(int i=0;i<4;i++) m[i]|=o.m[i]; }
  bool meets(const Mask& o) const { for(int i=0;i<4;i++) if(m[i]&o.m[i]) return true; return false; }
  bool operator==(const Mask&o) const { return !memcmp(m,o.m,sizeof m);} };

struct Expr;
// Linear form: the value, modulo 2^w, is the integer sum of c_i * atom_i + k, where every atom is a digit variable with
// known bounds; [lo,hi] is the range of that integer, shifted so that 0 <= lo < 2^w. It is the unsigned value if hi < 2^w.
struct Lin { std::vector<std::pair<Expr*,i128>> t; i128 k, lo, hi; };
struct Expr {
  Op op; uint16_t w; uint32_t id; Expr* k[3]; u128 c; // c: constant, or low bit of EXTRACT, or var index
  uint64_t lo, hi; const Lin* lin = nullptr; Mask mask; uint32_t epoch = 0; u128 ev = 0; Z3_ast zbv = nullptr, zbool = nullptr; uint32_t depth=0;
};

inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline i128 sextw(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

struct Model { std::vector<u128> v; }; // by var index; missing = 0

struct VarInfo { std::string name; unsigned w; Expr* e; };

struct ExprCtx {
  struct H { size_t operator()(const Expr* e) const {
      uint64_t h = (uint64_t)e->op*1000003u + e->w;
      for (int i=0;i<3;i++) h = (h ^ (uint64_t)(uintptr_t)e->k[i])*0x9E3779B97F4A7C15ull, h ^= h>>29;
      h = (h ^ (uint64_t)e->c)*0x9E3779B97F4A7C15ull; h ^= h>>31; h = (h ^ (uint64_t)(e->c>>64))*0x9E3779B97F4A7C15ull; h^=h>>30; return h; } };
  struct Q { bool operator()(const Expr*a,const Expr*b) const { return a->op==b->op&&a->w==b->w&&a->k[0]==b->k[0]&&a->k[1]==b->k[1]&&a->k[2]==b->k[2]&&a->c==b->c; } };
  std::unordered_set<Expr*,H,Q> tab;
  std::vector<Expr*> chunk; size_t chunkPos=0; uint32_t nextId=1;
  std::vector<VarInfo> vars; std::unordered_map<std::string,int> varByName;
  uint32_t curEpoch=1; const Model* curModel=nullptr;
  Z3_context z=nullptr;

  Expr* raw(Op op, unsigned w, Expr* a=nullptr, Expr* b=nullptr, Expr* c=nullptr, u128 k=0) {
    Expr t; t.op=op; t.w=w; t.k[0]=a; t.k[1]=b; t.k[2]=c; t.c=k;
    auto it = tab.find(&t); if (it!=tab.end()) return *it;
    if (chunkPos==0) { chunk.push_back((Expr*)malloc(sizeof(Expr)*4096)); }
    Expr* e = new (chunk.back()+chunkPos) Expr(t); chunkPos=(chunkPos+1)%4096; e->id=nextId++;
    uint32_t d=0; for(int i=0;i<3;i++) if(t.k[i]) { e->mask |= t.k[i]->mask; if(t.k[i]->depth>=d) d=t.k[i]->depth+1; } e->depth=d;
    if (op==VAR) { unsigned ix=(unsigned)k; if(ix>255) ix=255; e->mask.m[ix>>6] |= 1ull<<(ix&63); }
    interval(e); tab.insert(e); return e; }

  static uint64_t full(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
  // quotient of operands known to be below 2^n on the current path, with a nonzero divisor
  Expr* divSmall(Op op, Expr* a, Expr* b, unsigned w, unsigned n) { Op u= op==SDIV?UDIV: op==SREM?UREM: op; return zext(bin(u,extract(a,0,n),extract(b,0,n)),w); }
  // products and quotients of small values are computed in as few bits as they need
  Expr* narrow(Op op, Expr* a, Expr* b, unsigned w) {
    if (w<16||w>64||isC(a)||isC(b)) return nullptr; if (op!=MUL&&b->lo==0) return nullptr;
    u128 top= op==MUL? (u128)a->hi*b->hi : (a->hi>b->hi?a->hi:b->hi); unsigned n=1; while(n<=64&&(top>>n)) n++; if (n>=w||n>24) return nullptr;
    return zext(bin(op,extract(a,0,n),extract(b,0,n)),w); }
  void interval(Expr* e) {
    e->lo=0; e->hi=full(e->w); if (e->w>64) return;
    Expr*a=e->k[0],*b=e->k[1];
    switch(e->op){
      case CONST: e->lo=e->hi=(uint64_t)e->c; break;
      case ZEXT: e->lo=a->lo; e->hi=a->hi; break;
      case AND: e->hi = a->hi<b->hi?a->hi:b->hi; break;
      case OR: { uint64_t m=a->hi|b->hi; m|=m>>1;m|=m>>2;m|=m>>4;m|=m>>8;m|=m>>16;m|=m>>32; e->hi=m; e->lo=a->lo>b->lo?a->lo:b->lo; break; }
      case XOR: { uint64_t m=a->hi|b->hi; m|=m>>1;m|=m>>2;m|=m>>4;m|=m>>8;m|=m>>16;m|=m>>32; e->hi=m; break; }
      case ADD: { u128 s=(u128)a->hi+b->hi; if (s<=full(e->w)) { e->lo=a->lo+b->lo; e->hi=(uint64_t)s; }
                  else { u128 l=(u128)a->lo+b->lo; u128 m=(u128)1<<e->w; if (l>=m) { e->lo=(uint64_t)(l-m); e->hi=(uint64_t)(s-m);} } break; }
      case SUB: if (a->lo>=b->hi) { e->lo=a->lo-b->hi; e->hi=a->hi-b->lo; } break;
      case MUL: { u128 s=(u128)a->hi*b->hi; if (s<=full(e->w)) { e->lo=a->lo*b->lo; e->hi=(uint64_t)s; } break; }
      case UDIV: if (b->lo>0) { e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
      case UREM: if (b->lo>0) { e->hi=b->hi-1; if (a->hi<e->hi) e->hi=a->hi; if (b->lo==b->hi && a->hi<b->lo) {e->lo=a->lo;e->hi=a->hi;} } break;
      case LSHR: if (b->lo==b->hi) { if (b->lo<64) { e->lo=a->lo>>b->lo; e->hi=a->hi>>b->lo; } else e->hi=0; } else e->hi=a->hi; break;
      case ITE: { Expr*c=e->k[2]; e->lo=b->lo<c->lo?b->lo:c->lo; e->hi=b->hi>c->hi?b->hi:c->hi; break; }
      case CONCAT: e->lo=(b->w>=64?0:(a->lo<<b->w))|b->lo; e->hi=(b->w>=64?0:(a->hi<<b->w))|b->hi;
                   if (a->lo!=a->hi) { e->lo=(a->lo<<b->w); e->hi=(a->hi<<b->w)|full(b->w); if(b->lo==b->hi){e->lo|=b->lo; e->hi=(a->hi<<b->w)|b->hi;} else {e->lo|=b->lo; e->hi=(a->hi<<b->w)|b->hi;} } break;
      case EXTRACT: if (a->w<=64) { unsigned l=(unsigned)e->c; if (l==0) { if (a->hi<=e->hi) {e->lo=a->lo;e->hi=a->hi;} }
                    else { uint64_t h=a->hi>>l; if (h<=e->hi) { e->lo=a->lo>>l; e->hi=h; } } } break;
      default: break; } }

  Expr* cst(u128 v, unsigned w){ return raw(CONST,w,0,0,0,v&maskw(w)); }
  Expr* var(const std::string& name, unsigned w) {
    std::string key=name+":"+std::to_string(w); auto it=varByName.find(key); if(it!=varByName.end()) return vars[it->second].e;
    int ix=vars.size(); Expr* e=raw(VAR,w,0,0,0,ix); vars.push_back({name,w,e}); varByName[key]=ix; return e; }

  // ---- digit variables and linear forms
  struct Bound { uint64_t lo, hi; }; std::unordered_map<const Expr*,Bound> dig;
  Expr* digit(const std::string& name, uint64_t lo, uint64_t hi) {
    bool fresh=!varByName.count(name+":8"); Expr* e=var(name,8); if (!fresh) return e; dig[e]={lo,hi}; e->lo=lo; e->hi=hi;
    Lin* l=new Lin; l->t.push_back({e,1}); l->k=0; l->lo=lo; l->hi=hi; e->lin=l; linMemo[linKey(*l,8)]=e; return e; }
  typedef std::vector<std::pair<uint64_t,i128>> LinKey; std::map<LinKey,Expr*> linMemo;
  static LinKey linKey(const Lin& l, unsigned w) { LinKey k; k.push_back({w,l.k}); for(auto&p:l.t) k.push_back({p.first->id,p.second}); return k; }
  static i128 iabs(i128 x){ return x<0?-x:x; }
  static i128 fdiv(i128 a, i128 m){ i128 q=a/m; if (a%m!=0 && (a<0)!=(m<0)) q--; return q; }
  void range(Lin& l){ l.lo=l.hi=l.k; for(auto&p:l.t){ auto b=dig.find(p.first)->second; if(p.second>=0){ l.lo+=p.second*(i128)b.lo; l.hi+=p.second*(i128)b.hi; } else { l.lo+=p.second*(i128)b.hi; l.hi+=p.second*(i128)b.lo; } } }
  static bool big(const Lin& l){ const i128 B=(i128)1<<90; if (iabs(l.k)>B) return true; for(auto&p:l.t) if(iabs(p.second)>B) return true; return false; }
  bool linOf(Expr* e, Lin& l) { if (e->lin) { l=*e->lin; return true; } if (isC(e)&&e->w<=64) { l.t.clear(); l.k=l.lo=l.hi=(i128)e->c; return true; } return false; }
  void norm(Lin& l, unsigned w){ range(l); i128 M=(i128)1<<w, q=fdiv(l.lo,M); l.k-=q*M; l.lo-=q*M; l.hi-=q*M; }
  static Lin comb(const Lin& a, i128 ca, const Lin& b, i128 cb) { Lin r; size_t i=0,j=0; while(i<a.t.size()||j<b.t.size()) {
      if (j>=b.t.size()||(i<a.t.size()&&a.t[i].first->id<b.t[j].first->id)) { r.t.push_back({a.t[i].first,a.t[i].second*ca}); i++; }
      else if (i>=a.t.size()||b.t[j].first->id<a.t[i].first->id) { r.t.push_back({b.t[j].first,b.t[j].second*cb}); j++; }
      else { i128 c=a.t[i].second*ca+b.t[j].second*cb; if(c) r.t.push_back({a.t[i].first,c}); i++; j++; } }
    r.k=a.k*ca+b.k*cb; return r; }
  Expr* fromLin(Lin l, unsigned w) {
    norm(l,w); if (l.t.empty()) return cst((u128)l.k,w); if (big(l)) return nullptr;
    LinKey key=linKey(l,w); auto it=linMemo.find(key); if(it!=linMemo.end()) return it->second;
    Expr* e=nullptr; 
    for(auto&p:l.t) { Expr* a=p.first; unsigned aw=a->w; if (aw<w) a=raw(ZEXT,w,a); else if (aw>w) a=raw(EXTRACT,w,a,0,0,0); Expr* m=p.second==1? a : raw(MUL,w,a,cst((u128)p.second,w)); e= e? raw(ADD,w,e,m) : m; }
    if (l.k) e=raw(ADD,w,e,cst((u128)l.k,w));
    if (l.hi<((i128)1<<w)) { e->lo=(uint64_t)l.lo; e->hi=(uint64_t)l.hi; }
    e->lin=new Lin(l); linMemo[key]=e; return e; }
  bool exactU(const Lin& l, unsigned w){ return l.hi<((i128)1<<w); }
  // quotient and remainder of a non-negative form by m; false if the quotient of the indivisible part is not constant
  bool linDiv(const Lin& l, i128 m, Lin& q, Lin& r) {
    q=Lin(); r=Lin(); q.k=0; r.k=l.k%m; q.k=(l.k-r.k)/m; for(auto&p:l.t) { if (p.second%m==0) q.t.push_back({p.first,p.second/m}); else r.t.push_back(p); }
    range(r); i128 a=fdiv(r.lo,m), b=fdiv(r.hi,m); if (a==b) { r.k-=a*m; q.k+=a; return true; }
    // coefficients larger than m: split c = c1*m + c2
    q=Lin(); r=Lin(); r.k=l.k%m; q.k=(l.k-r.k)/m; for(auto&p:l.t) { i128 c2=p.second%m, c1=(p.second-c2)/m; if(c1) q.t.push_back({p.first,c1}); if(c2) r.t.push_back({p.first,c2}); }
    range(r); a=fdiv(r.lo,m); b=fdiv(r.hi,m); if (a!=b) return false; r.k-=a*m; q.k+=a; return true; }
  static Lin signedForm(const Lin& l, unsigned w, bool& ok){ Lin r=l; i128 H=(i128)1<<(w-1), M=(i128)1<<w; if (r.hi<H) { ok=true; return r; } r.k-=M; r.lo-=M; r.hi-=M; ok = r.lo>=-H && r.hi<H; return r; }
  Expr* linBin(Op op, Expr* a, Expr* b) {
    unsigned w=a->w; Lin la,lb; if (w>64||!linOf(a,la)||!linOf(b,lb)) return nullptr;
    switch(op){
      case ADD: return fromLin(comb(la,1,lb,1),w);
      case SUB: return fromLin(comb(la,1,lb,-1),w);
      case MUL: if (isC(b)) { i128 c=sextw(b->c,w); if (iabs(c)>((i128)1<<66)) return nullptr; if (c<0 && w==64) c=(i128)b->c; if (big(la)||iabs(c)>((i128)1<<35)) { for(auto&p:la.t) if (iabs(p.second)>((i128)1<<60)) return nullptr; }
                  return fromLin(comb(la,c,Lin{{},0,0,0},0),w); } return nullptr;
      case SHL: if (isC(b)&&b->c<w) { for(auto&p:la.t) if (iabs(p.second)>((i128)1<<60)) return nullptr; if ((unsigned)b->c>40) return nullptr; return fromLin(comb(la,(i128)1<<(unsigned)b->c,Lin{{},0,0,0},0),w); } return nullptr;
      case LSHR: if (isC(b)&&b->c<w&&exactU(la,w)) { Lin q,r; if (linDiv(la,(i128)1<<(unsigned)b->c,q,r)) return fromLin(q,w); } return nullptr;
      case UDIV: case UREM: case SDIV: case SREM: { if (!isC(b)||!b->c||!exactU(la,w)) return nullptr; if (op==SDIV||op==SREM) if (la.hi>=((i128)1<<(w-1))||(i128)b->c>=((i128)1<<(w-1))) return nullptr;
        Lin q,r; if (!linDiv(la,(i128)b->c,q,r)) return nullptr; return fromLin(op==UDIV||op==SDIV? q:r, w); }
      case EQ: { Lin d=comb(la,1,lb,-1); range(d); i128 M=(i128)1<<w; if (d.t.empty()) return d.k%M==0? tru():fls(); if (fdiv(d.hi,M)*M<d.lo) return fls(); return nullptr; }
      case ULT: case ULE: { if (!exactU(la,w)||!exactU(lb,w)) return nullptr; Lin d=comb(la,1,lb,-1); range(d); if (op==ULT) { if (d.hi<0) return tru(); if (d.lo>=0) return fls(); } else { if (d.hi<=0) return tru(); if (d.lo>0) return fls(); } return nullptr; }
      case SLT: case SLE: { bool o1,o2; Lin sa=signedForm(la,w,o1), sb=signedForm(lb,w,o2); if(!o1||!o2) return nullptr; Lin d=comb(sa,1,sb,-1); range(d); if (op==SLT) { if (d.hi<0) return tru(); if (d.lo>=0) return fls(); } else { if (d.hi<=0) return tru(); if (d.lo>0) return fls(); } return nullptr; }
      default: return nullptr; } }

  static bool isC(Expr*e){ return e->op==CONST; }
  static u128 fold(Op op, unsigned w, u128 a, u128 b, unsigned wk) {
    u128 m=maskw(w);
    switch(op){ case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
      case UDIV: return b? a/b : m; case UREM: return b? a%b : a;
      case SDIV: { if(!b) return sextw(a,w)<0?1:m; i128 x=sextw(a,w),y=sextw(b,w); if(y==-1) return ((u128)0-(u128)x)&m; return ((u128)(x/y))&m; }
      case SREM: { if(!b) return a; i128 x=sextw(a,w),y=sextw(b,w); if(y==-1) return 0; return ((u128)(x%y))&m; }
      case AND: return a&b; case OR: return a|b; case XOR: return a^b;
      case SHL: return b>=w?0:(a<<(unsigned)b)&m; case LSHR: return b>=w?0:(a>>(unsigned)b);
      case ASHR: { i128 x=sextw(a,w); return ((u128)(x>>(b>=w?w-1:(unsigned)b)))&m; }
      case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b;
      case SLT: return sextw(a,wk)<sextw(b,wk); case SLE: return sextw(a,wk)<=sextw(b,wk);
      default: abort(); } }

  Expr* tru(){ return cst(1,1);} Expr* fls(){ return cst(0,1);}
  Expr* notE(Expr*a){ return bin(XOR,a,cst(1,1)); }
  Expr* ite(Expr*c, Expr*a, Expr*b) {
    if (isC(c)) return c->c? a:b; if (a==b) return a;
    if (c->op==XOR && isC(c->k[1])) return ite(c->k[0],b,a);
    if (a->w==1) {
      if (isC(a)) return a->c ? bin(OR,c,b) : bin(AND,notE(c),b);
      if (isC(b)) return b->c ? bin(OR,notE(c),a) : bin(AND,c,a); 
      if (a==c) return bin(OR,c,b); if (b==c) return bin(AND,c,a); }
    if (a->op==ITE && a->k[0]==c) a=a->k[1]; if (b->op==ITE && b->k[0]==c) b=b->k[2]; if (a==b) return a;
    if (b->op==ITE && b->k[1]==a) return ite(bin(OR,c,b->k[0]),a,b->k[2]);
    if (a->op==CONCAT && b->op==CONCAT && a->k[0]==b->k[0] && a->k[0]->w==b->k[0]->w) return concat(a->k[0], ite(c,a->k[1],b->k[1]));
    if (a->w>1 && !isC(a) && !isC(b) && a->op==ZEXT && b->op==ZEXT && a->k[0]->w==b->k[0]->w) return zext(ite(c,a->k[0],b->k[0]),a->w);
    if (a->op==ZEXT && isC(b) && b->c<=maskw(a->k[0]->w)) return zext(ite(c,a->k[0],cst(b->c,a->k[0]->w)),a->w);
    if (b->op==ZEXT && isC(a) && a->c<=maskw(b->k[0]->w)) return zext(ite(c,cst(a->c,b->k[0]->w),b->k[0]),a->w);
    return raw(ITE,a->w,c,a,b); }
  Expr* concat(Expr*a, Expr*b) {
    unsigned w=a->w+b->w;
    if (isC(a)&&isC(b)) return cst((a->c<<b->w)|b->c, w);
    if (w<=64&&(a->lin||b->lin)) { Lin la,lb; if (linOf(a,la)&&linOf(b,lb)&&exactU(la,a->w)&&exactU(lb,b->w)&&b->w<=56) { bool ok=true; for(auto&p:la.t) if (iabs(p.second)>((i128)1<<30)) ok=false; if (ok) { Expr* r=fromLin(comb(la,(i128)1<<b->w,lb,1),w); if(r) return r; } } }
    if (isC(a)&&a->c==0) return zext(b,w);
    if (a->op==EXTRACT && b->op==EXTRACT && a->k[0]==b->k[0] && (unsigned)a->c==(unsigned)b->c+b->w) return extract(a->k[0],(unsigned)b->c,w);
    if (a->op==EXTRACT && (unsigned)a->c==b->w && a->k[0]==b) return extract(a->k[0],0,w); // unreachable guard
    if (b->op==CONCAT && a->op==EXTRACT && b->k[0]->op==EXTRACT && a->k[0]==b->k[0]->k[0] && (unsigned)a->c==(unsigned)b->k[0]->c+b->k[0]->w)
      return concat(concat(a,b->k[0]), b->k[1]);
    if (a->op==ZEXT) return zext(concat(a->k[0],b),w);
    if (a->op==CONCAT && isC(a->k[1]) && isC(b)) return concat(a->k[0], concat(a->k[1],b));
    if (a->op==EXTRACT && b->op==EXTRACT) {}
    if (a->op==ITE && b->op==ITE && a->k[0]==b->k[0] && ((isC(a->k[1])&&isC(b->k[1]))||(isC(a->k[2])&&isC(b->k[2])))) return ite(a->k[0],concat(a->k[1],b->k[1]),concat(a->k[2],b->k[2]));
    return raw(CONCAT,w,a,b); }
  std::unordered_map<uint64_t,Expr*> xcache;
  Expr* extract(Expr*a, unsigned low, unsigned w) {
    if (low==0 && w==a->w) return a;
    if (a->lin) { const Lin& l=*a->lin; 
      if (low==0) { Lin n=l; norm(n,w); if (exactU(n,w)) { Expr* r=fromLin(n,w); if(r) return r; } }
      else if (exactU(l,a->w)) { i128 p=l.lo>>low, q=l.hi>>low; if (p==q) return cst((u128)p,w); Lin qq,rr; if (linDiv(l,(i128)1<<low,qq,rr)) { norm(qq,w); if (exactU(qq,w)) { Expr* r=fromLin(qq,w); if(r) return r; } } }
      return raw(EXTRACT,w,a,0,0,low); }
    if (a->op==ITE||a->op==AND||a->op==OR||a->op==XOR||a->op==ADD||a->op==SUB||a->op==MUL) {
      uint64_t key=((uint64_t)a->id<<16)|(low<<8)|w; auto it=xcache.find(key); if(it!=xcache.end()) return it->second;
      Expr* r=extract1(a,low,w); xcache[key]=r; return r; }
    return extract1(a,low,w); }
  Expr* extract1(Expr*a, unsigned low, unsigned w) {
    switch(a->op){
      case CONST: return cst(a->c>>low,w);
      case EXTRACT: return extract(a->k[0],(unsigned)a->c+low,w);
      case CONCAT: { unsigned bw=a->k[1]->w; if (low+w<=bw) return extract(a->k[1],low,w); if (low>=bw) return extract(a->k[0],low-bw,w);
                     return concat(extract(a->k[0],0,low+w-bw), extract(a->k[1],low,bw-low)); }
      case ZEXT: { unsigned bw=a->k[0]->w; if (low>=bw) return cst(0,w); if (low+w<=bw) return extract(a->k[0],low,w); return zext(extract(a->k[0],low,bw-low),w); }
      case SEXT: { unsigned bw=a->k[0]->w; if (low+w<=bw) return extract(a->k[0],low,w); if (low<bw) return sext(extract(a->k[0],low,bw-low),w); break; }
      case ITE: return ite(a->k[0],extract(a->k[1],low,w),extract(a->k[2],low,w));
      case AND: case OR: case XOR: return bin(a->op,extract(a->k[0],low,w),extract(a->k[1],low,w));
      case ADD: case SUB: case MUL: if (low==0 && !nl(a)) return bin(a->op,extract(a->k[0],0,w),extract(a->k[1],0,w)); break;
      default: break; }
    if (a->w<=64 && low<64 && (a->hi>>low)==0) return cst(0,w);
    return raw(EXTRACT,w,a,0,0,low); }
  Expr* zext(Expr*a, unsigned w) { if (w==a->w) return a; if (a->lin&&w<=64&&exactU(*a->lin,a->w)) { Expr* r=fromLin(*a->lin,w); if(r) return r; } if (isC(a)) return cst(a->c,w); if (a->op==ZEXT) return zext(a->k[0],w);
    if (a->op==ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0],cst(a->k[1]->c,w),cst(a->k[2]->c,w));
    return raw(ZEXT,w,a); }
  Expr* sext(Expr*a, unsigned w) { if (w==a->w) return a; if (a->lin&&w<=64) { bool ok; Lin s=signedForm(*a->lin,a->w,ok); if (ok) { Expr* r=fromLin(s,w); if(r) return r; } } if (isC(a)) return cst((u128)sextw(a->c,a->w),w); if (a->op==SEXT) return sext(a->k[0],w);
    if (a->op==ZEXT) return zext(a->k[0],w); if (a->w<=64 && a->hi < (1ull<<(a->w-1))) return zext(a,w);
    if (a->op==ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0],sext(a->k[1],w),sext(a->k[2],w));
    return raw(SEXT,w,a); }
  static bool commut(Op o){ return o==ADD||o==MUL||o==AND||o==OR||o==XOR||o==EQ; }
  static bool pow2(u128 c, unsigned& n){ if(!c||(c&(c-1))) return false; n=0; while(!((c>>n)&1)) n++; return true; }
  Expr* bin(Op op, Expr*a, Expr*b) {
    unsigned w=a->w; bool cmp = op>=EQ&&op<=SLE; unsigned rw=cmp?1:w;
    if (isC(a)&&isC(b)) return cst(fold(op,w,a->c,b->c,w),rw);
    if (commut(op)) { if (isC(a) || (!isC(b)&&a->id>b->id)) std::swap(a,b); }
    if (a->lin||b->lin) { Expr* r=linBin(op,a,b); if (r) return r; }
    u128 m=maskw(w); unsigned n;
    // distribute over constant ITEs
    if (a->op==ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return ite(a->k[0],bin(op,a->k[1],b),bin(op,a->k[2],b));
    if (b->op==ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return ite(b->k[0],bin(op,a,b->k[1]),bin(op,a,b->k[2]));
    switch(op){
      case ADD: if(isC(b)){ if(!b->c) return a; if(a->op==ADD&&isC(a->k[1])) return bin(ADD,a->k[0],cst(a->k[1]->c+b->c,w));
                  if(a->op==ITE&&(isC(a->k[1])||isC(a->k[2]))&&a->depth<12) return ite(a->k[0],bin(ADD,a->k[1],b),bin(ADD,a->k[2],b)); }
                else { if(a->op==ADD&&isC(a->k[1])) return bin(ADD,bin(ADD,a->k[0],b),a->k[1]); if(b->op==ADD&&isC(b->k[1])) return bin(ADD,bin(ADD,a,b->k[0]),b->k[1]);
                  if (b->op==SUB && b->k[1]==a) return b->k[0]; if (a->op==SUB && a->k[1]==b) return a->k[0]; }
                if (w==1) return bin(XOR,a,b); break;
      case SUB: if(isC(b)) return bin(ADD,a,cst((u128)0-b->c,w)); if(a==b) return cst(0,w);
                if(a->op==ADD){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; }
                if(a->op==ADD&&isC(a->k[1])&&b->op==ADD&&isC(b->k[1])) return bin(ADD,bin(SUB,a->k[0],b->k[0]),cst(a->k[1]->c-b->k[1]->c,w));
                if(a->op==ADD&&isC(a->k[1])) return bin(ADD,bin(SUB,a->k[0],b),a->k[1]);
                if(b->op==ADD&&isC(b->k[1])) return bin(ADD,bin(SUB,a,b->k[0]),cst((u128)0-b->k[1]->c,w));
                if(b->op==ADD){ if(b->k[0]==a) return bin(SUB,cst(0,w),b->k[1]); if(b->k[1]==a) return bin(SUB,cst(0,w),b->k[0]); }
                if (w==1) return bin(XOR,a,b);
                break;
      case MUL: { Expr* q=narrow(op,a,b,w); if(q) return q; } if(isC(b)){ if(!b->c) return b; if(b->c==1) return a; if(pow2(b->c,n)) return bin(SHL,a,cst(n,w)); if(a->op==MUL&&isC(a->k[1])) return bin(MUL,a->k[0],cst(a->k[1]->c*b->c,w)); } break;
      case UDIV: { Expr* q=narrow(op,a,b,w); if(q) return q; } if(isC(b)){ if(b->c==1) return a; if(pow2(b->c,n)) return bin(LSHR,a,cst(n,w));
                 if (w<=64 && a->hi < (uint64_t)b->c) return cst(0,w);
                 if (a->op==ZEXT && b->c && b->c<=maskw(a->k[0]->w)) return zext(bin(UDIV,a->k[0],cst(b->c,a->k[0]->w)),w); } break;
      case UREM: { Expr* q=narrow(op,a,b,w); if(q) return q; } if(isC(b)){ if(b->c==1) return cst(0,w); if(pow2(b->c,n)) return bin(AND,a,cst(b->c-1,w)); if (w<=64 && a->hi < (uint64_t)b->c) return a;
                 if (a->op==ZEXT && b->c && b->c<=maskw(a->k[0]->w)) return zext(bin(UREM,a->k[0],cst(b->c,a->k[0]->w)),w); } break;
      case SDIV: case SREM: if (w<=64 && w>1 && b->lo>0 && a->hi < (1ull<<(w-1)) && b->hi < (1ull<<(w-1))) return bin(op==SDIV?UDIV:UREM,a,b); if (isC(b) && b->c==1) return op==SDIV? a: cst(0,w);
                 if (w<=64 && a->hi < (1ull<<(w-1)) && isC(b) && sextw(b->c,w)>0) return bin(op==SDIV?UDIV:UREM,a,b);
                 break;
      case AND: if(a==b) return a; if(isC(b)){ if(!b->c) return b; if(b->c==m) return a;
                  unsigned k; if(pow2(b->c+1,k)) { if (w<=64 && a->hi<=(uint64_t)b->c) return a; return zext(extract(a,0,k),w); }
                  // split a mask with zero low bits
                  if (!(b->c&1)) { unsigned z=0; while(!((b->c>>z)&1)) z++; return concat(bin(AND,extract(a,z,w-z),cst(b->c>>z,w-z)),cst(0,z)); }
                  if (a->op==ZEXT) { unsigned iw=a->k[0]->w; return zext(bin(AND,a->k[0],cst(b->c,iw)),w); }
                  if (a->op==AND&&isC(a->k[1])) return bin(AND,a->k[0],cst(a->k[1]->c&b->c,w));
                  unsigned hb=w; while(hb>0&&!((b->c>>(hb-1))&1)) hb--; if (hb<w) return zext(bin(AND,extract(a,0,hb),cst(b->c,hb)),w); }
                else { if (a->op==ZEXT&&b->op==ZEXT){ unsigned iw=a->k[0]->w>b->k[0]->w?b->k[0]->w:a->k[0]->w; return zext(bin(AND,extract(a->k[0],0,iw),extract(b->k[0],0,iw)),w); }
                  if (w==1){ if (a==notE1(b)||b==notE1(a)) return fls(); if (a->op==AND&&(a->k[0]==b||a->k[1]==b)) return a; if (b->op==AND&&(b->k[0]==a||b->k[1]==a)) return b;
                    if ((b->op==OR)&&(b->k[0]==a||b->k[1]==a)) return a; if ((a->op==OR)&&(a->k[0]==b||a->k[1]==b)) return b; } }
                break;
      case OR: if(a==b) return a; if(isC(b)){ if(!b->c) return a; if(b->c==m) return b; if (a->op==OR&&isC(a->k[1])) return bin(OR,a->k[0],cst(a->k[1]->c|b->c,w)); }
               if (w==1){ if (a==notE1(b)||b==notE1(a)) return tru(); if ((b->op==AND)&&(b->k[0]==a||b->k[1]==a)) return a; if ((a->op==AND)&&(a->k[0]==b||a->k[1]==b)) return b;
                 if ((b->op==OR)&&(b->k[0]==a||b->k[1]==a)) return b; if ((a->op==OR)&&(a->k[0]==b||a->k[1]==b)) return a; }
               { Expr* r=orJoin(a,b); if(r) return r; r=orJoin(b,a); if(r) return r; }
               if (a->op==ZEXT&&b->op==ZEXT){ unsigned iw=a->k[0]->w<b->k[0]->w?b->k[0]->w:a->k[0]->w; return zext(bin(OR,zext(a->k[0],iw),zext(b->k[0],iw)),w); }
               break;
      case XOR: if(a==b) return cst(0,w); if(isC(b)){ if(!b->c) return a; if(a->op==XOR&&isC(a->k[1])) return bin(XOR,a->k[0],cst(a->k[1]->c^b->c,w));
                 if (w==1) { if(a->op==ULT) return bin(ULE,a->k[1],a->k[0]); if(a->op==ULE) return bin(ULT,a->k[1],a->k[0]); if(a->op==SLT) return bin(SLE,a->k[1],a->k[0]); if(a->op==SLE) return bin(SLT,a->k[1],a->k[0]); } }
               break;
      case SHL: if(isC(b)){ if(!b->c) return a; if(b->c>=w) return cst(0,w); n=(unsigned)b->c; return concat(extract(a,0,w-n),cst(0,n)); }
                if (isC(a)&&!a->c) return a; break;
      case LSHR: if(isC(b)){ if(!b->c) return a; if(b->c>=w) return cst(0,w); n=(unsigned)b->c; return zext(extract(a,n,w-n),w); }
                if (isC(a)&&!a->c) return a; break;
      case ASHR: if(isC(b)){ if(!b->c) return a; n=b->c>=w?w-1:(unsigned)b->c; return sext(extract(a,n,w-n),w); } if (isC(a)&&!a->c) return a; break;
      case EQ: if(a==b) return tru();
        if (w<=64 && (a->hi<b->lo||b->hi<a->lo)) return fls();
        if (w==1) { if(isC(b)) return b->c? a : notE(a); return notE(bin(XOR,a,b)); }
        if (isC(b)) {
          if (a->op==ZEXT) { if (b->c>maskw(a->k[0]->w)) return fls(); return bin(EQ,a->k[0],cst(b->c,a->k[0]->w)); }
          if (a->op==SEXT) { Expr* t=cst(b->c,a->k[0]->w); if (sextw(t->c,t->w)!=sextw(b->c,w)) return fls(); return bin(EQ,a->k[0],t); }
          if (a->op==CONCAT) { unsigned bw=a->k[1]->w; return bin(AND,bin(EQ,a->k[0],cst(b->c>>bw,w-bw)),bin(EQ,a->k[1],cst(b->c,bw))); }
          if (a->op==ADD&&isC(a->k[1])) return bin(EQ,a->k[0],cst(b->c-a->k[1]->c,w));
          if (a->op==XOR&&isC(a->k[1])) return bin(EQ,a->k[0],cst(b->c^a->k[1]->c,w));
          if (a->op==SUB&&isC(a->k[0])) return bin(EQ,a->k[1],cst(a->k[0]->c-b->c,w));
          if (a->op==ITE) { if (a->k[1]->op==CONST||a->k[2]->op==CONST) return ite(a->k[0],bin(EQ,a->k[1],b),bin(EQ,a->k[2],b)); } }
        else { if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(EQ,a->k[0],b->k[0]);
          if (a->op==ADD&&isC(a->k[1])&&a->k[0]==b) return fls(); if (b->op==ADD&&isC(b->k[1])&&b->k[0]==a) return fls();
          if (a->op==ADD&&isC(a->k[1])&&b->op==ADD&&isC(b->k[1])) return bin(EQ,a->k[0],bin(ADD,b->k[0],cst(b->k[1]->c-a->k[1]->c,w)));
          if (a->op==CONCAT&&b->op==CONCAT&&a->k[1]->w==b->k[1]->w) return bin(AND,bin(EQ,a->k[0],b->k[0]),bin(EQ,a->k[1],b->k[1])); }
        break;
      case ULT: if(a==b) return fls(); if (w<=64){ if(a->hi<b->lo) return tru(); if(a->lo>=b->hi) return fls(); }
        if (w==1) return bin(AND,notE(a),b);
        if (isC(b)&&b->c==1) return bin(EQ,a,cst(0,w)); if (isC(a)&&a->c==0) return notE(bin(EQ,b,a));
        if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(ULT,a->k[0],b->k[0]);
        if (a->op==ZEXT&&isC(b)) { if (b->c>maskw(a->k[0]->w)) return tru(); return bin(ULT,a->k[0],cst(b->c,a->k[0]->w)); }
        if (b->op==ZEXT&&isC(a)) { if (a->c>maskw(b->k[0]->w)) return fls(); } if (b->op==ZEXT&&isC(a)) return bin(ULT,cst(a->c,b->k[0]->w),b->k[0]);
        if (a->op==CONCAT&&isC(b)&&!(b->c&maskw(a->k[1]->w))) return bin(ULT,a->k[0],cst(b->c>>a->k[1]->w,a->k[0]->w));
        break;
      case ULE: if(a==b) return tru(); if (w<=64){ if(a->hi<=b->lo) return tru(); if(a->lo>b->hi) return fls(); }
        if (w==1) return bin(OR,notE(a),b);
        if (isC(b)&&b->c==0) return bin(EQ,a,b); if (isC(b)&&b->c==m) return tru(); if (isC(b)) return bin(ULT,a,cst(b->c+1,w)); // b->c!=max (interval decided)
        if (w>64 && isC(a) && a->c==0) return tru();
        if (isC(a)&&a->c!=0) return bin(ULT,cst(a->c-1,w),b);
        if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(ULE,a->k[0],b->k[0]);
        break;
      case SLT: case SLE: { if(a==b) return op==SLE?tru():fls();
        if (w<=64 && w>1) { uint64_t s=1ull<<(w-1); bool an=a->hi<s, bn=b->hi<s; if (an&&bn) return bin(op==SLT?ULT:ULE,a,b);
          bool aneg=a->lo>=s, bneg=b->lo>=s; if (an&&bneg) return fls(); if (aneg&&bn) return tru(); if (aneg&&bneg) return bin(op==SLT?ULT:ULE,a,b);
          if (isC(b) && b->c==0 && op==SLT) return bin(EQ,extract(a,w-1,1),tru());
          if (isC(b) && b->c==(u128)full(w) && op==SLE) return bin(EQ,extract(a,w-1,1),tru());
          if (isC(a) && a->c==(u128)full(w) && op==SLT) return bin(EQ,extract(b,w-1,1),fls());
          if (isC(a) && a->c==0 && op==SLE) return bin(EQ,extract(b,w-1,1),fls());
        }
        if (a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return bin(op,a->k[0],b->k[0]);
        if (a->op==SEXT&&isC(b)) { unsigned iw=a->k[0]->w; i128 v=sextw(b->c,w); i128 mx=(i128)(maskw(iw-1)), mn=-mx-1; if (v>mx) return tru(); if (v<mn) return fls(); return bin(op,a->k[0],cst((u128)v,iw)); }
        if (b->op==SEXT&&isC(a)) { unsigned iw=b->k[0]->w; i128 v=sextw(a->c,w); i128 mx=(i128)(maskw(iw-1)), mn=-mx-1; if (v>mx) return fls(); if (v<mn) return tru(); return bin(op,cst((u128)v,iw),b->k[0]); }
        break; }
      default: break; }
    return raw(op,rw,a,b); }
  Expr* notE1(Expr*a){ if(a->op==XOR&&isC(a->k[1])) return a->k[0]; return nullptr; }
  // a has known-zero low bits (CONCAT(x,0)), b fits there
  Expr* orJoin(Expr*a, Expr*b) {
    Expr* A=a; unsigned zx=0; if (A->op==ZEXT) { zx=A->w; A=A->k[0]; }
    if (A->op==CONCAT && isC(A->k[1]) && A->k[1]->c==0) { unsigned k=A->k[1]->w; Expr* lowpart=nullptr;
      if (b->op==ZEXT && b->k[0]->w<=k) lowpart=zext(b->k[0],k);
      else if (isC(b) && b->c<=maskw(k)) lowpart=cst(b->c,k);
      else if (b->w<=64 && k<64 && b->hi < (1ull<<k)) lowpart=extract(b,0,k);
      if (lowpart) { Expr* r=concat(A->k[0],lowpart); return zx? zext(r,zx): r; } }
    return nullptr; }

  // ---- evaluation
  u128 eval(Expr* e) {
    if (e->op==CONST) return e->c; if (e->epoch==curEpoch) return e->ev; u128 r;
    switch(e->op){
      case VAR: r = e->c<curModel->v.size()? curModel->v[(size_t)e->c] : 0; break;
      case ITE: r = eval(e->k[0])? eval(e->k[1]) : eval(e->k[2]); break;
      case CONCAT: r = (eval(e->k[0])<<e->k[1]->w)|eval(e->k[1]); break;
      case EXTRACT: r = (eval(e->k[0])>>(unsigned)e->c)&maskw(e->w); break;
      case ZEXT: r = eval(e->k[0]); break;
      case SEXT: r = ((u128)sextw(eval(e->k[0]),e->k[0]->w))&maskw(e->w); break;
      default: r = fold(e->op,e->k[0]->w,eval(e->k[0]),eval(e->k[1]),e->k[0]->w); }
    e->epoch=curEpoch; e->ev=r; return r; }
  void setModel(const Model* m){ curModel=m; curEpoch++; }

  // ---- Z3
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(z,a); return a; }
  Z3_ast toBool(Expr* e) {
    if (e->zbool) return e->zbool; Z3_ast r;
    switch(e->op){
      case CONST: r = e->c? Z3_mk_true(z):Z3_mk_false(z); break;
      case EQ: if (e->k[0]->w==1) r=Z3_mk_iff(z,toBool(e->k[0]),toBool(e->k[1])); else r=Z3_mk_eq(z,toBV(e->k[0]),toBV(e->k[1])); break;
      case ULT: r=Z3_mk_bvult(z,toBV(e->k[0]),toBV(e->k[1])); break;
      case ULE: r=Z3_mk_bvule(z,toBV(e->k[0]),toBV(e->k[1])); break;
      case SLT: r=Z3_mk_bvslt(z,toBV(e->k[0]),toBV(e->k[1])); break;
      case SLE: r=Z3_mk_bvsle(z,toBV(e->k[0]),toBV(e->k[1])); break;
      case AND: { Z3_ast a[2]={toBool(e->k[0]),toBool(e->k[1])}; r=Z3_mk_and(z,2,a); break; }
      case OR: { Z3_ast a[2]={toBool(e->k[0]),toBool(e->k[1])}; r=Z3_mk_or(z,2,a); break; }
      case XOR: if (isC(e->k[1])) r=e->k[1]->c? Z3_mk_not(z,toBool(e->k[0])):toBool(e->k[0]); else r=Z3_mk_xor(z,toBool(e->k[0]),toBool(e->k[1])); break;
      case ITE: r=Z3_mk_ite(z,toBool(e->k[0]),toBool(e->k[1]),toBool(e->k[2])); break;
      default: { Z3_sort s=Z3_mk_bv_sort(z,1); r=Z3_mk_eq(z,toBV(e),Z3_mk_unsigned_int64(z,1,s)); } }
    return e->zbool=keep(r); }
  // Nonlinear operations are encoded as fresh constants; their definitions are added only when the query is not already unsatisfiable without them.
  static bool nl(Expr* e){ if (e->op==MUL) return !isC(e->k[0])&&!isC(e->k[1])&&e->w>=16; return e->op>=UDIV&&e->op<=SREM&&!isC(e->k[1])&&e->w>=16; }
  Z3_ast absConst(Expr* e){ char nm[32]; snprintf(nm,sizeof nm,"nl!%u",e->id); return Z3_mk_const(z,Z3_mk_string_symbol(z,nm),Z3_mk_bv_sort(z,e->w)); }
  Z3_ast nlDef(Expr* e){ Z3_ast a=toBV(e->k[0]),b=toBV(e->k[1]); switch(e->op){ case MUL: return Z3_mk_bvmul(z,a,b); case UDIV: return Z3_mk_bvudiv(z,a,b); case SDIV: return Z3_mk_bvsdiv(z,a,b); case UREM: return Z3_mk_bvurem(z,a,b); default: return Z3_mk_bvsrem(z,a,b); } }
  std::unordered_map<Expr*,char> nlMemo;
  bool hasNL(Expr* e){ auto it=nlMemo.find(e); if(it!=nlMemo.end()) return it->second; char r=nl(e); for(int i=0;i<3&&!r;i++) if(e->k[i]&&hasNL(e->k[i])) r=1; return nlMemo[e]=r; }
  void collectNL(Expr* e, std::vector<Expr*>& out, std::unordered_set<Expr*>& seen){ if(!hasNL(e)||!seen.insert(e).second) return; if(nl(e)) out.push_back(e); for(int i=0;i<3;i++) if(e->k[i]) collectNL(e->k[i],out,seen); }
  Z3_ast toBV(Expr* e) {
    if (e->zbv) return e->zbv; Z3_ast r; Z3_sort s=Z3_mk_bv_sort(z,e->w);
    auto K=[&](int i){ return toBV(e->k[i]); };
    switch(e->op){
      case CONST: if (e->w<=64) r=Z3_mk_unsigned_int64(z,(uint64_t)e->c,s); else { std::string d; u128 v=e->c; if(!v) d="0"; while(v){ d.insert(d.begin(),'0'+(int)(v%10)); v/=10; } r=Z3_mk_numeral(z,d.c_str(),s); } break;
      case VAR: r=Z3_mk_const(z,Z3_mk_string_symbol(z,(vars[(size_t)e->c].name+":"+std::to_string(e->w)).c_str()),s); break;
      case ADD: r=Z3_mk_bvadd(z,K(0),K(1)); break; case SUB: r=Z3_mk_bvsub(z,K(0),K(1)); break; case MUL: if(nl(e)) { r=absConst(e); break; } r=Z3_mk_bvmul(z,K(0),K(1)); break;
      case UDIV: case SDIV: case UREM: case SREM: r= nl(e)? absConst(e) : nlDef(e); break;
      /* case SDIV: r=Z3_mk_bvsdiv(z,K(0),K(1)); break; case UREM: r=Z3_mk_bvurem(z,K(0),K(1)); break; */
      case AND: case OR: case XOR: if (e->w==1) goto viabool; r= e->op==AND? Z3_mk_bvand(z,K(0),K(1)) : e->op==OR? Z3_mk_bvor(z,K(0),K(1)) : Z3_mk_bvxor(z,K(0),K(1)); break;
      case SHL: r=Z3_mk_bvshl(z,K(0),K(1)); break; case LSHR: r=Z3_mk_bvlshr(z,K(0),K(1)); break; case ASHR: r=Z3_mk_bvashr(z,K(0),K(1)); break;
      case EQ: case ULT: case ULE: case SLT: case SLE: viabool: r=Z3_mk_ite(z,toBool(e),Z3_mk_unsigned_int64(z,1,s),Z3_mk_unsigned_int64(z,0,s)); break;
      case ITE: r=Z3_mk_ite(z,toBool(e->k[0]),K(1),K(2)); break;
      case CONCAT: r=Z3_mk_concat(z,K(0),K(1)); break;
      case EXTRACT: r=Z3_mk_extract(z,(unsigned)e->c+e->w-1,(unsigned)e->c,K(0)); break;
      case ZEXT: r=Z3_mk_zero_ext(z,e->w-e->k[0]->w,K(0)); break; case SEXT: r=Z3_mk_sign_ext(z,e->w-e->k[0]->w,K(0)); break;
      default: abort(); }
    return e->zbv=keep(r); }
};
