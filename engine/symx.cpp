// symx: bounded symbolic executor for LLVM-18 IR (see DESIGN.md).
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <algorithm>
#include <cmath>
#include <functional>
#include <deque>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double now(){ return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

static ExprCtx X;
struct Val { Expr* e=nullptr; u128 c=0; };
static Val C(u128 v, unsigned w){ Val r; r.c=v&maskw(w); return r; }
static Val E(Expr* e){ Val r; if (e->op==CONST) r.c=e->c; else r.e=e; return r; }
static Expr* toE(const Val& v, unsigned w){ return v.e? v.e : X.cst(v.c,w); }

struct EngineError { std::string msg; };
[[noreturn]] static void engErr(const std::string& m){ throw EngineError{m}; }

// ------------------------------------------------------------------ options
static std::map<std::string,uint64_t> cfg;
static double optMaxTime=600; static uint64_t optMaxPaths=0, optMaxInsts=20000000, optSample=8; static unsigned optQueryMs=60000; static bool optVerbose=false;
static uint64_t optSeed=1; static std::string optOut; static unsigned optMaxViol=8; static std::string optEntry="sym_main"; static std::string optDumpSmt; static unsigned optReset=3000;

// ------------------------------------------------------------------ stats
static struct { uint64_t insts=0, forks=0, paths=0, queries=0, qsat=0, qunsat=0, qunk=0, cacheHits=0, modelHits=0, quick=0, checks=0, checksSolver=0, checksConst=0, assumeDead=0, errors=0; double solver=0; } S;
static bool gIncomplete=false; static std::set<std::string> gIncompleteWhy; static std::map<std::string,uint64_t> gCovers;

// ------------------------------------------------------------------ memory
static Expr* const UNINIT=(Expr*)1;
struct ObjData { std::vector<uint8_t> b; std::vector<Expr*> s; };
struct Obj { std::shared_ptr<ObjData> d; uint64_t base=0; uint32_t size=0; uint8_t kind=0; bool ro=false, dead=true; const char* name=""; };
enum { KGLOBAL=1, KSTACK=2, KHEAP=3, KFUNC=4 };
static const uint64_t OFF0=0x10000;
static uint64_t mkBase(unsigned kind, unsigned gen, unsigned slot){ return ((uint64_t)kind<<60)|((uint64_t)(gen&0xff)<<52)|((uint64_t)slot<<32)|OFF0; }

// ------------------------------------------------------------------ decoded code
struct Leaf { uint16_t w; uint32_t off; };
struct Opd { int32_t s=0; uint16_t n=0; uint16_t w=0; };
struct KFunction;
struct GepIdx { Opd op; int64_t scale; };
struct KInst { unsigned opc=0; Instruction* I=nullptr; int dest=-1; std::vector<Opd> ops; const std::vector<Leaf>* leaves=nullptr;
  int tgt[2]={-1,-1}; std::vector<std::pair<u128,int>> cases; KFunction* callee=nullptr; int builtin=-1; int64_t gepOff=0; std::vector<GepIdx> gep; std::vector<int> ix; uint64_t sz=0; bool hit=false; };
struct KPhi { int dest; int n; std::map<int,Opd> in; };
struct KBlock { int start=0; std::vector<KPhi> phis; BasicBlock* bb=nullptr; };
struct KFunction { Function* F=nullptr; bool decoded=false; std::vector<KInst> insts; std::vector<KBlock> blocks; int nslots=0; std::vector<int> argSlot; std::vector<Val> pool; uint64_t addr=0; int builtin=-1; bool hasByval=false; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<Type*,std::vector<Leaf>> leafCache;
static void flatten(Type* t, uint32_t off, std::vector<Leaf>& out) {
  if (auto* st=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) flatten(st->getElementType(i),off+(uint32_t)sl->getElementOffset(i),out); }
  else if (auto* at=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(uint64_t i=0;i<at->getNumElements();i++) flatten(at->getElementType(),off+i*es,out); }
  else if (auto* vt=dyn_cast<FixedVectorType>(t)) { unsigned bits=DL->getTypeSizeInBits(vt->getElementType()); uint64_t es=bits/8; for(uint64_t i=0;i<vt->getNumElements();i++) out.push_back({(uint16_t)bits,(uint32_t)(off+i*es)}); }
  else if (t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()) {}
  else out.push_back({(uint16_t)DL->getTypeSizeInBits(t).getFixedValue(),off}); }
static const std::vector<Leaf>& leavesOf(Type* t){ auto it=leafCache.find(t); if(it!=leafCache.end()) return it->second; std::vector<Leaf> v; flatten(t,0,v); return leafCache[t]=v; }

static std::map<Function*,KFunction*> kfun; static std::vector<KFunction*> funcBySlot;
static std::map<const GlobalVariable*,unsigned> gvSlot; static std::vector<Obj> initGlobals;
static uint64_t gvAddr(const GlobalVariable* g){ return initGlobals[gvSlot.at(g)].base; }
static int builtinId(StringRef n);
static KFunction* getFn(Function* F){ auto it=kfun.find(F); if(it!=kfun.end()) return it->second; auto* k=new KFunction; k->F=F; k->addr=mkBase(KFUNC,0,funcBySlot.size()); funcBySlot.push_back(k); k->builtin=builtinId(F->getName()); return kfun[F]=k; }

// constants -> leaf values
static void constVals(const Constant* c, std::vector<Val>& out);
static Val constExprVal(const Constant* c) { std::vector<Val> v; constVals(c,v); if(v.size()!=1) engErr("const arity"); return v[0]; }
static void constVals(const Constant* c, std::vector<Val>& out) {
  if (auto* ci=dyn_cast<ConstantInt>(c)) { APInt a=ci->getValue(); unsigned w=a.getBitWidth(); if (w>128) engErr("int wider than 128"); u128 v=a.extractBitsAsZExtValue(w<64?w:64,0); if(w>64) v|=(u128)a.extractBitsAsZExtValue(w-64,64)<<64; out.push_back(C(v,w)); return; }
  if (auto* cf=dyn_cast<ConstantFP>(c)) { APInt a=cf->getValueAPF().bitcastToAPInt(); unsigned w=a.getBitWidth(); u128 v=a.extractBitsAsZExtValue(w<64?w:64,0); if(w>64) v|=(u128)a.extractBitsAsZExtValue(w-64,64)<<64; out.push_back(C(v,w)); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val()); return; }
  if (isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) { for(auto&l:leavesOf(c->getType())) { (void)l; out.push_back(Val()); } return; }
  if (auto* g=dyn_cast<GlobalVariable>(c)) { out.push_back(C(gvAddr(g),64)); return; }
  if (auto* a=dyn_cast<GlobalAlias>(c)) { constVals(a->getAliasee(),out); return; }
  if (auto* f=dyn_cast<Function>(c)) { out.push_back(C(getFn(const_cast<Function*>(f))->addr,64)); return; }
  if (auto* ca=dyn_cast<ConstantAggregate>(c)) { for(unsigned i=0;i<ca->getNumOperands();i++) constVals(cast<Constant>(ca->getOperand(i)),out); return; }
  if (auto* cd=dyn_cast<ConstantDataSequential>(c)) { for(unsigned i=0;i<cd->getNumElements();i++) constVals(cd->getElementAsConstant(i),out); return; }
  if (auto* ce=dyn_cast<ConstantExpr>(c)) {
    unsigned w=(unsigned)DL->getTypeSizeInBits(ce->getType());
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto* g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) engErr("const gep"); Val b=constExprVal(cast<Constant>(g->getPointerOperand())); out.push_back(C(b.c+off.getSExtValue(),64)); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: { Val b=constExprVal(ce->getOperand(0)); out.push_back(C(b.c,w)); return; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: { Val a=constExprVal(ce->getOperand(0)),b=constExprVal(ce->getOperand(1)); u128 r= ce->getOpcode()==Instruction::Add? a.c+b.c : ce->getOpcode()==Instruction::Sub? a.c-b.c : ce->getOpcode()==Instruction::Mul? a.c*b.c : a.c^b.c; out.push_back(C(r,w)); return; }
      case Instruction::ICmp: { Val a=constExprVal(ce->getOperand(0)),b=constExprVal(ce->getOperand(1)); u128 r; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: r=a.c==b.c;break; case CmpInst::ICMP_NE: r=a.c!=b.c;break; case CmpInst::ICMP_ULT: r=a.c<b.c;break; case CmpInst::ICMP_UGT: r=a.c>b.c;break; default: engErr("const icmp"); } out.push_back(C(r,1)); return; }
      default: engErr(std::string("constexpr ")+ce->getOpcodeName()); } }
  std::string s; raw_string_ostream o(s); c->print(o); engErr("constant: "+s.substr(0,200)); }

// ------------------------------------------------------------------ state
struct Frame { KFunction* f; int pc=0, block=0, prev=-1; std::vector<Val> regs; unsigned stackMark=0; const KInst* site=nullptr; };
struct TraceEnt { Val v; uint16_t w; };
struct State {
  std::vector<Frame> fr; std::vector<Obj> G, K, H; std::vector<Expr*> pcs; std::shared_ptr<Model> model; std::vector<TraceEnt> trace; std::map<std::string,int> names; std::vector<std::pair<int,int>> inputs; // var idx order
  std::set<std::string> covers; uint64_t insts=0; unsigned gen=0; uint64_t excObj=0, excTi=0; std::vector<std::pair<uint64_t,uint64_t>> caught; std::map<uint64_t,uint64_t> excType; uint64_t depth=0; };

struct Violation { std::string kind,msg,loc; std::vector<std::pair<std::string,std::pair<unsigned,u128>>> in; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
struct PathSample { std::vector<std::pair<std::string,std::pair<unsigned,u128>>> in; std::vector<std::pair<unsigned,u128>> trace; };
static std::vector<PathSample> samples; static uint64_t sampleSeen=0; static uint64_t rngState;
static uint64_t rnd(){ rngState^=rngState<<13; rngState^=rngState>>7; rngState^=rngState<<17; return rngState; }

static State* cur=nullptr; static int gRewind=0; /* pc already advanced while a builtin runs */ static std::vector<std::unique_ptr<State>> work;
static State* lastModelState=nullptr;
static void useModel(State& st){ X.setModel(st.model.get()); }

// ------------------------------------------------------------------ solver
static Z3_context Z; static Z3_solver solver=nullptr; static std::unordered_map<Expr*,Z3_ast> litOf; static std::unordered_map<Expr*,Z3_ast> defOf; static unsigned litCount=0; static Z3_solver mkSolver(); 
static Z3_solver mkSolver(){
  const char* s=getenv("SYMX_SOLVER"); std::string k=s?s:"QF_FD"; Z3_solver r;
  if (k=="simple") r=Z3_mk_simple_solver(Z); else r=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,k.c_str()));
  Z3_solver_inc_ref(Z,r); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),optQueryMs); Z3_solver_set_params(Z,r,p); Z3_params_dec_ref(Z,p); return r; }
static void resetSolver(){ if(solver) Z3_solver_dec_ref(Z,solver); solver=mkSolver(); for(auto&p:litOf) Z3_dec_ref(Z,p.second); litOf.clear(); for(auto&p:defOf) Z3_dec_ref(Z,p.second); defOf.clear(); litCount=0; }
static Z3_ast literal(Expr* e){ auto it=litOf.find(e); if(it!=litOf.end()) return it->second;
  char nm[32]; snprintf(nm,sizeof nm,"l!%u",e->id); Z3_ast l=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),Z3_mk_bool_sort(Z)); Z3_inc_ref(Z,l);
  Z3_solver_assert(Z,solver,Z3_mk_implies(Z,l,X.toBool(e))); litCount++; return litOf[e]=l; }
static Z3_ast defLit(Expr* e){ auto it=defOf.find(e); if(it!=defOf.end()) return it->second;
  char nm[32]; snprintf(nm,sizeof nm,"d!%u",e->id); Z3_ast l=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm),Z3_mk_bool_sort(Z)); Z3_inc_ref(Z,l);
  Z3_solver_assert(Z,solver,Z3_mk_implies(Z,l,Z3_mk_eq(Z,X.toBV(e),X.nlDef(e)))); litCount++; return defOf[e]=l; }
struct VecHash { size_t operator()(const std::vector<uint32_t>&v) const { uint64_t h=v.size(); for(auto x:v) h=(h^x)*0x9E3779B97F4A7C15ull, h^=h>>29; return h; } };
struct CacheVal { int r; std::vector<std::pair<uint32_t,u128>> m; };
static std::unordered_map<std::vector<uint32_t>,CacheVal,VecHash> qcache; static unsigned dumpNo=0; static bool slowQ=false; // a slow query in a crowded solver: start afresh


// Interval reasoning before the solver: constraints that bound one expression by constants. 0 contradiction, 1 a model was found in vals, -1 undecided
static int quickDecide(State& st, const std::vector<Expr*>& slice, Expr* c, std::vector<std::pair<uint32_t,u128>>& vals) {
  struct B { Expr* e; uint64_t lo, hi; }; std::vector<B> bs; std::vector<std::pair<Expr*,uint64_t>> ne;
  auto at=[&](Expr* e)->B& { for(auto&b:bs) if(b.e==e) return b; bs.push_back({e,e->lo,e->hi}); return bs.back(); };
  auto within=[&](Expr* e, uint64_t lo, uint64_t hi){ if (e->op==ADD&&e->k[1]->op==CONST) { uint64_t m=ExprCtx::full(e->w), k=(uint64_t)e->k[1]->c, l=(lo-k)&m, h=(hi-k)&m; if (l>h) return; e=e->k[0]; lo=l; hi=h; } B& b=at(e); if (b.lo<lo) b.lo=lo; if (b.hi>hi) b.hi=hi; };
  for(Expr* e:slice) {
    if (e->op==ULT&&e->k[0]->w<=64) { if (e->k[1]->op==CONST) { if(!e->k[1]->c) return 0; within(e->k[0],0,(uint64_t)e->k[1]->c-1); } else if (e->k[0]->op==CONST&&e->k[0]->c<ExprCtx::full(e->k[0]->w)) within(e->k[1],(uint64_t)e->k[0]->c+1,ExprCtx::full(e->k[0]->w)); }
    else if (e->op==EQ&&e->k[1]->op==CONST&&e->k[0]->w<=64) within(e->k[0],(uint64_t)e->k[1]->c,(uint64_t)e->k[1]->c);
    else if (e->op==XOR&&e->k[1]->op==CONST&&e->k[0]->op==EQ&&e->k[0]->k[1]->op==CONST&&e->k[0]->k[0]->w<=64&&e->k[0]->k[0]->w>1) ne.push_back({e->k[0]->k[0],(uint64_t)e->k[0]->k[1]->c}); }
  for(bool ch=true;ch;) { ch=false; for(auto&p:ne) for(auto&b:bs) if(b.e==p.first&&b.lo<=b.hi) { if(b.lo==p.second) { if(b.lo==b.hi) return 0; b.lo++; ch=true; } else if(b.hi==p.second) { b.hi--; ch=true; } } }
  for(auto&b:bs) if(b.lo>b.hi) return 0;
  for(auto&b:bs) if(b.e->op==VAR&&b.e->mask.meets(c->mask)) { uint64_t tryv[3]={b.lo,b.hi,b.lo+(b.hi-b.lo)/2};
    for(int k=0;k<3;k++) { if(k&&tryv[k]==tryv[k-1]) continue; Model nm=*st.model; uint32_t ix=(uint32_t)b.e->c; if(nm.v.size()<=ix) nm.v.resize(ix+1); nm.v[ix]=tryv[k]; X.setModel(&nm); bool ok=X.eval(c)!=0; if(ok) for(auto*e:slice) if(!X.eval(e)) { ok=false; break; } useModel(st); if(ok) { vals.push_back({ix,tryv[k]}); return 1; } } }
  return -1; }
// is pcs /\ c satisfiable? 1 sat (model extends st.model), 0 unsat, -1 unknown. st.model must satisfy pcs.
static int query(State& st, Expr* c, std::shared_ptr<Model>* out) {
  if (c->op==CONST) { if(c->c){ if(out)*out=st.model; return 1;} return 0; }
  if (X.eval(c)) { S.modelHits++; if(out)*out=st.model; return 1; }
  Expr* nc=X.notE(c); Mask m=c->mask; std::vector<Expr*> slice; std::vector<char> in(st.pcs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=st.pcs.size();i-->0;) if(!in[i]&&st.pcs[i]->mask.meets(m)) { if(st.pcs[i]==nc) return 0; in[i]=1; slice.push_back(st.pcs[i]); m|=st.pcs[i]->mask; ch=true; } }
  slice.push_back(c); std::vector<uint32_t> key; for(auto*e:slice) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key);
  if (it==qcache.end()) { CacheVal qv; qv.r=quickDecide(st,slice,c,qv.m); if (qv.r==1) { u128 v=qv.m[0].second; uint32_t ix=qv.m[0].first; qv.m.clear(); for(size_t i=0;i<X.vars.size();i++) if(X.vars[i].e->mask.meets(m)) qv.m.push_back({(uint32_t)i,i==ix?v:i<st.model->v.size()?st.model->v[i]:0}); } if (qv.r>=0) { S.quick++; it=qcache.emplace(key,std::move(qv)).first; } }
  if (it==qcache.end()) {
    double t0=now(); if(litCount>optReset||(slowQ&&litCount>40&&litCount>3*slice.size())) resetSolver();
    std::vector<Z3_ast> as; for(auto*e:slice) as.push_back(literal(e));
    std::vector<Expr*> nls; { std::unordered_set<Expr*> seen; for(auto*e:slice) X.collectNL(e,nls,seen); }
    Z3_lbool r=Z3_solver_check_assumptions(Z,solver,as.size(),as.data()); S.queries++;
    if(r!=Z3_L_FALSE&&!nls.empty()) { for(auto*e:nls) as.push_back(defLit(e)); r=Z3_solver_check_assumptions(Z,solver,as.size(),as.data()); } CacheVal cv; cv.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
    if (r==Z3_L_UNDEF) { // retry with a fresh general-purpose solver
      Z3_solver s2=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,s2); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),optQueryMs); Z3_solver_set_params(Z,s2,p); Z3_params_dec_ref(Z,p);
      for(auto*e:slice) Z3_solver_assert(Z,s2,X.toBool(e)); for(auto*e:nls) Z3_solver_assert(Z,s2,Z3_mk_eq(Z,X.toBV(e),X.nlDef(e))); r=Z3_solver_check(Z,s2); cv.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
      if (r==Z3_L_TRUE) { Z3_model mm=Z3_solver_get_model(Z,s2); Z3_model_inc_ref(Z,mm); for(size_t i=0;i<X.vars.size();i++) if(X.vars[i].e->mask.meets(m)) { Z3_ast v=nullptr; Z3_model_eval(Z,mm,X.toBV(X.vars[i].e),true,&v); Z3_inc_ref(Z,v); u128 x=0; const char* ds=Z3_get_numeral_string(Z,v); for(;*ds;ds++) x=x*10+(*ds-'0'); Z3_dec_ref(Z,v); cv.m.push_back({(uint32_t)i,x}); } Z3_model_dec_ref(Z,mm); }
      Z3_solver_dec_ref(Z,s2);
    } else if (r==Z3_L_TRUE) { Z3_model mm=Z3_solver_get_model(Z,solver); Z3_model_inc_ref(Z,mm);
      for(size_t i=0;i<X.vars.size();i++) if(X.vars[i].e->mask.meets(m)) { Z3_ast v=nullptr; Z3_model_eval(Z,mm,X.toBV(X.vars[i].e),true,&v); Z3_inc_ref(Z,v); uint64_t u; u128 x=0; if(Z3_get_numeral_uint64(Z,v,&u)) x=u; else { const char* ds=Z3_get_numeral_string(Z,v); for(;*ds;ds++) x=x*10+(*ds-'0'); } Z3_dec_ref(Z,v); cv.m.push_back({(uint32_t)i,x}); }
      Z3_model_dec_ref(Z,mm); }
    if (!optDumpSmt.empty() && (S.queries%97)==1 && dumpNo<40) { Z3_solver s2=Z3_mk_solver(Z); Z3_solver_inc_ref(Z,s2); for(auto*e:slice) Z3_solver_assert(Z,s2,X.toBool(e)); FILE* f=fopen((optDumpSmt+"."+std::to_string(dumpNo++)+".smt2").c_str(),"w"); if(f){ fputs("(set-logic QF_BV)\n",f); fputs(Z3_solver_to_string(Z,s2),f); fputs("(check-sat)\n",f); fclose(f);} Z3_solver_dec_ref(Z,s2); }
    double dt=now()-t0; S.solver+=dt; slowQ=dt>0.004; if(cv.r==1)S.qsat++; else if(cv.r==0)S.qunsat++; else S.qunk++;
    if (optVerbose && dt>2) fprintf(stderr,"slow query %.1fs -> %d slice %zu\n",dt,cv.r,slice.size());
    it=qcache.emplace(std::move(key),std::move(cv)).first;
  } else S.cacheHits++;
  if (it->second.r==1) { auto nm=std::make_shared<Model>(*st.model); for(auto&p:it->second.m){ if(nm->v.size()<=p.first) nm->v.resize(p.first+1); nm->v[p.first]=p.second; }
    // verify the model against the whole query (cheap soundness check of encoding and solver)
    X.setModel(nm.get()); bool ok=true; for(auto*e:slice) if(!X.eval(e)) ok=false; useModel(st); if(!ok) engErr("solver model does not satisfy the query");
    if(out)*out=nm; return 1; }
  return it->second.r; }

static void addPc(State& st, Expr* c){ if (c->op==CONST) { if(!c->c) engErr("adding false"); return; } if (c->op==AND) { addPc(st,c->k[0]); addPc(st,c->k[1]); return; } for(auto*e:st.pcs) if(e==c) return; st.pcs.push_back(c); }
static void incomplete(const std::string& w){ gIncomplete=true; gIncompleteWhy.insert(w); }

// ------------------------------------------------------------------ reports
static std::string locStr(State& st) {
  std::string s; int n=0; for(int i=(int)st.fr.size()-1;i>=0&&n<8;i--,n++) { auto& f=st.fr[i]; int pc=f.pc; if(i!=(int)st.fr.size()-1) pc=f.pc-1; if(pc<0||pc>=(int)f.f->insts.size()) continue; Instruction* I=f.f->insts[pc].I; 
    if (auto dl=I->getDebugLoc()) { DILocation* d=dl.get(); int k=0; while(d&&k++<6){ s+=d->getFilename().str().substr(d->getFilename().str().find_last_of('/')+1)+":"+std::to_string(d->getLine())+" "; d=d->getInlinedAt(); } }
    s+="in "+f.f->F->getName().str().substr(0,60)+"; "; }
  return s; }
static std::vector<std::pair<std::string,std::pair<unsigned,u128>>> inputsOf(State& st, Model& m) { std::vector<std::pair<std::string,std::pair<unsigned,u128>>> r; for(auto&p:st.inputs){ u128 v=(size_t)p.first<m.v.size()?m.v[p.first]:0; r.push_back({X.vars[p.first].name,{X.vars[p.first].w,v}}); } return r; }
static void report(State& st, const std::string& kind, const std::string& msg, Model& m) {
  std::string key=kind+"|"+msg; if(violKeys.count(key)) return; violKeys.insert(key); Violation v; v.kind=kind; v.msg=msg; v.loc=locStr(st); v.in=inputsOf(st,m); viols.push_back(v); if(optVerbose) fprintf(stderr,"VIOL %s: %s @ %s\n",kind.c_str(),msg.c_str(),v.loc.c_str()); }
struct PathEnd { bool completed; };

// evaluates, forks: returns the truth of cond on the current path
static bool branchOn(State& st, Expr* c) {
  if (c->op==CONST) return c->c!=0; bool side=X.eval(c)!=0; Expr* t=side?c:X.notE(c); Expr* o=side?X.notE(c):c;
  std::shared_ptr<Model> m2; int r=query(st,o,&m2);
  if (r==1) { auto n=std::make_unique<State>(st); n->model=m2; n->fr.back().pc-=gRewind; addPc(*n,o); n->depth++; st.depth++; S.forks++; addPc(st,t); work.push_back(std::move(n)); }
  else { if (r<0) incomplete("solver gave no answer on a branch"); /* other side not claimed */ }
  return side; }
// make v concrete, forking over its feasible values; the forked state re-executes the instruction
static u128 concretize(State& st, Val& v, unsigned w) {
  if (!v.e) return v.c; u128 x=X.eval(v.e); Expr* eq=X.bin(EQ,v.e,X.cst(x,w)); std::shared_ptr<Model> m2; int r=query(st,X.notE(eq),&m2);
  if (r==1) { auto n=std::make_unique<State>(st); n->model=m2; n->fr.back().pc-=gRewind; addPc(*n,X.notE(eq)); S.forks++; work.push_back(std::move(n)); addPc(st,eq); }
  else if (r<0) { incomplete("solver gave no answer on a value"); addPc(st,eq); }
  v.e=nullptr; v.c=x; return x; }

// ------------------------------------------------------------------ memory access
static Obj* findObj(State& st, uint64_t a) { unsigned kind=a>>60; uint32_t slot=(a>>32)&0xfffff; std::vector<Obj>* v= kind==KGLOBAL?&st.G: kind==KSTACK?&st.K: kind==KHEAP?&st.H:nullptr; if(!v||slot>=v->size()) return nullptr; Obj* o=&(*v)[slot]; if ((o->base>>32)!=(a>>32)) return nullptr; return o; }
static std::string hex(uint64_t a){ char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)a); return b; }
static void memError(State& st, uint64_t a, uint64_t n, bool wr, Obj* o) {
  std::string m= wr?"write":"read"; m+=" of "+std::to_string(n)+" byte(s) ";
  if (a<0x10000) m+="at null page"; else if(!o) m+="at address outside every object (use after scope, or wild pointer)"; else if (o->dead) m+="in freed object "; else if (wr&&o->ro&&(a-o->base)+n<=o->size) m+="into constant object "; else m+="outside object "; if(o){ m+=o->name; if(!o->dead) m+=" size "+std::to_string(o->size)+" at offset "+std::to_string((int64_t)(a-o->base)); }
  report(st,"memory",m+" @ "+locStr(st).substr(0,120),*st.model); throw PathEnd{false}; }
static Obj* access(State& st, uint64_t a, uint64_t n, bool wr) { Obj* o=findObj(st,a); if(!o||o->dead||a<o->base||a-o->base+n>o->size||(wr&&o->ro)) memError(st,a,n,wr,o);
  if (wr && o->d.use_count()>1) o->d=std::make_shared<ObjData>(*o->d); return o; }
static Expr* uninitVar(Obj* o, uint64_t off){ char b[80]; snprintf(b,80,"uninit_%llx_%llu",(unsigned long long)(o->base>>32),(unsigned long long)off); return X.var(b,8); }
static Val rdByte(Obj* o, uint64_t off){ auto& d=*o->d; if(!d.s.empty()&&d.s[off]) { if(d.s[off]==UNINIT) return E(uninitVar(o,off)); return E(d.s[off]); } return C(d.b[off],8); }
static void wrByte(Obj* o, uint64_t off, const Val& v){ auto& d=*o->d; if(v.e){ if(d.s.empty()) d.s.resize(d.b.size()); d.s[off]=v.e; } else { if(!d.s.empty()) d.s[off]=nullptr; d.b[off]=(uint8_t)v.c; } }
static Val loadAt(State& st, uint64_t a, unsigned w) {
  unsigned n=(w+7)/8; Obj* o=access(st,a,n,false); uint64_t off=a-o->base; auto& d=*o->d; bool sym=false;
  if(!d.s.empty()) for(unsigned i=0;i<n;i++) if(d.s[off+i]) { sym=true; break; }
  if(!sym){ u128 v=0; for(unsigned i=n;i-->0;) v=(v<<8)|d.b[off+i]; return C(v,w); }
  Expr* e=nullptr; for(unsigned i=0;i<n;i++){ Val b=rdByte(o,off+i); Expr* be=toE(b,8); e= e? X.concat(be,e): be; }
  if (w<n*8) e=X.extract(e,0,w); return E(e); }
static void storeAt(State& st, uint64_t a, unsigned w, const Val& v) {
  unsigned n=(w+7)/8; Obj* o=access(st,a,n,true); uint64_t off=a-o->base;
  if(!v.e){ u128 x=v.c; auto& d=*o->d; for(unsigned i=0;i<n;i++){ d.b[off+i]=(uint8_t)(x>>(8*i)); if(!d.s.empty()) d.s[off+i]=nullptr; } return; }
  Expr* e=v.e; if(w<n*8) e=X.zext(e,n*8); for(unsigned i=0;i<n;i++) wrByte(o,off+i,E(X.extract(e,8*i,8))); }

static unsigned allocObj(State& st, std::vector<Obj>& v, unsigned kind, uint32_t size, bool uninit, const char* name) {
  unsigned slot=v.size(); if(slot>=0xfffff) engErr("too many objects"); Obj o; o.kind=kind; o.base=mkBase(kind,st.gen++,slot); o.size=size; o.dead=false; o.name=name; o.d=std::make_shared<ObjData>(); o.d->b.assign(size,0); if(uninit) o.d->s.assign(size,UNINIT); v.push_back(std::move(o)); return slot; }

// symbolic-address read from a constant-content object: multiplexer tree over the index bits
static std::unordered_map<uint64_t,Expr*> muxCache;
static Expr* muxTree(Expr* idx, unsigned bit, uint64_t lo, uint64_t hi, const std::vector<Expr*>& leaf) { // entries [lo,hi)
  if (hi-lo==1 || bit==(unsigned)-1) return leaf[lo];
  uint64_t half=1ull<<bit; uint64_t mid=lo+half; if (mid>=hi) return muxTree(idx,bit-1,lo,hi,leaf);
  bool same=true; for(uint64_t i=lo+1;i<hi&&same;i++) if(leaf[i]!=leaf[lo]) same=false; if(same) return leaf[lo];
  Expr* l=muxTree(idx,bit-1,lo,mid,leaf); Expr* h=muxTree(idx,bit-1,mid,hi,leaf); return X.ite(X.extract(idx,bit,1),h,l); }
// off = base + scale*x
static void affine(Expr* e, u128& base, u128& scale, Expr*& x) { base=0; scale=1; x=e; for(;;){ if(x->op==ADD&&X.isC(x->k[1])) { base+=scale*x->k[1]->c; x=x->k[0]; } else if(x->op==MUL&&X.isC(x->k[1])) { scale*=x->k[1]->c; x=x->k[0]; } else if(x->op==CONCAT&&X.isC(x->k[1])&&x->k[1]->c==0) { unsigned k=x->k[1]->w; if (x->w<64) break; scale<<=k; x=X.zext(x->k[0],x->w); if (x->op!=ZEXT) { /* top bits lost */ break; } }
    else if (x->op==ZEXT&&x->k[0]->op==CONCAT&&X.isC(x->k[0]->k[1])&&x->k[0]->k[1]->c==0) { unsigned k=x->k[0]->k[1]->w; scale<<=k; x=X.zext(x->k[0]->k[0],x->w); }
    else break; } }
// index linear in few digit variables, table linear in the same digits (checked for every combination of digits): the entry as a linear form
static Expr* linTable(Obj* o, const Lin& l, unsigned w, unsigned n) {
  if (w!=n*8||w>32||l.t.empty()||l.t.size()>3) return nullptr; size_t k=l.t.size(); std::vector<uint64_t> lo(k),hi(k),cur(k); u128 combos=1; for(size_t i=0;i<k;i++){ auto b=X.dig.find(l.t[i].first)->second; lo[i]=b.lo; hi[i]=b.hi; combos*=b.hi-b.lo+1; } if (combos>1000) return nullptr;
  auto at=[&](const std::vector<uint64_t>& d){ i128 of=l.k; for(size_t i=0;i<k;i++) of+=l.t[i].second*(i128)d[i]; uint64_t v=0; for(unsigned j=n;j-->0;) v=(v<<8)|o->d->b[(size_t)of+j]; return (i128)v; };
  i128 base=at(lo); std::vector<i128> c(k); for(size_t i=0;i<k;i++){ auto d=lo; d[i]++; c[i]=at(d)-base; }
  cur=lo; for(;;){ i128 v=base; for(size_t i=0;i<k;i++) v+=c[i]*(i128)(cur[i]-lo[i]); if (v!=at(cur)) return nullptr; size_t i=0; while(i<k&&++cur[i]>hi[i]) { cur[i]=lo[i]; i++; } if(i==k) break; }
  Lin r; r.k=base; for(size_t i=0;i<k;i++){ r.k-=c[i]*(i128)lo[i]; if(c[i]) r.t.push_back({l.t[i].first,c[i]}); } return X.fromLin(r,w); }
static Val loadSym(State& st, Val addr, unsigned w) {
  unsigned n=(w+7)/8;
  uint64_t a=(uint64_t)X.eval(addr.e); Obj* o=findObj(st,a); if(!o||o->dead||a<o->base||a-o->base+n>o->size) {
    // the current model makes it invalid
    memError(st,a,n,false,o); }
  bool symContent=false; if(!o->d->s.empty()) for(auto*p:o->d->s) if(p) { symContent=true; break; }
  if (!(o->ro || (!symContent && o->size<=4096)) ) { return loadAt(st,(uint64_t)concretize(st,addr,64),w); }
  Expr* off=X.bin(SUB,addr.e,X.cst(o->base,64)); Expr* in=X.bin(ULE,off,X.cst(o->size-n,64)); 
  if (in->op!=CONST) { std::shared_ptr<Model> m2; int r=query(st,X.notE(in),&m2); if(r==1){ auto nst=std::make_unique<State>(st); nst->model=m2; addPc(*nst,X.notE(in)); S.forks++; work.push_back(std::move(nst)); addPc(st,in);} else if(r<0) incomplete("solver gave no answer on an address"); }
  u128 b0,sc; Expr* x; affine(off,b0,sc,x); if (sc==0) engErr("affine"); 
  if (off->lin && X.exactU(*off->lin,64) && !symContent && (u128)off->lin->hi+n<=o->size) { Expr* r=linTable(o,*off->lin,w,n); if (r) return E(r); }
  Expr* idx=x; while(idx->op==ZEXT) idx=idx->k[0];
  u128 maxIdx = idx->w>=64? (idx->w==64?(u128)idx->hi:~(u128)0) : (u128)idx->hi; 
  uint64_t loIdx=0; int64_t sb=(int64_t)(uint64_t)b0; 
  if (sc>0x7fffffff) return loadAt(st,(uint64_t)concretize(st,addr,64),w);
  if (sb<0) { loIdx=((uint64_t)(-sb)+(uint64_t)sc-1)/(uint64_t)sc; }
  if ((int64_t)(o->size)-(int64_t)n-sb<0) return loadAt(st,(uint64_t)concretize(st,addr,64),w);
  uint64_t hiIdx=((uint64_t)((int64_t)(o->size-n)-sb))/(uint64_t)sc; if (maxIdx<hiIdx) hiIdx=(uint64_t)maxIdx;
  if (loIdx>hiIdx || hiIdx-loIdx>70000) return loadAt(st,(uint64_t)concretize(st,addr,64),w);
  { Expr* inside=X.bin(ULE,X.bin(SUB,idx,X.cst(loIdx,idx->w)),X.cst(hiIdx-loIdx,idx->w)); if(inside->op!=CONST||!inside->c){ std::shared_ptr<Model> m2; if(query(st,X.notE(inside),&m2)!=0) return loadAt(st,(uint64_t)concretize(st,addr,64),w); } }
  if (loIdx>4096) { idx=X.bin(SUB,idx,X.cst(loIdx,idx->w)); sb+=(int64_t)(loIdx*(uint64_t)sc); hiIdx-=loIdx; loIdx=0; }
  uint64_t key=((uint64_t)(uintptr_t)o->d.get()*31 + addr.e->id)*131+w; if(o->ro){ auto it=muxCache.find(key); if(it!=muxCache.end()) return E(it->second); }
  std::vector<Expr*> leaf(hiIdx+1); Expr* firstLeaf=nullptr; for(uint64_t i=loIdx;i<=hiIdx;i++){ uint64_t of=(uint64_t)(sb+(int64_t)(i*(uint64_t)sc)); u128 v=0; Expr* le; bool sy=false; if(!o->d->s.empty()) for(unsigned k=0;k<n;k++) if(o->d->s[of+k]) sy=true;
      if(!sy){ for(unsigned k=n;k-->0;) v=(v<<8)|o->d->b[of+k]; le=X.cst(v,w);} else { le=nullptr; for(unsigned k=0;k<n;k++){ Expr* be=toE(rdByte(o,of+k),8); le=le?X.concat(be,le):be; } if(w<n*8) le=X.extract(le,0,w); } leaf[i]=le; if(!firstLeaf) firstLeaf=le; }
  for(uint64_t i=0;i<loIdx;i++) leaf[i]=firstLeaf;
  unsigned top=0; while(top<63&&(2ull<<top)<=hiIdx) top++; 
  Expr* r=muxTree(idx,top,0,hiIdx+1,leaf); if(o->ro) muxCache[key]=r; return E(r); }

// ------------------------------------------------------------------ builtins
enum B { B_NONE=-1, B_SYM_BYTES, B_SYM_VAL, B_SYM_DIGIT, B_ASSUME, B_CHECK, B_KNOWN, B_TRACE, B_COVER, B_CONFIG, B_CONC, B_MEMEQ, B_MALLOC, B_CALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_FAIL, B_TRAP, B_NOP, B_NOP0,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_GUARD_ACQ, B_GUARD_REL, B_STDTHROW, B_TERMINATE, B_BADALLOC, B_DISTINCT, B_ISSYM };
static int builtinId(StringRef n) {
  static std::map<std::string,int> t={ {"sym_bytes",B_SYM_BYTES},{"sym_value",B_SYM_VAL},{"sym_digit",B_SYM_DIGIT},{"sym_assume",B_ASSUME},{"sym_check",B_CHECK},{"sym_known",B_KNOWN},{"sym_trace",B_TRACE},{"sym_cover",B_COVER},{"sym_config",B_CONFIG},{"sym_concretize",B_CONC},{"sym_memeq",B_MEMEQ},{"sym_is_symbolic",B_ISSYM},
   {"malloc",B_MALLOC},{"_Znwm",B_MALLOC},{"_Znam",B_MALLOC},{"_ZnwmSt11align_val_t",B_MALLOC},{"_ZnamSt11align_val_t",B_MALLOC},{"_ZnwmRKSt9nothrow_t",B_MALLOC},{"calloc",B_CALLOC},{"free",B_FREE},{"_ZdlPv",B_FREE},{"_ZdaPv",B_FREE},{"_ZdlPvm",B_FREE},{"_ZdaPvm",B_FREE},{"_ZdlPvmSt11align_val_t",B_FREE},{"_ZdlPvSt11align_val_t",B_FREE},{"_ZdaPvSt11align_val_t",B_FREE},
   {"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"__assert_fail",B_FAIL},{"abort",B_FAIL},{"exit",B_FAIL},{"__cxa_pure_virtual",B_FAIL},{"_ZSt9terminatev",B_TERMINATE},{"__cxa_atexit",B_NOP0},
   {"__cxa_allocate_exception",B_CXA_ALLOC},{"__cxa_free_exception",B_CXA_FREE},{"__cxa_throw",B_CXA_THROW},{"__cxa_begin_catch",B_CXA_BEGIN},{"__cxa_end_catch",B_CXA_END},{"__cxa_rethrow",B_CXA_RETHROW},{"__cxa_guard_acquire",B_GUARD_ACQ},{"__cxa_guard_release",B_GUARD_REL},{"__cxa_guard_abort",B_NOP},
   {"_ZNSt6localeC1Ev",B_NOP},{"_ZNSt6localeD1Ev",B_NOP},{"_ZNSt6localeC1ERKS_",B_NOP},{"_ZNSt6localeaSERKS_",B_NOP0},
   {"_ZSt17__throw_bad_allocv",B_STDTHROW},{"_ZSt20__throw_length_errorPKc",B_STDTHROW},{"_ZSt19__throw_logic_errorPKc",B_STDTHROW},{"_ZSt20__throw_out_of_rangePKc",B_STDTHROW},{"_ZSt24__throw_out_of_range_fmtPKcz",B_STDTHROW},{"_ZSt28__throw_bad_array_new_lengthv",B_STDTHROW},{"_ZSt24__throw_invalid_argumentPKc",B_STDTHROW},{"_ZSt25__throw_bad_function_callv",B_STDTHROW} };
  auto it=t.find(n.str()); return it==t.end()?B_NONE:it->second; }

// ------------------------------------------------------------------ decoding
static std::map<const Value*,int>* dslots; static KFunction* dk; static std::map<const BasicBlock*,int>* dblk;
static Opd opd(const Value* v) {
  Opd o; auto& L=leavesOf(v->getType()); o.n=L.size(); o.w=L.empty()?0:L[0].w;
  if (auto* c=dyn_cast<Constant>(v)) { std::vector<Val> vals; constVals(c,vals); if(vals.size()!=L.size()) engErr("leaf count"); o.s=~(int)dk->pool.size(); for(auto&x:vals) dk->pool.push_back(x); return o; }
  auto it=dslots->find(v); if(it==dslots->end()) engErr("operand"); o.s=it->second; return o; }
static int leafIndex(Type* t, ArrayRef<unsigned> ix) { int base=0; for(unsigned i:ix){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) base+=leavesOf(st->getElementType(k)).size(); t=st->getElementType(i);} else { auto*at=cast<ArrayType>(t); base+=i*leavesOf(at->getElementType()).size(); t=at->getElementType(); } } return base; }
static void decode(KFunction* k) {
  k->decoded=true; Function* F=k->F; std::map<const Value*,int> slots; std::map<const BasicBlock*,int> blk; dslots=&slots; dk=k; dblk=&blk; int n=0;
  for(auto&a:F->args()){ if(a.hasByValAttr()) k->hasByval=true; slots[&a]=n; k->argSlot.push_back(n); n+=leavesOf(a.getType()).size(); }
  int bi=0; for(auto&b:*F){ blk[&b]=bi++; for(auto&i:b) if(!i.getType()->isVoidTy()) { slots[&i]=n; n+=leavesOf(i.getType()).size(); } }
  k->nslots=n; k->blocks.resize(bi);
  for(auto&b:*F){ KBlock& kb=k->blocks[blk[&b]]; kb.bb=&b; kb.start=k->insts.size();
    for(auto&i:b){
      if(auto*p=dyn_cast<PHINode>(&i)){ KPhi kp; kp.dest=slots[p]; kp.n=leavesOf(p->getType()).size(); for(unsigned j=0;j<p->getNumIncomingValues();j++) kp.in[blk[p->getIncomingBlock(j)]]=opd(p->getIncomingValue(j)); kb.phis.push_back(kp); continue; }
      if(isa<DbgInfoIntrinsic>(i)) continue;
      KInst ki; ki.opc=i.getOpcode(); ki.I=&i; if(!i.getType()->isVoidTy()){ ki.dest=slots[&i]; ki.leaves=&leavesOf(i.getType()); }
      switch(ki.opc){
        case Instruction::Br: { auto*x=cast<BranchInst>(&i); if(x->isConditional()){ ki.ops.push_back(opd(x->getCondition())); ki.tgt[0]=blk[x->getSuccessor(0)]; ki.tgt[1]=blk[x->getSuccessor(1)]; } else ki.tgt[0]=blk[x->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto*x=cast<SwitchInst>(&i); ki.ops.push_back(opd(x->getCondition())); ki.tgt[0]=blk[x->getDefaultDest()]; for(auto&c:x->cases()) { u128 v=c.getCaseValue()->getValue().getZExtValue(); ki.cases.push_back({v,blk[c.getCaseSuccessor()]}); } break; }
        case Instruction::GetElementPtr: { auto*x=cast<GetElementPtrInst>(&i); if(x->getType()->isVectorTy()) engErr("vector gep"); ki.ops.push_back(opd(x->getPointerOperand()));
          for(auto it=gep_type_begin(x),e=gep_type_end(x);it!=e;++it){ Value* v=it.getOperand(); if(auto*st=it.getStructTypeOrNull()){ ki.gepOff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); }
            else { int64_t sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(v)) ki.gepOff+=c->getSExtValue()*sz; else ki.gep.push_back({opd(v),sz}); } } break; }
        case Instruction::Alloca: { auto*x=cast<AllocaInst>(&i); ki.sz=DL->getTypeAllocSize(x->getAllocatedType()); ki.ops.push_back(opd(x->getArraySize())); break; }
        case Instruction::ExtractValue: { auto*x=cast<ExtractValueInst>(&i); ki.ops.push_back(opd(x->getAggregateOperand())); ki.ix.push_back(leafIndex(x->getAggregateOperand()->getType(),x->getIndices())); break; }
        case Instruction::InsertValue: { auto*x=cast<InsertValueInst>(&i); ki.ops.push_back(opd(x->getAggregateOperand())); ki.ops.push_back(opd(x->getInsertedValueOperand())); ki.ix.push_back(leafIndex(x->getAggregateOperand()->getType(),x->getIndices())); break; }
        case Instruction::ShuffleVector: { auto*x=cast<ShuffleVectorInst>(&i); ki.ops.push_back(opd(x->getOperand(0))); ki.ops.push_back(opd(x->getOperand(1))); for(int m:x->getShuffleMask()) ki.ix.push_back(m); break; }
        case Instruction::Call: case Instruction::Invoke: { auto*x=cast<CallBase>(&i); for(auto&a:x->args()) { if(a->getType()->isMetadataTy()) continue; ki.ops.push_back(opd(a)); }
          if (ki.opc==Instruction::Invoke){ ki.tgt[0]=blk[cast<InvokeInst>(x)->getNormalDest()]; ki.tgt[1]=blk[cast<InvokeInst>(x)->getUnwindDest()]; }
          Value* cv=x->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts(); if(auto*f=dyn_cast<Function>(cv)) ki.callee=getFn(f); else if(isa<InlineAsm>(cv)) {} else ki.ops.push_back(opd(cv)); break; }
        case Instruction::LandingPad: break;
        default: for(auto&o:i.operands()) { if(isa<BasicBlock>(o)||o->getType()->isMetadataTy()) continue; ki.ops.push_back(opd(o)); } }
      k->insts.push_back(std::move(ki)); } } }

// ------------------------------------------------------------------ execution
static inline Val& R(Frame& f, const Opd& o, int i=0){ return o.s>=0? f.regs[o.s+i] : f.f->pool[~o.s+i]; }
static void gotoBlock(Frame& f, int b) {
  int prev=f.block; KBlock& kb=f.f->blocks[b]; if(!kb.phis.empty()){ Val tmp[64]; std::vector<Val> big; int tot=0; for(auto&p:kb.phis) tot+=p.n; Val* t=tmp; if(tot>64){ big.resize(tot); t=big.data(); } int k=0; for(auto&p:kb.phis){ auto& o=p.in.at(prev); for(int i=0;i<p.n;i++) t[k++]=R(f,o,i); } k=0; for(auto&p:kb.phis) for(int i=0;i<p.n;i++) f.regs[p.dest+i]=t[k++]; }
  f.prev=prev; f.block=b; f.pc=kb.start; }
static void popFrame(State& st){ Frame& f=st.fr.back(); while(st.K.size()>f.stackMark) st.K.pop_back(); st.fr.pop_back(); }
static std::string cstr(State& st, uint64_t a){ std::string s; for(int i=0;i<200;i++){ Val v=loadAt(st,a+i,8); if(v.e) { s+='?'; continue; } if(!v.c) break; s+=(char)v.c; } return s; }
static void copyMem(State& st, uint64_t d, uint64_t s, uint64_t n);
static void enter(State& st, KFunction* k, const std::vector<Val>& args, const KInst* site) {
  if(!k->decoded) decode(k); if(st.fr.size()>200) { report(st,"recursion","call depth over 200",*st.model); throw PathEnd{false}; }
  Frame f; f.f=k; f.regs.resize(k->nslots); f.stackMark=st.K.size(); f.site=site; for(size_t i=0;i<args.size()&&i<(size_t)k->nslots;i++) f.regs[i]=args[i]; st.fr.push_back(std::move(f)); Frame& g=st.fr.back(); g.block=0; g.pc=k->blocks[0].start;
  // a byval argument is the callee's own copy
  if (k->hasByval) for(auto&a:k->F->args()) if(a.hasByValAttr()) { int r=k->argSlot[a.getArgNo()]; if(r>=(int)args.size()||args[r].e) engErr("byval argument"); uint64_t n=DL->getTypeAllocSize(a.getParamByValType()), src=(uint64_t)args[r].c;
    access(st,src,n,false); unsigned o=allocObj(st,st.K,KSTACK,(uint32_t)n,true,"argument copy"); uint64_t dst=st.K[o].base; copyMem(st,dst,src,n); st.fr.back().regs[r]=C(dst,64); } }
// exceptions
static bool tiMatches(State& st, uint64_t ti, uint64_t want){ for(int i=0;i<8&&ti;i++){ if(ti==want) return true; Obj* o=findObj(st,ti); if(!o||o->size!=24) return false; ti=(uint64_t)loadAt(st,ti+16,64).c; } return false; }
static int typeId(uint64_t ti){ return 1+(int)((ti>>32)&0xfffff); }
static void unwind(State& st, uint64_t obj, uint64_t ti) {
  // the top frame is the one whose call/resume raised
  for(;;){ if(st.fr.empty()) { report(st,"exception","uncaught exception",*st.model); throw PathEnd{false}; }
    Frame& f=st.fr.back(); const KInst* ki=&f.f->insts[f.pc-1]; // the call
    if (ki->opc==Instruction::Invoke) {
      auto* lp=cast<InvokeInst>(ki->I)->getLandingPadInst(); int sel=-1; bool go=lp->isCleanup();
      for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ Val v=constExprVal(lp->getClause(i)); uint64_t want=(uint64_t)v.c; if(!want||tiMatches(st,ti,want)) { sel= want? typeId(want): 1; go=true; break; } } else { sel=-1; go=true; break; } }
      if(go){ if(sel<0&&!lp->isCleanup()) sel=-1; if(sel<0) sel=0; gotoBlock(f,ki->tgt[1]); st.excObj=obj; st.excTi=ti; 
        // set landingpad register(s) now
        const KInst& lk=f.f->insts[f.pc]; if(lk.opc!=Instruction::LandingPad) engErr("landingpad expected"); f.regs[lk.dest]=C(obj,64); f.regs[lk.dest+1]=C((uint32_t)sel,32); f.pc++; return; } }
    popFrame(st); } }

static double bitsToD(u128 b, unsigned w){ if(w==32){ float f; uint32_t u=(uint32_t)b; memcpy(&f,&u,4); return f; } double d; uint64_t u=(uint64_t)b; memcpy(&d,&u,8); return d; }
static u128 dToBits(double d, unsigned w){ if(w==32){ float f=(float)d; uint32_t u; memcpy(&u,&f,4); return u; } uint64_t u; memcpy(&u,&d,8); return u; }

// number of bits of a signed type that certainly holds the value
static unsigned sigBits(Expr* e, int d=0) { unsigned w=e->w, r=w; if(e->w<=64){ unsigned k=1; while(k<64&&(e->hi>>(k-1))) ++k; if(k<r) r=k; }
  if(d>6) return r; unsigned t=w;
  switch(e->op){ case CONST: { i128 v=sextw(e->c,w); if(v<0) v=~v; t=1; while(v){ v>>=1; ++t; } break; } case SEXT: t=sigBits(e->k[0],d+1); break; case ZEXT: t=e->k[0]->w+1; break;
    case ITE: { unsigned a=sigBits(e->k[1],d+1),b=sigBits(e->k[2],d+1); t=a>b?a:b; break; } case MUL: t=sigBits(e->k[0],d+1)+sigBits(e->k[1],d+1); break; case ADD: case SUB: { unsigned a=sigBits(e->k[0],d+1),b=sigBits(e->k[1],d+1); t=(a>b?a:b)+1; break; } default: break; }
  return t<r?t:r; }
static Val vbin(Op op, const Val& a, const Val& b, unsigned w) { bool cmp=op>=EQ&&op<=SLE; if(!a.e&&!b.e) { Val r; r.c=ExprCtx::fold(op,w,a.c,b.c,w); if(!cmp) r.c&=maskw(w); return r; } return E(X.bin(op,toE(a,w),toE(b,w))); }
static Val vcast(unsigned opc, const Val& a, unsigned fw, unsigned tw){ switch(opc){ case Instruction::Trunc: return a.e? E(X.extract(a.e,0,tw)): C(a.c,tw); case Instruction::ZExt: return a.e? E(X.zext(a.e,tw)): C(a.c,tw); case Instruction::SExt: return a.e? E(X.sext(a.e,tw)): C((u128)sextw(a.c,fw),tw); default: if(tw==fw) return a; if(tw<fw) return a.e? E(X.extract(a.e,0,tw)): C(a.c,tw); return a.e? E(X.zext(a.e,tw)): C(a.c,tw);} }
static Val vnot(const Val& a){ return vbin(XOR,a,C(1,1),1); }
static Val vand(const Val&a,const Val&b){ return vbin(AND,a,b,1);} static Val vor(const Val&a,const Val&b){ return vbin(OR,a,b,1);}
static Val visnan(const Val& a, unsigned w){ unsigned m= w==32?23:52; u128 inf= w==32? 0x7f800000ull : 0x7ff0000000000000ull; (void)m; Val abs=vbin(AND,a,C(maskw(w-1),w),w); return vbin(ULT,C(inf,w),abs,w); }
static Val fcmpV(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (w!=32&&w!=64) engErr("fcmp width");
  Val un=vor(visnan(a,w),visnan(b,w)); Val s=C((u128)1<<(w-1),w), am=vbin(AND,a,C(maskw(w-1),w),w), bm=vbin(AND,b,C(maskw(w-1),w),w); Val bothZero=vbin(EQ,vbin(OR,am,bm,w),C(0,w),w); (void)s;
  Val eq=vor(vbin(EQ,a,b,w),bothZero); Val an=vbin(SLT,a,C(0,w),w), bn=vbin(SLT,b,C(0,w),w);
  // a<b : (an & !bn & !bothZero) | (!an&!bn& am<bm) | (an&bn& bm<am)
  Val lt=vor(vor(vand(vand(an,vnot(bn)),vnot(bothZero)),vand(vand(vnot(an),vnot(bn)),vbin(ULT,am,bm,w))),vand(vand(an,bn),vbin(ULT,bm,am,w))); Val gt=vand(vnot(lt),vnot(eq)); Val o=vnot(un);
  switch(p){ case CmpInst::FCMP_OEQ: return vand(o,eq); case CmpInst::FCMP_UEQ: return vor(un,eq); case CmpInst::FCMP_ONE: return vand(o,vnot(eq)); case CmpInst::FCMP_UNE: return vor(un,vnot(eq)); case CmpInst::FCMP_OLT: return vand(o,lt); case CmpInst::FCMP_ULT: return vor(un,lt); case CmpInst::FCMP_OLE: return vand(o,vor(lt,eq)); case CmpInst::FCMP_ULE: return vor(un,vor(lt,eq)); case CmpInst::FCMP_OGT: return vand(o,gt); case CmpInst::FCMP_UGT: return vor(un,gt); case CmpInst::FCMP_OGE: return vand(o,vor(gt,eq)); case CmpInst::FCMP_UGE: return vor(un,vor(gt,eq)); case CmpInst::FCMP_ORD: return o; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_TRUE: return C(1,1); case CmpInst::FCMP_FALSE: return C(0,1); default: engErr("fcmp"); } }

static void doCheck(State& st, const Val& cond, unsigned w, const std::string& msg) {
  S.checks++; if(!cond.e){ if(cond.c) { S.checksConst++; return; } report(st,"check",msg,*st.model); throw PathEnd{false}; }
  Expr* c= w==1? cond.e : X.notE(X.bin(EQ,cond.e,X.cst(0,w))); if(c->op==CONST){ if(c->c){ S.checksConst++; return;} report(st,"check",msg,*st.model); throw PathEnd{false}; }
  S.checksSolver++; std::shared_ptr<Model> m; int r=query(st,X.notE(c),&m); if(r==1){ report(st,"check",msg,*m); 
      std::shared_ptr<Model> m2; int r2=query(st,c,&m2); if(r2!=1) throw PathEnd{false}; st.model=m2; useModel(st); addPc(st,c); return; }
  if(r<0) incomplete("solver gave no answer on check: "+msg); }

static Val readByteAny(State& st, uint64_t a){ return loadAt(st,a,8); }
static void copyMem(State& st, uint64_t d, uint64_t s, uint64_t n) { if(!n) return; Obj* so=access(st,s,n,false); std::vector<Val> tmp; uint64_t o=s-so->base; bool sym=false; if(!so->d->s.empty()) for(uint64_t i=0;i<n;i++) if(so->d->s[o+i]) {sym=true;break;}
  if(!sym){ std::vector<uint8_t> t(so->d->b.begin()+o,so->d->b.begin()+o+n); Obj* dob=access(st,d,n,true); uint64_t q=d-dob->base; memcpy(dob->d->b.data()+q,t.data(),n); if(!dob->d->s.empty()) for(uint64_t i=0;i<n;i++) dob->d->s[q+i]=nullptr; return; }
  std::vector<Expr*> ts(so->d->s.begin()+o,so->d->s.begin()+o+n); std::vector<uint8_t> t(so->d->b.begin()+o,so->d->b.begin()+o+n); for(uint64_t i=0;i<n;i++) if(ts[i]==UNINIT) ts[i]=uninitVar(so,o+i);
  Obj* dob=access(st,d,n,true); uint64_t q=d-dob->base; if(dob->d->s.empty()) dob->d->s.resize(dob->d->b.size()); for(uint64_t i=0;i<n;i++){ dob->d->s[q+i]=ts[i]; dob->d->b[q+i]=t[i]; } }

static void setRet(Frame& f, const KInst& ki, const Val& v){ if(ki.dest>=0) f.regs[ki.dest]=v; }
static void afterCall(State& st, const KInst& ki){ (void)ki; Frame& f=st.fr.back(); if(ki.opc==Instruction::Invoke) gotoBlock(f,ki.tgt[0]); }

struct Rewind { Rewind(){gRewind=1;} ~Rewind(){gRewind=0;} };
static void execBuiltin(State& st, const KInst& ki, int b, const char* fname) { Rewind rw_;
  Frame& f=st.fr.back(); auto A=[&](int i)->Val&{ return R(f,ki.ops[i]); }; auto conc=[&](int i)->uint64_t{ Val v=A(i); uint64_t r=(uint64_t)concretize(st,v,ki.ops[i].w); if(ki.ops[i].s>=0) f.regs[ki.ops[i].s]=v; return r; };
  switch(b){
    case B_SYM_BYTES: { uint64_t p=conc(0), n=conc(1); std::string nm=cstr(st,conc(2)); int k=st.names[nm]++; for(uint64_t i=0;i<n;i++){ Expr* e=X.var(nm+"#"+std::to_string(k)+"."+std::to_string(i),8); st.inputs.push_back({(int)e->c,0}); storeAt(st,p+i,8,E(e)); } break; }
    case B_SYM_VAL: { uint64_t w=conc(0); std::string nm=cstr(st,conc(1)); int k=st.names[nm]++; Expr* e=X.var(nm+"#"+std::to_string(k),(unsigned)w); st.inputs.push_back({(int)e->c,0}); setRet(f,ki,E(X.zext(e,64))); break; }
    case B_SYM_DIGIT: { uint64_t lo=conc(0), hi=conc(1); if(lo>hi||hi>255) engErr("sym_digit bounds"); if(lo==hi) { setRet(f,ki,C(lo,64)); break; } std::string nm=cstr(st,conc(2))+"_"+std::to_string(lo)+"_"+std::to_string(hi); int k=st.names[nm]++; Expr* e=X.digit(nm+"#"+std::to_string(k),lo,hi); st.inputs.push_back({(int)e->c,0});
       auto m=std::make_shared<Model>(*st.model); if(m->v.size()<=e->c) m->v.resize((size_t)e->c+1); m->v[(size_t)e->c]=lo; st.model=m; useModel(st); addPc(st,X.raw(ULE,1,X.cst(lo,8),e)); addPc(st,X.raw(ULE,1,e,X.cst(hi,8))); setRet(f,ki,E(X.zext(e,64))); break; }
    case B_ASSUME: { Val v=A(0); unsigned w=ki.ops[0].w; if(!v.e){ if(v.c) break; S.assumeDead++; throw PathEnd{false}; } Expr* c= w==1? v.e: X.notE(X.bin(EQ,v.e,X.cst(0,w))); if(c->op==CONST){ if(c->c) break; S.assumeDead++; throw PathEnd{false}; }
       std::shared_ptr<Model> m; int r=query(st,c,&m); if(r!=1){ if(r<0) incomplete("solver gave no answer on assume"); S.assumeDead++; throw PathEnd{false}; } st.model=m; useModel(st); addPc(st,c); break; }
    case B_KNOWN: { std::string msg=cstr(st,conc(1)); Val c=A(0); unsigned w=ki.ops[0].w; if(!c.e){ if(!c.c) report(st,"check",msg,*st.model); break; } Expr* e= w==1? c.e : X.notE(X.bin(EQ,c.e,X.cst(0,w))); std::shared_ptr<Model> m; S.checks++; S.checksSolver++; int r=query(st,X.notE(e),&m); if(r==1) report(st,"check",msg,*m); else if(r<0) incomplete("solver gave no answer on check: "+msg); break; }
    case B_CHECK: { std::string msg=cstr(st,conc(1)); doCheck(st,A(0),ki.ops[0].w,msg); break; }
    case B_TRACE: { st.trace.push_back({A(0),64}); break; }
    case B_COVER: st.covers.insert(cstr(st,conc(0))); break;
    case B_CONFIG: { std::string nm=cstr(st,conc(0)); auto it=cfg.find(nm); setRet(f,ki, it==cfg.end()? A(1): C(it->second,64)); break; }
    case B_CONC: { uint64_t v=conc(0); setRet(f,ki,C(v,64)); break; }
    case B_ISSYM: setRet(f,ki,C(A(0).e?1:0,32)); break;
    case B_MEMEQ: { uint64_t p=conc(0), q=conc(1), n=conc(2); Val r=C(1,1); if(n){ access(st,p,n,false); access(st,q,n,false);} for(uint64_t i=0;i<n;i++) { r=vand(r,vbin(EQ,readByteAny(st,p+i),readByteAny(st,q+i),8)); if(!r.e&&!r.c) break; } setRet(f,ki,vcast(Instruction::ZExt,r,1,ki.leaves->at(0).w)); break; }
    case B_MALLOC: { uint64_t n=conc(0); if(n>(1u<<26)) { report(st,"alloc","allocation of "+std::to_string(n)+" bytes",*st.model); throw PathEnd{false}; } unsigned s=allocObj(st,st.H,KHEAP,(uint32_t)n,true,"heap"); setRet(f,ki,C(st.H[s].base,64)); break; }
    case B_CALLOC: { uint64_t n=conc(0)*conc(1); unsigned s=allocObj(st,st.H,KHEAP,(uint32_t)n,false,"heap"); setRet(f,ki,C(st.H[s].base,64)); break; }
    case B_FREE: { uint64_t p=conc(0); if(!p) break; Obj* o=findObj(st,p); if(!o||o->kind!=KHEAP||o->base!=p||o->dead){ report(st,"memory",std::string("invalid or double free @ ")+locStr(st).substr(0,100),*st.model); throw PathEnd{false}; } o->dead=true; o->d.reset(); break; }
    case B_MEMCPY: case B_MEMMOVE: { uint64_t d=conc(0), s=conc(1), n=conc(2); copyMem(st,d,s,n); setRet(f,ki,C(d,64)); break; }
    case B_MEMSET: { uint64_t d=conc(0), n=conc(2); Val v=vcast(Instruction::Trunc,A(1),ki.ops[1].w,8); if(n){ Obj* o=access(st,d,n,true); for(uint64_t i=0;i<n;i++) wrByte(o,d-o->base+i,v);} setRet(f,ki,C(d,64)); break; }
    case B_FAIL: { std::string m=fname; if(m=="__assert_fail") m="assertion failed: "+cstr(st,conc(0)); report(st,"abort",m,*st.model); throw PathEnd{false}; }
    case B_TERMINATE: report(st,"abort","std::terminate called",*st.model); throw PathEnd{false};
    case B_NOP: break; case B_NOP0: setRet(f,ki,Val()); break;
    case B_CXA_ALLOC: { uint64_t n=conc(0); unsigned s=allocObj(st,st.H,KHEAP,(uint32_t)n,true,"exception"); setRet(f,ki,C(st.H[s].base,64)); break; }
    case B_CXA_FREE: { Obj* o=findObj(st,conc(0)); if(o) { o->dead=true; } break; }
    case B_CXA_THROW: { uint64_t o=conc(0), ti=conc(1); st.excType[o]=ti; unwind(st,o,ti); return; }
    case B_STDTHROW: { unsigned s=allocObj(st,st.H,KHEAP,16,true,"std exception"); unwind(st,st.H[s].base,0xfff); return; }
    case B_CXA_BEGIN: { uint64_t o=conc(0); st.caught.push_back({o,st.excTi}); setRet(f,ki,C(o,64)); break; }
    case B_CXA_END: { if(st.caught.empty()) engErr("end_catch"); Obj* o=findObj(st,st.caught.back().first); st.caught.pop_back(); if(o) o->dead=true; break; }
    case B_CXA_RETHROW: { auto p=st.caught.back(); unwind(st,p.first,p.second); return; }
    case B_GUARD_ACQ: { uint64_t p=conc(0); Val v=loadAt(st,p,8); setRet(f,ki,C(v.c?0:1,32)); break; }
    case B_GUARD_REL: { storeAt(st,conc(0),8,C(1,8)); break; }
    default: engErr(std::string("builtin ")+fname); }
  afterCall(st,ki); }

static bool execIntrinsic(State& st, const KInst& ki, Function* F) { Rewind rw_;
  Frame& f=st.fr.back(); Intrinsic::ID id=F->getIntrinsicID(); if(id==Intrinsic::not_intrinsic) return false;
  auto A=[&](int i,int k=0)->Val&{ return R(f,ki.ops[i],k); }; auto conc=[&](int i)->uint64_t{ Val v=A(i); uint64_t r=(uint64_t)concretize(st,v,ki.ops[i].w); if(ki.ops[i].s>=0) f.regs[ki.ops[i].s]=v; return r; };
  unsigned w=ki.ops.empty()?0:ki.ops[0].w; int nl=ki.leaves?ki.leaves->size():0;
  switch(id){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: break;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: setRet(f,ki,Val()); break;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: f.regs[ki.dest]=A(0); break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n=conc(2), d=conc(0), s=conc(1); copyMem(st,d,s,n); break; }
    case Intrinsic::memset: { uint64_t n=conc(2), d=conc(0); Val v=A(1); if(n){ Obj* o=access(st,d,n,true); for(uint64_t i=0;i<n;i++) wrByte(o,d-o->base+i,v);} break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { std::string m="trap (undefined behaviour)"; if(id==Intrinsic::ubsantrap) m="undefined behaviour, sanitizer check "+std::to_string((unsigned)A(0).c); report(st,"ub",m+" @ "+locStr(st).substr(0,100),*st.model); throw PathEnd{false}; }
    case Intrinsic::eh_typeid_for: { uint64_t ti=conc(0); setRet(f,ki,C(typeId(ti),32)); break; }
    case Intrinsic::is_constant: setRet(f,ki,C(0,1)); break;
    case Intrinsic::objectsize: { setRet(f,ki,C(A(1).c? 0: ~(u128)0,ki.leaves->at(0).w)); break; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: for(int i=0;i<nl;i++){ Val&a=A(0,i),&b=A(1,i); Val c=vbin(id==Intrinsic::umin||id==Intrinsic::umax?ULT:SLT,a,b,w); bool mn=id==Intrinsic::umin||id==Intrinsic::smin; Val r; if(!c.e) r=(c.c!=0)==mn? a:b; else r=E(X.ite(c.e,toE(mn?a:b,w),toE(mn?b:a,w))); f.regs[ki.dest+i]=r; } break;
    case Intrinsic::abs: for(int i=0;i<nl;i++){ Val a=A(0,i); Val n=vbin(SUB,C(0,w),a,w), c=vbin(SLT,a,C(0,w),w); f.regs[ki.dest+i]= c.e? E(X.ite(c.e,toE(n,w),toE(a,w))): c.c? n: a; } break;
    case Intrinsic::fabs: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=vbin(AND,A(0,i),C(maskw(w-1),w),w); break;
    case Intrinsic::copysign: f.regs[ki.dest]=vbin(OR,vbin(AND,A(0),C(maskw(w-1),w),w),vbin(AND,A(1),C((u128)1<<(w-1),w),w),w); break;
    case Intrinsic::usub_sat: { Val c=vbin(ULT,A(0),A(1),w), d=vbin(SUB,A(0),A(1),w); f.regs[ki.dest]= c.e? E(X.ite(c.e,X.cst(0,w),toE(d,w))): c.c? Val(): d; break; }
    case Intrinsic::uadd_sat: { Val s=vbin(ADD,A(0),A(1),w), c=vbin(ULT,s,A(0),w); f.regs[ki.dest]= c.e? E(X.ite(c.e,X.cst(~(u128)0,w),toE(s,w))): c.c? C(~(u128)0,w): s; break; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { Op op=id==Intrinsic::sadd_sat?ADD:SUB; Val a=vcast(Instruction::SExt,A(0),w,w+1), b=vcast(Instruction::SExt,A(1),w,w+1), s=vbin(op,a,b,w+1); u128 mx=maskw(w-1); Val hi=C(mx,w+1), lo=C(~mx,w+1); Val c1=vbin(SLT,hi,s,w+1), c2=vbin(SLT,s,lo,w+1); Expr* r=X.ite(toE(c1,1),X.cst(mx,w),X.ite(toE(c2,1),X.cst(mx+1,w),X.extract(toE(s,w+1),0,w))); f.regs[ki.dest]=E(r); break; }
    case Intrinsic::uadd_with_overflow: { Val s=vbin(ADD,A(0),A(1),w); Val o=vbin(ULT,s,A(0),w); f.regs[ki.dest+1]=o; f.regs[ki.dest]=s; break; }
    case Intrinsic::usub_with_overflow: { Val s=vbin(SUB,A(0),A(1),w); Val o=vbin(ULT,A(0),A(1),w); f.regs[ki.dest+1]=o; f.regs[ki.dest]=s; break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { bool add=id==Intrinsic::sadd_with_overflow; Val a=A(0),b=A(1); Val s=vbin(add?ADD:SUB,a,b,w); Val sa=vbin(SLT,a,C(0,w),w), sb=vbin(SLT,b,C(0,w),w), ss=vbin(SLT,s,C(0,w),w); Val o= add? vand(vnot(vbin(XOR,sa,sb,1)),vbin(XOR,sa,ss,1)) : vand(vbin(XOR,sa,sb,1),vbin(XOR,sa,ss,1)); f.regs[ki.dest]=s; f.regs[ki.dest+1]=o; break; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: { bool u=id==Intrinsic::umul_with_overflow; if(w>64) engErr("wide mul overflow"); if(!u){ Val a=A(0),b=A(1); unsigned na=a.e?sigBits(a.e):sigBits(X.cst(a.c,w)), nb=b.e?sigBits(b.e):sigBits(X.cst(b.c,w)); if((na+nb<=w)||(na+nb-1<=w&&((a.e?a.e->hi<=ExprCtx::full(w)/2:0)||(b.e?b.e->hi<=ExprCtx::full(w)/2:0)))){ f.regs[ki.dest]=vbin(MUL,a,b,w); f.regs[ki.dest+1]=C(0,1); break; } } unsigned c=u?Instruction::ZExt:Instruction::SExt; Val p=vbin(MUL,vcast(c,A(0),w,2*w),vcast(c,A(1),w,2*w),2*w); Val lo=vcast(Instruction::Trunc,p,2*w,w); Val o=vnot(vbin(EQ,vcast(c,lo,w,2*w),p,2*w)); f.regs[ki.dest]=lo; f.regs[ki.dest+1]=o; break; }
    case Intrinsic::ctlz: case Intrinsic::cttz: { Val a=A(0); if(!a.e){ unsigned n=0; if(id==Intrinsic::ctlz){ while(n<w&&!((a.c>>(w-1-n))&1)) n++; } else while(n<w&&!((a.c>>n)&1)) n++; setRet(f,ki,C(n,w)); break; }
        // decide bit by bit, so that the count is known on every path (it usually drives loops and sizes)
        unsigned k=0; for(;k<w;k++){ Expr* b=X.extract(a.e,id==Intrinsic::ctlz? w-1-k : k,1); if(branchOn(st,b)) break; } setRet(f,ki,C(k,w)); break; }
    case Intrinsic::ctpop: { Val a=A(0); Expr* e=toE(a,w); Expr* r=X.cst(0,w); for(unsigned k=0;k<w;k++) r=X.bin(ADD,r,X.zext(X.extract(e,k,1),w)); setRet(f,ki,E(r)); break; }
    case Intrinsic::bswap: { Expr* e=toE(A(0),w); Expr* r=X.extract(e,0,8); for(unsigned k=8;k<w;k+=8) r=X.concat(r,X.extract(e,k,8)); setRet(f,ki,E(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val amt=vbin(UREM,A(2),C(w,w),w); Expr* cc=X.concat(toE(A(0),w),toE(A(1),w)); if(2*w>128) { Expr* s=toE(amt,w); Expr* inv=X.bin(SUB,X.cst(w,w),s); Expr*a=toE(A(0),w),*b=toE(A(1),w); setRet(f,ki,E(id==Intrinsic::fshl? X.bin(OR,X.bin(SHL,a,s),X.bin(LSHR,b,inv)) : X.bin(OR,X.bin(SHL,a,inv),X.bin(LSHR,b,s)))); break; }
        Expr* s=X.zext(toE(amt,w),2*w); Expr* r= id==Intrinsic::fshl? X.extract(X.bin(SHL,cc,s),w,w) : X.extract(X.bin(LSHR,cc,s),0,w); setRet(f,ki,E(r)); break; }
    case Intrinsic::load_relative: { uint64_t b=conc(0); Val o=A(1); (void)b; (void)o; engErr("load.relative"); }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { Val r=A(0,0); Op op= id==Intrinsic::vector_reduce_add?ADD: id==Intrinsic::vector_reduce_or?OR:AND; for(int i=1;i<ki.ops[0].n;i++) r=vbin(op,r,A(0,i),w); setRet(f,ki,r); break; }
    case Intrinsic::fmuladd: { Val a=A(0),b=A(1),c=A(2); if(a.e||b.e||c.e) engErr("symbolic fp"); setRet(f,ki,C(dToBits(bitsToD(a.c,w)*bitsToD(b.c,w)+bitsToD(c.c,w),w),w)); break; }
    default: engErr("intrinsic "+F->getName().str()); }
  afterCall(st,ki); return true; }

static void finishPath(State& st) {
  S.paths++; for(auto&c:st.covers) gCovers[c]++;
  sampleSeen++; size_t pos=samples.size(); bool take=samples.size()<optSample; if(!take&&optSample){ uint64_t r=rnd()%sampleSeen; if(r<optSample){ take=true; pos=r; } }
  if(take){ PathSample p; p.in=inputsOf(st,*st.model); useModel(st); for(auto&t:st.trace){ u128 v=t.v.e? X.eval(t.v.e): t.v.c; p.trace.push_back({t.w,v}); } if(pos==samples.size()) samples.push_back(p); else samples[pos]=p; } }

static void step(State& st) {
  Frame& f=st.fr.back(); KInst& ki=f.f->insts[f.pc]; ki.hit=true; S.insts++; if(++st.insts>optMaxInsts){ report(st,"hang","path exceeds "+std::to_string(optMaxInsts)+" instructions",*st.model); throw PathEnd{false}; }
  auto A=[&](int i,int k=0)->Val&{ return R(f,ki.ops[i],k); }; int nl=ki.leaves?ki.leaves->size():0; Instruction* I=ki.I;
  auto conc=[&](int i)->uint64_t{ Val v=A(i); if(!v.e) return (uint64_t)v.c; uint64_t r=(uint64_t)concretize(st,v,ki.ops[i].w); if(ki.ops[i].s>=0) f.regs[ki.ops[i].s]=v; return r; };
  switch(ki.opc){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Op op; switch(ki.opc){ case Instruction::Add: op=ADD;break; case Instruction::Sub: op=SUB;break; case Instruction::Mul: op=MUL;break; case Instruction::And: op=AND;break; case Instruction::Or: op=OR;break; case Instruction::Xor: op=XOR;break; case Instruction::Shl: op=SHL;break; case Instruction::LShr: op=LSHR;break; default: op=ASHR; }
      for(int i=0;i<nl;i++) f.regs[ki.dest+i]=vbin(op,A(0,i),A(1,i),ki.ops[0].w); f.pc++; break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { unsigned w=ki.ops[0].w; Op op= ki.opc==Instruction::UDiv?UDIV: ki.opc==Instruction::SDiv?SDIV: ki.opc==Instruction::URem?UREM:SREM;
      for(int i=0;i<nl;i++){ Val z=vbin(EQ,A(1,i),C(0,w),w); if(branchOn(st,toE(z,1))) { report(st,"ub","division by zero @ "+locStr(st).substr(0,100),*st.model); throw PathEnd{false}; } 
          { Val a=A(0,i),b=A(1,i); const unsigned N=12; if(a.e&&w>=16&&w<=64&&!a.e->lin&&(a.e->hi>>N||(b.e&&b.e->hi>>N))&&(b.e||!(b.c>>N))){ // small values on this path: narrow division
              Expr* big=X.notE(X.bin(ULT,a.e,X.cst(1u<<N,w))); if(b.e) big=X.bin(OR,big,X.notE(X.bin(ULT,b.e,X.cst(1u<<N,w)))); std::shared_ptr<Model> m; if(!X.eval(big)&&query(st,big,&m)==0){ f.regs[ki.dest+i]=E(X.divSmall(op,a.e,toE(b,w),w,N)); continue; } } }
          f.regs[ki.dest+i]=vbin(op,A(0,i),A(1,i),w); } f.pc++; break; }
    case Instruction::ICmp: { unsigned w=ki.ops[0].w; for(int i=0;i<nl;i++){ Val&a=A(0,i),&b=A(1,i); Val r; switch(cast<ICmpInst>(I)->getPredicate()){ case CmpInst::ICMP_EQ: r=vbin(EQ,a,b,w);break; case CmpInst::ICMP_NE: r=vnot(vbin(EQ,a,b,w));break; case CmpInst::ICMP_ULT: r=vbin(ULT,a,b,w);break; case CmpInst::ICMP_ULE: r=vbin(ULE,a,b,w);break; case CmpInst::ICMP_UGT: r=vbin(ULT,b,a,w);break; case CmpInst::ICMP_UGE: r=vbin(ULE,b,a,w);break; case CmpInst::ICMP_SLT: r=vbin(SLT,a,b,w);break; case CmpInst::ICMP_SLE: r=vbin(SLE,a,b,w);break; case CmpInst::ICMP_SGT: r=vbin(SLT,b,a,w);break; case CmpInst::ICMP_SGE: r=vbin(SLE,b,a,w);break; default: engErr("icmp"); } f.regs[ki.dest+i]=r; } f.pc++; break; }
    case Instruction::FCmp: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=fcmpV(cast<FCmpInst>(I)->getPredicate(),A(0,i),A(1,i),ki.ops[0].w); f.pc++; break;
    case Instruction::FNeg: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=vbin(XOR,A(0,i),C((u128)1<<(ki.ops[0].w-1),ki.ops[0].w),ki.ops[0].w); f.pc++; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { unsigned w=ki.ops[0].w; if(w!=32&&w!=64) engErr("fp width"); for(int i=0;i<nl;i++){ Val a=A(0,i),b=A(1,i); if(a.e||b.e) engErr("symbolic floating-point arithmetic"); double x=bitsToD(a.c,w),y=bitsToD(b.c,w),r; if(w==32){ float p=x,q=y; r= ki.opc==Instruction::FAdd? p+q: ki.opc==Instruction::FSub? p-q: ki.opc==Instruction::FMul? p*q: p/q; } else r= ki.opc==Instruction::FAdd? x+y: ki.opc==Instruction::FSub? x-y: ki.opc==Instruction::FMul? x*y: x/y; f.regs[ki.dest+i]=C(dToBits(r,w),w);} f.pc++; break; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w=ki.ops[0].w; for(int i=0;i<nl;i++){ unsigned tw=(*ki.leaves)[i].w; Val a=A(0,i);
        if (ki.opc==Instruction::FPExt && w==32 && tw==64 && a.e) { // float -> double, bit level
          Expr* x=a.e; Expr* sgn=X.extract(x,31,1); Expr* ex=X.extract(x,23,8); Expr* mant=X.extract(x,0,23);
          Expr* norm=X.concat(sgn,X.concat(X.bin(ADD,X.zext(ex,11),X.cst(896,11)),X.concat(mant,X.cst(0,29)))); Expr* infn=X.concat(sgn,X.concat(X.cst(0x7ff,11),X.concat(X.bin(OR,mant,X.ite(X.bin(EQ,mant,X.cst(0,23)),X.cst(0,23),X.cst(1u<<22,23))),X.cst(0,29))));
          // subnormal: normalise
          Expr* sub=X.concat(sgn,X.cst(0,63)); for(int b=0;b<23;b++){ // highest set bit b
            Expr* m2=X.extract(X.bin(SHL,mant,X.cst(23-b,23)),0,23); Expr* val=X.concat(sgn,X.concat(X.cst(1023-149+b,11),X.concat(m2,X.cst(0,29)))); Expr* has=X.extract(mant,b,1); sub=X.ite(has,val,sub); }
          f.regs[ki.dest+i]=E(X.ite(X.bin(EQ,ex,X.cst(255,8)),infn,X.ite(X.bin(EQ,ex,X.cst(0,8)),sub,norm))); continue; }
        if(a.e||(w>64&&ki.opc<Instruction::SIToFP)) engErr("symbolic fp conversion"); double r; switch(ki.opc){ case Instruction::FPExt: case Instruction::FPTrunc: r=bitsToD(a.c,w); f.regs[ki.dest+i]=C(dToBits(r,tw),tw); break; case Instruction::SIToFP: if(tw==32){ float q=(float)(int64_t)sextw(a.c,w); uint32_t u; memcpy(&u,&q,4); f.regs[ki.dest+i]=C(u,32);} else f.regs[ki.dest+i]=C(dToBits((double)(int64_t)sextw(a.c,w),tw),tw); break; case Instruction::UIToFP: if(tw==32){ float q=(float)(uint64_t)a.c; uint32_t u; memcpy(&u,&q,4); f.regs[ki.dest+i]=C(u,32);} else f.regs[ki.dest+i]=C(dToBits((double)(uint64_t)a.c,tw),tw); break; case Instruction::FPToSI: f.regs[ki.dest+i]=C((u128)(int64_t)bitsToD(a.c,w),tw); break; default: f.regs[ki.dest+i]=C((u128)(uint64_t)bitsToD(a.c,w),tw); } } f.pc++; break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=vcast(ki.opc,A(0,i),ki.ops[0].w,(*ki.leaves)[i].w); f.pc++; break;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: { unsigned sw=ki.ops[0].w; if(nl==ki.ops[0].n){ for(int i=0;i<nl;i++) f.regs[ki.dest+i]=A(0,i); } else { unsigned tot=sw*ki.ops[0].n; if(tot>128) engErr("wide bitcast"); Expr* e=toE(A(0,0),sw); for(int i=1;i<ki.ops[0].n;i++) e=X.concat(toE(A(0,i),sw),e); unsigned tw=(*ki.leaves)[0].w; for(int i=0;i<nl;i++) f.regs[ki.dest+i]=E(X.extract(e,i*tw,tw)); } f.pc++; break; }
    case Instruction::Freeze: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=A(0,i); f.pc++; break;
    case Instruction::Select: for(int i=0;i<nl;i++){ Val c=A(0,ki.ops[0].n>1?i:0); Val r; unsigned w=(*ki.leaves)[i].w; if(!c.e) r=c.c? A(1,i):A(2,i); else r=E(X.ite(c.e,toE(A(1,i),w),toE(A(2,i),w))); f.regs[ki.dest+i]=r; } f.pc++; break;
    case Instruction::ExtractValue: for(int i=0;i<nl;i++) f.regs[ki.dest+i]=A(0,ki.ix[0]+i); f.pc++; break;
    case Instruction::InsertValue: { for(int i=0;i<nl;i++) f.regs[ki.dest+i]=A(0,i); for(int i=0;i<ki.ops[1].n;i++) f.regs[ki.dest+ki.ix[0]+i]=A(1,i); f.pc++; break; }
    case Instruction::ExtractElement: { uint64_t ix=conc(1); if(ix>=ki.ops[0].n) engErr("extractelement"); f.regs[ki.dest]=A(0,ix); f.pc++; break; }
    case Instruction::InsertElement: { uint64_t ix=conc(2); Val v=A(1); for(int i=0;i<nl;i++) f.regs[ki.dest+i]=A(0,i); if(ix<(uint64_t)nl) f.regs[ki.dest+ix]=v; f.pc++; break; }
    case Instruction::ShuffleVector: { int n0=ki.ops[0].n; std::vector<Val> t; for(int m:ki.ix) t.push_back(m<0? Val(): m<n0? A(0,m): A(1,m-n0)); for(size_t i=0;i<t.size();i++) f.regs[ki.dest+i]=t[i]; f.pc++; break; }
    case Instruction::GetElementPtr: { Val p=A(0); if(ki.gepOff) p=vbin(ADD,p,C((u128)(i128)ki.gepOff,64),64); for(auto&g:ki.gep){ Val ix=vcast(Instruction::SExt,R(f,g.op),g.op.w,64); if(g.op.w>64) ix=vcast(Instruction::Trunc,R(f,g.op),g.op.w,64); p=vbin(ADD,p,vbin(MUL,ix,C((u128)(i128)g.scale,64),64),64); } f.regs[ki.dest]=p; f.pc++; break; }
    case Instruction::Alloca: { uint64_t n=conc(0); unsigned s=allocObj(st,st.K,KSTACK,(uint32_t)(n*ki.sz),true,"stack variable"); f.regs[ki.dest]=C(st.K[s].base,64); f.pc++; break; }
    case Instruction::Load: { if(nl==1&&A(0).e){ Val r=loadSym(st,A(0),(*ki.leaves)[0].w); f.regs[ki.dest]=r; } else { uint64_t a=conc(0); for(int i=0;i<nl;i++) f.regs[ki.dest+i]=loadAt(st,a+(*ki.leaves)[i].off,(*ki.leaves)[i].w); } f.pc++; break; }
    case Instruction::Store: { uint64_t a=conc(1); auto& L=leavesOf(I->getOperand(0)->getType()); for(size_t i=0;i<L.size();i++) storeAt(st,a+L[i].off,L[i].w,A(0,i)); f.pc++; break; }
    case Instruction::Br: { if(ki.ops.empty()){ gotoBlock(f,ki.tgt[0]); break; } Val c=A(0); if(!c.e){ gotoBlock(f,ki.tgt[c.c?0:1]); break; }
        // fork so that both continuations take their own edge
        Expr* e=c.e; bool side=X.eval(e)!=0; Expr* t=side?e:X.notE(e); Expr* o=side?X.notE(e):e; std::shared_ptr<Model> m2; int r=query(st,o,&m2);
        if(r==1){ auto n=std::make_unique<State>(st); n->model=m2; addPc(*n,o); S.forks++; addPc(st,t); gotoBlock(n->fr.back(),ki.tgt[side?1:0]); work.push_back(std::move(n)); } else if(r<0) { incomplete("solver gave no answer on a branch"); addPc(st,t); }
        gotoBlock(f,ki.tgt[side?0:1]); break; }
    case Instruction::Switch: { Val c=A(0); unsigned w=ki.ops[0].w; if(!c.e){ int t=ki.tgt[0]; for(auto&p:ki.cases) if(p.first==c.c){ t=p.second; break; } gotoBlock(f,t); break; }
        std::map<int,Expr*> conds; std::vector<int> order; Expr* any=X.fls(); for(auto&p:ki.cases){ Expr* q=X.bin(EQ,c.e,X.cst(p.first,w)); any=X.bin(OR,any,q); if(!conds.count(p.second)){ conds[p.second]=q; order.push_back(p.second);} else conds[p.second]=X.bin(OR,conds[p.second],q); }
        Expr* def=X.notE(any); if(conds.count(ki.tgt[0])) conds[ki.tgt[0]]=X.bin(OR,conds[ki.tgt[0]],def); else { conds[ki.tgt[0]]=def; order.push_back(ki.tgt[0]); }
        int mine=-1; for(int t:order) if(X.eval(conds[t])){ mine=t; break; } if(mine<0) engErr("switch");
        for(int t:order) if(t!=mine){ std::shared_ptr<Model> m2; int r=query(st,conds[t],&m2); if(r==1){ auto n=std::make_unique<State>(st); n->model=m2; addPc(*n,conds[t]); S.forks++; gotoBlock(n->fr.back(),t); work.push_back(std::move(n)); } else if(r<0) incomplete("solver gave no answer on a switch"); }
        addPc(st,conds[mine]); gotoBlock(f,mine); break; }
    case Instruction::Call: case Instruction::Invoke: { KFunction* k=ki.callee; size_t na=ki.ops.size();
        if(!k){ if(cast<CallBase>(I)->isInlineAsm()) { f.pc++; if(ki.dest>=0) for(int i=0;i<nl;i++) f.regs[ki.dest+i]=Val(); auto* ia=cast<InlineAsm>(cast<CallBase>(I)->getCalledOperand()); if(!ia->getAsmString().empty()) engErr("inline asm"); afterCall(st,ki); break; }
          na--; uint64_t a=conc(na); unsigned slot=(a>>32)&0xfffff; if((a>>60)!=KFUNC||slot>=funcBySlot.size()||a!=funcBySlot[slot]->addr){ report(st,"memory","call through invalid function pointer @ "+locStr(st).substr(0,100),*st.model); throw PathEnd{false}; } k=funcBySlot[slot]; }
        if (k->F->isIntrinsic()) { f.pc++; execIntrinsic(st,ki,k->F); break; }
        if (k->F->isDeclaration()) { if(k->builtin<0) engErr("call of unmodelled external function "+k->F->getName().str()); f.pc++; execBuiltin(st,ki,k->builtin,k->F->getName().str().c_str()); break; }
        if (k->builtin==B_FAIL||k->builtin==B_ASSUME) { f.pc++; execBuiltin(st,ki,k->builtin,k->F->getName().str().c_str()); break; }
        std::vector<Val> args; for(size_t i=0;i<na;i++) for(int j=0;j<ki.ops[i].n;j++) args.push_back(A(i,j)); f.pc++; enter(st,k,args,&ki); break; }
    case Instruction::Ret: { std::vector<Val> rv; if(!ki.ops.empty()) for(int i=0;i<ki.ops[0].n;i++) rv.push_back(A(0,i)); const KInst* site=f.site; popFrame(st); if(st.fr.empty()) throw PathEnd{true}; Frame& g=st.fr.back(); if(site&&site->dest>=0) for(size_t i=0;i<rv.size();i++) g.regs[site->dest+i]=rv[i]; if(site) afterCall(st,*site); break; }
    case Instruction::Resume: { uint64_t o=(uint64_t)A(0,0).c; uint64_t ti=st.excType.count(o)?st.excType[o]:st.excTi; // current frame has no handler any more
        popFrame(st); unwind(st,o,ti); break; }
    case Instruction::Unreachable: report(st,"ub","unreachable code reached @ "+locStr(st).substr(0,100),*st.model); throw PathEnd{false};
    case Instruction::Fence: f.pc++; break;
    case Instruction::AtomicRMW: { uint64_t a=conc(0); unsigned w=(*ki.leaves)[0].w; Val old=loadAt(st,a,w), v=A(1), n; switch(cast<AtomicRMWInst>(I)->getOperation()){ case AtomicRMWInst::Add: n=vbin(ADD,old,v,w);break; case AtomicRMWInst::Sub: n=vbin(SUB,old,v,w);break; case AtomicRMWInst::Xchg: n=v;break; case AtomicRMWInst::Or: n=vbin(OR,old,v,w);break; default: engErr("atomicrmw"); } storeAt(st,a,w,n); f.regs[ki.dest]=old; f.pc++; break; }
    default: engErr(std::string("instruction ")+I->getOpcodeName()); } }

// ------------------------------------------------------------------ json
static std::string jstr(const std::string& s){ std::string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
static std::string hex128(u128 v){ char b[40]; if(v>>64) snprintf(b,40,"%llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); else snprintf(b,40,"%llx",(unsigned long long)v); return b; }
static std::string inJson(const std::vector<std::pair<std::string,std::pair<unsigned,u128>>>& in){ std::string s="{"; bool first=true; std::set<std::string> seen; for(auto&p:in){ if(!seen.insert(p.first).second) continue; if(!first) s+=","; first=false; s+=jstr(p.first)+":\""+hex128(p.second.second)+"\""; } return s+"}"; }

static void writeOut(double wall, const std::string& err) {
  std::string o="{"; auto N=[&](const char* k, double v){ char b[64]; snprintf(b,64,"\"%s\":%.15g,",k,v); o+=b; };
  N("insts",S.insts);N("forks",S.forks);N("paths",S.paths);N("queries",S.queries);N("sat",S.qsat);N("unsat",S.qunsat);N("unknown",S.qunk);N("cache_hits",S.cacheHits);N("model_hits",S.modelHits);N("interval_decided",S.quick);N("checks",S.checks);N("checks_solver",S.checksSolver);N("checks_simplified",S.checksConst);N("assume_dead",S.assumeDead);N("solver_s",S.solver);N("wall_s",wall); N("pending",work.size()); N("vars",X.vars.size()); N("exprs",X.nextId);
  struct rusage ru; getrusage(RUSAGE_SELF,&ru); N("rss_mb",ru.ru_maxrss/1024);
  o+="\"incomplete\":["; bool fi=true; for(auto&w:gIncompleteWhy){ if(!fi)o+=","; fi=false; o+=jstr(w);} o+="],"; if(!err.empty()) o+="\"error\":"+jstr(err)+",";
  o+="\"covers\":{"; fi=true; for(auto&c:gCovers){ if(!fi)o+=","; fi=false; o+=jstr(c.first)+":"+std::to_string(c.second);} o+="},\"violations\":["; fi=true;
  for(auto&v:viols){ if(!fi)o+=","; fi=false; o+="{\"kind\":"+jstr(v.kind)+",\"msg\":"+jstr(v.msg)+",\"loc\":"+jstr(v.loc)+",\"inputs\":"+inJson(v.in)+"}"; } o+="],\"samples\":["; fi=true;
  for(auto&p:samples){ if(!fi)o+=","; fi=false; o+="{\"inputs\":"+inJson(p.in)+",\"trace\":["; for(size_t i=0;i<p.trace.size();i++){ if(i)o+=","; o+="\""+hex128(p.trace[i].second)+"\""; } o+="]}"; } o+="],";
  // strf functions and lines encoded
  std::set<std::string> fns; std::map<std::string,std::set<unsigned>> lines; for(auto*k:funcBySlot) for(auto&ki:k->insts) if(ki.hit) if(auto dl=ki.I->getDebugLoc()) for(DILocation* d=dl.get();d;d=d->getInlinedAt()){ StringRef fn=d->getFilename(); size_t p=fn.find("include/strf"); if(p==StringRef::npos) continue; lines[fn.substr(p+8).str()].insert(d->getLine()); if(auto*sp=d->getScope()->getSubprogram()) { StringRef ln=sp->getLinkageName(); fns.insert((ln.empty()?sp->getName():ln).str()); } }
  o+="\"functions\":["; fi=true; for(auto&s:fns){ if(!fi)o+=","; fi=false; o+=jstr(s);} o+="],\"lines\":{"; fi=true; for(auto&l:lines){ if(!fi)o+=","; fi=false; o+=jstr(l.first)+":["; bool g=true; for(unsigned n:l.second){ if(!g)o+=","; g=false; o+=std::to_string(n);} o+="]"; } o+="}}\n";
  if(optOut.empty()) fputs(o.c_str(),stdout); else { FILE* f=fopen(optOut.c_str(),"w"); fputs(o.c_str(),f); fclose(f); } }

static void z3err(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); fflush(stderr); _exit(3); }

int main(int argc, char** argv) {
  std::vector<std::string> bcs; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--set"){ std::string kv=nx(); size_t p=kv.find('='); cfg[kv.substr(0,p)]=strtoull(kv.c_str()+p+1,0,0); } else if(a=="--max-time") optMaxTime=atof(argv[++i]); else if(a=="--max-paths") optMaxPaths=strtoull(argv[++i],0,0); else if(a=="--max-insts") optMaxInsts=strtoull(argv[++i],0,0); else if(a=="--samples") optSample=strtoull(argv[++i],0,0); else if(a=="--query-ms") optQueryMs=atoi(argv[++i]); else if(a=="-v") optVerbose=true; else if(a=="--out") optOut=nx(); else if(a=="--seed") optSeed=strtoull(argv[++i],0,0); else if(a=="--entry") optEntry=nx(); else if(a=="--max-viol") optMaxViol=atoi(argv[++i]); else if(a=="--dump-smt") optDumpSmt=nx(); else if(a=="--reset") optReset=atoi(argv[++i]); else bcs.push_back(a); }
  rngState=optSeed*0x9E3779B97F4A7C15ull+12345; if(!rngState) rngState=1; double t0=now(); std::string err;
  struct rlimit rl; rl.rlim_cur=rl.rlim_max=512u<<20; setrlimit(RLIMIT_STACK,&rl);
  Z3_config zc=Z3_mk_config(); Z=Z3_mk_context(zc); Z3_set_error_handler(Z,z3err); X.z=Z; resetSolver();
  try {
    SMDiagnostic D; for(auto&b:bcs){ auto m=parseIRFile(b,D,LC); if(!m) { engErr("cannot read "+b+": "+D.getMessage().str()); } if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))) engErr("link failed"); }
    DL=&M->getDataLayout();
    // globals: first addresses, then contents
    auto st=std::make_unique<State>(); st->model=std::make_shared<Model>(); cur=st.get(); useModel(*st);
    unsigned slot=0; for(auto&g:M->globals()){ Obj o; uint64_t sz= g.getValueType()->isSized()? (uint64_t)DL->getTypeAllocSize(g.getValueType()): 0; if(g.isDeclaration()&&sz<128) sz=128; o.kind=KGLOBAL; o.base=mkBase(KGLOBAL,0,slot); o.size=(uint32_t)sz; o.dead=false; o.name=strdup(g.getName().str().c_str()); o.d=std::make_shared<ObjData>(); o.d->b.assign(sz,0); initGlobals.push_back(o); gvSlot[&g]=slot++; }
    for(auto&f:*M) getFn(&f);
    for(auto&g:M->globals()) { Obj& o=initGlobals[gvSlot[&g]]; if(g.hasInitializer()&&!g.getName().starts_with("llvm.")){ std::vector<Val> v; constVals(g.getInitializer(),v); auto& L=leavesOf(g.getValueType()); if(v.size()!=L.size()) engErr("initializer leaves"); for(size_t i=0;i<L.size();i++){ unsigned n=(L[i].w+7)/8; for(unsigned k=0;k<n;k++) o.d->b[L[i].off+k]=(uint8_t)(v[i].c>>(8*k)); } } o.ro=g.isConstant(); }
    leafCache.clear(); 
    st->G=initGlobals;
    // static constructors, then the entry, executed as a call sequence: build frames in reverse order
    Function* EF=M->getFunction(optEntry); if(!EF||EF->isDeclaration()) engErr("no entry "+optEntry); KFunction* ek=getFn(EF);
    std::vector<KFunction*> ctors; if(auto*g=M->getNamedGlobal("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())) for(unsigned i=0;i<ca->getNumOperands();i++) if(auto*fn=dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts())) ctors.push_back(getFn(fn));
    for(auto*k:ctors){ enter(*st,k,{},nullptr); try { while(true) step(*st); } catch(PathEnd& p){ if(!p.completed) engErr("static constructor failed"); } if(!work.empty()) engErr("static constructor forked"); st->insts=0; }
    enter(*st,ek,{},nullptr); work.push_back(std::move(st)); double lastPrint=now();
    while(!work.empty()) {
      auto s=std::move(work.back()); work.pop_back(); cur=s.get(); useModel(*s);
      try { unsigned cnt=0; while(true){ step(*s); if((++cnt&0x3ff)==0 && now()-t0>optMaxTime){ incomplete("time limit of "+std::to_string((int)optMaxTime)+" s reached"); throw PathEnd{false}; } } }
      catch(PathEnd& p){ if(p.completed) finishPath(*s); }
      if(now()-t0>optMaxTime){ if(!work.empty()) incomplete("time limit of "+std::to_string((int)optMaxTime)+" s reached"); break; }
      if(optMaxPaths&&S.paths>=optMaxPaths){ if(!work.empty()) incomplete("path limit reached"); break; }
      if(viols.size()>=optMaxViol) { if(!work.empty()) incomplete("stopped after enough violations"); break; }
      if(X.nextId>30000000) { incomplete("expression memory limit"); break; }
      if(optVerbose&&now()-lastPrint>5){ lastPrint=now(); fprintf(stderr,"[%.0fs] paths %llu pending %zu insts %llu queries %llu (%.1fs) cache %llu\n",now()-t0,(unsigned long long)S.paths,work.size(),(unsigned long long)S.insts,(unsigned long long)S.queries,S.solver,(unsigned long long)S.cacheHits); }
    }
  } catch(EngineError& e){ err=e.msg; if(cur&&!cur->fr.empty()) err+=" @ "+locStr(*cur); }
  writeOut(now()-t0,err); fflush(stdout); _exit(err.empty()?0:2);
}
