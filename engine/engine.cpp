// sxe - symbolic executor for LLVM 18 IR with a Z3 back end.
// Executes the real (clang-compiled) code of a harness + library; all inputs made with vf_* are symbolic.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <sstream>
#include <functional>
#include <deque>
#include <numeric>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;
typedef ::Expr SExpr;

static ExprPool P; static Solver S(P);
struct Val { SExpr* e=nullptr; uint64_t c=0; Val(){} template<class I,class=std::enable_if_t<std::is_integral<I>::value>> Val(I v):c((uint64_t)v){} Val(SExpr*x){ if(x->op==O_CONST) c=x->c; else e=x; } bool sym()const{return e!=nullptr;} };
static SExpr* X(const Val&v,unsigned w){ return v.e?v.e:P.K(v.c,w); }
static vector<vector<Val>> aggPool;
static Val mkAgg(vector<Val> v){ aggPool.push_back(std::move(v)); return Val((uint64_t)aggPool.size()-1); }

struct Unsupported{ string what; };
struct KillState{};                     // terminate current path (infeasible or after a reported error)

static SExpr* const UNDEF=(SExpr*)1;
struct Cell { SExpr*e; uint8_t i; Cell(SExpr*x=nullptr,uint8_t n=0):e(x),i(n){} explicit operator bool()const{return e!=nullptr;} bool operator==(SExpr*x)const{return e==x;} bool operator!=(SExpr*x)const{return e!=x;} };   // byte i of e
struct Obj { uint64_t base,size; char kind; bool freed=false; vector<uint8_t> b; vector<Cell> s; string name; };
typedef shared_ptr<Obj> pObj;

struct KInst; struct KFunc;
struct Opnd { int slot=-1; Val v; };
struct KInst { Instruction*I; int dest; vector<Opnd> ops; KFunc*callee=nullptr; int ext=-1; BasicBlock*bb; };
struct KBlock { vector<KInst> ins; int firstNonPhi=0; bool seen=false; };
struct KFunc { Function*F; int nslots=0; DenseMap<const Value*,int> slot; DenseMap<const BasicBlock*,int> bbi; vector<KBlock> blocks; string pretty; bool used=false; };

struct Frame { KFunc*f; int bb=0, pc=0, prev=-1; vector<Val> r; vector<uint64_t> allocas; };
struct Thread { vector<Frame> st; vector<uint64_t> caught; bool done=false; };
struct Exc { uint64_t tinfo=0; int64_t adj=0; };
struct Input { string name; Val v; unsigned w; };
struct State {
  std::map<uint64_t,pObj> mem; vector<Thread> th; int cur=0; vector<SExpr*> pc; pModel model; std::unordered_map<SExpr*,uint64_t> known;
  std::map<uint64_t,Exc> exc; vector<Input> in; vector<Val> obs; uint64_t steps=0; vector<int> forkLocs; int idle=0;
};
typedef shared_ptr<State> pState;

struct Violation { string kind,msg,where; vector<std::pair<string,string>> in; vector<uint64_t> vals; };

static LLVMContext C; static std::unique_ptr<Module> M; static const DataLayout*DL;
static std::map<uint64_t,pObj> gconst;                 // immutable globals
static DenseMap<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<uint64_t,Function*> faddr; static std::unordered_map<string,uint64_t> extGlob;
static DenseMap<Function*,KFunc*> kfuncs; static std::set<string> usedLinkage;
static uint64_t nextAddr=0x10000000ull; static const uint64_t GAP=1<<20;
static vector<pState> work; static State*cur=nullptr; static vector<Violation> viols;
static uint64_t totalSteps=0,paths=0,killed=0,maxSteps=50000000ull,nAssert=0,nAssertSolver=0,nAssume=0,forks=0; static double maxTime=800; static double t0; static int maxViol=1; static string inconclusive; static bool trace=false;
static std::map<string,uint64_t> assertSites, reachSites; static std::set<string> usedFuncs, stubbed; static vector<vector<std::pair<string,uint64_t>>> witnesses; static vector<vector<uint64_t>> witObs; static int wantWit=3; static size_t maxPathSteps=0;

static uint64_t allocAddr(uint64_t size){ uint64_t a=nextAddr; nextAddr+=((size+15)/16*16)+GAP; nextAddr=(nextAddr+63)&~63ull; return a; }
static pObj newObj(uint64_t size,char kind,bool undef){ auto o=std::make_shared<Obj>(); o->base=allocAddr(size); o->size=size; o->kind=kind; o->b.assign(size,0); if(undef&&size) o->s.assign(size,Cell(UNDEF)); return o; }

static SExpr* subst(State&s,SExpr*e){
  if(s.known.empty()||e->op==O_CONST) return e;
  std::unordered_map<SExpr*,SExpr*> memo;
  std::function<SExpr*(SExpr*)> go=[&](SExpr*x)->SExpr*{ if(x->op==O_CONST) return x; auto k=s.known.find(x); if(k!=s.known.end()) return P.K(k->second,x->w); if(x->k.empty()) return x; auto m=memo.find(x); if(m!=memo.end()) return m->second; bool ch=false; vector<SExpr*> ks; for(auto*y:x->k){ auto*z=go(y); ch|=z!=y; ks.push_back(z);} SExpr*r=ch?P.rebuild(x,ks):x; memo[x]=r; return r; };
  return go(e);
}
static void learn(State&s,SExpr*c){ // remember equalities with constants for substitution
  if(c->op==O_EQ && c->k[1]->op==O_CONST) s.known[c->k[0]]=c->k[1]->c;
  else if(c->op==O_AND && c->w==1){ learn(s,c->k[0]); learn(s,c->k[1]); }
  else if(c->w==1 && c->op!=O_CONST){ s.known[c]=1; if(c->op==O_XOR&&c->k[1]->op==O_CONST) s.known[c->k[0]]=0; }
}
static void addPC(State&s,SExpr*c){ if(c->op==O_CONST) return; if(c->op==O_AND){ addPC(s,c->k[0]); addPC(s,c->k[1]); return; } for(auto*x:s.pc) if(x==c) return; s.pc.push_back(c); learn(s,c); }
// evaluate cond under the state's model; returns -1 if not evaluable
static int modelEval(State&s,SExpr*c){ if(c->hasUF) return -1; Solver::EvalCtx ec; uint64_t v=S.eval(c,*s.model,ec); if(!ec.ok) return -1; S.st.modelHits++; return v?1:0; }
static int solve(State&s,SExpr*c,pModel&m){ int r=S.check(s.pc,c,s.model,m); if(r<0){ throw Unsupported{"solver returned unknown (timeout)"}; } return r; }

static string loc(State&s){ string o; auto&st=s.th[s.cur].st; int n=0; for(int i=(int)st.size()-1;i>=0&&n<8;--i,++n){ auto&f=st[i]; string l=demangle(f.f->F->getName().str()); if(f.bb<(int)f.f->blocks.size()&&f.pc<(int)f.f->blocks[f.bb].ins.size()){ if(auto&d=f.f->blocks[f.bb].ins[f.pc].I->getDebugLoc()) l=d->getFilename().str()+":"+std::to_string(d.getLine())+" "+l; } if(l.size()>160) l=l.substr(0,160); o+=(n?" <- ":"")+l; } return o; }
static string fmtIn(const Input&i,uint64_t v){ return std::to_string(sx(v,i.w)); }
static void report(State&s,pModel m,const string&kind,const string&msg){
  Violation v; v.kind=kind; v.msg=msg; v.where=loc(s); Solver::EvalCtx ec; for(auto&i:s.in){ uint64_t x=i.v.sym()?S.eval(i.v.e,*m,ec):i.v.c; v.in.push_back({i.name,fmtIn(i,x)}); v.vals.push_back(x);} viols.push_back(v);
  std::cerr<<"[sxe] VIOLATION "<<kind<<": "<<msg<<"\n   at "<<v.where<<"\n   inputs:"; for(auto&p:v.in) std::cerr<<" "<<p.first<<"="<<p.second; std::cerr<<"\n";
}
[[noreturn]] static void fail(State&s,const string&kind,const string&msg){ report(s,s.model,kind,msg); throw KillState(); }

static pState fork(State&s){ forks++; return std::make_shared<State>(s); }
// branch decision: 1 true / 0 false; if both feasible a clone (with ¬c) is returned in other
static int decide(State&s,SExpr*c,pState&other){
  c=subst(s,c); if(c->op==O_CONST) return c->c?1:0;
  int mv=modelEval(s,c); SExpr*n=P.not_(c); pModel m1,m0;
  bool t,f; if(mv==1){ t=true; m1=s.model; f=solve(s,n,m0)==1; } else if(mv==0){ f=true; m0=s.model; t=solve(s,c,m1)==1; } else { t=solve(s,c,m1)==1; f=solve(s,n,m0)==1; }
  if(t&&f){ other=fork(s); addPC(*other,n); other->model=m0; addPC(s,c); s.model=m1; return 1; }
  if(t){ s.model=m1; s.known[c]=1; return 1; } if(f){ s.model=m0; s.known[c]=0; return 0; }
  throw KillState();
}
// fork over all values; clones re-execute the current instruction
static uint64_t concretize(State&s,Val v,unsigned w){
  if(!v.sym()) return v.c; SExpr*e=subst(s,v.e); if(e->op==O_CONST) return e->c;
  uint64_t val; if(e->hasUF){ throw Unsupported{"concretize uninterpreted"}; }
  Solver::EvalCtx ec; val=S.eval(e,*s.model,ec); SExpr*q=P.eq(e,P.K(val,e->w)); pModel m; if(solve(s,P.not_(q),m)==1){ auto o=fork(s); addPC(*o,P.not_(q)); o->model=m; work.push_back(o); }
  addPC(s,q); s.known[e]=val; return val;
}

static Obj* findObj(State&s,uint64_t a){ auto it=s.mem.upper_bound(a); if(it!=s.mem.begin()){ --it; Obj*o=it->second.get(); if(a<o->base+o->size||(o->size==0&&a==o->base)) return o; } auto jt=gconst.upper_bound(a); if(jt!=gconst.begin()){ --jt; Obj*o=jt->second.get(); if(a<o->base+o->size) return o; } return nullptr; }
static Obj* writable(State&s,Obj*o){ auto it=s.mem.find(o->base); if(it==s.mem.end()) fail(s,"memory","write to constant memory "+o->name); if(it->second.use_count()>1) it->second=std::make_shared<Obj>(*it->second); return it->second.get(); }
static string nearObj(State&s,uint64_t a){ std::ostringstream o; o<<std::hex<<a<<std::dec; auto it=s.mem.upper_bound(a); if(it!=s.mem.begin()){ --it; o<<" (offset "<<(int64_t)(a-it->second->base)<<" past start of "<<it->second->size<<"-byte object kind "<<it->second->kind<<(it->second->freed?" freed":"")<<")"; } if(a<0x1000) o<<" (null dereference)"; return o.str(); }

static Val loadConc(State&s,Obj*o,uint64_t off,unsigned nbytes){
  bool conc=true; if(!o->s.empty()) for(unsigned i=0;i<nbytes;++i) if(o->s[off+i]){conc=false;break;}
  if(conc){ uint64_t v=0; memcpy(&v,&o->b[off],nbytes); return Val(v); }
  bool anyU=false,allU=true; for(unsigned i=0;i<nbytes;++i) if(o->s[off+i]==UNDEF) anyU=true; else allU=false;
  if(anyU){ o=writable(s,o); if(allU){ SExpr*v=P.var("undef",nbytes*8,true); for(unsigned i=0;i<nbytes;++i) o->s[off+i]=Cell(v,i); return Val(v); }
    for(unsigned i=0;i<nbytes;++i) if(o->s[off+i]==UNDEF) o->s[off+i]=Cell(P.var("undef",8,true),0); }
  SExpr*r=nullptr; unsigned i=0; while(i<nbytes){ unsigned j=i+1; SExpr*p; Cell&c=o->s[off+i];
    if(!c){ while(j<nbytes&&!o->s[off+j]) ++j; uint64_t v=0; memcpy(&v,&o->b[off+i],j-i); p=P.K(v,8*(j-i)); }
    else { while(j<nbytes&&o->s[off+j].e==c.e&&o->s[off+j].i==c.i+(j-i)) ++j; p=P.extract(c.e,8*c.i,8*(j-i)); }
    r=r?P.concat(p,r):p; i=j; }
  return Val(r);
}
static void storeConc(State&s,Obj*o,uint64_t off,Val v,unsigned nbytes){
  o=writable(s,o);
  if(!v.sym()){ memcpy(&o->b[off],&v.c,nbytes); if(!o->s.empty()) for(unsigned i=0;i<nbytes;++i) o->s[off+i]=Cell(); return; }
  if(o->s.empty()) o->s.assign(o->size,Cell());
  for(unsigned i=0;i<nbytes;++i) o->s[off+i]=Cell(v.e,i);
}
struct Res { Obj*o; SExpr*off; uint64_t c; };
static Res resolve(State&s,Val addr,uint64_t size,bool write){
  auto chk=[&](Obj*o,uint64_t a){ if(!o) fail(s,"memory",string(write?"write":"read")+" of "+std::to_string(size)+" bytes at invalid address "+nearObj(s,a)); if(o->freed) fail(s,"memory","use after free/scope of "+nearObj(s,a)); if(a-o->base+size>o->size) fail(s,"memory","out of bounds "+string(write?"write":"read")+" of "+std::to_string(size)+" bytes at "+nearObj(s,a)); };
  if(addr.sym()){ SExpr*e=subst(s,addr.e); addr=Val(e); }
  if(!addr.sym()){ Obj*o=findObj(s,addr.c); chk(o,addr.c); return {o,nullptr,addr.c-o->base}; }
  SExpr*a=addr.e; if(a->hasUF) throw Unsupported{"address depends on uninterpreted function"};
  Solver::EvalCtx ec; uint64_t mv=S.eval(a,*s.model,ec); Obj*o=findObj(s,mv); chk(o,mv);
  SExpr*off=P.sub(a,P.K(o->base,64)); SExpr*inb=P.ule(off,P.K(o->size-size,64));
  if(inb->op!=O_CONST){ pModel m; if(solve(s,P.not_(inb),m)==1){ auto q=fork(s); addPC(*q,P.not_(inb)); q->model=m; work.push_back(q); addPC(s,inb);} }
  if(off->op==O_CONST) return {o,nullptr,off->c};
  return {o,off,0};
}
static bool candidates(SExpr*off,uint64_t maxOff,vector<uint64_t>&out){
  // constant leaves of an ite tree
  std::set<uint64_t> leaves; std::function<bool(SExpr*,int)> lv=[&](SExpr*e,int d){ if(e->op==O_CONST){leaves.insert(e->c);return leaves.size()<=256;} if(e->op==O_ITE&&d<64) return lv(e->k[1],d+1)&&lv(e->k[2],d+1); return false; };
  if(off->op==O_ITE&&lv(off,0)){ for(auto v:leaves) if(v<=maxOff) out.push_back(v); return true; }
  uint64_t g=1,c=0; if(off->op==O_SUM){ g=0; bool nw=P.noWrap(off); for(auto q:off->co){ uint64_t x=nw?(uint64_t)std::llabs(sx(q,64)):(q&(0-q)); g=std::gcd(g,x);} c=off->c; }
  if(g==0) g=1; uint64_t lo=off->lo>0?off->lo:0, hi=off->hi>=0?std::min<uint64_t>(maxOff,off->hi):maxOff;
  int64_t start=(int64_t)(((int64_t)c%(int64_t)g+(int64_t)g)%(int64_t)g); if((uint64_t)start<lo) start+=(lo-start+g-1)/g*g;
  if((hi-start)/g>2048) return false; for(uint64_t x=start;x<=hi;x+=g) out.push_back(x); return true;
}
static Val loadMem(State&s,Val addr,unsigned nbytes){
  Res r=resolve(s,addr,nbytes,false); if(!r.off) return loadConc(s,r.o,r.c,nbytes);
  vector<uint64_t> cs; if(!candidates(r.off,r.o->size-nbytes,cs)){ uint64_t a=concretize(s,addr,64); Obj*o=findObj(s,a); return loadConc(s,o,a-o->base,nbytes); }
  SExpr*v=nullptr; uint64_t base=r.o->base; for(size_t i=cs.size();i-->0;){ Obj*o=findObj(s,base); SExpr*x=X(loadConc(s,o,cs[i],nbytes),nbytes*8); v=v?P.ite(P.eq(r.off,P.K(cs[i],64)),x,v):x; } return Val(v);
}
static void storeMem(State&s,Val addr,Val v,unsigned nbytes){
  Res r=resolve(s,addr,nbytes,true); if(!r.off){ storeConc(s,r.o,r.c,v,nbytes); return; }
  vector<uint64_t> cs; if(!candidates(r.off,r.o->size-nbytes,cs)){ uint64_t a=concretize(s,addr,64); Obj*o=findObj(s,a); storeConc(s,o,a-o->base,v,nbytes); return; }
  SExpr*nv=X(v,nbytes*8); uint64_t base=r.o->base; for(auto c:cs){ Obj*o=findObj(s,base); SExpr*old=X(loadConc(s,o,c,nbytes),nbytes*8); o=findObj(s,base); storeConc(s,o,c,Val(P.ite(P.eq(r.off,P.K(c,64)),nv,old)),nbytes); }
}
static void copyMem(State&s,uint64_t d,uint64_t sr,uint64_t n){ if(!n) return; Res a=resolve(s,Val(sr),n,false); Res b=resolve(s,Val(d),n,true); vector<uint8_t> tb(a.o->b.begin()+a.c,a.o->b.begin()+a.c+n); vector<Cell> ts; if(!a.o->s.empty()) ts.assign(a.o->s.begin()+a.c,a.o->s.begin()+a.c+n); Obj*o=writable(s,b.o); std::copy(tb.begin(),tb.end(),o->b.begin()+b.c); bool any=false; for(auto&x:ts) any|=(bool)x; if(any&&o->s.empty()) o->s.assign(o->size,Cell()); if(!o->s.empty()) for(uint64_t i=0;i<n;++i) o->s[b.c+i]=ts.empty()?Cell():ts[i]; }

static unsigned bits(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static bool scalar(Type*t){ unsigned b=bits(t); return b>0&&b<=64; }
static Val loadType(State&s,Val addr,Type*t){
  if(scalar(t)){ unsigned w=bits(t),nb=(w+7)/8; Val v=loadMem(s,addr,nb); if(w<nb*8&&v.sym()) v=Val(P.extract(v.e,0,w)); else if(!v.sym()) v.c&=mask(w); return v; }
  vector<Val> r; auto at=[&](uint64_t o){ return addr.sym()?Val(P.add(addr.e,P.K(o,64))):Val(addr.c+o); };
  if(auto*st=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) r.push_back(loadType(s,at(l->getElementOffset(i)),st->getElementType(i))); return mkAgg(r); }
  if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();++i) r.push_back(loadType(s,at(i*es),a->getElementType())); return mkAgg(r); }
  if(auto*a=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeStoreSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();++i) r.push_back(loadType(s,at(i*es),a->getElementType())); return mkAgg(r); }
  string n; raw_string_ostream os(n); t->print(os); throw Unsupported{"load of type "+n};
}
static void storeType(State&s,Val addr,Val v,Type*t){
  if(scalar(t)){ unsigned w=bits(t),nb=(w+7)/8; if(w<nb*8&&v.sym()) v=Val(P.zext(v.e,nb*8)); storeMem(s,addr,v,nb); return; }
  auto at=[&](uint64_t o){ return addr.sym()?Val(P.add(addr.e,P.K(o,64))):Val(addr.c+o); };
  if(auto*st=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) storeType(s,at(l->getElementOffset(i)),aggPool[v.c][i],st->getElementType(i)); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();++i) storeType(s,at(i*es),aggPool[v.c][i],a->getElementType()); return; }
  if(auto*a=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeStoreSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();++i) storeType(s,at(i*es),aggPool[v.c][i],a->getElementType()); return; }
  string n; raw_string_ostream os(n); t->print(os); throw Unsupported{"store of type "+n};
}
static Val zeroOf(Type*t){ if(scalar(t)||!t->isSized()) return Val(0ull); vector<Val> r; if(auto*st=dyn_cast<StructType>(t)) for(auto*e:st->elements()) r.push_back(zeroOf(e)); else if(auto*a=dyn_cast<ArrayType>(t)) for(uint64_t i=0;i<a->getNumElements();++i) r.push_back(zeroOf(a->getElementType())); else if(auto*v=dyn_cast<FixedVectorType>(t)) for(uint64_t i=0;i<v->getNumElements();++i) r.push_back(zeroOf(v->getElementType())); return mkAgg(r); }
static Val undefOf(Type*t){ if(scalar(t)) return Val(P.var("undef",bits(t),true)); if(!t->isSized()) return Val(0ull); vector<Val> r; if(auto*st=dyn_cast<StructType>(t)) for(auto*e:st->elements()) r.push_back(undefOf(e)); else if(auto*a=dyn_cast<ArrayType>(t)) for(uint64_t i=0;i<a->getNumElements();++i) r.push_back(undefOf(a->getElementType())); else if(auto*v=dyn_cast<FixedVectorType>(t)) for(uint64_t i=0;i<v->getNumElements();++i) r.push_back(undefOf(v->getElementType())); else return Val(0ull); return mkAgg(r); }
static Val constVal(const Constant*c){
  Type*t=c->getType();
  if(auto*g=dyn_cast<GlobalValue>(c)){ if(auto*ga=dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()); return Val(gaddr[g]); }
  if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64){ if(i->getValue().getActiveBits()<=64) return Val(i->getValue().getLimitedValue()); return Val(0ull);} return Val(i->getZExtValue()); }
  if(auto*f=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()||t->isFloatTy()) return Val(f->getValueAPF().bitcastToAPInt().getZExtValue()); return Val(0ull); }
  if(isa<ConstantPointerNull>(c)) return Val(0ull);
  if(isa<UndefValue>(c)) return undefOf(t);
  if(isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if(auto*a=dyn_cast<ConstantAggregate>(c)){ vector<Val> r; for(auto&o:a->operands()) r.push_back(constVal(cast<Constant>(o))); return mkAgg(r); }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ vector<Val> r; for(unsigned i=0;i<d->getNumElements();++i) r.push_back(constVal(d->getElementAsConstant(i))); return mkAgg(r); }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    auto op=[&](int i){return constVal(e->getOperand(i)).c;};
    switch(e->getOpcode()){
      case Instruction::GetElementPtr:{ APInt off(64,0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off); return Val(op(0)+off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(op(0)&mask(bits(t)));
      case Instruction::Trunc: return Val(op(0)&mask(bits(t)));
      case Instruction::Sub: return Val((op(0)-op(1))&mask(bits(t))); case Instruction::Add: return Val((op(0)+op(1))&mask(bits(t)));
      case Instruction::ICmp:{ auto p=e->getPredicate(); if(p==CmpInst::ICMP_EQ) return Val((uint64_t)(op(0)==op(1))); if(p==CmpInst::ICMP_NE) return Val((uint64_t)(op(0)!=op(1))); break; }
    } }
  string n; raw_string_ostream os(n); c->print(os); throw Unsupported{"constant "+n};
}
static void initConst(Obj*o,uint64_t off,const Constant*c){
  Type*t=c->getType(); if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return;
  if(auto*st=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i) initConst(o,off+l->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->isArrayTy()?t->getArrayElementType():cast<FixedVectorType>(t)->getElementType(); uint64_t n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(),es=DL->getTypeAllocSize(et); if(auto*d=dyn_cast<ConstantDataSequential>(c)){ auto raw=d->getRawDataValues(); memcpy(&o->b[off],raw.data(),raw.size()); return; } for(uint64_t i=0;i<n;++i) initConst(o,off+i*es,c->getAggregateElement(i)); return; }
  Val v=constVal(c); unsigned nb=DL->getTypeStoreSize(t); if(nb>8) nb=8; memcpy(&o->b[off],&v.c,nb);
}

static vector<string> extNames; static std::unordered_map<string,int> extIdx;
static KFunc* kf(Function*F){
  auto it=kfuncs.find(F); if(it!=kfuncs.end()) return it->second;
  KFunc*k=new KFunc; k->F=F; kfuncs[F]=k; int n=0; for(auto&a:F->args()) k->slot[&a]=n++; for(auto&b:*F) for(auto&i:b) k->slot[&i]=n++; k->nslots=n; int bi=0; for(auto&b:*F) k->bbi[&b]=bi++;
  k->pretty=demangle(F->getName().str());
  for(auto&b:*F){ KBlock kb; bool phi=true; for(auto&i:b){ if(isa<DbgInfoIntrinsic>(i)) continue; KInst ki; ki.I=&i; ki.dest=k->slot[&i]; ki.bb=&b; for(auto&o:i.operands()){ Opnd op; Value*v=o.get(); if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) {} else if(auto*c=dyn_cast<Constant>(v)){ try{ op.v=constVal(c);}catch(Unsupported&u){ op.v=Val(0ull);} } else op.slot=k->slot[v]; ki.ops.push_back(op);} if(phi&&!isa<PHINode>(i)){ phi=false; kb.firstNonPhi=kb.ins.size(); } kb.ins.push_back(std::move(ki)); } k->blocks.push_back(std::move(kb)); }
  return k;
}
static void pushFrame(State&s,KFunc*k,const vector<Val>&args){ Frame f; f.f=k; f.r.resize(k->nslots); for(size_t i=0;i<args.size()&&i<k->F->arg_size();++i) f.r[i]=args[i]; if(!k->used){ k->used=true; usedFuncs.insert(k->pretty);} s.th[s.cur].st.push_back(std::move(f)); s.th[s.cur].st.back().pc=k->blocks[0].firstNonPhi; if(s.th[s.cur].st.size()>2000) fail(s,"recursion","call depth exceeds 2000 frames"); }
static void popFrame(State&s){ auto&f=s.th[s.cur].st.back(); for(auto a:f.allocas){ auto it=s.mem.find(a); if(it!=s.mem.end()) s.mem.erase(it);} s.th[s.cur].st.pop_back(); }
static void jump(State&s,Frame&f,int to){ int from=f.bb; auto&kb=f.f->blocks[to]; kb.seen=true; if(kb.firstNonPhi>0){ vector<Val> tmp; BasicBlock*fb=f.f->blocks[from].ins[0].bb; for(int i=0;i<kb.firstNonPhi;++i){ auto*phi=cast<PHINode>(kb.ins[i].I); int ix=phi->getBasicBlockIndex(fb); auto&o=kb.ins[i].ops[ix]; tmp.push_back(o.slot>=0?f.r[o.slot]:o.v);} for(int i=0;i<kb.firstNonPhi;++i) f.r[kb.ins[i].dest]=tmp[i]; } f.prev=from; f.bb=to; f.pc=kb.firstNonPhi; }
static Val opv(Frame&f,const Opnd&o){ return o.slot>=0?f.r[o.slot]:o.v; }
static void finishCall(State&s,Val r){ auto&f=s.th[s.cur].st.back(); KInst&ki=f.f->blocks[f.bb].ins[f.pc]; if(!ki.I->getType()->isVoidTy()) f.r[ki.dest]=r; if(auto*iv=dyn_cast<InvokeInst>(ki.I)) jump(s,f,f.f->bbi[iv->getNormalDest()]); else f.pc++; }

// ---------------- exceptions
static uint64_t rd64(State&s,uint64_t a){ Obj*o=findObj(s,a); if(!o||a-o->base+8>o->size) return 0; Val v=loadConc(s,o,a-o->base,8); return v.sym()?concretize(s,v,64):v.c; }
static uint64_t rd32(State&s,uint64_t a){ Obj*o=findObj(s,a); if(!o||a-o->base+4>o->size) return 0; Val v=loadConc(s,o,a-o->base,4); return v.c; }
static std::unordered_map<uint64_t,string> tiName; static std::unordered_map<string,uint64_t> tiByName;
static const std::map<string,string> stdParents={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt10bad_typeid","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt12bad_weak_ptr","_ZTISt9exception"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"}};
// finds base `target` inside type `ti` of object at `obj`; returns true and the subobject address
static bool findBase(State&s,uint64_t ti,uint64_t obj,uint64_t target,uint64_t&out,bool haveObj=true){
  if(ti==target){ out=obj; return true; }
  uint64_t vt=rd64(s,ti); auto kind=tiName.find(vt-16); string k=kind!=tiName.end()?kind->second:"";
  if(k=="_ZTVN10__cxxabiv120__si_class_type_infoE") return findBase(s,rd64(s,ti+16),obj,target,out,haveObj);
  if(k=="_ZTVN10__cxxabiv121__vmi_class_type_infoE"){ uint32_t n=rd32(s,ti+20); for(uint32_t i=0;i<n;++i){ uint64_t b=rd64(s,ti+24+16*i); int64_t of=(int64_t)rd64(s,ti+32+16*i); bool virt=of&1; int64_t o=of>>8; uint64_t sub=obj; if(haveObj){ if(virt){ uint64_t vp=rd64(s,obj); sub=obj+(int64_t)rd64(s,vp+o);} else sub=obj+o; } if(findBase(s,b,sub,target,out,haveObj)) return true; } return false; }
  auto nm=tiName.find(ti); if(nm!=tiName.end()){ auto p=stdParents.find(nm->second); if(p!=stdParents.end()){ auto q=tiByName.find(p->second); if(q!=tiByName.end()) return findBase(s,q->second,obj,target,out,haveObj); } }
  return false;
}
static uint32_t typeIdFor(uint64_t ti){ return (uint32_t)(ti/64)+1; }
static void unwind(State&s,uint64_t exc){
  uint64_t ti=s.exc[exc].tinfo;
  while(true){
    auto&st=s.th[s.cur].st;
    if(st.empty()){ string n=tiName.count(ti)?tiName[ti]:"?"; report(s,s.model,"uncaught exception",demangle(n)); throw KillState(); }
    Frame&f=st.back(); KInst&ki=f.f->blocks[f.bb].ins[f.pc];
    if(auto*iv=dyn_cast<InvokeInst>(ki.I)){
      BasicBlock*ub=iv->getUnwindDest(); auto*lp=ub->getLandingPadInst(); int sel=0; bool enter=lp->isCleanup();
      for(unsigned i=0;i<lp->getNumClauses();++i){ auto*cl=lp->getClause(i); if(lp->isCatch(i)){ uint64_t ct=constVal(cl).c; uint64_t sub=exc; if(ct==0){ s.exc[exc].adj=0; sel=typeIdFor(0); enter=true; break; } if(findBase(s,ti,exc,ct,sub)){ s.exc[exc].adj=(int64_t)(sub-exc); sel=typeIdFor(ct); enter=true; break; } } else { enter=true; sel=-1; break; } }
      if(enter){ int to=f.f->bbi[ub]; jump(s,f,to); // current pc at landingpad
        KInst&lk=f.f->blocks[to].ins[f.pc]; if(!isa<LandingPadInst>(lk.I)) throw Unsupported{"landingpad position"}; f.r[lk.dest]=mkAgg({Val(exc),Val((uint64_t)(uint32_t)sel)}); f.pc++; return; }
    }
    popFrame(s);
  }
}
// ---------------- external functions
typedef std::function<Val(State&,KInst&,vector<Val>&)> Ext; static std::unordered_map<string,Ext> ext; struct NoAdvance{};
static string cstr(State&s,uint64_t a){ string r; for(int i=0;i<4096;++i){ Obj*o=findObj(s,a+i); if(!o) break; Val v=loadConc(s,o,a+i-o->base,1); uint64_t ch=v.sym()?'?':v.c; if(!ch) break; r.push_back((char)ch);} return r; }
static uint64_t heapAlloc(State&s,uint64_t n,char kind='h'){ auto o=newObj(n,kind,true); s.mem[o->base]=o; return o->base; }
static void heapFree(State&s,uint64_t a,char){ if(!a) return; auto it=s.mem.find(a); if(it==s.mem.end()||it->second->kind!='h') fail(s,"memory","free of invalid pointer "+nearObj(s,a)); if(it->second->freed) fail(s,"memory","double free of "+nearObj(s,a)); auto o=std::make_shared<Obj>(); o->base=a; o->size=it->second->size; o->kind='h'; o->freed=true; it->second=o; }
static void doAssert(State&s,SExpr*c,const string&label){
  nAssert++; assertSites[label]++; c=subst(s,c);
  if(c->op==O_CONST){ if(!c->c){ report(s,s.model,"assertion",label); throw KillState(); } return; }
  nAssertSolver++; pModel m; SExpr*n=P.not_(c); int mv=modelEval(s,c); if(mv==0){ report(s,s.model,"assertion",label); throw KillState(); }
  if(solve(s,n,m)==1){ report(s,m,"assertion",label); if(mv!=1){ pModel m2; if(solve(s,c,m2)!=1) throw KillState(); s.model=m2; } addPC(s,c); } else s.known[c]=1;
}
static Val mathUF(const string&n,unsigned w,vector<Val>&a,double(*f1)(double),double(*f2)(double,double)){
  bool conc=true; for(auto&v:a) conc&=!v.sym();
  if(conc){ if(w==64) return Val(fromD(f1?f1(asD(a[0].c)):f2(asD(a[0].c),asD(a[1].c)))); return Val(fromF((float)(f1?f1(asF(a[0].c)):f2(asF(a[0].c),asF(a[1].c))))); }
  vector<SExpr*> k; for(auto&v:a) k.push_back(X(v,w)); return Val(P.uf(n,w,k));
}
static Val fabsV(Val v,unsigned w){ return Val(P.and_(X(v,w),P.K(mask(w-1),w))); }
static SExpr* fneg(SExpr*e){ return P.xor_(e,P.K(1ull<<(e->w-1),e->w)); }
static void setupExt(){
  auto alloc=[](State&s,KInst&,vector<Val>&a){ uint64_t n=concretize(s,a[0],64); if(n>(1ull<<28)){ // an over-large request fails like the real allocator would
      fail(s,"memory","allocation of "+std::to_string(n)+" bytes requested"); } return Val(heapAlloc(s,n)); };
  for(auto n:{"malloc","_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","__cxa_allocate_exception"}) ext[n]=alloc;
  ext["calloc"]=[](State&s,KInst&,vector<Val>&a){ uint64_t n=concretize(s,a[0],64),m=concretize(s,a[1],64); uint64_t p=heapAlloc(s,n*m); auto o=s.mem[p]; o->s.clear(); return Val(p); };
  ext["realloc"]=[](State&s,KInst&,vector<Val>&a){ uint64_t p=concretize(s,a[0],64),n=concretize(s,a[1],64); uint64_t q=heapAlloc(s,n); if(p){ Obj*o=findObj(s,p); copyMem(s,q,p,std::min<uint64_t>(n,o?o->size:0)); heapFree(s,p,'h'); } return Val(q); };
  auto fr=[](State&s,KInst&,vector<Val>&a){ uint64_t p=concretize(s,a[0],64); heapFree(s,p,'h'); return Val(0ull); };
  for(auto n:{"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvRKSt9nothrow_t","__cxa_free_exception"}) ext[n]=fr;
  auto mc=[](State&s,KInst&,vector<Val>&a){ uint64_t d=concretize(s,a[0],64),r=concretize(s,a[1],64),n=concretize(s,a[2],64); copyMem(s,d,r,n); return Val(d); };
  ext["memcpy"]=mc; ext["memmove"]=mc;
  ext["memset"]=[](State&s,KInst&,vector<Val>&a){ uint64_t d=concretize(s,a[0],64),n=concretize(s,a[2],64); if(n){ Res r=resolve(s,Val(d),n,true); Obj*o=writable(s,r.o); Val b=a[1].sym()?Val(P.extract(a[1].e,0,8)):Val(a[1].c&255); if(b.sym()&&o->s.empty()) o->s.assign(o->size,Cell()); for(uint64_t i=0;i<n;++i){ if(b.sym()) o->s[r.c+i]=Cell(b.e,0); else { o->b[r.c+i]=b.c; if(!o->s.empty()) o->s[r.c+i]=Cell(); } } } return Val(d); };
  auto nop=[](State&,KInst&,vector<Val>&a){ return a.empty()?Val(0ull):a[0]; }; auto zero=[](State&,KInst&,vector<Val>&){ return Val(0ull); }; auto one=[](State&,KInst&,vector<Val>&){ return Val(1ull); };
  ext["__cxa_atexit"]=zero; ext["__cxa_guard_release"]=zero; ext["__cxa_guard_abort"]=zero;
  ext["__cxa_guard_acquire"]=[](State&s,KInst&,vector<Val>&a){ uint64_t p=concretize(s,a[0],64); Obj*o=findObj(s,p); Val v=loadConc(s,o,p-o->base,1); if(!v.sym()&&v.c) return Val(0ull); storeConc(s,o,p-o->base,Val(1ull),1); return Val(1ull); };
  auto die=[](const char*k){ return [k](State&s,KInst&,vector<Val>&a)->Val{ fail(s,"abort",k); }; };
  ext["abort"]=die("abort()"); ext["exit"]=die("exit()"); ext["_exit"]=die("exit()"); ext["_ZSt9terminatev"]=die("std::terminate()"); ext["__cxa_pure_virtual"]=die("pure virtual call"); ext["__cxa_bad_cast"]=[](State&s,KInst&,vector<Val>&)->Val{ uint64_t p=heapAlloc(s,16); s.exc[p]={tiByName.count("_ZTISt8bad_cast")?tiByName["_ZTISt8bad_cast"]:0,0}; unwind(s,p); throw NoAdvance(); };
  ext["__assert_fail"]=[](State&s,KInst&,vector<Val>&a)->Val{ fail(s,"assert","library assertion failed: "+cstr(s,a[0].c)); };
  ext["__cxa_throw"]=[](State&s,KInst&,vector<Val>&a)->Val{ uint64_t p=a[0].c; s.exc[p]={a[1].c,0}; unwind(s,p); throw NoAdvance(); };
  ext["__cxa_begin_catch"]=[](State&s,KInst&,vector<Val>&a){ uint64_t p=a[0].c; s.th[s.cur].caught.push_back(p); return Val(p+s.exc[p].adj); };
  ext["__cxa_end_catch"]=[](State&s,KInst&,vector<Val>&){ if(!s.th[s.cur].caught.empty()) s.th[s.cur].caught.pop_back(); return Val(0ull); };
  ext["__cxa_get_exception_ptr"]=[](State&s,KInst&,vector<Val>&a){ return Val(a[0].c+s.exc[a[0].c].adj); };
  ext["__cxa_rethrow"]=[](State&s,KInst&,vector<Val>&)->Val{ if(s.th[s.cur].caught.empty()) fail(s,"abort","rethrow without exception"); uint64_t p=s.th[s.cur].caught.back(); unwind(s,p); throw NoAdvance(); };
  ext["__dynamic_cast"]=[](State&s,KInst&,vector<Val>&a){ uint64_t p=concretize(s,a[0],64); if(!p) return Val(0ull); uint64_t vp=rd64(s,p); int64_t top=(int64_t)rd64(s,vp-16); uint64_t ti=rd64(s,vp-8); uint64_t full=p+top,out; if(findBase(s,ti,full,a[2].c,out)) return Val(out); return Val(0ull); };
  ext["_Unwind_Resume"]=[](State&s,KInst&,vector<Val>&a)->Val{ popFrame(s); unwind(s,a[0].c); throw NoAdvance(); };
  // ---- harness API
  auto symInt=[](unsigned w){ return [w](State&s,KInst&,vector<Val>&a){ string n=cstr(s,a[0].c); int64_t lo=sx(concretize(s,a[1],w),w),hi=sx(concretize(s,a[2],w),w); if(lo>hi) throw KillState(); Val v=lo==hi?Val((uint64_t)lo&mask(w)):Val(P.var(n,w,false,lo,hi)); s.in.push_back({n,v,w}); return v; }; };
  ext["vf_int"]=symInt(32); ext["vf_long"]=symInt(64); ext["vf_byte"]=symInt(8);
  ext["vf_choose"]=[](State&s,KInst&,vector<Val>&a){ // fork over [lo,hi]
      string n=cstr(s,a[0].c); int64_t lo=sx(a[1].c,32),hi=sx(a[2].c,32); if(lo>hi) throw KillState(); SExpr*e=P.var(n,32,false,lo,hi); for(int64_t x=lo+1;x<=hi;++x){ auto o=fork(s); addPC(*o,P.eq(e,P.K((uint64_t)x,32))); auto m=std::make_shared<Model>(*o->model); if(e->op==O_VAR) (*m)[e->c]=(uint64_t)x&mask(32); o->model=m; Val v((uint64_t)x&mask(32)); o->in.push_back({n,v,32}); auto&f=o->th[o->cur].st.back(); KInst&ki=f.f->blocks[f.bb].ins[f.pc]; f.r[ki.dest]=v; if(auto*iv=dyn_cast<InvokeInst>(ki.I)) jump(*o,f,f.f->bbi[iv->getNormalDest()]); else f.pc++; work.push_back(o);} if(e->op==O_VAR) { addPC(s,P.eq(e,P.K((uint64_t)lo,32))); auto m=std::make_shared<Model>(*s.model); (*m)[e->c]=(uint64_t)lo&mask(32); s.model=m; } Val v((uint64_t)lo&mask(32)); s.in.push_back({n,v,32}); return v; };
  ext["vf_bits64"]=[](State&s,KInst&,vector<Val>&a){ string n=cstr(s,a[0].c); Val v(P.var(n,64)); s.in.push_back({n,v,64}); return v; };
  ext["vf_double"]=[](State&s,KInst&,vector<Val>&a){ string n=cstr(s,a[0].c); Val v(P.var(n,64)); s.in.push_back({n,v,64}); return v; };
  ext["vf_assume"]=[](State&s,KInst&,vector<Val>&a){ nAssume++; SExpr*c=X(a[0],32); c=P.not_(P.eq(c,P.K(0,32))); c=subst(s,c); if(c->op==O_CONST){ if(!c->c) throw KillState(); return Val(0ull);} if(modelEval(s,c)!=1){ pModel m; if(solve(s,c,m)!=1) throw KillState(); s.model=m; } addPC(s,c); return Val(0ull); };
  ext["vf_assert_"]=[](State&s,KInst&,vector<Val>&a){ SExpr*c=X(a[0],32); c=P.not_(P.eq(c,P.K(0,32))); doAssert(s,c,cstr(s,a[1].c)); return Val(0ull); };
  ext["vf_assert_eq_"]=[](State&s,KInst&,vector<Val>&a){ // a==b, decided by the solver even when both sides are the same term: t=a and t!=b for a fresh t
      string label=cstr(s,a[2].c); if(!a[0].sym()&&!a[1].sym()){ doAssert(s,P.K(a[0].c==a[1].c,1),label); return Val(0ull); }
      SExpr*x=subst(s,X(a[0],64)),*y=subst(s,X(a[1],64)); SExpr*c=P.eq(x,y); if(c->op!=O_CONST||!c->c){ doAssert(s,c,label); return Val(0ull); }
      nAssert++; assertSites[label]++; SExpr*big=x->op!=O_CONST?x:y; if(big->op==O_CONST) return Val(0ull); nAssertSolver++; SExpr*t=P.var("vf_t",64,true); SExpr*d=P.eq(t,x); pModel m; State q(s); if(d->op!=O_CONST) q.pc.push_back(d); if(solve(q,P.not_(P.eq(t,y)),m)==1){ report(s,m,"assertion",label); throw KillState(); } return Val(0ull); };
  ext["vf_assert_eqd_"]=[](State&s,KInst&ki,vector<Val>&a){ // two doubles (as bits): the same bits, or both NaN
      if(!a[0].sym()&&!a[1].sym()){ double x=asD(a[0].c),y=asD(a[1].c); doAssert(s,P.K(a[0].c==a[1].c||(x!=x&&y!=y),1),cstr(s,a[2].c)); return Val(0ull); }
      SExpr*x=subst(s,X(a[0],64)),*y=subst(s,X(a[1],64)); SExpr*c=P.eq(x,y); if(c->op==O_CONST&&c->c) return ext["vf_assert_eq_"](s,ki,a);
      doAssert(s,P.or_(c,P.and_(P.fcmpop(O_FUNO,x,x),P.fcmpop(O_FUNO,y,y))),cstr(s,a[2].c)); return Val(0ull); };
  ext["vf_reach"]=[](State&s,KInst&,vector<Val>&a){ reachSites[cstr(s,a[0].c)]++; return Val(0ull); };
  ext["vf_concretize"]=[](State&s,KInst&,vector<Val>&a){ return Val(concretize(s,a[0],64)); };
  ext["vf_observe"]=[](State&s,KInst&,vector<Val>&a){ s.obs.push_back(a[0]); return Val(0ull); };
  ext["vf_is_symbolic_run"]=one;
  ext["vf_log"]=[](State&s,KInst&,vector<Val>&a){ std::cerr<<"[log] "<<cstr(s,a[0].c)<<" "; if(a[1].sym()){ Solver::EvalCtx ec; std::cerr<<"sym~"<<sx(S.eval(a[1].e,*s.model,ec),64);} else std::cerr<<(int64_t)a[1].c; std::cerr<<"\n"; return Val(0ull); };
  ext["vf_block_size"]=[](State&s,KInst&,vector<Val>&a){ uint64_t p=concretize(s,a[0],64); Obj*o=findObj(s,p); return Val(o&&!o->freed?o->size-(p-o->base):0ull); };
  ext["vf_spawn"]=[](State&s,KInst&,vector<Val>&a){ auto it=faddr.find(a[0].c); if(it==faddr.end()) throw Unsupported{"vf_spawn"}; Thread t; s.th.push_back(t); int me=s.cur; s.cur=s.th.size()-1; pushFrame(s,kf(it->second),{a[1]}); s.cur=me; return Val((uint64_t)s.th.size()-1); };
  ext["vf_yield"]=[](State&s,KInst&,vector<Val>&)->Val{ finishCall(s,Val(0ull)); int n=s.th.size(); for(int i=1;i<=n;++i){ int c=(s.cur+i)%n; if(!s.th[c].done){ s.cur=c; break; } } throw NoAdvance(); };
  ext["vf_alive"]=[](State&s,KInst&,vector<Val>&){ uint64_t c=0; for(size_t i=1;i<s.th.size();++i) c+=!s.th[i].done; return Val(c); };
  // ---- libm
#define M1(n) ext[#n]=[](State&,KInst&,vector<Val>&a){ return mathUF(#n,64,a,static_cast<double(*)(double)>(::n),nullptr); }; ext[#n "f"]=[](State&,KInst&,vector<Val>&a){ return mathUF(#n "f",32,a,static_cast<double(*)(double)>(::n),nullptr); };
#define M2(n) ext[#n]=[](State&,KInst&,vector<Val>&a){ return mathUF(#n,64,a,nullptr,static_cast<double(*)(double,double)>(::n)); };
  M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(asinh) M1(acosh) M1(atanh) M1(exp) M1(log) M1(log10) M1(log2) M1(exp2) M1(expm1) M1(log1p) M1(cbrt) M1(erf) M1(erfc) M1(lgamma) M1(tgamma) M2(pow) M2(atan2) M2(fmod) M2(hypot)
  ext["sqrt"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FSQRT,X(a[0],64))); }; ext["sqrtf"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FSQRT,X(a[0],32))); };
  ext["floor"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FFLOOR,X(a[0],64))); }; ext["ceil"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FCEIL,X(a[0],64))); }; ext["trunc"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FTRUNCI,X(a[0],64))); }; ext["rint"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FRINT,X(a[0],64))); }; ext["round"]=[](State&,KInst&,vector<Val>&a){ return Val(P.funop(O_FROUND,X(a[0],64))); };
  ext["fabs"]=[](State&,KInst&,vector<Val>&a){ return fabsV(a[0],64); };
  ext["ldexp"]=[](State&s,KInst&,vector<Val>&a){ vector<Val> v{a[0],a[1].sym()?Val(P.sitof(X(a[1],32),64)):Val(fromD((double)(int)a[1].c))}; return mathUF("ldexp",64,v,nullptr,[](double x,double n){ return ::ldexp(x,(int)n); }); };
  ext["frexp"]=[](State&s,KInst&,vector<Val>&a){ if(a[0].sym()) throw Unsupported{"frexp"}; int e; double r=::frexp(asD(a[0].c),&e); storeMem(s,a[1],Val((uint64_t)(uint32_t)e),4); return Val(fromD(r)); };
  ext["strtod"]=[](State&s,KInst&,vector<Val>&a){ string t=cstr(s,a[0].c); char*e; double d=::strtod(t.c_str(),&e); if(a[1].c) storeMem(s,a[1],Val(a[0].c+(e-t.c_str())),8); return Val(fromD(d)); };
  auto fmt=[](State&s,vector<Val>&a,size_t k){ string f=cstr(s,a[k].c),out; size_t n=k+1; for(size_t i=0;i<f.size();++i){ if(f[i]!='%'){ out.push_back(f[i]); continue; } if(f[i+1]=='%'){ out.push_back('%'); ++i; continue; } string sp="%"; size_t j=i+1; while(j<f.size()&&strchr("-+ #0123456789.",f[j])) sp.push_back(f[j++]); string len; while(j<f.size()&&strchr("hlzjt",f[j])) len.push_back(f[j++]); if(j>=f.size()||n>=a.size()) throw Unsupported{"format string"}; char c=f[j]; char b[512]; i=j;
      if(strchr("di",c)){ bool l=!len.empty()&&len[0]!='h'; uint64_t v=concretize(s,a[n++],l?64:32); snprintf(b,512,(sp+"lld").c_str(),l?(long long)v:(long long)(int)v); } else if(strchr("uxX",c)){ bool l=!len.empty()&&len[0]!='h'; uint64_t v=concretize(s,a[n++],l?64:32); snprintf(b,512,(sp+"ll"+c).c_str(),l?(unsigned long long)v:(unsigned long long)(unsigned)v); } else if(c=='c'){ uint64_t v=concretize(s,a[n++],32); snprintf(b,512,(sp+c).c_str(),(int)v); } else if(strchr("feEgG",c)){ uint64_t v=concretize(s,a[n++],64); snprintf(b,512,(sp+c).c_str(),asD(v)); } else if(c=='s'){ string t=cstr(s,a[n++].c); snprintf(b,512,(sp+c).c_str(),t.c_str()); } else throw Unsupported{"format string"}; out+=b; } return out; };
  ext["snprintf"]=[fmt](State&s,KInst&,vector<Val>&a){ string o=fmt(s,a,2); uint64_t n=concretize(s,a[1],64); for(size_t i=0;i<=o.size()&&i<n;++i) storeMem(s,Val(a[0].c+i),Val((uint64_t)(uint8_t)(i==o.size()||i==n-1?0:o[i])),1); return Val((uint64_t)o.size()); };
  ext["sprintf"]=[fmt](State&s,KInst&,vector<Val>&a){ string o=fmt(s,a,1); for(size_t i=0;i<=o.size();++i) storeMem(s,Val(a[0].c+i),Val((uint64_t)(uint8_t)(i==o.size()?0:o[i])),1); return Val((uint64_t)o.size()); };
  ext["vf_format_double_prec"]=[](State&s,KInst&,vector<Val>&a){ uint64_t v=concretize(s,a[1],64); char b[64]; int n=snprintf(b,64,"%.*g",(int)a[2].c,asD(v)); for(int i=0;i<=n;++i) storeMem(s,Val(a[0].c+i),Val((uint64_t)(uint8_t)b[i]),1); return Val((uint64_t)n); };
  ext["vf_format_double"]=[](State&s,KInst&,vector<Val>&a){ uint64_t v=concretize(s,a[1],64); char b[64]; int n=snprintf(b,64,"%.17g",asD(v)); for(int i=0;i<=n;++i) storeMem(s,Val(a[0].c+i),Val((uint64_t)(uint8_t)b[i]),1); return Val((uint64_t)n); };
  // ---- streams (output is not a subject unless a harness supplies a stream): no effect, return the stream
  ext["_ZNSt8ios_base4InitC1Ev"]=nop; ext["_ZNSt8ios_base4InitD1Ev"]=nop;
}
static bool streamLike(const string&n){ static const char*pf[]={"_ZStlsI","_ZNSolsE","_ZNSo","_ZSt16__ostream_insert","_ZSt4endl","_ZNSt9basic_ios","_ZNSt8ios_base","_ZNKSt9basic_ios","_ZNSt6locale","_ZNSt7__cxx1119basic_ostringstream","_ZNSt7__cxx1118basic_stringstream","_ZNSt14basic_ofstream","_ZNSt14basic_ifstream"}; for(auto p:pf) if(n.compare(0,strlen(p),p)==0) return true; return false; }

// ---------------- instruction semantics
static SExpr* binop(State&s,unsigned op,SExpr*a,SExpr*b){
  switch(op){
    case Instruction::Add:return P.add(a,b); case Instruction::Sub:return P.sub(a,b); case Instruction::Mul:return P.mul(a,b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:{
      SExpr*z=subst(s,P.eq(b,P.K(0,b->w))); if(z->op==O_CONST){ if(z->c) fail(s,"arithmetic","integer division by zero"); } else { pModel m; if(solve(s,z,m)==1){ report(s,m,"arithmetic","integer division by zero"); pModel m2; if(solve(s,P.not_(z),m2)!=1) throw KillState(); s.model=m2; addPC(s,P.not_(z)); } }
      return op==Instruction::UDiv?P.udiv(a,b):op==Instruction::SDiv?P.sdiv(a,b):op==Instruction::URem?P.urem(a,b):P.srem(a,b); }
    case Instruction::And:return P.and_(a,b); case Instruction::Or:return P.or_(a,b); case Instruction::Xor:return P.xor_(a,b); case Instruction::Shl:return P.shl(a,b); case Instruction::LShr:return P.lshr(a,b); case Instruction::AShr:return P.ashr(a,b);
    case Instruction::FAdd:return P.fbinop(O_FADD,a,b); case Instruction::FSub:return P.fbinop(O_FSUB,a,b); case Instruction::FMul:return P.fbinop(O_FMUL,a,b); case Instruction::FDiv:return P.fbinop(O_FDIV,a,b);
    case Instruction::FRem: { vector<Val> v{Val(a),Val(b)}; return X(mathUF("fmod",a->w,v,nullptr,::fmod),a->w); }
  } throw Unsupported{"binop"};
}
static SExpr* cmp(unsigned p,SExpr*a,SExpr*b){
  switch(p){
    case CmpInst::ICMP_EQ:return P.eq(a,b); case CmpInst::ICMP_NE:return P.not_(P.eq(a,b)); case CmpInst::ICMP_UGT:return P.ult(b,a); case CmpInst::ICMP_UGE:return P.ule(b,a); case CmpInst::ICMP_ULT:return P.ult(a,b); case CmpInst::ICMP_ULE:return P.ule(a,b);
    case CmpInst::ICMP_SGT:return P.slt(b,a); case CmpInst::ICMP_SGE:return P.sle(b,a); case CmpInst::ICMP_SLT:return P.slt(a,b); case CmpInst::ICMP_SLE:return P.sle(a,b);
    case CmpInst::FCMP_FALSE:return P.F(); case CmpInst::FCMP_TRUE:return P.T();
    case CmpInst::FCMP_OEQ:return P.fcmpop(O_FEQ,a,b); case CmpInst::FCMP_OGT:return P.fcmpop(O_FLT,b,a); case CmpInst::FCMP_OGE:return P.fcmpop(O_FLE,b,a); case CmpInst::FCMP_OLT:return P.fcmpop(O_FLT,a,b); case CmpInst::FCMP_OLE:return P.fcmpop(O_FLE,a,b);
    case CmpInst::FCMP_ONE:return P.or_(P.fcmpop(O_FLT,a,b),P.fcmpop(O_FLT,b,a)); case CmpInst::FCMP_ORD:return P.not_(P.fcmpop(O_FUNO,a,b)); case CmpInst::FCMP_UNO:return P.fcmpop(O_FUNO,a,b);
    case CmpInst::FCMP_UEQ:return P.not_(P.or_(P.fcmpop(O_FLT,a,b),P.fcmpop(O_FLT,b,a))); case CmpInst::FCMP_UGT:return P.not_(P.fcmpop(O_FLE,a,b)); case CmpInst::FCMP_UGE:return P.not_(P.fcmpop(O_FLT,a,b)); case CmpInst::FCMP_ULT:return P.not_(P.fcmpop(O_FLE,b,a)); case CmpInst::FCMP_ULE:return P.not_(P.fcmpop(O_FLT,b,a)); case CmpInst::FCMP_UNE:return P.not_(P.fcmpop(O_FEQ,a,b));
  } throw Unsupported{"cmp"};
}
static Val castv(unsigned op,Val v,unsigned fw,unsigned tw){
  if(!v.sym()) switch(op){ case Instruction::Trunc: return Val(v.c&mask(tw)); case Instruction::ZExt: return Val(v.c&mask(fw)); case Instruction::SExt: return Val((uint64_t)sx(v.c,fw)&mask(tw)); case Instruction::PtrToInt: case Instruction::IntToPtr: return Val(v.c&mask(std::min(fw,tw))); case Instruction::BitCast: return v; default: break; }
  SExpr*e=X(v,fw);
  switch(op){ case Instruction::Trunc:return P.extract(e,0,tw); case Instruction::ZExt:return P.zext(e,tw); case Instruction::SExt:return P.sext(e,tw); case Instruction::PtrToInt:return tw<64?P.extract(e,0,tw):e; case Instruction::IntToPtr:return fw<64?P.zext(e,64):e; case Instruction::BitCast:return e;
    case Instruction::FPToSI:return P.ftosi(e,tw); case Instruction::FPToUI:return P.ftoui(e,tw); case Instruction::SIToFP:return P.sitof(e,tw); case Instruction::UIToFP:return P.uitof(e,tw); case Instruction::FPExt:return P.fext(e); case Instruction::FPTrunc:return P.ftrunc(e); }
  throw Unsupported{"cast"};
}
static unsigned eltBits(Type*t){ if(auto*v=dyn_cast<FixedVectorType>(t)) return bits(v->getElementType()); return bits(t); }
template<class Fn> static Val lanes(Type*t,vector<Val> ops,Fn fn){ if(auto*v=dyn_cast<FixedVectorType>(t)){ vector<Val> r; for(unsigned i=0;i<v->getNumElements();++i){ vector<Val> l; for(auto&o:ops) l.push_back(aggPool[o.c][i]); r.push_back(fn(l)); } return mkAgg(r);} return fn(ops); }

static bool intrinsic(State&s,KInst&ki,Function*F,vector<Val>&a,Val&out){
  auto id=F->getIntrinsicID(); Type*rt=ki.I->getType(); unsigned w=eltBits(rt);
  auto un=[&](Op o){ out=lanes(rt,{a[0]},[&](vector<Val>&l){ return Val(P.funop(o,X(l[0],w))); }); return true; };
  switch(id){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stackrestore: out=Val(0ull); return true;
    case Intrinsic::stacksave: out=Val(0ull); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: out=a[0]; return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s,"abort","trap");
    case Intrinsic::is_constant: out=Val(0ull); return true;
    case Intrinsic::objectsize: out=Val(a[1].c?0ull:~0ull); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { vector<Val> b{a[0],a[1],a[2]}; ext["memcpy"](s,ki,b); out=Val(0ull); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { vector<Val> b{a[0],a[1],a[2]}; ext["memset"](s,ki,b); out=Val(0ull); return true; }
    case Intrinsic::eh_typeid_for: out=Val((uint64_t)typeIdFor(a[0].c)); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned bw=bits(rt->getStructElementType(0)); SExpr*x=X(a[0],bw),*y=X(a[1],bw),*r,*o;
      switch(id){ case Intrinsic::uadd_with_overflow: r=P.add(x,y); o=P.ult(r,x); break; case Intrinsic::usub_with_overflow: r=P.sub(x,y); o=P.ult(x,y); break; case Intrinsic::umul_with_overflow: r=P.mul(x,y); o=P.mulovf(O_UMULOVF,x,y); break; case Intrinsic::smul_with_overflow: r=P.mul(x,y); o=P.mulovf(O_SMULOVF,x,y); break;
        case Intrinsic::sadd_with_overflow: { r=P.add(x,y); SExpr*z=P.K(0,bw); o=P.and_(P.eq(P.slt(x,z),P.slt(y,z)),P.not_(P.eq(P.slt(r,z),P.slt(x,z)))); break; }
        default: { r=P.sub(x,y); SExpr*z=P.K(0,bw); o=P.and_(P.not_(P.eq(P.slt(x,z),P.slt(y,z))),P.not_(P.eq(P.slt(r,z),P.slt(x,z)))); } }
      out=mkAgg({Val(r),Val(o)}); return true; }
    case Intrinsic::abs: out=lanes(rt,{a[0]},[&](vector<Val>&l){ SExpr*x=X(l[0],w); return Val(P.ite(P.slt(x,P.K(0,w)),P.sub(P.K(0,w),x),x)); }); return true;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: out=lanes(rt,{a[0],a[1]},[&](vector<Val>&l){ SExpr*x=X(l[0],w),*y=X(l[1],w); SExpr*c=(id==Intrinsic::smax)?P.slt(y,x):(id==Intrinsic::smin)?P.slt(x,y):(id==Intrinsic::umax)?P.ult(y,x):P.ult(x,y); return Val(P.ite(c,x,y)); }); return true;
    case Intrinsic::uadd_sat: { SExpr*x=X(a[0],w),*y=X(a[1],w),*r=P.add(x,y); out=Val(P.ite(P.ult(r,x),P.K(~0ull,w),r)); return true; }
    case Intrinsic::usub_sat: { SExpr*x=X(a[0],w),*y=X(a[1],w); out=Val(P.ite(P.ult(x,y),P.K(0,w),P.sub(x,y))); return true; }
    case Intrinsic::ctpop: { SExpr*x=X(a[0],w),*r=P.K(0,w); for(unsigned i=0;i<w;++i) r=P.add(r,P.zext(P.extract(x,i,1),w)); out=Val(r); return true; }
    case Intrinsic::cttz: { SExpr*x=X(a[0],w),*r=P.K(w,w); for(int i=w-1;i>=0;--i) r=P.ite(P.extract(x,i,1),P.K(i,w),r); out=Val(r); return true; }
    case Intrinsic::ctlz: { SExpr*x=X(a[0],w),*r=P.K(w,w); for(unsigned i=0;i<w;++i) r=P.ite(P.extract(x,i,1),P.K(w-1-i,w),r); out=Val(r); return true; }
    case Intrinsic::bswap: { SExpr*x=X(a[0],w),*r=nullptr; for(unsigned i=0;i<w;i+=8){ SExpr*b=P.extract(x,i,8); r=r?P.concat(r,b):b; } out=Val(r); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t sh=concretize(s,a[2],w)%w; SExpr*h=X(a[0],w),*l=X(a[1],w); if(sh==0){ out=Val(id==Intrinsic::fshl?h:l); return true;} if(id==Intrinsic::fshr) sh=w-sh; out=Val(P.or_(P.shl(h,P.K(sh,w)),P.lshr(l,P.K(w-sh,w)))); return true; }
    case Intrinsic::floor: return un(O_FFLOOR); case Intrinsic::ceil: return un(O_FCEIL); case Intrinsic::trunc: return un(O_FTRUNCI); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un(O_FRINT); case Intrinsic::round: return un(O_FROUND); case Intrinsic::sqrt: return un(O_FSQRT);
    case Intrinsic::fabs: out=lanes(rt,{a[0]},[&](vector<Val>&l){ return fabsV(l[0],w); }); return true;
    case Intrinsic::copysign: { SExpr*x=X(a[0],w),*y=X(a[1],w); out=Val(P.or_(P.and_(x,P.K(mask(w-1),w)),P.and_(y,P.K(1ull<<(w-1),w)))); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: out=Val(P.fbinop(O_FADD,P.fbinop(O_FMUL,X(a[0],w),X(a[1],w)),X(a[2],w))); return true;
    case Intrinsic::minnum: { SExpr*x=X(a[0],w),*y=X(a[1],w); out=Val(P.ite(P.or_(P.fcmpop(O_FUNO,y,y),P.fcmpop(O_FLT,x,y)),x,y)); return true; }
    case Intrinsic::maxnum: { SExpr*x=X(a[0],w),*y=X(a[1],w); out=Val(P.ite(P.or_(P.fcmpop(O_FUNO,y,y),P.fcmpop(O_FLT,y,x)),x,y)); return true; }
#define MI(I,n) case Intrinsic::I: { vector<Val> b{a[0]}; out=mathUF(n,w,b,::I,nullptr); return true; }
    MI(sin,"sin") MI(cos,"cos") MI(exp,"exp") MI(log,"log") MI(log10,"log10") MI(log2,"log2") MI(exp2,"exp2")
    case Intrinsic::pow: { vector<Val> b{a[0],a[1]}; out=mathUF("pow",w,b,nullptr,::pow); return true; }
    case Intrinsic::powi: { double e=(double)(int)concretize(s,a[1],32); if(a[0].sym()) { vector<Val> b{a[0],Val(fromD(e))}; out=mathUF("powi",w,b,nullptr,::pow);} else { double x=asD(a[0].c); out=Val(fromD(__builtin_powi(x,(int)e))); } return true; }
    case Intrinsic::vastart: case Intrinsic::vaend: out=Val(0ull); return true;
    default: return false;
  }
}
static void callFn(State&s,KInst&ki,CallBase*cb,Function*F,vector<Val>&args){
  if(F->isIntrinsic()){ Val out; if(!intrinsic(s,ki,F,args,out)) throw Unsupported{"intrinsic "+F->getName().str()}; finishCall(s,out); return; }
  string n=F->getName().str(); auto it=ext.find(n);
  if(it!=ext.end()&&(F->isDeclaration()||n.compare(0,3,"vf_")==0||n=="__clang_call_terminate")){ try{ Val r=it->second(s,ki,args); finishCall(s,r);}catch(NoAdvance&){} return; }
  if(n=="__clang_call_terminate") fail(s,"abort","std::terminate (exception escaped a noexcept context)");
  if(!F->isDeclaration()){ pushFrame(s,kf(F),args); return; }
  if(streamLike(n)){ if(F->getReturnType()->isStructTy()) throw Unsupported{"call of "+n}; stubbed.insert(n); finishCall(s,args.empty()?Val(0ull):args[0]); return; }
  if(n.find("rethrow_exception")==string::npos&&n.find("current_exception")==string::npos&&(n.find("exception")!=string::npos||n.compare(0,5,"_ZNSt")==0||n.compare(0,6,"_ZNKSt")==0)){ // std exception ctors/dtors/what
    if(n.find("_error")!=string::npos||n.find("exception")!=string::npos||n.find("bad_")!=string::npos||n.find("out_of_range")!=string::npos||n.find("invalid_argument")!=string::npos){ stubbed.insert(n); finishCall(s,Val(0ull)); return; } }
  throw Unsupported{"call to undefined function "+n+" ("+demangle(n)+")"};
}

static void step(State&s){
  Thread&T=s.th[s.cur]; Frame&f=T.st.back(); KInst&ki=f.f->blocks[f.bb].ins[f.pc]; Instruction*I=ki.I; s.steps++; totalSteps++;
  auto V=[&](int i){ return opv(f,ki.ops[i]); };
  unsigned op=I->getOpcode();
  if(I->isBinaryOp()){
    Val a=V(0),b=V(1); Type*t=I->getType(); unsigned w=eltBits(t);
    if(t->isIntegerTy()&&w>64) throw Unsupported{"wide integer arithmetic"};
    if(!a.sym()&&!b.sym()&&t->isIntegerTy()){ uint64_t x=a.c,y=b.c,r; switch(op){ case Instruction::Add:r=x+y;goto ok; case Instruction::Sub:r=x-y;goto ok; case Instruction::Mul:r=x*y;goto ok; case Instruction::And:r=x&y;goto ok; case Instruction::Or:r=x|y;goto ok; case Instruction::Xor:r=x^y;goto ok; case Instruction::Shl:r=y>=w?0:x<<y;goto ok; case Instruction::LShr:r=y>=w?0:x>>y;goto ok; default:break; ok: f.r[ki.dest]=Val(r&mask(w)); f.pc++; return; } }
    Val r=lanes(t,{a,b},[&](vector<Val>&l){ return Val(binop(s,op,X(l[0],w),X(l[1],w))); }); auto&ff=s.th[s.cur].st.back(); ff.r[ki.dest]=r; ff.pc++; return;
  }
  if(I->isCast()){ auto*ci=cast<CastInst>(I); unsigned fw=eltBits(ci->getSrcTy()),tw=eltBits(ci->getDestTy()); bool sv=ci->getSrcTy()->isVectorTy(),dv=ci->getDestTy()->isVectorTy();
    if(op==Instruction::BitCast&&(sv||dv)){ // reinterpret through bytes
      vector<SExpr*> by; Val v=V(0); auto push=[&](Val x,unsigned w){ SExpr*e=X(x,w); for(unsigned i=0;i<w;i+=8) by.push_back(P.extract(e,i,8)); }; if(sv) for(auto&x:vector<Val>(aggPool[v.c])) push(x,fw); else push(v,fw); auto get=[&](unsigned at,unsigned w){ SExpr*r=nullptr; for(unsigned i=0;i<w/8;++i) r=r?P.concat(by[at+i],r):by[at+i]; return Val(r); }; if(dv){ vector<Val> r; unsigned n=cast<FixedVectorType>(ci->getDestTy())->getNumElements(); for(unsigned i=0;i<n;++i) r.push_back(get(i*tw/8,tw)); f.r[ki.dest]=mkAgg(r);} else f.r[ki.dest]=get(0,tw); f.pc++; return; }
    if(!fw||!tw||fw>64||tw>64) throw Unsupported{"cast of wide type"};
    f.r[ki.dest]=lanes(ci->getDestTy(),{V(0)},[&](vector<Val>&l){ return castv(op,l[0],fw,tw); }); f.pc++; return; }
  switch(op){
    case Instruction::FNeg: { unsigned w=eltBits(I->getType()); f.r[ki.dest]=lanes(I->getType(),{V(0)},[&](vector<Val>&l){ return Val(fneg(X(l[0],w))); }); f.pc++; return; }
    case Instruction::ICmp: case Instruction::FCmp: { auto*c=cast<CmpInst>(I); unsigned w=eltBits(c->getOperand(0)->getType()); if(w>64||w==0) throw Unsupported{"wide compare"}; Val a=V(0),b=V(1);
      f.r[ki.dest]=lanes(I->getType(),{a,b},[&](vector<Val>&l){ return Val(cmp(c->getPredicate(),X(l[0],w),X(l[1],w))); }); f.pc++; return; }
    case Instruction::Select: { Val c=V(0); Type*t=I->getType(); if(c.sym()){ SExpr*ce=subst(s,c.e); c=Val(ce);} if(!c.sym()&&!cast<SelectInst>(I)->getCondition()->getType()->isVectorTy()) f.r[ki.dest]=c.c?V(1):V(2); else if(scalar(t)) f.r[ki.dest]=Val(P.ite(c.e,X(V(1),bits(t)),X(V(2),bits(t)))); else if(!cast<SelectInst>(I)->getCondition()->getType()->isVectorTy()){ uint64_t v=concretize(s,c,1); f.r[ki.dest]=v?V(1):V(2);} else { vector<Val> r; for(size_t i=0;i<aggPool[c.c].size();++i){ unsigned w=eltBits(t); r.push_back(Val(P.ite(X(aggPool[c.c][i],1),X(aggPool[V(1).c][i],w),X(aggPool[V(2).c][i],w)))); } f.r[ki.dest]=mkAgg(r);} f.pc++; return; }
    case Instruction::Freeze: f.r[ki.dest]=V(0); f.pc++; return;
    case Instruction::Br: { auto*b=cast<BranchInst>(I); if(b->isUnconditional()){ jump(s,f,f.f->bbi[b->getSuccessor(0)]); return; } Val c=V(0); int d; pState o; if(!c.sym()) d=c.c&1; else d=decide(s,c.e,o); if(o){ Frame&of=o->th[o->cur].st.back(); jump(*o,of,of.f->bbi[b->getSuccessor(1)]); work.push_back(o); } jump(s,f,f.f->bbi[b->getSuccessor(d?0:1)]); return; }
    case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); Val c=V(0); unsigned w=bits(sw->getCondition()->getType()); if(c.sym()){ SExpr*e=subst(s,c.e); c=Val(e);} if(!c.sym()){ auto*ci=ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()),c.c); jump(s,f,f.f->bbi[sw->findCaseValue(ci)->getCaseSuccessor()]); return; }
      // group cases by successor, fork over feasible groups
      vector<std::pair<BasicBlock*,SExpr*>> g; SExpr*def=P.T(); for(auto&cs:sw->cases()){ SExpr*q=P.eq(c.e,P.K(cs.getCaseValue()->getZExtValue(),w)); def=P.and_(def,P.not_(q)); bool fnd=false; for(auto&p:g) if(p.first==cs.getCaseSuccessor()){ p.second=P.or_(p.second,q); fnd=true; } if(!fnd) g.push_back({cs.getCaseSuccessor(),q}); } g.push_back({sw->getDefaultDest(),def});
      vector<std::pair<BasicBlock*,std::pair<SExpr*,pModel>>> feas; for(auto&p:g){ pModel m; SExpr*q=subst(s,p.second); if(q->op==O_CONST){ if(q->c) feas.push_back({p.first,{q,s.model}}); continue; } int mv=modelEval(s,q); if(mv==1) m=s.model; else if(solve(s,q,m)!=1) continue; feas.push_back({p.first,{q,m}}); }
      if(feas.empty()) throw KillState(); for(size_t i=1;i<feas.size();++i){ auto o=fork(s); addPC(*o,feas[i].second.first); o->model=feas[i].second.second; Frame&of=o->th[o->cur].st.back(); jump(*o,of,of.f->bbi[feas[i].first]); work.push_back(o);} addPC(s,feas[0].second.first); s.model=feas[0].second.second; jump(s,f,f.f->bbi[feas[0].first]); return; }
    case Instruction::Alloca: { auto*a=cast<AllocaInst>(I); uint64_t n=concretize(s,V(0),64)*DL->getTypeAllocSize(a->getAllocatedType()); auto o=newObj(n,'s',true); s.mem[o->base]=o; f.allocas.push_back(o->base); f.r[ki.dest]=Val(o->base); f.pc++; return; }
    case Instruction::Load: { Val v=loadType(s,V(0),I->getType()); f.r[ki.dest]=v; f.pc++; return; }
    case Instruction::Store: { auto*st=cast<StoreInst>(I); storeType(s,V(1),V(0),st->getValueOperand()->getType()); f.pc++; return; }
    case Instruction::GetElementPtr: { auto*g=cast<GetElementPtrInst>(I); Val base=V(0); uint64_t c=0; SExpr*se=nullptr; int i=1; for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt,++i){ Val ix=V(i); if(StructType*st=gt.getStructTypeOrNull()){ c+=DL->getStructLayout(st)->getElementOffset(ix.c); continue; } uint64_t es=DL->getTypeAllocSize(gt.getIndexedType()); unsigned w=bits(gt.getOperand()->getType()); if(!ix.sym()) c+=(uint64_t)sx(ix.c,w)*es; else { SExpr*t=P.mulc(P.sext(ix.e,64),es); se=se?P.add(se,t):t; } }
      if(!se&&!base.sym()) f.r[ki.dest]=Val(base.c+c); else { SExpr*r=P.add(X(base,64),P.K(c,64)); if(se) r=P.add(r,se); f.r[ki.dest]=Val(r);} f.pc++; return; }
    case Instruction::ExtractValue: { Val v=V(0); for(auto ix:cast<ExtractValueInst>(I)->indices()){ Val t=aggPool[v.c][ix]; v=t; } f.r[ki.dest]=v; f.pc++; return; }
    case Instruction::InsertValue: { auto*iv=cast<InsertValueInst>(I); std::function<Val(Val,ArrayRef<unsigned>)> ins=[&](Val a,ArrayRef<unsigned> ix)->Val{ vector<Val> n=aggPool[a.c]; if(ix.size()==1) n[ix[0]]=V(1); else { Val t=ins(n[ix[0]],ix.drop_front()); n[ix[0]]=t; } return mkAgg(n); }; f.r[ki.dest]=ins(V(0),iv->getIndices()); f.pc++; return; }
    case Instruction::ExtractElement: { uint64_t ix=concretize(s,V(1),64); Val v=aggPool[V(0).c][ix]; f.r[ki.dest]=v; f.pc++; return; }
    case Instruction::InsertElement: { uint64_t ix=concretize(s,V(2),64); vector<Val> n=aggPool[V(0).c]; n[ix]=V(1); f.r[ki.dest]=mkAgg(n); f.pc++; return; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(I); vector<Val> a=aggPool[V(0).c],b=aggPool[V(1).c],r; for(int m:sv->getShuffleMask()) r.push_back(m<0?Val(0ull):m<(int)a.size()?a[m]:b[m-a.size()]); f.r[ki.dest]=mkAgg(r); f.pc++; return; }
    case Instruction::AtomicRMW: { auto*a=cast<AtomicRMWInst>(I); Type*t=I->getType(); unsigned w=bits(t); Val old=loadType(s,V(0),t); SExpr*x=X(old,w),*y=X(V(1),w),*r; switch(a->getOperation()){ case AtomicRMWInst::Add:r=P.add(x,y);break; case AtomicRMWInst::Sub:r=P.sub(x,y);break; case AtomicRMWInst::Xchg:r=y;break; case AtomicRMWInst::And:r=P.and_(x,y);break; case AtomicRMWInst::Or:r=P.or_(x,y);break; default: throw Unsupported{"atomicrmw"}; } storeType(s,V(0),Val(r),t); f.r[ki.dest]=old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: { auto*a=cast<AtomicCmpXchgInst>(I); Type*t=a->getCompareOperand()->getType(); unsigned w=bits(t); Val old=loadType(s,V(0),t); uint64_t eq=concretize(s,Val(P.eq(X(old,w),X(V(1),w))),1); if(eq) storeType(s,V(0),V(2),t); f.r[ki.dest]=mkAgg({old,Val(eq)}); f.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::Unreachable: fail(s,"abort","unreachable executed");
    case Instruction::Ret: { Val r; bool has=I->getNumOperands()>0; if(has) r=V(0); popFrame(s); if(T.st.empty()){ T.done=true; if(s.cur==0) return; int n=s.th.size(); for(int i=1;i<=n;++i){ int c=(s.cur+i)%n; if(!s.th[c].done){ s.cur=c; break; } } return; } finishCall(s,r); return; }
    case Instruction::Resume: { uint64_t p=aggPool[V(0).c][0].c; popFrame(s); unwind(s,p); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto*cb=cast<CallBase>(I); vector<Val> args; for(unsigned i=0;i<cb->arg_size();++i) args.push_back(V(i)); Function*F=cb->getCalledFunction();
      if(cb->isInlineAsm()) { finishCall(s,Val(0ull)); return; }
      if(!F){ unsigned ci=cb->getNumOperands()-1; Value*cv=cb->getCalledOperand()->stripPointerCasts(); F=dyn_cast<Function>(cv); if(!F){ if(auto*ga=dyn_cast<GlobalAlias>(cv)) F=dyn_cast<Function>(ga->getAliaseeObject()); } if(!F){ uint64_t a=concretize(s,V(ci),64); auto it=faddr.find(a); if(it==faddr.end()) fail(s,"memory","call through invalid function pointer"); F=it->second; } }
      callFn(s,ki,cb,F,args); return; }
  }
  throw Unsupported{string("instruction ")+I->getOpcodeName()};
}

static string js(const string&x){ string o="\""; for(char ch:x){ if(ch=='"'||ch=='\\'){o+='\\';o+=ch;} else if((unsigned char)ch<32||(unsigned char)ch>126) o+='?'; else o+=ch; } return o+"\""; }
int main(int argc,char**argv){
  vector<string> files; string outf,entry="vf_main"; bool ctors=true;
  for(int i=1;i<argc;++i){ string a=argv[i]; auto nx=[&]{return string(argv[++i]);}; if(a=="-o") outf=nx(); else if(a=="--entry") entry=nx(); else if(a=="--max-time") maxTime=std::stod(nx()); else if(a=="--max-steps") maxSteps=std::stoull(nx()); else if(a=="--max-viol") maxViol=std::stoi(nx()); else if(a=="--query-ms") S.timeoutMs=std::stoi(nx()); else if(a=="--trace") trace=true; else if(a=="--wit") wantWit=std::stoi(nx()); else files.push_back(a); }
  t0=Solver::now(); SMDiagnostic err;
  for(auto&f:files){ auto m=parseIRFile(f,err,C); if(!m){ err.print("sxe",errs()); return 3; } if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m),Linker::Flags::None)){ std::cerr<<"link failed\n"; return 3; } }
  DL=&M->getDataLayout(); setupExt(); uint64_t fa=0x1000;
  for(auto&F:*M){ gaddr[&F]=fa; faddr[fa]=&F; fa+=16; }
  auto st=std::make_shared<State>(); st->model=std::make_shared<Model>(); st->th.resize(1);
  vector<std::pair<GlobalVariable*,pObj>> gs;
  for(auto&G:M->globals()){ uint64_t sz=G.getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(G.getValueType()):0; string n=G.getName().str(); if(G.isDeclaration()){ if(sz<8) sz=8; if(n.compare(0,4,"_ZTV")==0||n.compare(0,4,"_ZTI")==0||n.compare(0,4,"_ZTT")==0) sz=std::max<uint64_t>(sz,256); if(n=="_ZSt4cerr"||n=="_ZSt4cout"||n=="_ZSt4clog"||n=="_ZSt3cin") sz=512; } auto o=newObj(sz,'g',false); o->name=n; gaddr[&G]=o->base; gs.push_back({&G,o}); if(n.compare(0,4,"_ZTI")==0||n.compare(0,4,"_ZTV")==0){ tiName[o->base]=n; tiByName[n]=o->base; } }
  for(auto&p:gs){ if(p.first->hasInitializer()) initConst(p.second.get(),0,p.first->getInitializer()); bool k=p.first->isConstant()&&p.first->hasInitializer(); if(k) gconst[p.second->base]=p.second; else st->mem[p.second->base]=p.second; }
  Function*E=M->getFunction(entry); if(!E){ std::cerr<<"no entry "<<entry<<"\n"; return 3; }
  // driver list: global constructors, then the harness
  vector<Function*> init; if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) { vector<std::pair<uint64_t,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) init.push_back(p.second); }
  size_t phase=0; cur=st.get(); string status="ok"; uint64_t unsup=0;
  auto runPath=[&](pState s)->bool{ // returns true if finished normally
    cur=s.get(); uint64_t chk=0;
    while(true){ if(s->th[0].done) return true; if(s->th[s->cur].st.empty()){ s->th[s->cur].done=true; }
      step(*s); if(s->steps>maxSteps){ report(*s,s->model,"nontermination","path exceeded "+std::to_string(maxSteps)+" instructions"); throw KillState(); }
      if((++chk&0xfff)==0 && Solver::now()-t0>maxTime) throw Unsupported{"time limit"}; } };
  try { for(auto*F:init){ st->th[0]=Thread(); try { pushFrame(*st,kf(F),{}); runPath(st); } catch(Unsupported&u){ if(loc(*st).find("/boost/math/")==string::npos) throw; } } } catch(Unsupported&u){ inconclusive="global constructor: "+u.what+" at "+loc(*st); } catch(KillState&){ inconclusive="global constructor failed"; }
  if(inconclusive.empty()){
    st->th[0]=Thread(); st->steps=0; pushFrame(*st,kf(E),{}); work.push_back(st);
    while(!work.empty()){ auto s=work.back(); work.pop_back();
      try{ runPath(s); paths++; maxPathSteps=std::max<size_t>(maxPathSteps,s->steps); if((int)witnesses.size()<wantWit){ vector<std::pair<string,uint64_t>> w; bool uf=false; Solver::EvalCtx ec; for(auto&i:s->in) w.push_back({i.name,i.v.sym()?S.eval(i.v.e,*s->model,ec):i.v.c}); vector<uint64_t> ob; for(auto&v:s->obs) ob.push_back(v.sym()?S.eval(v.e,*s->model,ec):v.c); for(auto*c:s->pc) uf|=c->hasUF; if(ec.ok&&!uf){ witnesses.push_back(w); witObs.push_back(ob);} } }
      catch(KillState&){ killed++; }
      catch(Unsupported&u){ inconclusive=u.what+" at "+loc(*s); if(viols.empty()) break; else break; }
      if((int)viols.size()>=maxViol) break;
      if(Solver::now()-t0>maxTime){ inconclusive="time limit, "+std::to_string(work.size())+" states pending"; break; }
      if(trace&&((paths+killed)%100)==0) std::cerr<<"[sxe] paths "<<paths<<" killed "<<killed<<" pending "<<work.size()<<" steps "<<totalSteps<<" queries "<<S.st.queries<<" st "<<S.st.solverTime<<"\n";
    } }
  // functions encoded, including those the compiler inlined (from the debug locations of executed blocks)
  for(auto&kf:kfuncs) if(kf.second->used) for(size_t b=0;b<kf.second->blocks.size();++b) if(b==0||kf.second->blocks[b].seen) for(auto&ki:kf.second->blocks[b].ins) for(const DILocation*dl=ki.I->getDebugLoc().get();dl;dl=dl->getInlinedAt()) if(auto*sp=dl->getScope()->getSubprogram()){ StringRef ln=sp->getLinkageName(); if(ln.contains("schnek")&&usedLinkage.insert(ln.str()).second) usedFuncs.insert(demangle(ln.str())); }
  status=!viols.empty()?"violation":!inconclusive.empty()?"inconclusive":"ok";
  std::ostringstream o; o<<"{\n\"status\":"<<js(status)<<",\n\"inconclusive\":"<<js(inconclusive)<<",\n\"paths\":"<<paths<<",\"killed\":"<<killed<<",\"forks\":"<<forks<<",\"steps\":"<<totalSteps<<",\"max_path_steps\":"<<maxPathSteps<<",\n\"queries\":"<<S.st.queries<<",\"sat\":"<<S.st.sat<<",\"unsat\":"<<S.st.unsat<<",\"unknown\":"<<S.st.unknown<<",\"cache_hits\":"<<S.st.cacheHits<<",\"model_hits\":"<<S.st.modelHits<<",\"solver_s\":"<<S.st.solverTime<<",\"max_query_s\":"<<S.st.maxQuery<<",\"wall_s\":"<<Solver::now()-t0<<",\n\"asserts\":"<<nAssert<<",\"asserts_solver\":"<<nAssertSolver<<",\"assumes\":"<<nAssume<<",\"exprs\":"<<P.all.size()<<",\n\"assert_sites\":{"; bool c=false; for(auto&p:assertSites){ o<<(c?",":"")<<js(p.first)<<":"<<p.second; c=true; } o<<"},\n\"reach\":{"; c=false; for(auto&p:reachSites){ o<<(c?",":"")<<js(p.first)<<":"<<p.second; c=true; } o<<"},\n\"functions\":["; c=false; for(auto&p:usedFuncs) if(p.find("schnek")!=string::npos){ o<<(c?",":"")<<js(p.substr(0,200)); c=true; } o<<"],\n\"stubbed\":["; c=false; for(auto&p:stubbed){ o<<(c?",":"")<<js(demangle(p).substr(0,120)); c=true; } o<<"],\n\"witnesses\":["; for(size_t i=0;i<witnesses.size();++i){ o<<(i?",":"")<<"{\"in\":["; for(size_t j=0;j<witnesses[i].size();++j) o<<(j?",":"")<<"["<<js(witnesses[i][j].first)<<","<<js(std::to_string(witnesses[i][j].second))<<"]"; o<<"],\"obs\":["; for(size_t j=0;j<witObs[i].size();++j) o<<(j?",":"")<<js(std::to_string(witObs[i][j])); o<<"]}"; } o<<"],\n\"violations\":["; for(size_t i=0;i<viols.size();++i){ auto&v=viols[i]; o<<(i?",":"")<<"{\"kind\":"<<js(v.kind)<<",\"msg\":"<<js(v.msg)<<",\"where\":"<<js(v.where)<<",\"in\":["; for(size_t j=0;j<v.in.size();++j) o<<(j?",":"")<<"["<<js(v.in[j].first)<<","<<js(v.in[j].second)<<","<<js(std::to_string(v.vals[j]))<<"]"; o<<"]}"; } o<<"]\n}\n";
  if(outf.empty()) std::cout<<o.str(); else { std::ofstream f(outf); f<<o.str(); }
  if(status=="inconclusive") std::cerr<<"[sxe] inconclusive: "<<inconclusive<<"\n";
  _exit(status=="ok"?0:status=="violation"?1:2);
}
