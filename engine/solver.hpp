// Z3 back end: translation of the DAG, constraint slicing, query cache, models.
#pragma once
#include "expr.hpp"
#include <z3++.h>
#include <memory>
#include <map>
#include <set>
#include <chrono>
#include <iostream>
#include <fstream>

typedef std::unordered_map<uint32_t,uint64_t> Model;     // var index -> value (missing = 0 clipped to range)
typedef std::shared_ptr<const Model> pModel;

struct Stats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0, mismatch=0; double solverTime=0, maxQuery=0; };

struct Solver {
  ExprPool&P; z3::context ctx; std::vector<z3::expr*> bvCache, fpCache; Stats st; unsigned timeoutMs=60000;
  std::unordered_map<std::string,std::pair<int,pModel>> cache;
  std::vector<z3::func_decl*> ufd;
  Solver(ExprPool&p):P(p){ self()=this; p.evalHook=[](ExprPool&,Expr*e,const std::unordered_map<uint32_t,uint64_t>&m)->uint64_t{ EvalCtx c; return self()->eval(e,m,c); }; }
  static Solver*&self(){ static Solver*s=nullptr; return s; }
  static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  z3::sort fpSort(unsigned w){ return w==64?ctx.fpa_sort(11,53):ctx.fpa_sort(8,24); }
  z3::expr E(Z3_ast a){ ctx.check_error(); return z3::expr(ctx,a); }
  z3::expr rne(){ return E(Z3_mk_fpa_rne(ctx)); } z3::expr rtz(){ return E(Z3_mk_fpa_rtz(ctx)); }
  static bool isFPOp(Op o){ switch(o){case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:case O_SITOF:case O_UITOF:case O_FEXT:case O_FTRUNC:case O_FFLOOR:case O_FCEIL:case O_FTRUNCI:case O_FRINT:case O_FROUND:case O_FSQRT:return true;default:return false;} }
  // floating-point sorted term for e
  z3::expr fp(Expr*e){
    if(e->id<fpCache.size()&&fpCache[e->id]) return *fpCache[e->id];
    z3::expr r(ctx);
    auto sort=fpSort(e->w);
    switch(e->op){
      case O_FADD:r=E(Z3_mk_fpa_add(ctx,rne(),fp(e->k[0]),fp(e->k[1])));break;
      case O_FSUB:r=E(Z3_mk_fpa_sub(ctx,rne(),fp(e->k[0]),fp(e->k[1])));break;
      case O_FMUL:r=E(Z3_mk_fpa_mul(ctx,rne(),fp(e->k[0]),fp(e->k[1])));break;
      case O_FDIV:r=E(Z3_mk_fpa_div(ctx,rne(),fp(e->k[0]),fp(e->k[1])));break;
      case O_FSQRT:r=E(Z3_mk_fpa_sqrt(ctx,rne(),fp(e->k[0])));break;
      case O_SITOF:r=E(Z3_mk_fpa_to_fp_signed(ctx,rne(),narrow(e->k[0],true),sort));break;
      case O_UITOF:r=E(Z3_mk_fpa_to_fp_unsigned(ctx,rne(),bv(e->k[0]),sort));break;
      case O_FEXT: case O_FTRUNC: r=E(Z3_mk_fpa_to_fp_float(ctx,rne(),fp(e->k[0]),sort));break;
      case O_FFLOOR:r=E(Z3_mk_fpa_round_to_integral(ctx,E(Z3_mk_fpa_rtn(ctx)),fp(e->k[0])));break;
      case O_FCEIL:r=E(Z3_mk_fpa_round_to_integral(ctx,E(Z3_mk_fpa_rtp(ctx)),fp(e->k[0])));break;
      case O_FTRUNCI:r=E(Z3_mk_fpa_round_to_integral(ctx,rtz(),fp(e->k[0])));break;
      case O_FRINT:r=E(Z3_mk_fpa_round_to_integral(ctx,rne(),fp(e->k[0])));break;
      case O_FROUND:r=E(Z3_mk_fpa_round_to_integral(ctx,E(Z3_mk_fpa_rna(ctx)),fp(e->k[0])));break;
      case O_ITE: r=z3::ite(b(e->k[0]),fp(e->k[1]),fp(e->k[2]));break;
      default: r=E(Z3_mk_fpa_to_fp_bv(ctx,bv(e),sort));
    }
    if(fpCache.size()<=e->id) fpCache.resize(P.all.size()+64,nullptr);
    fpCache[e->id]=new z3::expr(r); return r;
  }
  // number of signed bits that carry every value of the interval
  static unsigned need(int64_t lo,int64_t hi,unsigned w){ for(unsigned t=2;t<w;++t) if(lo>=ExprPool::smin(t)&&hi<=ExprPool::smax(t)) return t; return w; }
  static unsigned need(Expr*e){ return e->w==1?1:need(e->lo,e->hi,e->w); }
  static unsigned need2(Expr*a,Expr*b){ return a->w==1?1:need(std::min(a->lo,b->lo),std::max(a->hi,b->hi),a->w); }
  // narrowest signed bit-vector that carries the value (keeps int->fp conversion circuits small)
  z3::expr narrow(Expr*e,bool){ return bvn(e,need(e)); }
  unsigned varW(uint32_t v){ unsigned w=P.vars[v].w; return w==1?1:need(P.varRange[v].first,P.varRange[v].second,w); }
  z3::expr varE(uint32_t v){ return ctx.bv_const(("v"+std::to_string(v)).c_str(),varW(v)); }
  // e mod 2^n  (n<=w): the low n bits of ring operations only depend on the low n bits of the operands
  std::unordered_map<uint64_t,z3::expr*> bvnCache;
  static bool ringOp(Op o){ switch(o){ case O_CONST:case O_VAR:case O_SUM:case O_MUL:case O_AND:case O_OR:case O_XOR:case O_ITE:case O_SEXT:case O_ZEXT:case O_EXTRACT:case O_SDIV:case O_UDIV:case O_SREM:case O_UREM: return true; default: return false; } }
  z3::expr sresize(z3::expr x,unsigned n){ unsigned m=x.get_sort().bv_size(); return m==n?x:m>n?x.extract(n-1,0):z3::sext(x,n-m); }
  z3::expr bvn(Expr*e,unsigned n){
    if(e->w==1||!ringOp(e->op)) return n==e->w?bv(e):bv(e).extract(n-1,0);
    unsigned nd=need(e); if(nd<n) return z3::sext(bvn(e,nd),n-nd);
    uint64_t key=((uint64_t)e->id<<8)|n; auto it=bvnCache.find(key); if(it!=bvnCache.end()) return *it->second;
    z3::expr r(ctx); auto mk=[&](uint64_t c){ return ctx.bv_val((uint64_t)(c&mask(n)),n); };
    switch(e->op){
      case O_CONST: r=mk(e->c); break;
      case O_VAR: r=sresize(varE(e->c),n); break;
      case O_SUM: { bool first=true; for(size_t i=0;i<e->k.size();++i){ uint64_t q=e->co[i]&mask(n); if(!q) continue; z3::expr t=bvn(e->k[i],n); if(q==mask(n)) t=-t; else if(q!=1) t=t*mk(q); r=first?t:r+t; first=false; } if(first) r=mk(e->c); else if(e->c&mask(n)) r=r+mk(e->c); break; }
      case O_MUL: r=bvn(e->k[0],n)*bvn(e->k[1],n); break;
      case O_AND: r=bvn(e->k[0],n)&bvn(e->k[1],n); break; case O_OR: r=bvn(e->k[0],n)|bvn(e->k[1],n); break; case O_XOR: r=bvn(e->k[0],n)^bvn(e->k[1],n); break;
      case O_ITE: r=z3::ite(b(e->k[0]),bvn(e->k[1],n),bvn(e->k[2],n)); break;
      case O_SEXT: if(e->k[0]->w==1) r=sresize(bv(e->k[0]),n); else r=e->k[0]->w>=n?bvn(e->k[0],n):z3::sext(bvn(e->k[0],e->k[0]->w),n-e->k[0]->w); break;
      case O_ZEXT: if(e->k[0]->w==1) r=z3::zext(bv(e->k[0]),n-1); else r=e->k[0]->w>=n?bvn(e->k[0],n):z3::zext(bvn(e->k[0],e->k[0]->w),n-e->k[0]->w); break;
      case O_EXTRACT: if(e->c==0&&e->k[0]->w>1) r=bvn(e->k[0],n); else { r=bvn(e->k[0],e->k[0]->w).extract(e->c+n-1,e->c); } break;
      case O_SDIV: case O_UDIV: case O_SREM: case O_UREM: { // operands in m signed bits (one spare bit for min/-1); value then resized
          bool un=e->op==O_UDIV||e->op==O_UREM; unsigned m=need2(e->k[0],e->k[1])+1; if(m>e->w||(un&&(e->k[0]->lo<0||e->k[1]->lo<0))) m=e->w;
          z3::expr x=bvn(e->k[0],m),y=bvn(e->k[1],m); z3::expr q=e->op==O_SDIV?x/y:e->op==O_UDIV?z3::udiv(x,y):e->op==O_SREM?z3::srem(x,y):z3::urem(x,y); r=sresize(q,n); break; }
      default: throw std::runtime_error("bvn");
    }
    bvnCache[key]=new z3::expr(r); return r;
  }
  z3::expr b(Expr*e){ // boolean view
    if(e->op==O_CONST) return ctx.bool_val(e->c!=0);
    switch(e->op){
      case O_EQ: { unsigned n=need2(e->k[0],e->k[1]); return bvn(e->k[0],n)==bvn(e->k[1],n); }
      case O_ULT: return z3::ult(bv(e->k[0]),bv(e->k[1])); case O_ULE: return z3::ule(bv(e->k[0]),bv(e->k[1]));
      case O_SLT: { unsigned n=need2(e->k[0],e->k[1]); return bvn(e->k[0],n)<bvn(e->k[1],n); } case O_SLE: { unsigned n=need2(e->k[0],e->k[1]); return bvn(e->k[0],n)<=bvn(e->k[1],n); }
      case O_AND: return b(e->k[0])&&b(e->k[1]); case O_OR: return b(e->k[0])||b(e->k[1]);
      case O_XOR: if(e->k[1]->op==O_CONST&&e->k[1]->c) return !b(e->k[0]); return b(e->k[0])!=b(e->k[1]);
      case O_ITE: return z3::ite(b(e->k[0]),b(e->k[1]),b(e->k[2]));
      case O_FEQ: return E(Z3_mk_fpa_eq(ctx,fp(e->k[0]),fp(e->k[1]))); case O_FLT: return E(Z3_mk_fpa_lt(ctx,fp(e->k[0]),fp(e->k[1]))); case O_FLE: return E(Z3_mk_fpa_leq(ctx,fp(e->k[0]),fp(e->k[1])));
      case O_FUNO: return E(Z3_mk_fpa_is_nan(ctx,fp(e->k[0])))||E(Z3_mk_fpa_is_nan(ctx,fp(e->k[1])));
      case O_UMULOVF: return !E(Z3_mk_bvmul_no_overflow(ctx,bv(e->k[0]),bv(e->k[1]),false));
      case O_SMULOVF: return !(E(Z3_mk_bvmul_no_overflow(ctx,bv(e->k[0]),bv(e->k[1]),true))&&E(Z3_mk_bvmul_no_underflow(ctx,bv(e->k[0]),bv(e->k[1]))));
      default: return bv(e)==ctx.bv_val(1,1);
    } }
  z3::expr bv(Expr*e){
    if(e->id<bvCache.size()&&bvCache[e->id]) return *bvCache[e->id];
    // iterative deepening is unnecessary: DAG depth is bounded by path length, but guard the native stack
    if(e->w>1&&ringOp(e->op)) return bvn(e,e->w);
    z3::expr r(ctx); unsigned w=e->w;
    switch(e->op){
      case O_CONST: r=ctx.bv_val((uint64_t)e->c,w);break;
      case O_VAR: r=sresize(varE(e->c),w);break;
      case O_SHL:r=z3::shl(bv(e->k[0]),bv(e->k[1]));break; case O_LSHR:r=z3::lshr(bv(e->k[0]),bv(e->k[1]));break; case O_ASHR:r=z3::ashr(bv(e->k[0]),bv(e->k[1]));break;
      case O_CONCAT:r=z3::concat(bv(e->k[0]),bv(e->k[1]));break;
      case O_EXTRACT:r=bv(e->k[0]).extract(e->c+w-1,e->c);break;
      case O_ZEXT:r=z3::zext(bv(e->k[0]),w-e->k[0]->w);break; case O_SEXT:r=z3::sext(bv(e->k[0]),w-e->k[0]->w);break;
      case O_ITE: r=z3::ite(b(e->k[0]),bv(e->k[1]),bv(e->k[2]));break;
      case O_FTOSI: { z3::expr f=fp(e->k[0]); unsigned fw=e->k[0]->w; auto L=[&](double d){ return E(Z3_mk_fpa_numeral_double(ctx,d,fpSort(fw))); }; double lim=std::ldexp(1.0,w-1);
          z3::expr in = E(Z3_mk_fpa_lt(ctx,f,L(lim))) && (w<=52? E(Z3_mk_fpa_gt(ctx,f,L(-lim-1))) : E(Z3_mk_fpa_geq(ctx,f,L(-lim)))); r=z3::ite(in,E(Z3_mk_fpa_to_sbv(ctx,rtz(),f,w)),ctx.bv_val((uint64_t)(1ull<<(w-1)),w)); break; }
      case O_FTOUI: { z3::expr f=fp(e->k[0]); unsigned fw=e->k[0]->w; auto L=[&](double d){ return E(Z3_mk_fpa_numeral_double(ctx,d,fpSort(fw))); }; z3::expr in=E(Z3_mk_fpa_lt(ctx,f,L(std::ldexp(1.0,w))))&&E(Z3_mk_fpa_gt(ctx,f,L(-1))); r=z3::ite(in,E(Z3_mk_fpa_to_ubv(ctx,rtz(),f,w)),ctx.bv_val(0,w)); break; }
      case O_UF: { z3::sort_vector sv(ctx); z3::expr_vector av(ctx); for(auto*x:e->k){ sv.push_back(ctx.bv_sort(x->w)); av.push_back(bv(x)); } z3::func_decl f=ctx.function(("uf_"+P.ufs[e->c]+std::to_string(e->k.size())).c_str(),sv,ctx.bv_sort(w)); r=f(av); break; }
      default:
        if(isFPOp(e->op)) r=E(Z3_mk_fpa_to_ieee_bv(ctx,fp(e)));
        else if(w==1) r=z3::ite(b(e),ctx.bv_val(1,1),ctx.bv_val(0,1));
        else switch(e->op){ case O_AND:r=bv(e->k[0])&bv(e->k[1]);break; case O_OR:r=bv(e->k[0])|bv(e->k[1]);break; case O_XOR:r=bv(e->k[0])^bv(e->k[1]);break; default: throw std::runtime_error("untranslatable op"); }
    }
    if(bvCache.size()<=e->id) bvCache.resize(P.all.size()+64,nullptr);
    bvCache[e->id]=new z3::expr(r); return r;
  }
  uint64_t defaultVal(uint32_t v){ auto&r=P.varRange[v]; int64_t x=0; if(x<r.first)x=r.first; if(x>r.second)x=r.second; return (uint64_t)x&mask(P.vars[v].w); }
  uint64_t mval(const Model&m,uint32_t v){ auto it=m.find(v); return it!=m.end()?it->second:defaultVal(v); }
  // ---- evaluation under a model. ok=false when an uninterpreted function is met
  // libm functions are uninterpreted for the solver; a candidate assignment is evaluated with the host's
  static void hostFn(const std::string&n,double(*&f1)(double),double(*&f2)(double,double)){
    typedef double(*U)(double); typedef double(*B)(double,double);
    static const std::map<std::string,U> u={{"sin",(U)::sin},{"cos",(U)::cos},{"tan",(U)::tan},{"asin",(U)::asin},{"acos",(U)::acos},{"atan",(U)::atan},{"sinh",(U)::sinh},{"cosh",(U)::cosh},{"tanh",(U)::tanh},{"exp",(U)::exp},{"log",(U)::log},{"log10",(U)::log10}};
    static const std::map<std::string,B> b={{"pow",(B)::pow},{"atan2",(B)::atan2},{"fmod",(B)::fmod},{"hypot",(B)::hypot},{"ldexp",[](double x,double n){ return ::ldexp(x,(int)n); }}};
    auto i=u.find(n); if(i!=u.end()) f1=i->second; auto j=b.find(n); if(j!=b.end()) f2=j->second; }
  uint64_t rngS=0x9E3779B97F4A7C15ull; uint64_t rng(){ rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; return rngS; }
  // cheap search for a satisfying assignment of a floating-point query (the solver decides when it finds none)
  pModel guess(const std::vector<Expr*>&sel,const std::set<uint32_t>&vs,const pModel&base){
    for(int n=0;n<400;++n){ auto m=std::make_shared<Model>(base?*base:Model());
      for(auto v:vs){ unsigned w=P.vars[v].w; auto&r=P.varRange[v]; uint64_t x; bool full=w==64&&r.first==ExprPool::smin(64)&&r.second==ExprPool::smax(64);
        if(full){ uint64_t k=rng()%8; static const double sp[]={0.0,-0.0,1,-1,0.5,2,-2.5,3,1e300,-1e-300,7}; x=k<2?fromD(sp[rng()%11]):k<5?fromD(((double)(int64_t)(rng()%2001)-1000)/8):k<7?fromD(((double)(int64_t)rng())/1e15):rng(); if(n%3==0&&base&&rng()%2){ auto i=base->find(v); if(i!=base->end()) x=i->second; } }
        else { uint64_t span=(uint64_t)(r.second-r.first); x=(uint64_t)r.first+(span==~0ull?rng():rng()%(span+1)); uint64_t k=rng()%8; if(k==0) x=(uint64_t)r.first; else if(k==1) x=(uint64_t)r.second; else if(k==2&&r.first<=0&&r.second>=0) x=0; }
        (*m)[v]=x&mask(w); }
      EvalCtx ec; bool ok=true; for(size_t i=sel.size();i-->0&&ok;) ok=eval(sel[i],*m,ec)&&ec.ok; if(ok) return m; }
    return nullptr; }
  struct EvalCtx{ std::unordered_map<Expr*,uint64_t> memo; bool ok=true; };
  uint64_t eval(Expr*e,const Model&m,EvalCtx&c){
    if(e->op==O_CONST) return e->c; if(e->op==O_VAR) return mval(m,e->c);
    auto it=c.memo.find(e); if(it!=c.memo.end()) return it->second;
    uint64_t r=0; unsigned w=e->w; auto a=[&](int i){return eval(e->k[i],m,c);};
    switch(e->op){
      case O_UF:{ double(*f1)(double)=nullptr; double(*f2)(double,double)=nullptr; hostFn(P.ufs[e->c],f1,f2); if(w==64&&e->k.size()==1&&f1) r=fromD(f1(asD(a(0)))); else if(w==64&&e->k.size()==2&&f2) r=fromD(f2(asD(a(0)),asD(a(1)))); else c.ok=false; break; }
      case O_SUM:{ r=e->c; for(size_t i=0;i<e->k.size();++i) r+=e->co[i]*a(i); break; }
      case O_MUL:r=a(0)*a(1);break; case O_UDIV:{auto y=a(1);r=y?a(0)/y:mask(w);break;} case O_UREM:{auto y=a(1);r=y?a(0)%y:a(0);break;}
      case O_SDIV:{int64_t x=sx(a(0),w),y=sx(a(1),w); r=y==0?(x<0?1:mask(w)):y==-1?0-(uint64_t)x:(uint64_t)(x/y);break;} case O_SREM:{int64_t x=sx(a(0),w),y=sx(a(1),w); r=y==0?x:y==-1?0:(uint64_t)(x%y);break;}
      case O_AND:r=a(0)&a(1);break; case O_OR:r=a(0)|a(1);break; case O_XOR:r=a(0)^a(1);break;
      case O_SHL:{auto s=a(1);r=s>=w?0:a(0)<<s;break;} case O_LSHR:{auto s=a(1);r=s>=w?0:a(0)>>s;break;} case O_ASHR:{auto s=a(1);r=(uint64_t)(sx(a(0),w)>>(s>=w?w-1:s));break;}
      case O_EQ:r=a(0)==a(1);break; case O_ULT:r=a(0)<a(1);break; case O_ULE:r=a(0)<=a(1);break; case O_SLT:r=sx(a(0),e->k[0]->w)<sx(a(1),e->k[1]->w);break; case O_SLE:r=sx(a(0),e->k[0]->w)<=sx(a(1),e->k[1]->w);break;
      case O_CONCAT:r=(a(0)<<e->k[1]->w)|a(1);break; case O_EXTRACT:r=a(0)>>e->c;break; case O_ZEXT:r=a(0);break; case O_SEXT:r=(uint64_t)sx(a(0),e->k[0]->w);break;
      case O_ITE:r=a(0)?a(1):a(2);break;
      case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:r=ExprPool::fbin(e->op,w,a(0),a(1));break; case O_FEQ:case O_FLT:case O_FLE:case O_FUNO:r=ExprPool::fcmp(e->op,e->k[0]->w,a(0),a(1));break;
      case O_FTOSI:r=ExprPool::ftoi(e->k[0]->w,a(0),w,true);break; case O_FTOUI:r=ExprPool::ftoi(e->k[0]->w,a(0),w,false);break; case O_SITOF:r=ExprPool::itof(e->k[0]->w,a(0),w,true);break; case O_UITOF:r=ExprPool::itof(e->k[0]->w,a(0),w,false);break;
      case O_FEXT:r=fromD((double)asF(a(0)));break; case O_FTRUNC:r=fromF((float)asD(a(0)));break;
      case O_FFLOOR:case O_FCEIL:case O_FTRUNCI:case O_FRINT:case O_FROUND:case O_FSQRT:r=ExprPool::fun(e->op,w,a(0));break;
      case O_UMULOVF:{unsigned __int128 p=(unsigned __int128)a(0)*a(1);r=p>mask(e->k[0]->w);break;} case O_SMULOVF:{i128 p=(i128)sx(a(0),e->k[0]->w)*sx(a(1),e->k[1]->w);r=p<ExprPool::smin(e->k[0]->w)||p>ExprPool::smax(e->k[0]->w);break;}
      default: c.ok=false; r=0;
    }
    r&=mask(w); c.memo[e]=r; return r;
  }
  // rc: 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Expr*>&pc,Expr*cond,pModel base,pModel&out){
    if(cond->op==O_CONST){ if(!cond->c) return 0; out=base; return 1; }
    // slice: constraints transitively sharing variables with cond
    std::vector<Expr*> sel; std::set<uint32_t> vs(cond->vars.begin(),cond->vars.end()); std::vector<char> used(pc.size(),0);
    bool ufAny=cond->hasUF; bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();++i) if(!used[i]){ bool hit=false; if(ufAny&&pc[i]->hasUF) hit=true; else for(auto v:pc[i]->vars) if(vs.count(v)){hit=true;break;} if(hit){ used[i]=1; sel.push_back(pc[i]); vs.insert(pc[i]->vars.begin(),pc[i]->vars.end()); if(pc[i]->hasUF) ufAny=true; ch=true; } } }
    sel.push_back(cond); std::vector<uint32_t> ids; for(auto*e:sel) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
    std::string key((char*)ids.data(),ids.size()*4);
    auto it=cache.find(key);
    auto merge=[&](pModel m){ auto r=std::make_shared<Model>(base?*base:Model()); for(auto v:vs){ auto i=m->find(v); (*r)[v]=i!=m->end()?i->second:defaultVal(v);} return pModel(r); };
    if(it!=cache.end()){ st.cacheHits++; if(it->second.first==1) out=merge(it->second.second); return it->second.first; }
    bool hasFP=false; for(auto*e:sel) hasFP|=e->hasFP;
    double t0=now(); int rc=-1; pModel m;
    if(hasFP||ufAny){ if(pModel g=guess(sel,vs,base)){ st.queries++; st.sat++; st.solverTime+=now()-t0; cache[key]={1,g}; out=merge(g); return 1; } }
    try {
      z3::solver s = hasFP ? z3::tactic(ctx,"qffpbv").mk_solver() : ufAny ? z3::solver(ctx) : z3::solver(ctx,"QF_BV");
      if(ufAny) s=z3::solver(ctx);
      z3::params pr(ctx); pr.set("timeout",timeoutMs); s.set(pr);
      for(auto*e:sel) s.add(b(e));
      for(auto v:vs){ auto&r=P.varRange[v]; unsigned w=P.vars[v].w; if(w>1&&(r.first!=ExprPool::smin(w)||r.second!=ExprPool::smax(w))){ z3::expr x=varE(v); unsigned n=varW(v); s.add(x>=ctx.bv_val((uint64_t)r.first&mask(n),n)&&x<=ctx.bv_val((uint64_t)r.second&mask(n),n)); } }
      auto res=s.check(); if(getenv("SXE_DUMP")&&now()-t0>atof(getenv("SXE_DUMP"))){ static int dn=0; for(auto*e:sel) std::cerr<<"[q] "<<ExprPool::show(e)<<"\n"; std::ofstream f("/tmp/slow"+std::to_string(dn++)+".smt2"); f<<s.to_smt2(); }
      if(res==z3::sat){ rc=1; auto mm=s.get_model(); auto mp=std::make_shared<Model>(); for(auto v:vs){ z3::expr x=mm.eval(varE(v),true); uint64_t val=0; if(x.is_numeral_u64(val)) {} else val=0; (*mp)[v]=(uint64_t)sx(val,varW(v))&mask(P.vars[v].w); }
        // every model is re-evaluated by the executor's own semantics before it is used
        bool uf=false; for(auto*e:sel) uf|=e->hasUF; if(!uf){ EvalCtx ec; for(auto*e:sel) if(!eval(e,*mp,ec)&&ec.ok){ std::cerr<<"sxe: solver model does not satisfy the query (encoding mismatch)\n"; st.mismatch++; rc=-1; break; } } m=mp; }
      else if(res==z3::unsat) rc=0;
    } catch(z3::exception&ex){ std::cerr<<"z3: "<<ex.msg()<<"\n"; rc=-1; }
    double dt=now()-t0; st.solverTime+=dt; st.maxQuery=std::max(st.maxQuery,dt); st.queries++; if(rc==1)st.sat++; else if(rc==0)st.unsat++; else st.unknown++;
    if(rc>=0) cache[key]={rc,m};
    if(rc==1) out=merge(m);
    return rc;
  }
};
