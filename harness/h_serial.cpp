// C10: exchange / accumulate / queries of a single-process subdivision (periodic images)
#include "gridcommon.h"
#include "grid/domainsubdivision.hpp"
#ifndef ELEM
#define ELEM unsigned short
#endif
typedef ELEM T;
#if FIELD
#include "grid/field.hpp"
typedef Field<T,RANK,GridNoArgCheck,STORAGE> G;
#else
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G;
#endif
static int n[RANK],m[RANK],delta; static Idx lo,hi;
static T ref[512];
static long tag(const int*o){ long p=0; for(int d=0;d<RANK;++d) p=p*m[d]+o[d]; return p; }
template<class F> static void each(F f){ int o[RANK]; for(int d=0;d<RANK;++d) o[d]=0; for(;;){ f(o); int d=RANK-1; while(d>=0&&++o[d]==m[d]){ o[d]=0; --d; } if(d<0) break; } }
static Idx at(const int*o){ Idx p; for(int d=0;d<RANK;++d) p[d]=lo[d]+o[d]; return p; }
static int wrap(int o,int d){ return o+n[d]*((o<delta)-(o>=delta+n[d])); }
extern "C" void vf_main(){
  delta=vf_choose("delta",1,MAXDELTA); int op=vf_choose("op",0,3), how=vf_choose("init",0,op==1&&!FIELD?3:1);
  for(int d=0;d<RANK;++d){ lo[d]=how==3?0:vf_int("lo",-1000,1000); n[d]=vf_choose("n",op==3||op==2?2*delta:delta,MAXD>2*delta?MAXD:2*delta); m[d]=n[d]+2*delta; hi[d]=lo[d]+m[d]-1; }
  SerialSubdivision<G> sub; DomainSubdivision<G>&base=sub;
  if(how==0) sub.init(lo,hi,delta); else if(how==1) base.init(Rng(lo,hi),delta);
#if !FIELD
  else if(how==2){ G probe(lo,hi); base.init(probe,delta); } else { Idx size; for(int d=0;d<RANK;++d) size[d]=m[d]; base.init(size,delta); }
#endif
  for(int d=0;d<RANK;++d) VF_ASSERT(sub.getLo()[d]==lo[d]&&sub.getHi()[d]==hi[d]&&sub.getInnerLo()[d]==lo[d]+delta&&sub.getInnerHi()[d]==hi[d]-delta&&sub.getInnerDomain().getLo()[d]==lo[d]+delta&&sub.getGlobalDomain().getLo()[d]==lo[d]+delta&&sub.getGlobalDomain().getHi()[d]==hi[d]-delta,"local, inner and global domain of a single process");
  VF_ASSERT(sub.getDelta()==delta&&sub.master()&&sub.procnum()==0&&sub.procCount()==1&&sub.isBoundLo(0)&&sub.isBoundHi(0),"single process");
  int iv=vf_int("iv",-2147483647,2147483647); double dv=vf_double("dv");
  VF_ASSERT(base.avgReduce(iv)==iv&&base.sumReduce(iv)==iv&&base.maxReduce(iv)==iv&&base.minReduce(iv)==iv,"reductions over one process");
  VF_ASSERT(bitsOf(base.avgReduce(dv))==bitsOf(dv)&&bitsOf(base.sumReduce(dv))==bitsOf(dv)&&bitsOf(base.maxReduce(dv))==bitsOf(dv)&&bitsOf(base.minReduce(dv))==bitsOf(dv),"reductions over one process");
  if(how>1){ vf_reach("exchange-all"); return; }
#if FIELD
  Idx il,ih; Range<double,RANK> ext; Array<bool,RANK> st; for(int d=0;d<RANK;++d){ il[d]=lo[d]+delta; ih[d]=hi[d]-delta; ext.getLo()[d]=0; ext.getHi()[d]=1; st[d]=false; }
  G g(il,ih,ext,st,delta);
#else
  G g(lo,hi);
#endif
  each([&](const int*o){ T v=(T)vf_bits64("c"); ref[tag(o)]=v; g[at(o)]=v; });
  int o[RANK],w[RANK]; for(int d=0;d<RANK;++d) o[d]=op<2?vf_int("o",0,m[d]-1):vf_choose("o",0,m[d]-1);
  if(op==0){ int dim=vf_choose("dim",0,RANK-1); base.exchange(g,dim); for(int d=0;d<RANK;++d) w[d]=d==dim?wrap(o[d],d):o[d]; VF_ASSERT(g[at(o)]==ref[tag(w)],"after exchanging one dimension ghost cells hold the values of their periodic images, other cells are unchanged"); vf_reach("exchange"); }
  else if(op==1){ base.exchange(g); for(int d=0;d<RANK;++d) w[d]=wrap(o[d],d); VF_ASSERT(g[at(o)]==ref[tag(w)],"after a full exchange every ghost cell, corners included, holds the value of its periodic image"); vf_reach("exchange-all"); }
  else {
    int dim=op==2?vf_choose("dim",0,RANK-1):-1; if(op==2) base.accumulate(g,dim); else base.accumulate(g);
    T sum=0; each([&](const int*q){ bool same=true; for(int d=0;d<RANK;++d) same=same&&((op==3||d==dim)?wrap(q[d],d)==wrap(o[d],d):q[d]==o[d]); if(same) sum=(T)(sum+ref[tag(q)]); });
    VF_ASSERT(g[at(o)]==sum,"after accumulating every cell holds the sum over its periodic images"); vf_reach("accumulate");
  }
}
