// C04: ranges: membership, growing, projection; iteration visits every position exactly once in the documented order
#include "vf.h"
#include "grid/range.hpp"
#include "grid/iteration/range-iteration.hpp"
#include <utility>
using namespace schnek;
#ifndef ELT
#define ELT int
#endif
#ifndef LB
#define LB 1000000
#endif
typedef Array<ELT,RANK> A; typedef Range<ELT,RANK> R;
template<size_t...I> static void growN(R&r,const ELT*s,std::index_sequence<I...>){ r.grow(s[I]...); }
static A lo,hi; static long n[RANK];
static long total(){ long t=1; for(int d=0;d<RANK;++d) t*=n[d]; return t; }
// the k-th position in C order (last index fastest) or Fortran order
static bool isKth(const A&p,long k,bool fortran){
  bool ok=true;
  if(fortran){ for(int d=0;d<RANK;++d){ ok=ok&(p[d]==lo[d]+(ELT)(k%n[d])); k/=n[d]; } }
  else { for(int d=RANK-1;d>=0;--d){ ok=ok&(p[d]==lo[d]+(ELT)(k%n[d])); k/=n[d]; } }
  return ok;
}
extern "C" void vf_main(){
#if MODE==0
  A p; ELT s[RANK]; bool in=true;
  for(int d=0;d<RANK;++d){ lo[d]=vf_int("lo",-LB,LB); hi[d]=vf_int("hi",-LB,LB); p[d]=vf_int("p",-LB,LB); s[d]=vf_int("s",-LB,LB); in=in&(p[d]>=lo[d]&&p[d]<=hi[d]); }
  R r(lo,hi); R c(r); R e; e=r; Range<ELT,RANK,ArrayAssertArgCheck> o(r); R back(o);
  for(int d=0;d<RANK;++d){
    VF_ASSERT(r.getLo(d)==lo[d]&&r.getHi(d)==hi[d]&&r.getLo()[d]==lo[d]&&r.getHi()[d]==hi[d],"a range reports the limits it was given");
    const R&cr=r; VF_ASSERT(cr.getLo(d)==lo[d]&&cr.getHi(d)==hi[d]&&cr.getLo()[d]==lo[d]&&cr.getHi()[d]==hi[d],"a const range reports the limits it was given");
    VF_ASSERT(c.getLo(d)==lo[d]&&c.getHi(d)==hi[d]&&e.getLo(d)==lo[d]&&e.getHi(d)==hi[d]&&back.getLo(d)==lo[d]&&back.getHi(d)==hi[d],"copies of a range have the same limits");
  }
  VF_ASSERT(r.inside(p)==in,"inside holds exactly for positions between the limits");
  vf_observe(in);
  R g(r); growN(g,s,std::make_index_sequence<RANK>());
  R u(r); u.grow(s[0]);
  for(int d=0;d<RANK;++d){ VF_ASSERT(g.getLo(d)==lo[d]-s[d]&&g.getHi(d)==hi[d]+s[d],"grow widens each dimension by its own amount on both sides"); VF_ASSERT(u.getLo(d)==lo[d]-s[0]&&u.getHi(d)==hi[d]+s[0],"grow by one number widens every dimension"); VF_ASSERT(r.getLo(d)==lo[d]&&r.getHi(d)==hi[d],"growing a copy leaves the original alone"); }
#if RANK>1
  auto q=r.template project<RANK-1>(); for(int d=0;d<RANK-1;++d) VF_ASSERT(q.getLo(d)==lo[d]&&q.getHi(d)==hi[d],"project keeps the leading dimensions");
  auto one=r.template project<1>(); VF_ASSERT(one.getLo(0)==lo[0]&&one.getHi(0)==hi[0],"project keeps the leading dimensions");
  int dim=vf_choose("dim",0,RANK-1); auto w=r.projectDim(dim); for(int d=0;d<RANK-1;++d){ int f=d<dim?d:d+1; VF_ASSERT(w.getLo(d)==lo[f]&&w.getHi(d)==hi[f],"projectDim drops exactly the named dimension"); }
#endif
  r.getLo(0)=s[0]; r.getHi()[RANK-1]=p[RANK-1]; VF_ASSERT(r.getLo()[0]==s[0]&&r.getHi(RANK-1)==p[RANK-1],"limits can be changed through the accessors");
  vf_reach("done");
#else
  bool empty=false;
  for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",MIND,MAXD); lo[d]=vf_int("lo",-LB,LB); int gap=n[d]<=0?vf_int("gap",0,3):0; hi[d]=lo[d]+(ELT)n[d]-1-gap; empty|=n[d]<=0; }
  R r(lo,hi); long tot=empty?0:total(); if(empty) vf_reach("empty");
  long k=0;
  for(typename R::iterator it=r.begin();it!=r.end();++it){ VF_ASSERT(k<tot,"iteration stops after the last position"); VF_ASSERT(isKth(*it,k,false),"iteration visits positions in C order"); VF_ASSERT(isKth(it.getPos(),k,false),"iterator position"); ++k; }
  VF_ASSERT(k==tot,"iteration visits every position");
  k=0; for(typename R::iterator it=r.begin();it!=r.end();){ auto o=it++; VF_ASSERT(k<tot,"postfix iteration stops after the last position"); VF_ASSERT(isKth(o.getPos(),k,false),"postfix increment returns the old position"); ++k; }
  VF_ASSERT(k==tot,"postfix iteration visits every position");
  k=0; for(auto&p:r){ VF_ASSERT(k<tot&&isKth(p,k,false),"range-for in C order"); ++k; } VF_ASSERT(k==tot,"range-for visits every position");
  k=0; RangeCIterationPolicy<RANK>::forEach(r,[&](const A&p){ VF_ASSERT(k<tot,"C-order traversal stops"); VF_ASSERT(isKth(p,k,false),"C-order traversal in order"); ++k; }); VF_ASSERT(k==tot,"C-order traversal visits every position");
  k=0; RangeFortranIterationPolicy<RANK>::forEach(r,[&](const A&p){ VF_ASSERT(k<tot,"Fortran-order traversal stops"); VF_ASSERT(isKth(p,k,true),"Fortran-order traversal in order"); ++k; }); VF_ASSERT(k==tot,"Fortran-order traversal visits every position");
  for(int d=0;d<RANK;++d) VF_ASSERT(r.getLo(d)==lo[d]&&r.getHi(d)==hi[d],"iterating does not change the range");
  if(tot>1) vf_reach("many");
#endif
}
