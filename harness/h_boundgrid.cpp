// C09: ghost sub-grids show the ghost cells of the grid or field itself
#include "gridcommon.h"
#include "grid/boundary.hpp"
typedef Boundary<RANK> B; typedef B::DomainType D;
typedef unsigned short T;
#if FIELD
typedef Field<T,RANK,GridNoArgCheck,STORAGE> G;
#else
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G;
#endif
extern "C" void vf_main(){
  Idx lo,hi; int n[RANK]; int delta=vf_choose("delta",1,2); Array<bool,RANK> st;
  for(int d=0;d<RANK;++d){ lo[d]=vf_int("lo",-1000,1000); n[d]=vf_choose("n",delta,MAXD); hi[d]=lo[d]+n[d]-1+2*delta; st[d]=vf_choose("stagger",0,FIELD)!=0; }
  size_t dim=vf_choose("dim",0,RANK-1); int which=vf_choose("side",0,1);
  B b(lo,hi,delta);
#if FIELD
  Idx il,ih; Range<double,RANK> ext; for(int d=0;d<RANK;++d){ il[d]=lo[d]+delta; ih[d]=hi[d]-delta; ext.getLo()[d]=0; ext.getHi()[d]=1; }
  G g(il,ih,ext,st,delta);
#else
  G g(lo,hi);
#endif
  for(auto it=g.begin();it!=g.end();++it) *it=(T)1;
  auto s=b.getGhostBoundary(dim,which?B::Max:B::Min,g);
  for(auto it=s.begin();it!=s.end();++it) *it=(T)(*it+1);
  Idx p; for(int d=0;d<RANK;++d) p[d]=lo[d]+vf_int("p",0,n[d]+2*delta-1);
  bool ghost= which? p[dim]>hi[dim]-delta : p[dim]<lo[dim]+delta-(st[dim]?1:0);
  VF_ASSERT(g[p]==(ghost?2:1),"the ghost sub-grid consists of exactly the boundary cells of the grid");
  vf_reach("ghost");
}
