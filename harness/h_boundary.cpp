// C09: ghost, source, boundary and inner regions of a domain with ghost cells
#include "gridcommon.h"
#include "grid/boundary.hpp"
typedef Boundary<RANK> B; typedef B::DomainType D;
static bool in(const D&r,const Idx&p){ bool b=true; for(int d=0;d<RANK;++d) b=b&(p[d]>=r.getLo()[d])&(p[d]<=r.getHi()[d]); return b; }
extern "C" void vf_main(){
  Idx lo,hi; int n[RANK]; int delta=vf_int("delta",1,1000);
  for(int d=0;d<RANK;++d){ lo[d]=vf_int("lo",-1000000,1000000); n[d]=vf_int("n",1,1000000); vf_assume(n[d]>=delta); hi[d]=lo[d]+n[d]+2*delta-1; }
  size_t dim=vf_choose("dim",0,RANK-1);
  D dom(lo,hi); 
#ifdef FROMRANGE
  B b(dom,delta);
#else
  B b(lo,hi,delta);
#endif
  VF_ASSERT(b.getDelta()==delta,"number of ghost cells");
  Idx p; for(int d=0;d<RANK;++d) p[d]=vf_int("p",-3000000,3000000);
  VF_ASSERT(in(b.getDomain(),p)==in(dom,p),"the whole domain is the one given");
  bool inner=true; for(int d=0;d<RANK;++d) inner=inner&(p[d]>=lo[d]+delta)&(p[d]<=hi[d]-delta);
  VF_ASSERT(in(b.getInnerDomain(),p)==inner,"the inner domain is the domain without its ghost cells");
  bool whole=in(dom,p); bool innerDim=(p[dim]>=lo[dim]+delta)&(p[dim]<=hi[dim]-delta);
  D gl=b.getGhostDomain(dim,B::Min), gh=b.getGhostDomain(dim,B::Max), sl=b.getGhostSourceDomain(dim,B::Min), sh=b.getGhostSourceDomain(dim,B::Max);
  VF_ASSERT(in(gl,p)==(whole&(p[dim]<lo[dim]+delta)),"lower ghost cells are the outermost cells below the inner domain");
  VF_ASSERT(in(gh,p)==(whole&(p[dim]>hi[dim]-delta)),"upper ghost cells are the outermost cells above the inner domain");
  VF_ASSERT((in(gl,p)|in(gh,p)|(whole&innerDim))==whole&&!(in(gl,p)&in(gh,p)),"ghost and inner cells tile the domain along a dimension");
  // the sources are the periodic / neighbour images of the opposite ghost cells
  Idx q=p; q[dim]+=n[dim]; VF_ASSERT(in(gl,p)==in(sh,q),"upper source cells are the image of the lower ghost cells");
  q=p; q[dim]-=n[dim]; VF_ASSERT(in(gh,p)==in(sl,q),"lower source cells are the image of the upper ghost cells");
  for(int d=0;d<RANK;++d){ VF_ASSERT(sl.getHi()[d]-sl.getLo()[d]==gh.getHi()[d]-gh.getLo()[d]&&sh.getHi()[d]-sh.getLo()[d]==gl.getHi()[d]-gl.getLo()[d],"source and ghost regions have equal extents"); }
  VF_ASSERT(!in(sl,p)||(whole&innerDim),"source cells are inner cells"); VF_ASSERT(!in(sh,p)||(whole&innerDim),"source cells are inner cells");
  // staggered boundary regions: an edge-centred field has one boundary point less at the lower end
  for(int st=0;st<2;++st){
    VF_ASSERT(in(b.getBoundaryDomain(dim,B::Min,st),p)==(whole&(p[dim]<lo[dim]+delta-st)),"lower boundary region");
    VF_ASSERT(in(b.getBoundaryDomain(dim,B::Max,st),p)==(whole&(p[dim]>hi[dim]-delta)),"upper boundary region");
  }
  vf_reach("domains");
}
