// C30: grids in Kokkos memory: addressing, sharing histories, parallel iteration
#include "vf.h"
#include "grid/grid.hpp"
#include "grid/range.hpp"
#include "grid/gridstorage/kokkos-storage.hpp"
#include "grid/iteration/kokkos-iteration.hpp"
#include <utility>
using namespace schnek;
#if LEFT
template<typename T,size_t r> using Store=KokkosGridStorage<T,r,Kokkos::LayoutLeft>;
#else
template<typename T,size_t r> using Store=KokkosGridStorage<T,r>;
#endif
typedef unsigned T; typedef Grid<T,RANK,GridNoArgCheck,Store> G; typedef G::IndexType Idx; typedef Range<int,RANK> Rng; typedef std::make_index_sequence<RANK> Seq;
template<class A,size_t...I> auto& callRef(A&g,const Idx&p,std::index_sequence<I...>){ return g(p[I]...); }
static long pos(const int*o,const int*n){ long p=0; if(LEFT){ for(int d=RANK-1;d>=0;--d) p=p*n[d]+o[d]; } else for(int d=0;d<RANK;++d) p=p*n[d]+o[d]; return p; }
static long stride(int d,const int*n){ long s=1; if(LEFT){ for(int e=0;e<d;++e) s*=n[e]; } else for(int e=d+1;e<RANK;++e) s*=n[e]; return s; }
static void shapeIs(const G&g,const Idx&lo,const int*n){ long t=1; for(int d=0;d<RANK;++d){ t*=n[d]; VF_ASSERT(g.getLo(d)==lo[d]&&g.getLo()[d]==lo[d]&&g.getHi(d)==lo[d]+n[d]-1&&g.getHi()[d]==lo[d]+n[d]-1&&g.getDims(d)==n[d]&&g.getDims()[d]==n[d]&&g.getRange().getLo(d)==lo[d]&&g.getRange().getHi(d)==lo[d]+n[d]-1,"a grid reports its limits"); VF_EQ((long)g.stride(d),stride(d,n),"stride is the distance between neighbours"); } VF_EQ((long)g.getSize(),t,"size is the number of cells"); }
static void pick(Idx&lo,Idx&hi,int*n){ for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",1,MAXN); lo[d]=vf_int("lo",-1000,1000); hi[d]=lo[d]+n[d]-1; } }
#if MODE==0
extern "C" void vf_main(){ Idx lo,hi; int n[RANK]; pick(lo,hi,n); int how=vf_choose("how",0,3); G*pg; if(how==0) pg=new G(lo,hi); else if(how==1) pg=new G(Rng(lo,hi)); else if(how==2){ pg=new G(); pg->resize(lo,hi); } else { Idx a,b; int m[RANK]; pick(a,b,m); pg=new G(a,b); pg->resize(lo,hi); } G&g=*pg; const G&c=g; shapeIs(g,lo,n);
  T*base=&g[lo]; VF_ASSERT(vf_block_size(base)>=sizeof(T)*(unsigned long)g.getSize(),"allocated block holds every cell"); int x[RANK],y[RANK]; Idx a,b; bool same=true; for(int d=0;d<RANK;++d){ x[d]=vf_int("a",0,n[d]-1); y[d]=vf_int("b",0,n[d]-1); a[d]=lo[d]+x[d]; b[d]=lo[d]+y[d]; same=same&(x[d]==y[d]); }
  VF_ASSERT(&g[a]==base+pos(x,n)&&&g[b]==base+pos(y,n),"a cell lies at its ordered position"); VF_ASSERT((&g[a]==&g[b])==same,"distinct indices name distinct cells"); VF_ASSERT(&callRef(g,a,Seq())==&g[a]&&&g.get(a)==&g[a]&&&c.get(b)==&g[b],"all access forms name the same cell"); T v=(T)vf_bits64("v"); g[a]=v; VF_ASSERT(c[a]==v&&c.get(a)==v,"a written value is read back"); if(!same) VF_EQ(g[b],(T)0,"a new grid is zero and a write changes one cell"); delete pg; vf_reach("access"); }
#elif MODE==1
struct Block { Idx lo; int n[RANK]; bool shaped,written; int w[RANK]; T val; }; static Block blk[16]; static int nb=0; static G*h[3]; static int own[3];
static void lims(Block&b,Idx&hi){ for(int d=0;d<RANK;++d) hi[d]=b.lo[d]+b.n[d]-1; }
static void shape(Block&b){ b.shaped=true; b.written=false; Idx hi; for(int d=0;d<RANK;++d){ b.n[d]=d==0?(vf_choose("n",0,1)?3:1):2; b.lo[d]=vf_int("lo",-1000,1000); } }
static void fresh(int i){ int k=nb++; shape(blk[k]); Idx hi; lims(blk[k],hi); h[i]=new G(blk[k].lo,hi); own[i]=k; }
static void checkAll(){ for(int i=0;i<3;++i) if(h[i]&&blk[own[i]].shaped){ Block&b=blk[own[i]]; shapeIs(*h[i],b.lo,b.n); Idx hi; lims(b,hi); int e[RANK]; for(int d=0;d<RANK;++d) e[d]=b.n[d]-1; VF_ASSERT(vf_block_size(&(*h[i])[b.lo])>=sizeof(T)*(unsigned long)h[i]->getSize(),"the data of a grid holds every cell"); VF_ASSERT(&(*h[i])[hi]==&(*h[i])[b.lo]+pos(e,b.n),"the last cell lies in the block"); if(b.written){ Idx p; for(int d=0;d<RANK;++d) p[d]=b.lo[d]+b.w[d]; VF_EQ((*h[i])[p],b.val,"a value written through one grid is seen through all that share it"); } for(int j=0;j<i;++j) if(h[j]&&blk[own[j]].shaped) VF_ASSERT((&(*h[i])[b.lo]==&(*h[j])[blk[own[j]].lo])==(own[i]==own[j]),"grids share data exactly when copied or assigned"); } }
extern "C" void vf_main(){ fresh(0); h[1]=new G(*h[0]); own[1]=own[0]; fresh(2); checkAll();
  for(int k=0;k<STEPS;++k){ int op=vf_choose("op",0,5),i=vf_choose("i",0,2);
    if(op==0){ int j=vf_choose("j",0,2); if(!h[i]||!h[j]) continue; *h[i]=*h[j]; own[i]=own[j]; vf_reach("assign"); }
    else if(op==1){ if(!h[i]) continue; Block&b=blk[own[i]]; shape(b); Idx hi; lims(b,hi); h[i]->resize(b.lo,hi); vf_reach("resize"); }
    else if(op==2){ if(!h[i]) continue; Block&b=blk[own[i]]; if(!b.shaped) continue; b.written=true; b.val=(T)vf_bits64("v"); Idx p; for(int d=0;d<RANK;++d){ b.w[d]=vf_int("w",0,b.n[d]-1); p[d]=b.lo[d]+b.w[d]; } (*h[i])[p]=b.val; vf_reach("write"); }
    else if(op==3){ int j=vf_choose("j",0,2); if(i==j||!h[j]) continue; delete h[i]; h[i]=new G(*h[j]); own[i]=own[j]; vf_reach("copy"); }
    else if(op==4){ if(!h[i]) continue; delete h[i]; h[i]=0; vf_reach("destroy"); }
    else { delete h[i]; int b=nb++; blk[b].shaped=false; blk[b].written=false; h[i]=new G(); own[i]=b; vf_reach("empty"); }
    checkAll(); }
  for(int i=0;i<3;++i) delete h[i]; }
#else
// parallel iteration: every position of the range once
static int count[512]; static Idx slo; static int sn[RANK]; static int outside=0;
struct Mark { void operator()(const Idx&p) const { int o[RANK]; bool in=true; for(int d=0;d<RANK;++d){ o[d]=p[d]-slo[d]; in=in&&o[d]>=0&&o[d]<sn[d]; } if(!in) ++outside; else { long q=0; for(int d=0;d<RANK;++d) q=q*sn[d]+o[d]; count[q]++; } } };
extern "C" void vf_main(){ Idx lo,hi; long t=1; for(int d=0;d<RANK;++d){ sn[d]=vf_choose("n",0,MAXN); lo[d]=RANK<3?vf_int("lo",-1000,1000):d*7-9; slo[d]=lo[d]; hi[d]=lo[d]+sn[d]-1; t*=sn[d]; } Rng r(lo,hi); RangeKokkosIterationPolicy<RANK>::forEach(r,Mark()); VF_EQ(outside,0,"no position outside the range is visited"); for(long k=0;k<t;++k) VF_EQ(count[k],1,"every position of the range is visited once"); vf_reach("iteration"); }
#endif
