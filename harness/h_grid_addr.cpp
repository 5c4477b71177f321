// C01: addressing of a grid: every index inside [lo,hi] names its own cell inside the allocated block
#include "gridcommon.h"
#ifndef LOB
#define LOB (1<<30)
#endif
#ifndef ELEM
#define ELEM double
#endif
#ifndef HIDIM
#define HIDIM RANK      // number of dimensions whose extent is varied; the others get FIXD
#endif
typedef ELEM T;
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G;
static void check(G&g,const Idx&lo,const Idx&hi,const long*n){
  const G&cg=g;
  long tot=1; for(int d=0;d<RANK;++d) tot*=n[d];
  VF_ASSERT(g.getSize()==tot,"size is the product of the extents");
  for(int d=0;d<RANK;++d){
    VF_ASSERT(g.getLo(d)==lo[d]&&g.getLo()[d]==lo[d],"lower bound is the requested one");
    VF_ASSERT(g.getHi(d)==hi[d]&&g.getHi()[d]==hi[d],"upper bound is the requested one");
    VF_ASSERT(g.getDims(d)==n[d]&&g.getDims()[d]==n[d],"extent is hi-lo+1");
    VF_ASSERT(g.getRange().getLo(d)==lo[d]&&g.getRange().getHi(d)==hi[d],"range is [lo,hi]");
  }
  T*raw=g.getRawData();
  VF_ASSERT(vf_block_size(raw)>=(unsigned long)tot*sizeof(T),"allocated block holds every cell");
  VF_ASSERT(g.begin()==raw&&g.end()==raw+tot&&cg.cbegin()==raw&&cg.cend()==raw+tot,"storage iterators span exactly the cells");
  Idx a,b; long oa[RANK],ob[RANK];
  bool same=true;
  for(int d=0;d<RANK;++d){ int x=vf_int("a",0,(int)n[d]-1),y=vf_int("b",0,(int)n[d]-1); oa[d]=x; ob[d]=y; a[d]=lo[d]+x; b[d]=lo[d]+y; same=same&(x==y); }
  long la=layout(oa,n), lb=layout(ob,n);
  T*pa=&g[a],*pb=&g[b];
  VF_ASSERT(pa==raw+la,"cell lies at its ordered position in the storage");
  VF_ASSERT(pb==raw+lb,"cell lies at its ordered position in the storage");
  VF_ASSERT(&callRef(g,a,Seq())==pa,"call operator and index operator name the same cell");
  VF_ASSERT(&g.get(a)==pa,"storage access names the same cell");
  VF_ASSERT(&cg.get(b)==pb,"const storage access names the same cell");
  VF_ASSERT((pa==pb)==same,"distinct indices name distinct cells");
  VF_ASSERT(la>=0&&la<tot,"cell inside the block");
  for(int d=0;d<RANK;++d){
    long s=1;
#if STORE==1
    for(int e=0;e<d;++e) s*=n[e];
#else
    for(int e=d+1;e<RANK;++e) s*=n[e];
#endif
    VF_ASSERT(g.stride(d)==s,"stride is the distance between neighbours");
  }
#if RANK==1
  VF_ASSERT(&g[a[0]]==pa,"integer index names the same cell");
#endif
#ifdef RW
  T x=(T)vf_bits64("x"),y=(T)vf_bits64("y");
  vf_assume(!same);
  g[a]=x; callRef(g,b,Seq())=y;
  VF_ASSERT(cg[a]==x&&callVal(cg,a,Seq())==x&&g[a]==x&&callRef(g,a,Seq())==x,"a cell keeps the value written to it");
  VF_ASSERT(cg[b]==y&&callVal(cg,b,Seq())==y&&g[b]==y&&callRef(g,b,Seq())==y,"a cell keeps the value written to it");
  VF_ASSERT(raw[la]==x,"raw data shows the cell");
#if RANK==1
  VF_ASSERT(cg[a[0]]==x,"integer index reads the cell");
#endif
  vf_reach("rw");
#endif
}
extern "C" void vf_main(){
  Idx lo,hi; long n[RANK];
  for(int d=0;d<RANK;++d){
    n[d]= d<HIDIM ? vf_choose("n",1,MAXD) : FIXD(d);
    lo[d]=vf_int("lo",-LOB,LOB); hi[d]=lo[d]+(int)n[d]-1;
  }
  int how=vf_choose("how",0,5);
  if(how==0){ G g(lo,hi); check(g,lo,hi,n); }
  else if(how==1){ Rng r(lo,hi); G g(r); check(g,lo,hi,n); }
  else if(how==2){ G g; g.resize(lo,hi); check(g,lo,hi,n); }
  else if(how==3){ Idx s; for(int d=0;d<RANK;++d){ s[d]=n[d]; lo[d]=0; hi[d]=n[d]-1; } G g(s); check(g,lo,hi,n); vf_reach("size"); }
  else if(how==4){ G g0(lo,hi); G g; g.resize(g0); check(g,lo,hi,n); vf_reach("copyshape"); }
  else { G g; g.resize(Rng(lo,hi)); G g2; Idx s; for(int d=0;d<RANK;++d) s[d]=n[d]; g2.resize(s); for(int d=0;d<RANK;++d) VF_ASSERT(g2.getLo(d)==0&&g2.getHi(d)==n[d]-1,"resize(size) starts at 0"); check(g,lo,hi,n); vf_reach("resize"); }
}
