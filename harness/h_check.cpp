// C06: argument checking policies
#include "vf.h"
#include <cassert>
#include "grid/grid.hpp"
#include "grid/subgrid.hpp"
#include <utility>
using namespace schnek;
typedef unsigned T;
template<class F> static bool fires(F f){ try{ f(); return false; } catch(VfAssertFired&){ return true; } }
template<class G,size_t...I> auto& callRef(G&g,const Array<int,RANK,ArrayAssertArgCheck>&p,std::index_sequence<I...>){ return g(p[I]...); }
template<class G,size_t...I> auto callVal(const G&g,const Array<int,RANK,ArrayAssertArgCheck>&p,std::index_sequence<I...>){ return g(p[I]...); }
typedef std::make_index_sequence<RANK> Seq;
extern "C" void vf_main(){
#if WHAT==0
  typedef Array<T,RANK,ArrayAssertArgCheck> A; A a; T v[RANK]; for(int i=0;i<RANK;++i) a[i]=v[i]=(T)vf_bits64("v");
  const A&ca=a; size_t i=(size_t)vf_long("i",-5,RANK+5);
  bool bad=!(i<RANK);
  VF_ASSERT(fires([&]{ a[i]=1; a[i]=v[i]; })==bad,"checked array access fires exactly outside the array");
  VF_ASSERT(fires([&]{ (void)ca[i]; })==bad,"checked const array access fires exactly outside the array");
  VF_ASSERT(fires([&]{ (void)a.at(i); })==bad&&fires([&]{ (void)ca.at(i); })==bad,"checked at() fires exactly outside the array");
  if(!bad) VF_ASSERT(ca[i]==v[i]&&a.at(i)==v[i],"a checked access inside the array reads the element"); else vf_reach("outside");
#else
  typedef Array<int,RANK,ArrayAssertArgCheck> Ix; Array<int,RANK> lo,hi; Ix p; bool bad=false; int n[RANK];
  for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",1,MAXD); lo[d]=vf_int("lo",-1000,1000); hi[d]=lo[d]+n[d]-1; int o=vf_int("off",-2000,2000); p[d]=lo[d]+o; bad=bad|(o<0)|(o>=n[d]); }
#if WHAT==1
  typedef Grid<T,RANK,GridAssertCheck> G; G g(lo,hi); g=5; const G&cg=g; T v=(T)vf_bits64("v");
  VF_ASSERT(fires([&]{ g[p]=v; })==bad,"checked grid access fires exactly outside the range");
  VF_ASSERT(fires([&]{ (void)cg[p]; })==bad,"checked const grid access fires exactly outside the range");
  VF_ASSERT(fires([&]{ (void)callRef(g,p,Seq()); })==bad,"checked call operator fires exactly outside the range");
  VF_ASSERT(fires([&]{ (void)callVal(cg,p,Seq()); })==bad,"checked const call operator fires exactly outside the range");
  if(bad){ vf_reach("outside"); return; }
  VF_ASSERT(cg[p]==v&&callVal(cg,p,Seq())==v,"an access that passes the check reaches the cell");
#elif WHAT==3
  // a window of a checked grid: accesses outside the window fire, even where the base grid has cells
  typedef Grid<T,RANK,GridAssertCheck> G; typedef SubGrid<G,GridAssertCheck> S; Array<int,RANK,ArrayAssertArgCheck> blo,bhi,slo,shi; for(int d=0;d<RANK;++d){ slo[d]=lo[d]; shi[d]=hi[d]; blo[d]=lo[d]-vf_choose("before",0,1); bhi[d]=hi[d]+vf_choose("after",0,1); }
  G g(blo,bhi); g=5; S s(slo,shi,g); const S&cs=s; T v=(T)vf_bits64("v");
  VF_ASSERT(fires([&]{ s[p]=v; })==bad,"checked access to a sub-grid fires exactly outside its range");
  VF_ASSERT(fires([&]{ (void)cs[p]; })==bad,"checked const access to a sub-grid fires exactly outside its range");
  VF_ASSERT(fires([&]{ (void)s.get(p); })==bad&&fires([&]{ (void)cs.get(p); })==bad,"checked get() of a sub-grid fires exactly outside its range");
  if(bad){ vf_reach("outside"); return; }
  VF_ASSERT(cs[p]==v&&g[p]==v,"an access that passes the check reaches the cell");
#else
  typedef Grid<T,RANK,GridDebugCheck> G; G g(lo,hi); g=5; T v=(T)vf_bits64("v");
  VF_ASSERT(!G::getErrorFlag(),"no error before the first access");
  T&cell=g[p];
  Array<int,RANK> q; Grid<T,RANK> plain; long lin=0;
  for(int d=0;d<RANK;++d){ q[d]=p[d]<lo[d]?lo[d]:p[d]>hi[d]?hi[d]:p[d]; lin=lin*n[d]+(q[d]-lo[d]); }
  VF_ASSERT(&cell==g.getRawData()+lin,"an out-of-range access is redirected to the nearest cell");
  VF_ASSERT(G::getErrorFlag()==bad,"the error flag is raised exactly by an out-of-range access");
  if(bad){ vf_reach("outside"); for(int d=0;d<RANK;++d) VF_ASSERT(G::getOffending()[d]==p[d],"the offending index is recorded");
    int nb=0,w=0; for(int d=0;d<RANK;++d) if(q[d]!=p[d]){ ++nb; w=p[d]<lo[d]?-d:d; } if(nb==1) VF_ASSERT(G::getErrorInfo()==w,"the offending dimension is recorded"); }
  callRef(g,p,Seq())=v; const G&cg=g; VF_ASSERT(cell==v&&cg[p]==v&&callVal(cg,p,Seq())==v,"all access forms redirect alike");
  VF_ASSERT(G::getErrorFlag()==bad,"the error flag is raised exactly by an out-of-range access");
#endif
#endif
}
