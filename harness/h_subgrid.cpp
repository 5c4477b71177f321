// C07: a sub-grid is a window onto the cells of its base grid; a transformed grid is a per-cell view of its base grid
#include "gridcommon.h"
#include "grid/subgrid.hpp"
#include "grid/gridtransform.hpp"
#ifndef MODE
#define MODE 0
#endif
typedef unsigned short T;
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G;
typedef SubGrid<G> S;
static Idx lo,hi,slo,shi; static int n[RANK],sn[RANK],so[RANK];
static Idx anyIn(const char*nm,const Idx&l,const int*m){ Idx p; for(int d=0;d<RANK;++d) p[d]=l[d]+vf_int(nm,0,m[d]-1); return p; }
static void window(){ for(int d=0;d<RANK;++d){ sn[d]=vf_choose("sn",1,n[d]); so[d]=vf_int("so",0,n[d]-sn[d]); slo[d]=lo[d]+so[d]; shi[d]=slo[d]+sn[d]-1; } }
static bool inside(const Idx&p){ bool r=true; for(int d=0;d<RANK;++d) r=r&(p[d]>=slo[d])&(p[d]<=shi[d]); return r; }
template<class S> static void checkWindow(S&s,G&g){
  for(int d=0;d<RANK;++d) VF_ASSERT(s.getLo(d)==slo[d]&&s.getHi(d)==shi[d]&&s.getDims(d)==sn[d]&&s.getLo()[d]==slo[d]&&s.getHi()[d]==shi[d]&&s.getDims()[d]==sn[d],"a window reports its own limits and extents");
  Idx p=anyIn("p",slo,sn);
  VF_ASSERT(&s[p]==&g[p],"a window cell is the base grid's cell of the same index");
  VF_ASSERT(&callRef(s,p,Seq())==&g[p],"a window cell is the base grid's cell of the same index");
  const S&cs=s; VF_ASSERT(cs[p]==g[p]&&callVal(cs,p,Seq())==g[p],"reading through a constant window reads the base grid");
}
extern "C" void vf_main(){
  for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",1,MAXD); lo[d]=vf_int("lo",-1000,1000); hi[d]=lo[d]+n[d]-1; }
  G g(lo,hi); long tot=1; for(int d=0;d<RANK;++d) tot*=n[d];
#if MODE==0
  { long k=0; for(auto it=g.begin();it!=g.end();++it) *it=(T)(100+k++); }
  window();
  S s(slo,shi,g); checkWindow(s,g);
  { S s2(Rng(slo,shi),g); checkWindow(s2,g); S s3(s2); checkWindow(s3,g); }
  // every window cell is visited exactly once, and nothing else
  long cnt=0,stot=1; for(int d=0;d<RANK;++d) stot*=sn[d];
  Idx q=anyIn("q",lo,n); int hit=0; T*qa=&g[q];
  for(auto it=s.begin();it!=s.end();++it){ hit+=(&*it==qa); ++cnt; VF_ASSERT(cnt<=stot,"iterating over a window visits each of its cells once"); }
  VF_ASSERT(cnt==stot&&hit==(inside(q)?1:0),"iterating over a window visits each of its cells once");
  cnt=0;hit=0; for(auto it=s.cbegin();it!=s.cend();++it){ hit+=(&*it==qa); ++cnt; VF_ASSERT(cnt<=stot,"const iteration over a window visits each of its cells once"); }
  VF_ASSERT(cnt==stot&&hit==(inside(q)?1:0),"const iteration over a window visits each of its cells once");
  // writing through the window
  T old=*qa; T v=(T)vf_bits64("v");
  for(auto it=s.begin();it!=s.end();++it) *it=v;
  VF_ASSERT(*qa==(inside(q)?v:old),"writing through a window changes the window's cells and no other");
  vf_reach("window");
#elif MODE==1
  { long k=0; for(auto it=g.begin();it!=g.end();++it) *it=(T)(100+k++); }
  // moving the window, and a base grid that is itself modified
  window(); S s(slo,shi,g);
  window(); s.resize(slo,shi); checkWindow(s,g);
  window(); s.resize(Rng(slo,shi)); checkWindow(s,g);
  Idx p=anyIn("w",slo,sn); T v=(T)vf_bits64("v"); g[p]=v; VF_ASSERT(s[p]==v,"a window shows what is written to the base grid");
  T w=(T)vf_bits64("w2"); s[p]=w; VF_ASSERT(g[p]==w,"the base grid shows what is written through a window");
  S u; u.setBaseGrid(g); u.resize(slo,shi); checkWindow(u,g);
  { S z=s; Idx keep=slo,keeph=shi; int ks[RANK]; for(int d=0;d<RANK;++d) ks[d]=sn[d]; window(); z.resize(slo,shi); checkWindow(z,g); slo=keep; shi=keeph; for(int d=0;d<RANK;++d) sn[d]=ks[d]; checkWindow(s,g); }
  vf_reach("window");
#elif MODE==2
  // windows of windows, and compound assignment through a window
  { long k=0; for(auto it=g.begin();it!=g.end();++it) *it=(T)(100+k++); }
  window(); S s(slo,shi,g); Idx olo=slo; int on[RANK]; for(int d=0;d<RANK;++d) on[d]=sn[d];
  Idx ilo,ihi; int in[RANK]; for(int d=0;d<RANK;++d){ in[d]=vf_choose("in",1,on[d]); int io=vf_int("io",0,on[d]-in[d]); ilo[d]=olo[d]+io; ihi[d]=ilo[d]+in[d]-1; }
  SubGrid<S> t(ilo,ihi,s); slo=ilo; shi=ihi; for(int d=0;d<RANK;++d) sn[d]=in[d];
  checkWindow(t,g);
  vf_reach("window");
#else
  struct Tr { typedef int value_type; int k; Tr():k(0){} int operator()(T x) const { return (int)x*2+k; } };
  { for(auto it=g.begin();it!=g.end();++it) *it=(T)vf_bits64("c"); }
  GridTransform<G,Tr> t(g); int k=vf_int("k",-100000,100000); Tr tr; tr.k=k; t.setTransformation(tr);
  for(int d=0;d<RANK;++d) VF_ASSERT(t.getLo(d)==lo[d]&&t.getHi(d)==hi[d]&&t.getDims(d)==n[d]&&t.getLo()[d]==lo[d]&&t.getHi()[d]==hi[d]&&t.getDims()[d]==n[d],"a transformed grid has the limits of its base grid");
  Idx p=anyIn("p",lo,n); const GridTransform<G,Tr>&ct=t;
  VF_ASSERT(ct[p]==(int)g[p]*2+k&&t[p]==(int)g[p]*2+k&&callVal(ct,p,Seq())==(int)g[p]*2+k,"a transformed cell is the transformation of the base cell");
  T v=(T)vf_bits64("v"); g[p]=v; VF_ASSERT(ct[p]==(int)v*2+k,"a transformed grid follows changes of its base grid");
  { long c=0; auto b=g.cbegin(); for(auto it=ct.cbegin();it!=ct.cend();++it){ VF_ASSERT(*it==(int)*b*2+k,"iterating over a transformed grid transforms each base cell"); ++b; ++c; } VF_ASSERT(c==tot,"iterating over a transformed grid visits each cell once"); }
  Grid<T,RANK> g2(lo,hi); GridTransform<G,TypeCastTransform<T,signed char> > tc(g); VF_ASSERT(((const GridTransform<G,TypeCastTransform<T,signed char> >&)tc)[p]==(signed char)v,"type cast view");
  vf_reach("transform");
#endif
}
