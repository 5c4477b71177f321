// C03: fill, += and -= act on every cell exactly once, whatever the storage order; storage iteration visits each cell once
#include "gridcommon.h"
#ifndef STORE2
#define STORE2 STORE
#endif
#if STORE2==0
#define STORAGE2 SingleArrayGridStorage
#elif STORE2==1
#define STORAGE2 SingleArrayGridStorageFortran
#else
#define STORAGE2 LazyArrayGridStorage
#endif
typedef unsigned short T;
#ifndef OTHER_T
#define OTHER_T unsigned short
#endif
typedef OTHER_T T2;
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G; typedef Grid<T2,RANK,GridNoArgCheck,STORAGE2> H;
// an injective tag of an offset vector
static long tag(const long*o,const long*n){ long p=0; for(int d=0;d<RANK;++d) p=p*n[d]+o[d]; return p; }
template<class F> static void each(const long*n,F f){ long o[RANK]; for(int d=0;d<RANK;++d) o[d]=0; for(;;){ f(o); int d=RANK-1; while(d>=0&&++o[d]==n[d]){ o[d]=0; --d; } if(d<0) break; } }
extern "C" void vf_main(){
  Idx lo,hi; long n[RANK]; long tot=1;
  for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",1,MAXD); lo[d]=vf_int("lo",-1000,1000); hi[d]=lo[d]+(int)n[d]-1; tot*=n[d]; }
  G g(lo,hi); H hh(lo,hi);
  T a[128]; T2 b[128];
  auto at=[&](const long*o){ Idx p; for(int d=0;d<RANK;++d) p[d]=lo[d]+(int)o[d]; return p; };
  int op=vf_choose("op",0,3);
  if(op==0){ T v=(T)vf_bits64("fill"); g=v; each(n,[&](const long*o){ g[at(o)]=0; }); g=v; long o[RANK]; for(int d=0;d<RANK;++d) o[d]=vf_int("p",0,(int)n[d]-1); VF_ASSERT(g[at(o)]==v,"filling sets every cell");
    long c=0; for(auto it=g.begin();it!=g.end();++it){ VF_ASSERT(*it==v,"storage iteration sees the filled cells"); ++c; } VF_ASSERT(c==tot,"storage iteration visits each cell once"); c=0; for(auto it=g.cbegin();it!=g.cend();++it) ++c; VF_ASSERT(c==tot,"const storage iteration visits each cell once"); vf_reach("fill"); return; }
  if(op==3){ each(n,[&](const long*o){ g[at(o)]=7; }); for(auto it=g.begin();it!=g.end();++it) *it+=1; long o[RANK]; for(int d=0;d<RANK;++d) o[d]=vf_int("p",0,(int)n[d]-1); VF_ASSERT(g[at(o)]==8,"storage iteration visits each cell once"); return; }
  each(n,[&](const long*o){ long t=tag(o,n); a[t]=(T)vf_bits64("a"); b[t]=(T2)vf_bits64("b"); g[at(o)]=a[t]; hh[at(o)]=b[t]; });
  if(op==1) g+=hh; else g-=hh;
  long o[RANK]; for(int d=0;d<RANK;++d) o[d]=vf_int("p",0,(int)n[d]-1);
  long t=tag(o,n); VF_ASSERT(g[at(o)]==(T)(op==1?a[t]+b[t]:a[t]-b[t]),"element-wise addition or subtraction"); VF_ASSERT(hh[at(o)]==b[t],"the right-hand grid is unchanged");
  for(int d=0;d<RANK;++d) VF_ASSERT(g.getLo(d)==lo[d]&&g.getHi(d)==hi[d],"arithmetic keeps the shape");
  vf_reach("arith");
}
