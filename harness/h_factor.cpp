// C14: the process grid multiplies out to the number of processes and follows the extents
#include "vf.h"
#include "util/factor.hpp"
#include <vector>
extern "C" void vf_main(){
  std::vector<int> w(NF),f;
#ifdef SYMP
  int P=vf_int("P",1,MAXP);
#else
  int P=vf_choose("P",1,MAXP);
#endif
  for(int i=0;i<NF;++i) w[i]=vf_int("w",1,MAXW);
  if(vf_choose("stale",0,1)) f.assign(5,77);
  schnek::equalFactors(P,NF,f,w);
  VF_ASSERT(f.size()==NF,"one factor per dimension");
  long p=1; for(int i=0;i<NF;++i){ VF_ASSERT(f[i]>=1&&f[i]<=P,"every factor is at least one"); p*=f[i]; }
  VF_ASSERT(p==P,"the factors multiply to the number of processes");
  for(int i=0;i<NF;++i) for(int j=0;j<NF;++j) if(i!=j) VF_ASSERT(!(w[i]<w[j])||f[i]<=f[j],"a longer dimension is never split into fewer pieces than a shorter one");
  vf_reach("done");
}
