// C29: numeric helpers
#include "vf.h"
#include "functions.hpp"
#include "algo.hpp"
#include "grid/array.hpp"
#include <vector>
#include <cstdlib>
using namespace schnek;
// any sequence of pseudo-random numbers
extern "C" int rand(){ return vf_int("rand",0,RAND_MAX); }
#ifndef ELEM
#define ELEM int
#endif
typedef ELEM T;
static T fresh(){ return (T)vf_int("v",-1000,1000); }
extern "C" void vf_main(){
#if MODE==0
  T a=fresh(),b=fresh(),m=schnek::min(a,b),M=schnek::max(a,b); VF_ASSERT(m==a||m==b,"the minimum is one of the values"); VF_ASSERT(M==a||M==b,"the maximum is one of the values"); VF_ASSERT(m<=a&&m<=b,"minimum"); VF_ASSERT(M>=a&&M>=b,"maximum");
  int s=signum(a),z=signum0(a); VF_EQ(z,a>0?1:a<0?-1:0,"sign with zero"); VF_EQ(s,a<0?-1:1,"sign"); vf_reach("minmax");
#elif MODE==1
  typedef Array<T,3> A; A a,b,r; for(int i=0;i<3;++i){ a[i]=fresh(); b[i]=fresh(); } T c[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; crossProduct(r,a,b); for(int i=0;i<3;++i) VF_ASSERT(r[i]==c[i],"components of the cross product"); vf_reach("cross");
#elif MODE==2
  int n=vf_choose("n",1,MAXN); std::vector<double> v; int sum=0; for(int i=0;i<n;++i){ int x=vf_int("x",-500,500); sum+=x; v.push_back(x); } double m=mean(v.begin(),v.end()); VF_ASSERT(m==(double)sum/(double)n,"mean"); vf_reach("mean");
#elif MODE==3
  double d=drand(); VF_ASSERT(d>=0.0&&d<=1.0,"random numbers lie between 0 and 1"); vf_reach("drand");
#else
  int range=vf_int("range",1,MAXRANGE); int i=irand(range); VF_ASSERT(i>=0&&i<range,"random integers lie in the range"); vf_reach("irand");
#endif
}
