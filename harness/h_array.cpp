// C05: arrays: element-wise arithmetic, expressions, comparisons, projections and reductions
#include "vf.h"
#include "grid/array.hpp"
#include "grid/arrayexpression.hpp"
#include <utility>
using namespace schnek;
#ifndef ELT
#define ELT unsigned
#endif
#ifndef CHK
#define CHK ArrayNoArgCheck
#endif
typedef ELT T;
typedef Array<T,LEN,CHK> A; typedef Array<short,LEN> S; typedef Array<T,LEN,ArrayAssertArgCheck> C;
template<size_t...I> static A make(const T*v,std::index_sequence<I...>){ return A(v[I]...); }
#define ALL(e,msg) for(int i=0;i<LEN;++i) VF_ASSERT((e),msg)
#define NZ(v) vf_assume((v)!=0)
extern "C" void vf_main(){
  T x[LEN],y[LEN],z[LEN]; short t[LEN]; 
  for(int i=0;i<LEN;++i){ x[i]=(T)vf_bits64("x"); y[i]=(T)vf_bits64("y"); z[i]=(T)vf_bits64("z"); t[i]=(short)vf_int("t",-30000,30000); }
  T k=(T)vf_bits64("k");
  A a=make(x,std::make_index_sequence<LEN>()), b=make(y,std::make_index_sequence<LEN>()); C c; S s; for(int i=0;i<LEN;++i){ c[i]=z[i]; s[i]=t[i]; }
  ALL(a[i]==x[i]&&a.at(i)==x[i]&&c[i]==z[i],"an array holds the elements it was given");
#if GROUP==0
  { A u(a); ALL(u[i]==x[i],"copy construction"); A v(c); ALL(v[i]==z[i],"copy construction from another checking policy"); A w; w=b; ALL(w[i]==y[i],"assignment"); w=s; ALL(w[i]==(T)t[i],"converting assignment"); C d; d=a; ALL(d[i]==x[i],"assignment across checking policies"); w=w; ALL(w[i]==(T)t[i],"self assignment"); }
  { A u; u.clear(); ALL(u[i]==0,"clear"); u.fill(k); ALL(u[i]==k,"fill"); A v(k); ALL(v[i]==k,"scalar construction fills every element"); A w=A::Zero(); ALL(w[i]==0,"Zero"); A o=A::Ones(); ALL(o[i]==1,"Ones"); const A&cu=u; ALL(cu[i]==k&&cu.at(i)==k,"const element access"); VF_ASSERT(&u.fill(k)==&u&&&u.clear()==&u,"fill and clear return the array"); }
  { A u(a); VF_ASSERT(&(u+=b)==&u,"returns itself"); ALL(u[i]==(T)(x[i]+y[i])&&b[i]==y[i],"+= array"); u=a; u-=c; ALL(u[i]==(T)(x[i]-z[i]),"-= array"); u=a; u*=s; ALL(u[i]==(T)(x[i]*t[i]),"*= array"); }
  { A u(a); u+=k; ALL(u[i]==(T)(x[i]+k),"+= scalar"); u=a; u-=k; ALL(u[i]==(T)(x[i]-k),"-= scalar"); u=a; u*=k; ALL(u[i]==(T)(x[i]*k),"*= scalar"); u=a; u+=(short)t[0]; ALL(u[i]==(T)(x[i]+t[0]),"+= scalar of another type"); }
  { A u(a); u+=u; ALL(u[i]==(T)(x[i]+x[i]),"+= itself"); u-=u; ALL(u[i]==0,"-= itself"); }
  { T p=1,q=0,r=0; for(int i=0;i<LEN;++i){ p*=x[i]; q+=x[i]; r+=x[i]*x[i]; } VF_ASSERT(a.product()==p,"product"); VF_ASSERT(a.sum()==q,"sum"); VF_ASSERT(a.sqr()==r,"sum of squares"); }
  { int pos=vf_int("pos",0,LEN-1); A u(a); u[pos]=k; ALL(u[i]==(i==pos?k:x[i]),"writing one element leaves the others alone"); u.at(pos)=x[0]; ALL(u[i]==(i==pos?x[0]:x[i]),"writing through at"); }
#if LEN>1
  { auto p1=a.template project<LEN-1>(); for(int i=0;i<LEN-1;++i) VF_ASSERT(p1[i]==x[i],"project keeps the leading elements"); auto p0=a.template project<1>(); VF_ASSERT(p0[0]==x[0],"project keeps the leading elements"); int dim=vf_int("dim",0,LEN-1); auto q=a.projectDim(dim); for(int i=0;i<LEN-1;++i) VF_ASSERT(q[i]==x[i<dim?i:i+1],"projectDim drops exactly the named element"); }
#endif
#elif GROUP==1
  { A u(a+b); ALL(u[i]==(T)(x[i]+y[i]),"array+array"); u=a-b; ALL(u[i]==(T)(x[i]-y[i]),"array-array"); u=a*b; ALL(u[i]==(T)(x[i]*y[i]),"array*array"); u=a+c; ALL(u[i]==(T)(x[i]+z[i]),"array+array of another policy"); }
  { A u(a+k); ALL(u[i]==(T)(x[i]+k),"array+scalar"); u=k+a; ALL(u[i]==(T)(x[i]+k),"scalar+array"); u=a-k; ALL(u[i]==(T)(x[i]-k),"array-scalar"); u=k-a; ALL(u[i]==(T)(k-x[i]),"scalar-array"); u=a*k; ALL(u[i]==(T)(x[i]*k),"array*scalar"); u=k*a; ALL(u[i]==(T)(x[i]*k),"scalar*array"); }
  { A u; u=-a; ALL(u[i]==(T)(-x[i]),"negation"); u=+a; ALL(u[i]==x[i],"unary plus"); u=(-a)*b; ALL(u[i]==(T)(-x[i]*y[i]),"negated operand"); }
  { A u; u=(a+b)-(b-c); ALL(u[i]==(T)(x[i]+y[i]-(y[i]-z[i])),"expression-expression"); u=(a+b)+c; ALL(u[i]==(T)(x[i]+y[i]+z[i]),"expression+array"); u=a-(b-c); ALL(u[i]==(T)(x[i]-(y[i]-z[i])),"array-expression"); u=(a-b)-c; ALL(u[i]==(T)(x[i]-y[i]-z[i]),"expression-array"); u=a*(b+c); ALL(u[i]==(T)(x[i]*(y[i]+z[i])),"array*expression"); u=(a+b)*c; ALL(u[i]==(T)((x[i]+y[i])*z[i]),"expression*array"); u=a+(b-c); ALL(u[i]==(T)(x[i]+(y[i]-z[i])),"array+expression"); u=(a-b)*(b+c); ALL(u[i]==(T)((x[i]-y[i])*(y[i]+z[i])),"expression*expression"); u=(a-b)+(b+c); ALL(u[i]==(T)(x[i]+z[i]),"expression+expression"); }
  { A u; u=k*(a-b); ALL(u[i]==(T)(k*(x[i]-y[i])),"scalar*expression"); u=(a-b)*k; ALL(u[i]==(T)(k*(x[i]-y[i])),"expression*scalar"); u=k-(a-b); ALL(u[i]==(T)(k-(x[i]-y[i])),"scalar-expression"); u=(a-b)-k; ALL(u[i]==(T)(x[i]-y[i]-k),"expression-scalar"); u=k+(a-b); ALL(u[i]==(T)(k+x[i]-y[i]),"scalar+expression"); u=(a-b)+k; ALL(u[i]==(T)(k+x[i]-y[i]),"expression+scalar"); }
  { A u(a); u+=b-c; ALL(u[i]==(T)(x[i]+(y[i]-z[i])),"+= expression"); u=a; u-=b-c; ALL(u[i]==(T)(x[i]-(y[i]-z[i])),"-= expression"); u=a; u*=b-c; ALL(u[i]==(T)(x[i]*(y[i]-z[i])),"*= expression"); u=a; u=u+u; ALL(u[i]==(T)(x[i]+x[i]),"self-referencing expression"); u=a; u-=u-b; ALL(u[i]==(T)y[i],"self-referencing -="); }
  ALL(a[i]==x[i]&&b[i]==y[i]&&c[i]==z[i],"operands are unchanged");
#elif GROUP==2   // division (signed/unsigned small types keep the queries cheap)
  for(int i=0;i<LEN;++i){ NZ(y[i]); NZ(z[i]); } NZ(k);
  { A u(a); u/=b; ALL(u[i]==(T)(x[i]/y[i]),"/= array"); u=a; u/=k; ALL(u[i]==(T)(x[i]/k),"/= scalar"); u=a/b; ALL(u[i]==(T)(x[i]/y[i]),"array/array"); u=a/k; ALL(u[i]==(T)(x[i]/k),"array/scalar"); u=k/b; ALL(u[i]==(T)(k/y[i]),"scalar/array"); u=(a+b)/c; ALL(u[i]==(T)((x[i]+y[i])/z[i]),"expression/array"); u=(a+b)/k; ALL(u[i]==(T)((x[i]+y[i])/k),"expression/scalar"); }
  { for(int i=0;i<LEN;++i) NZ((T)(y[i]+z[i])); A u; u=a/(b+c); ALL(u[i]==(T)(x[i]/(T)(y[i]+z[i])),"array/expression"); u=k/(b+c); ALL(u[i]==(T)(k/(T)(y[i]+z[i])),"scalar/expression"); u=(a-b)/(b+c); ALL(u[i]==(T)((T)(x[i]-y[i])/(T)(y[i]+z[i])),"expression/expression"); u=a; u/=b+c; ALL(u[i]==(T)(x[i]/(T)(y[i]+z[i])),"/= expression"); }
#else
  bool eq=true,lt=true,le=true; for(int i=0;i<LEN;++i){ eq=eq&(x[i]==y[i]); lt=lt&(x[i]<y[i]); le=le&(x[i]<=y[i]); }
  VF_ASSERT((a==b)==eq,"== compares every element"); VF_ASSERT((a!=b)==!eq,"!= is the negation of =="); VF_ASSERT((a<b)==lt,"< holds when every element is smaller"); VF_ASSERT((a<=b)==le,"<= holds when no element is larger");
  bool eqs=true; for(int i=0;i<LEN;++i) eqs=eqs&(x[i]==(T)t[i]); VF_ASSERT((a==s)==eqs,"== across element types");
  bool eqc=true; for(int i=0;i<LEN;++i) eqc=eqc&(z[i]==y[i]); VF_ASSERT((c==b)==eqc,"== across checking policies");
  VF_ASSERT(a==a&&!(a!=a)&&a<=a&&!(a<a),"reflexivity");
  vf_observe(eq); vf_observe(lt);
#endif
  vf_reach("done");
}
