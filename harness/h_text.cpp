// C27: text output of arrays and grids, and file diagnostics
#include "textout.h"
#include "grid/grid.hpp"
#include "grid/array.hpp"
#include "datastream.hpp"
#include "diagnostic/diagnostic.hpp"
#include "variables/block.hpp"
#include <cstdlib>
#include <unistd.h>
using namespace schnek;
#ifndef STORAGE
#define STORAGE SingleArrayGridStorage
#endif
#ifndef ELEM
#define ELEM int
#endif
typedef ELEM T;
static T fresh(){ return (T)vf_int("v",-30000,30000); }
#if MODE==0
template<size_t N> static void one(){ Array<T,N> a; Expect e; for(size_t i=0;i<N;++i){ a[i]=fresh(); if(i) e.c(" "); e.n(a[i]); } vf_stream()<<a; e.check("array"); }
extern "C" void vf_main(){ int n=vf_choose("length",1,6); if(n==1) one<1>(); else if(n==2) one<2>(); else if(n==3) one<3>(); else if(n==4) one<4>(); else if(n==5) one<5>(); else one<6>(); vf_reach("array"); }
#elif MODE==1
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G; typedef G::IndexType Idx;
static void cell(Expect&e,G&g,const Idx&lo,const int*o){ Idx p; for(int d=0;d<RANK;++d) p[d]=lo[d]+o[d]; T v=fresh(); g[p]=v; e.n(v); }
extern "C" void vf_main(){ Idx lo,hi; int n[RANK]; for(int d=0;d<RANK;++d){ n[d]=vf_choose("n",1,MAXN); lo[d]=RANK==1?vf_int("lo",-100,100):(int[]){0,-3,5,1,2}[d]; hi[d]=lo[d]+n[d]-1; } G g(lo,hi); Expect e; int o[5]={0,0,0,0,0}, m[5]={1,1,1,1,1}; for(int d=0;d<RANK;++d) m[d]=n[d];
  for(o[4]=0;o[4]<m[4];++o[4]) for(o[3]=0;o[3]<m[3];++o[3]){ for(o[2]=0;o[2]<m[2];++o[2]){ for(o[1]=0;o[1]<m[1];++o[1]){ for(o[0]=0;o[0]<m[0];++o[0]){ if(o[0]) e.c(" "); cell(e,g,lo,o); } if(RANK>1) e.c("\n"); } if(RANK>2) e.c("\n"); } }
  const G&cg=g; vf_stream()<<cg; e.check("grid"); vf_reach("grid"); }
#else
// a file diagnostic writes the object it names to its file
typedef Array<T,2> A;
struct Diag : public SimpleFileDiagnostic<A,A*> { void setup(VariableStorage&vs,BlockParameters&bp){ bp.setContext(vs.getRootBlock()); this->initParameters(bp); } void doInit(){ this->init(); } void finish(){ this->close(); } };
struct Root : public Block {};
static void setv(VariableStorage&vs,const char*n,const Variable&v){ *vs.getRootBlock()->getVariable(n)=v; }
static std::string slurp(const std::string&f){
#ifdef VF_SYMBOLIC
  return "";
#else
  std::ifstream i(f.c_str()); VF_ASSERT((bool)i,"the file is written"); std::stringstream s; s<<i.rdbuf(); return s.str();
#endif
}
extern "C" void vf_main(){
#ifndef VF_SYMBOLIC
  char dir[]="/tmp/vftextXXXXXX"; if(!mkdtemp(dir)||chdir(dir)) abort(); const char*names[]={"o0","o2","o#t"}; for(const char*n:names){ std::ofstream f(n); f<<"a file of an earlier run, longer than what is written now, whatever the numbers are"; }
#endif
  Expect all; bool app=vf_choose("append",0,1)!=0; { A a,b; BlockTree tree; pBlock root(new Root); Diag*d=new Diag; pBlock pd(d); tree.addChild(root); tree.addChild(pd); bool other=vf_choose("other",0,1)!=0; A&w=other?b:a; root->addData("a",a); root->addData("b",b);
  VariableStorage vd("d","d"); BlockParameters bd; d->setup(vd,bd); setv(vd,"file",Variable(std::string("o#t"))); setv(vd,"field",Variable(std::string(other?"b":"a"))); setv(vd,"interval",Variable(2)); setv(vd,"append",Variable(app?1:0)); bd.evaluate(); int t=0; DiagnosticManager::instance().setTimeCounter(&t); d->doInit();
  for(int k=0;k<4;++k){ t=k; T v[2]={fresh(),fresh()}; w[0]=v[0]; w[1]=v[1]; DiagnosticManager::instance().execute(); if(k%2==0){ Expect e; Expect&x=app?all:e; x.n(v[0]); x.c(" "); x.n(v[1]); std::string fn=app?"o#t":k==0?"o0":"o2";
#ifdef VF_SYMBOLIC
      VF_ASSERT(vftext.file==fn,"the file is named after the time step"); VF_EQ(vftext.isopen,app?1:0,"the file is closed after an output that does not append"); x.check("file","");
#else
      if(!app){ x.check("file",slurp(fn)); }
#endif
    } }
  d->finish();
  }
#ifndef VF_SYMBOLIC
  if(app) all.check("file",slurp("o#t"));
  if(chdir("/")) abort(); std::string r=std::string("rm -rf ")+dir; if(system(r.c_str())) abort();
#endif
  vf_reach("file"); }
#endif
