// C24: filling fields from deck expressions
#include "deck.h"
#include "grid/field.hpp"
#include "tools/fieldtools.hpp"
#ifndef RANK
#define RANK 2
#endif
#define CB (RANK==1?20:4)
typedef Array<int,RANK> Idx; typedef Field<double,RANK> F; typedef Array<bool,RANK> St; typedef Range<double,RANK> Dom;
struct Geo { Idx lo,hi; Dom dom; St st; int g; int n[RANK]; double cell; };
static Geo geo(int g,int maxn,double cell){ Geo q; q.g=g; q.cell=cell; for(int d=0;d<RANK;++d){ q.lo[d]=vf_int("lo",-100,100); q.n[d]=d==0?vf_choose("n",1,maxn):d==1?2:1; q.hi[d]=q.lo[d]+q.n[d]-1; q.st[d]=vf_int("stagger",0,1)!=0; q.dom.getLo()[d]=vf_int("origin",-40,40)/4.0; q.dom.getHi()[d]=q.dom.getLo()[d]+q.n[d]*cell; } return q; }
static Array<double,RANK> x_; static double f_,h_; static int c_;
static double at(const Geo&q,int d,int k){ return q.dom.getLo()[d]+q.cell*(k+0.5*(int)q.st[d]); }
static double wantF(const Geo&q,const int*k,int c){ double r=c*at(q,0,k[0])+3; for(int d=1;d<RANK;++d) r=r+at(q,d,k[d])*(d==1?0.5:4); return r; }
static double wantH(const Geo&q,const int*k){ return 2*at(q,0,k[0])-at(q,RANK-1,k[RANK-1]); }
static void cell(const Geo&q,F&f,bool isF,int c,const char*){ int k[RANK]; Idx p; for(int d=0;d<RANK;++d){ k[d]=vf_int("k",-q.g,q.n[d]-1+q.g); p[d]=q.lo[d]+k[d]; } VF_ASSERT(f.get(p)==(isF?wantF(q,k,c):wantH(q,k)),"a field is filled with the value of the expression at the position of each cell"); }
extern "C" void vf_main(){
  int c=vf_int("c",-CB,CB); c_=c; f_=h_=0;
  Geo q1=geo(vf_choose("ghost",0,1),3,0.5), q2=geo(1,2,2.0);
  VariableStorage vs("root","root"); FunctionRegistry fr; BlockClasses bc(false); BlockParameters bp; bp.setContext(vs.getRootBlock());
  Array<pParameter,RANK> px=bp.addArrayParameter("",x_,BlockParameters::readonly);
  pParameter pc=bp.addParameter("c",&c_,BlockParameters::readonly), pf=bp.addParameter("f",&f_,0.0), ph=bp.addParameter("h",&h_,0.0);
  const char last=RANK==1?'x':RANK==2?'y':'z';
  std::string text="float a = c*x + 3; float b = a"; if(RANK>1) text+=" + y*0.5"; if(RANK>2) text+=" + z*4"; text+="; f = b; h = 2*x - "; text.push_back(last); text+=";";
  { Parser p(vs,fr,bc); DeckStream ds(text); p.parse(ds.get()); }
  bp.evaluate();
  F a(q1.lo,q1.hi,q1.dom,q1.st,q1.g), b(q2.lo,q2.hi,q2.dom,q2.st,q2.g);
  pDependencyMap dm(new DependencyMap(vs.getRootBlock())); DependencyUpdater up(dm); up.addIndependentArray(px);
#if MODE==0
  fill_field(a,x_,f_,up,pf); cell(q1,a,true,c,"first");
  fill_field(b,x_,h_,up,ph); cell(q2,b,false,c,"second"); cell(q1,a,true,c,"first again");
  // a later change of a parameter registered as independent is honoured by the next filling
  DependencyUpdater up2(dm); up2.addIndependentArray(px); up2.addIndependent(pc); int c2=vf_int("c later",-CB,CB); c_=c2;
  fill_field(b,x_,f_,up2,pf); cell(q2,b,true,c2,"refilled"); cell(q1,a,true,c,"others are kept"); vf_reach("filled");
#elif MODE==1
  up.addDependent(pf); up.addDependent(ph);
  fill_field(a,x_,f_,up); cell(q1,a,true,c,"f"); fill_field(a,x_,h_,up); cell(q1,a,false,c,"h"); fill_field(b,x_,h_,up); cell(q2,b,false,c,"h"); vf_reach("filled");
#else
  DependencyUpdater uf(dm), uh(dm); uf.addIndependentArray(px); uf.addDependent(pf); uh.addIndependentArray(px); uh.addDependent(ph);
  { FieldFiller fill; fill.set(x_,uf)(a,f_); fill.fillFields(); cell(q1,a,true,c,"f");
    // another coordinate array and updater of the same kind
    fill.set(x_,uh)(b,h_); a=0.0; b=0.0; fill.fillFields(); cell(q1,a,true,c,"f"); cell(q2,b,false,c,"h"); }
  { FieldFiller fill; fill.set(x_,uh)(a,h_)(b,h_); a=0.0; b=0.0; fill.fillFields(); cell(q1,a,false,c,"h"); cell(q2,b,false,c,"h"); 
    fill.clear(); a=0.0; fill.set(x_,uf)(b,f_); fill.fillFields(); cell(q2,b,true,c,"f"); Idx p; for(int d=0;d<RANK;++d) p[d]=q1.lo[d]; VF_ASSERT(a.get(p)==0.0,"a cleared filler fills nothing any more"); } vf_reach("filled");
#endif
}
