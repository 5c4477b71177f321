// C08: geometry of a field - index ranges with and without ghost cells, physical positions of the cells
#include "gridcommon.h"
#include "grid/field.hpp"
typedef Field<short,RANK,GridNoArgCheck,STORAGE> F;
typedef Array<bool,RANK> St; typedef Range<double,RANK> Dom;
#ifndef MAXN
#define MAXN 4
#endif
static bool near(double a,double b,double scale){ double d=a-b; return d<=scale*0x1p-20 && d>=-scale*0x1p-20; }
struct Geo { Idx lo,hi; Dom dom; St st; int g; int n[RANK]; double cell[RANK]; };
extern "C" void vf_main(){
  Geo q; int how=vf_choose("how",0,2), via=vf_choose("via",0,3);
  q.g=vf_choose("ghost",0,2); int d0=vf_choose("dim",0,RANK-1);
  for(int d=0;d<RANK;++d){
#ifdef FIXN
    q.n[d]=FIXN;
#else
    q.n[d]= RANK<3||d==d0? vf_choose("n",1,MAXN) : 1+d%2;
#endif
    q.lo[d]=how==0?0:vf_int("lo",-1000,1000); q.hi[d]=q.lo[d]+q.n[d]-1;
    q.st[d]=vf_int("stagger",0,1)!=0;
    static const double cells[]={0.25,2.0,1.5}; q.cell[d]=cells[(RANK==1?vf_choose("cell",0,2):d)%3];
    q.dom.getLo()[d]=vf_int("origin",-4000,4000)/4.0; q.dom.getHi()[d]=q.dom.getLo()[d]+q.n[d]*q.cell[d];
  }
  Idx size; for(int d=0;d<RANK;++d) size[d]=q.n[d]; Range<int,RANK> rng(q.lo,q.hi);
  F *f;
  if(via==1){ // resizing a field that had another geometry
    Idx l,h; Dom dd; St s2; for(int d=0;d<RANK;++d){ l[d]=7; h[d]=8; dd.getLo()[d]=3; dd.getHi()[d]=4; s2[d]=!q.st[d]; }
    f=new F(l,h,dd,s2,1);
    if(how==0) f->resize(size,q.dom,q.st,q.g); else if(how==1) f->resize(q.lo,q.hi,q.dom,q.st,q.g); else f->resize(rng,q.dom,q.st,q.g);
  } else {
    f= how==0? new F(size,q.dom,q.st,q.g) : how==1? new F(q.lo,q.hi,q.dom,q.st,q.g) : new F(rng,q.dom,q.st,q.g);
    if(via==2){ F *c=new F(*f); delete f; f=c; }
    if(via==3){ F *c=new F(); *c=*f; delete f; f=c; }
  }
  Idx il=f->getInnerLo(),ih=f->getInnerHi(); auto ir=f->getInnerRange();
  for(int d=0;d<RANK;++d){
    VF_EQ(f->getLo()[d],q.lo[d]-q.g,"a field extends ghostCells below the inner range");
    VF_EQ(f->getHi()[d],q.hi[d]+q.g,"a field extends ghostCells above the inner range");
    VF_EQ(f->getDims()[d],q.n[d]+2*q.g,"extent of the field");
    VF_EQ(il[d],q.lo[d],"inner lower index"); VF_EQ(ih[d],q.hi[d],"inner upper index");
    VF_EQ(ir.getLo()[d],q.lo[d],"inner range"); VF_EQ(ir.getHi()[d],q.hi[d],"inner range");
    VF_ASSERT(f->getDomain().getLo()[d]==q.dom.getLo()[d]&&f->getDomain().getHi()[d]==q.dom.getHi()[d],"physical domain of the field");
    VF_ASSERT(f->getStagger(d)==q.st[d]&&f->getStagger()[d]==q.st[d],"stagger of the field");
  }
  // positions
  int d=d0; int k=vf_int("k",-2,q.n[d]+1); vf_assume(k>=-q.g&&k<q.n[d]+q.g);
  double c=q.cell[d], o=q.dom.getLo()[d], s=0.5*(int)q.st[d];
  double p=f->indexToPosition(d,q.lo[d]+k);
  VF_ASSERT(near(p,o+c*(k+s),c),"position of a cell");
  if(k>=0&&k<q.n[d]) VF_ASSERT(p>=o-c*0x1p-20&&p<=q.dom.getHi()[d]+c*0x1p-20,"inner cells lie in the physical domain");
  int e=vf_int("eighth",(q.n[d]&(q.n[d]-1))==0&&c!=1.5?0:1,7);
  double pos=o+c*(k+s)+c*e/8.0; int ix; double off;
  f->positionToIndex(d,pos,ix,off);
  VF_EQ(ix,q.lo[d]+k,"index of the grid point left of a position");
  VF_ASSERT(near(off,e/8.0,1.0),"offset of a position from the grid point left of it");
  VF_EQ(f->positionToIndex(d,pos),q.lo[d]+k,"index of the grid point left of a position (index only)");
  vf_observe(ix); vf_reach("position");
  // assigning a value fills the whole field
  short v=(short)vf_int("v",-1000,1000); *f=v; Idx x; for(int i=0;i<RANK;++i) x[i]=q.lo[i]-q.g; x[d]=q.lo[d]+k;
  VF_EQ(f->get(x),v,"assigning a value fills the field");
  delete f;
}
