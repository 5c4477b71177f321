// C02: histories of copying, assigning, resizing, writing and destroying grid handles, against a reference model
#include "gridcommon.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef SIZES
#define SIZES {1,3}
#endif
typedef uint64_t T;
typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G;
static const int szs[]=SIZES; static const int NSZ=sizeof(szs)/sizeof(szs[0]);
struct Block { int lo[RANK]; long n[RANK]; bool shaped; bool written; int woff[RANK]; T val; };
static Block blk[16]; static int nblk=0;
static G* h[3]; static int own[3];
static void shape(Block&b,int s){ b.shaped=true; b.written=false; for(int d=0;d<RANK;++d){ b.n[d]= d==0?szs[s]:2; b.lo[d]=vf_int("lo",-1000,1000); } }
static void ranges(const Block&b,Idx&lo,Idx&hi){ for(int d=0;d<RANK;++d){ lo[d]=b.lo[d]; hi[d]=b.lo[d]+(int)b.n[d]-1; } }
static void checkAll(){
  for(int i=0;i<3;++i) if(h[i]){
    Block&b=blk[own[i]];
    if(!b.shaped){ VF_ASSERT(h[i]->getSize()==0,"an empty grid has no cells"); continue; }
    long tot=1; for(int d=0;d<RANK;++d) tot*=b.n[d];
    VF_ASSERT(h[i]->getSize()==tot,"a handle reports the size of the data it shares");
    for(int d=0;d<RANK;++d) VF_ASSERT(h[i]->getLo(d)==b.lo[d]&&h[i]->getHi(d)==b.lo[d]+b.n[d]-1&&h[i]->getDims(d)==b.n[d],"a handle reports the shape of the data it shares");
    VF_ASSERT(vf_block_size(h[i]->getRawData())>=tot*sizeof(T),"allocated block holds every cell");
    Idx lo,hi; ranges(b,lo,hi); long z[RANK],e[RANK]; for(int d=0;d<RANK;++d){ z[d]=0; e[d]=b.n[d]-1; }
    VF_ASSERT(&(*h[i])[lo]==h[i]->getRawData()&&&(*h[i])[hi]==h[i]->getRawData()+layout(e,b.n),"first and last index lie in the shared block");
    if(b.written){ Idx p; for(int d=0;d<RANK;++d) p[d]=b.lo[d]+b.woff[d]; VF_ASSERT((*h[i])[p]==b.val,"a value written through one handle is seen through every handle sharing the data"); }
    for(int j=0;j<i;++j) if(h[j]&&blk[own[j]].shaped) VF_ASSERT((h[i]->getRawData()==h[j]->getRawData())==(own[i]==own[j]),"handles share storage exactly when they were copied or assigned");
  }
}
static void fresh(int i,int s){ int b=nblk++; shape(blk[b],s); Idx lo,hi; ranges(blk[b],lo,hi); h[i]=new G(lo,hi); own[i]=b; }
extern "C" void vf_main(){
  fresh(0,0); own[1]=own[0]; h[1]=new G(*h[0]); fresh(2,NSZ-1);
#ifdef PREHIST
  for(int k=0;k<PREHIST;++k){ Block&b=blk[own[0]]; shape(b,k%NSZ==0?NSZ-1:0); if(k>0) b.n[0]=szs[0]; Idx lo,hi; ranges(b,lo,hi); h[k%2]->resize(lo,hi); if(k%10==0||k>PREHIST-3) checkAll(); }
#endif
  checkAll();
  for(int k=0;k<STEPS;++k){
    int op=vf_choose("op",0,5), i=vf_choose("i",0,2);
    if(op==0){ int j=vf_choose("j",0,2); if(!h[i]||!h[j]) continue; *h[i]=*h[j]; own[i]=own[j]; vf_reach("assign"); }
    else if(op==1){ int s=vf_choose("size",0,NSZ-1); if(!h[i]) continue; shape(blk[own[i]],s); Idx lo,hi; ranges(blk[own[i]],lo,hi); h[i]->resize(lo,hi); vf_reach("resize"); }
    else if(op==2){ if(!h[i]) continue; Block&b=blk[own[i]]; if(!b.shaped) continue; b.written=true; b.val=vf_bits64("v"); Idx p; for(int d=0;d<RANK;++d){ b.woff[d]=vf_int("w",0,(int)b.n[d]-1); p[d]=b.lo[d]+b.woff[d]; } (*h[i])[p]=b.val; }
    else if(op==3){ int j=vf_choose("j",0,2); if(i==j||!h[j]) continue; delete h[i]; h[i]=new G(*h[j]); own[i]=own[j]; vf_reach("copy"); }
    else if(op==4){ if(!h[i]) continue; delete h[i]; h[i]=nullptr; vf_reach("destroy"); }
    else { delete h[i]; int b=nblk++; blk[b].shaped=false; blk[b].written=false; h[i]=new G(); own[i]=b; vf_reach("empty"); }
    checkAll();
  }
  for(int i=0;i<3;++i) delete h[i];
}
