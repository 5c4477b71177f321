// C20: shared data between blocks.  A tree of blocks, each of which may publish an int or a pointer to int under the key "d".
#include "vf.h"
#include "variables/block.hpp"
using namespace schnek;
#ifndef SHAPE
#define SHAPE {0,0,0}
#endif
#ifndef NAMES
#define NAMES 2
#endif
static const int NB=4; static const int PAR[3]=SHAPE; static int val[NB],target[NB]; static int*ptr[NB]; static int kind[NB]; static char nm[NB]; static double dval_[NB];
struct Node : public Block { };
static int par(int b){ return b?PAR[b-1]:-1; }
static bool inside(int b,int a){ for(;b>=0;b=par(b)) if(b==a) return true; return false; }
// reference: all blocks publishing kind k that a downward search from b for the key finds; -2: ambiguous
static int find(int b,const char*key,int k,bool up){
  if(key[0]=='d'&&key[1]==0&&kind[b]==k) return b;
  if(key[1]=='.'){ int n=0,r=-1; for(int c=1;c<NB;++c) if(par(c)==b&&nm[c]==key[0]){ int q=find(c,key+2,k,false); if(q==-2) return -2; if(q>=0){ ++n; r=q; } } if(n>1) return -2; if(n==1) return r; }
  if(up&&b) return find(par(b),key,k,true);
  int n=0,r=-1; for(int c=1;c<NB;++c) if(par(c)==b){ int q=find(c,key,k,false); if(q==-2) return -2; if(q>=0){ ++n; r=q; } } return n>1?-2:r;
}
extern "C" void vf_main(){
  for(int i=0;i<NB;++i){ val[i]=vf_int("value",-1000000,1000000); target[i]=vf_int("target",-1000000,1000000); ptr[i]=&target[i]; kind[i]=vf_choose("published",0,2); nm[i]=i?(char)('b'+(i==1?0:vf_choose("name",0,NAMES-1))):'r'; }
  BlockTree tree; Node*blk[NB]; pBlock keep[NB]; { int cur=-1; for(int i=0;i<NB;++i){ while(cur!=par(i)){ tree.moveUp(); cur=par(cur); } blk[i]=new Node; keep[i]=pBlock(blk[i]); blk[i]->setName(std::string(1,nm[i])); tree.addChild(keep[i]); cur=i; } }
  bool later=vf_choose("published again",0,1);
  for(int i=0;i<NB;++i){ if(kind[i]==1){ static int old[NB]; if(later) blk[i]->addData("d",old[i]); blk[i]->addData("d",val[i]); } else if(kind[i]==2) blk[i]->addData("d",ptr[i]); dval_[i]=i; blk[i]->addData("e",dval_[i]); blk[i]->addData(std::string("z")+nm[i],dval_[i]); }
  static const char*KEY[]={"d","b.d","c.d","b.c.d","x"};
  for(int b=0;b<NB;++b) for(int k=0;k<5;++k){
    int r1=find(b,KEY[k],1,true), r2=find(b,KEY[k],2,true);
    { int copy=-7; bool nf=false,dup=false; try { blk[b]->retrieveData(KEY[k],copy); } catch(VariableNotFoundException&){ nf=true; } catch(DuplicateVariableException&){ dup=true; }
      VF_ASSERT(nf==(r1==-1)&&dup==(r1==-2),"missing and ambiguous data are reported"); if(r1>=0) VF_EQ(copy,val[r1],"the value published by the nearest block");  }
    { int*p=nullptr; bool nf=false,dup=false; try { blk[b]->retrieveData(KEY[k],p); } catch(VariableNotFoundException&){ nf=true; } catch(DuplicateVariableException&){ dup=true; }
      int*w=r2>=0?ptr[r2]:r2==-1&&r1>=0?&val[r1]:nullptr; VF_ASSERT(dup==(r2==-2||(r2==-1&&r1==-2))&&nf==(r2==-1&&r1==-1),"missing and ambiguous data are reported"); VF_ASSERT(dup||p==w,"a reference to the published object itself"); if(p&&!dup) VF_EQ(*p,r2>=0?target[r2]:val[r1],"the shared object"); vf_reach(dup?"ambiguous":r2>=0?"pointer":p?"object":"missing"); } }
  { double e=0; for(int b=0;b<NB;++b){ blk[b]->retrieveData("e",e); VF_ASSERT(e==b,"a block finds its own data first"); } }
  // later writes through one block are seen by the others
  int*p=nullptr; int*w=nullptr; int r1=find(NB-1,"d",1,true),r2=find(NB-1,"d",2,true); if(r2>=0||(r2==-1&&r1>=0)){ blk[NB-1]->retrieveData("d",p); int nv=vf_int("new",-1000,1000); *p=nv; int o=r2>=0?r2:r1; blk[o]->retrieveData("d",w); VF_EQ(*w,nv,"writes are seen by every block"); }
}
