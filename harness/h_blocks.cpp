// C19: the block hierarchy made from a deck, and the order of the life-cycle hooks.
//   TEMPLATE: 'N' opens a block (class chosen), '}' closes it
#include "deck.h"
#include "variables/blockcontainer.hpp"
#ifndef TEMPLATE
#define TEMPLATE "NN}N}}"
#endif
#ifndef RESTRICT
#define RESTRICT 0
#endif
static int P_; static int logId[64],logPh[64]; static int nlog;
struct Rec; static Rec*rec[8]; static int nrec; static int wantV[8]; static bool ready[8];
struct Rec { int idx; int v; std::string nm; Block*blk; };
static int idxOf(const std::string&n){ return n=="root"?0:n[1]-'0'; }
static void note(Rec*r,int ph,Block*b){ if(ph==1) for(int i=0;i<nrec;++i) VF_EQ(rec[i]->v,wantV[rec[i]->idx],"all parameters have been evaluated before any hook runs");
  logId[nlog]=r->idx; logPh[nlog]=ph; ++nlog; }
template<class Base> struct Hooks : public Base, public Rec {
  void initParameters(BlockParameters&bp){ this->blk=this; this->nm=this->getName(); this->idx=idxOf(this->nm); this->v=-1; rec[nrec++]=this; logId[nlog]=this->idx; logPh[nlog]=0; ++nlog; bp.addParameter("v",&this->v,-5); }
  void registerData(){ note(this,1,this); } void preInit(){ Base::preInit(); note(this,2,this); } void init(){ note(this,3,this); } void postInit(){ note(this,4,this); }
};
struct L; struct K;
struct Kb : public ChildBlock<K>, public BlockContainer<K>, public BlockContainer<L> { };
struct K : public Hooks<Kb> { template<class C> int count(){ return (int)BlockContainer<C>::numChildren(); } template<class C> auto kids(){ return BlockContainer<C>::childBlocks(); } };
struct Lb : public ChildBlock<L>, public BlockContainer<K> { };
struct L : public Hooks<Lb> { int count(){ return (int)numChildren(); } auto kids(){ return childBlocks(); } };
struct RootB : public Block, public BlockContainer<L> { void preInit(){} };
struct Root : public Hooks<RootB> { int count(){ return (int)numChildren(); } auto kids(){ return childBlocks(); } };
struct Open : public Block { using Block::getChildren; };
static int cls[8],par[8]; static int nb;     // 0 K, 1 L, 2 no class registered; par: enclosing deck block
static int realParent(int i){ int p=par[i]; while(p>0&&cls[p]==2) p=par[p]; return p; }
extern "C" void vf_main(){
  nlog=nrec=0; P_=vf_int("p",-1000,1000); nb=1; cls[0]=3; par[0]=-1; std::string text; int cur=0; bool err=false,orphan=false; bool haveRoot=RESTRICT?true:vf_choose("root class",0,1);
  unsigned allow=0; 
#if RESTRICT
  BlockClasses bc(true); { int a=vf_choose("allowed in root",0,7), b=vf_choose("allowed in K",0,7); allow=a|b<<3|(7-b)<<6; }   // bit 3*parent+child, parents: root K L, children: K L M
#else
  BlockClasses bc(false);
#endif
  if(haveRoot) bc("App").setClass<Root>(); if(!RESTRICT||vf_choose("K registered",0,1)) bc("K").setClass<K>(); bc("L").setClass<L>();
#if RESTRICT
  { static const char*PN[3]={"App","K","L"},*CN[3]={"K","L","M"}; for(int a=0;a<3;++a) for(int b=0;b<3;++b) if(allow>>(3*a+b)&1) bc(PN[a]).addChildren(CN[b]); }
  bool kreg=bc("K").hasBlockFactory(); if(!kreg) return;
#endif
  bool anyRoot=haveRoot; wantV[0]=-5;
  for(const char*t=TEMPLATE;*t;++t){
    if(*t=='N'){ int c=vf_choose("class",0,2); int n=nb; cls[n]=c; par[n]=cur; std::string nm="b"; nm.push_back(char('0'+n)); text+=std::string(c==0?"K ":c==1?"L ":"M ")+nm+" {\n";
      if(RESTRICT&&!err){ int pc=cls[cur]==3?0:cls[cur]==2?-1:cls[cur]+1; if(pc<0||!(allow>>(3*pc+c)&1)) err=true; }
      if(c!=2){ bool top=true; for(int p=cur;p>0;p=par[p]) if(cls[p]!=2) top=false; if(top&&!haveRoot){ if(anyRoot) orphan=true; anyRoot=true; } }
      if(!RESTRICT&&vf_choose("set v",0,1)){ std::string num; num.push_back(char('0'+n)); text+=c==2?"int v = p;":"v = p*2+"+num+";\n"; wantV[n]=2*P_+n; } else wantV[n]=-5;
      cur=nb++; }
    else { text+="}\n"; cur=par[cur]; } }
  if(orphan) return;     // several top level blocks without a root block: not claimed
  VariableStorage vs("root","App"); FunctionRegistry fr; BlockParameters bp; pBlock root; bool perr=false;
  VariableStorage outer("o","o"); 
  { pVariable pv(new Variable(pIntExpression(new ExternalValue<int>(&P_)),true,true)); vs.addVariable("p",pv); }
  { Parser p(vs,fr,bc); DeckStream ds(text); try { root=p.parse(ds.get()); } catch(ParserError&){ perr=true; } }
  VF_ASSERT(perr==err,"exactly the blocks that are not allowed inside their parent are rejected"); if(perr){ vf_reach("rejected"); return; }
  // one block object per deck block with a class, created in deck order
  int order[8],m=0; if(haveRoot) order[m++]=0; for(int i=1;i<nb;++i) if(cls[i]!=2) order[m++]=i;
  VF_ASSERT((bool)root==(m>0),"parsing returns the outermost block"); if(!root) return;
  VF_ASSERT(nlog==m&&nrec==m,"one block object per block in the deck"); for(int k=0;k<m;++k) VF_ASSERT(logPh[k]==0&&logId[k]==order[k],"blocks are set up in deck order");
  VF_ASSERT(root.get()==rec[0]->blk,"the outermost block is returned");
  for(int k=0;k<m;++k){ Block*b=rec[k]->blk; int i=order[k]; int rp=i?realParent(i):-1; if(rp==0&&!haveRoot) rp=-1; Block*want=nullptr; for(int q=0;q<m;++q) if(rp>=0&&order[q]==rp) want=rec[q]->blk; VF_ASSERT(b->getParent().get()==want,"the parent is the enclosing block that has a class");
    VF_ASSERT(b->getLocalVariables()->getBlockName()==(i?rec[k]->nm:std::string("root"))&&b->getVariables()==vs.getRootBlock(),"a block sees its own variables");
    // children, in deck order
    BlockList ch=(b->*(&Open::getChildren))(); int q=0; BlockList::iterator it=ch.begin(); for(;q<m;++q){ int j=order[q]; if(j==0) continue; if(realParent(j)==i){ VF_ASSERT(it!=ch.end()&&it->get()==rec[q]->blk,"the children are the blocks inside, in deck order"); ++it; } } VF_ASSERT(it==ch.end(),"there are no other children"); }
  nlog=0; int start=RESTRICT?0:vf_choose("start",0,3); if(start>=m) start=m-1; rec[start]->blk->initAll();
  VF_ASSERT(nlog==4*m,"each hook runs once for each block"); for(int ph=1;ph<=4;++ph) for(int k=0;k<m;++k) VF_ASSERT(logPh[(ph-1)*m+k]==ph&&logId[(ph-1)*m+k]==order[k],"each phase runs for all blocks, parents before children, in deck order, before the next phase starts");
  for(int k=0;k<m;++k){ int i=order[k]; int nk=0,nl=0; Block*kk[8],*ll[8]; for(int q=0;q<m;++q){ int j=order[q]; if(j==0||realParent(j)!=i||(i==0&&!haveRoot)) continue; if(cls[j]==0) kk[nk++]=rec[q]->blk; else ll[nl++]=rec[q]->blk; }
    if(cls[i]==0){ K*b=static_cast<K*>(rec[k]); VF_ASSERT(b->count<K>()==nk&&b->count<L>()==nl,"a container holds its children of each type"); int z=0; for(auto c:b->kids<K>()) VF_ASSERT(c.get()==kk[z++],"in deck order"); z=0; for(auto c:b->kids<L>()) VF_ASSERT(c.get()==ll[z++],"in deck order"); }
    else if(cls[i]==1){ L*b=static_cast<L*>(rec[k]); VF_ASSERT(b->count()==nk,"a container holds its children of its type"); int z=0; for(auto c:b->kids()) VF_ASSERT(c.get()==kk[z++],"in deck order"); }
    else { Root*b=static_cast<Root*>(rec[k]); VF_ASSERT(b->count()==nl,"a container holds its children of its type"); int z=0; for(auto c:b->kids()) VF_ASSERT(c.get()==ll[z++],"in deck order"); } }
  vf_reach("ok");
}
