// C17: dependency updates over every small dependency graph.  NV variables (parameters v0..), each an expression
// over other variables and the sources p,q (read-only parameters) and c(), d(3) or d(p) (functions that must always be re-evaluated).
#include "deck.h"
#include "variables/operators.hpp"
#ifndef NV
#define NV 3
#endif
#ifndef SRCS
#define SRCS 4          // number of source choices: none,p,c(),q,p+q
#endif
static int P_,Q_,C_; static int cfun(){ return C_; } static int dfun(int k){ return C_+k; }
static int calls;
typedef std::shared_ptr<Expression<int> > pE;
static pE add(pE a,pE b){ return a?pE(new BinaryOp<expression::OperatorAdd<int>,int>(a,b)):b; }
static pE scale(int k,pE b){ return pE(new BinaryOp<expression::OperatorMultiply<int>,int>(pE(new Value<int>(k)),b)); }
static int mask_[NV],src_[NV]; static const int W[6]={2,3,5,7,11,13};
static int memo[NV]; static int st[NV]; static bool cyc;
static bool usesP(int s){ return s==1||s==4; } static bool usesC(int s){ return s==2; } static bool usesQ(int s){ return s==3||s==4; }
static int ref(int i,int p,int q,int c){ if(st[i]==2) return memo[i]; if(st[i]==1){ cyc=true; return 0; } st[i]=1; int v=i+1; for(int j=0;j<NV;++j) if(mask_[i]>>j&1) v+=W[j]*ref(j,p,q,c); if(usesP(src_[i])) v+=W[3]*p; if(usesC(src_[i])) v+=W[4]*(i==0||i==3?c:i==1?c+3:c+p); if(usesQ(src_[i])) v+=W[5]*q; st[i]=2; memo[i]=v; return v; }
static int want(int i,int p,int q,int c){ for(int k=0;k<NV;++k) st[k]=0; return ref(i,p,q,c); }
extern "C" void vf_main(){
  int out[NV];
  for(int i=0;i<NV;++i){ 
#ifdef M0
    if(i==0){ mask_[0]=(M0)&~1; src_[0]=vf_choose("src",0,SRCS-1); continue; }
#endif
    int m=vf_choose("deps",0,(1<<(NV-1))-1); mask_[i]=((m>>i)<<(i+1))|(m&((1<<i)-1));
#ifdef ACYCLIC
    // variables may depend on later variables only, in the order given by a permutation of the names
    static const int pos[6][4]={{0,1,2,3},{3,2,1,0},{1,3,0,2},{2,0,3,1},{1,0,3,2},{3,0,1,2}}; for(int j=0;j<NV;++j) if((mask_[i]>>j&1)&&pos[ACYCLIC][j]<=pos[ACYCLIC][i]) return;
#endif
    src_[i]=vf_choose("src",0,SRCS-1); }
  P_=vf_int("p",-1000,1000); Q_=vf_int("q",-1000,1000); C_=vf_int("c",-1000,1000);
  VariableStorage vs("root","root"); FunctionRegistry fr; fr.registerFunction("c",cfun,true); fr.registerFunction("d",dfun,true);
  BlockParameters bp,bp2; bp.setContext(vs.getRootBlock()); 
  pParameter pp=bp.addParameter("p",&P_,BlockParameters::readonly), pq=bp.addParameter("q",&Q_,BlockParameters::readonly);
  vs.createBlock("sub","sub"); bp2.setContext(vs.getCurrentBlock());
  pParameter par[NV]; for(int i=0;i<NV;++i){ std::string n="v"; n.push_back(char('0'+i)); out[i]=-12345-i; par[i]=(i%2?bp2:bp).addParameter(n,&out[i],0); }
  // assign the expressions, as the parser does for "name = expression;"
  for(int i=0;i<NV;++i){ pE e(new Value<int>(i+1)); bool any=false; for(int j=0;j<NV;++j) if(mask_[i]>>j&1){ e=add(e,scale(W[j],pE(new ReferencedValue<int>(par[j]->getVariable())))); any=true; }
    if(usesP(src_[i])){ e=add(e,scale(W[3],pE(new ReferencedValue<int>(pp->getVariable())))); any=true; } if(usesQ(src_[i])){ e=add(e,scale(W[5],pE(new ReferencedValue<int>(pq->getVariable())))); any=true; }
    if(usesC(src_[i])){ ExpressionList args; if(i==1) args.push_back(pE(new Value<int>(3))); if(i==2) args.push_back(pE(new ReferencedValue<int>(pp->getVariable()))); e=add(e,scale(W[4],boost::get<pIntExpression>(fr.getExpression(args.empty()?"c":"d",args)))); any=true; }
    // a variable that depends on nothing is stored as a value
    if(any) *par[i]->getVariable()=Variable(e); else *par[i]->getVariable()=Variable(i+1); }
  cyc=false; for(int i=0;i<NV;++i){ for(int k=0;k<NV;++k) st[k]=0; ref(i,0,0,0); } bool cyclic=cyc;
  pDependencyMap dm(new DependencyMap(vs.getRootBlock()));
  bool threw=false; try { dm->updateAll(); } catch(EvaluationException&){ threw=true; }
  VF_ASSERT(threw==cyclic,"exactly the circular definitions are rejected"); if(threw){ vf_reach("cycle"); return; }
  for(int i=0;i<NV;++i) VF_EQ(boost::get<int>(par[i]->getVariable()->getValue()),want(i,P_,Q_,C_),"updateAll brings every variable up to date");
  DependencyUpdater up(dm); up.addIndependent(pp);
  int d1=vf_choose("dependents",0,2), d2=vf_choose("dependents later",0,1); bool dep[NV]; for(int i=0;i<NV;++i) dep[i]=d1==2||i==(d1?NV-1:0);
  bool qreg=d2; if(qreg) up.addIndependent(pq);
  for(int i=0;i<NV;++i) if(dep[i]) up.addDependent(par[i]);
  int keep[NV]; for(int i=0;i<NV;++i) keep[i]=out[i];
  for(int round=0;round<2;++round){
    P_=vf_int("p'",-1000,1000); C_=vf_int("c'",-1000,1000); if(qreg) Q_=vf_int("q'",-1000,1000);
    up.update();
    for(int i=0;i<NV;++i) if(dep[i]) VF_EQ(out[i],want(i,P_,Q_,C_),"a dependent parameter has the value of its expression for the current values");
      else VF_EQ(out[i],keep[i],"parameters that are not dependents are left alone");
    if(round==0){ if(d2==0){ int k=(d1==0)?NV-1:0; up.addDependent(par[k]); dep[k]=true; for(int i=0;i<NV;++i) keep[i]=out[i]; } else if(d1==2){ up.clearDependent(); for(int i=0;i<NV;++i){ dep[i]=false; keep[i]=out[i]; } up.addDependent(par[0]); dep[0]=true; } }
  }
  vf_reach("updated");
}
