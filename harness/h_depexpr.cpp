// C17: dependencies through every form of expression (operators, signs, parentheses, conversions between types, function
// arguments, variables of other blocks): a dependent parameter follows the independent parameters it is computed from.
#include "deck.h"
static int N_,M_,WI_; static double X_,WF_; static std::string S_,WS_;
static double half(double a){ return a; } static int sel(int a,int b,int c){ return b; } static std::string tag(std::string a,int b){ return a; }
struct Case { const char*t; int out; };
static const Case CS[]={
  {"wi = -n;",0},{"wi = (n);",0},{"wi = m+(n);",0},{"wi = m-(n);",0},{"wi = m+(-n);",0},{"wi = 7-n;",0},{"wi = 3*n;",0},{"wi = 3*(m+n);",0},
  {"wf = n;",1},{"wf = -x;",1},{"wf = half(n);",1},{"int k = n+1; wf = k;",1},{"int k = n+1; wf = -k;",1},{"float a = x; wf = -(-(a));",1},
  {"wi = sel(m,n,1);",0},{"wi = sel(1,-(n),m);",0},{"wi = sel(2,2*n,m);",0},{"float a = x; wf = half(-a);",1},
  {"ws = \"a\"+n;",2},{"ws = n+\"b\";",2},{"ws = s;",2},{"ws = s+\"c\";",2},{"ws = tag(s,n);",2},{"string q = s+n; ws = q;",2},
  {"B b { int k = n; } wi = b:k;",0},{"int k = n; B b { int l = k; wi = l-m; }",0},{"int k = m; k = n; wi = k;",0},{"wi = 4; wi = n;",0},{"wi = -(m-(2-n));",0}};
#define NC ((int)(sizeof(CS)/sizeof(CS[0])))
static std::string num(int v){ std::string r; if(v<0){ r.push_back('-'); v=-v; } if(v>=10) r.push_back((char)('0'+v/10)); r.push_back((char)('0'+v%10)); return r; }
static int wantI(int c,int n,int m){ switch(c){ case 0: return -n; case 1: return n; case 2: return m+n; case 3: return m-n; case 4: return m-n; case 5: return 7-n; case 6: return 3*n; case 7: return 3*(m+n); case 14: return n; case 15: return -n; case 16: return 2*n; case 24: return n; case 25: return n-m; case 26: case 27: return n; default: return -(m-(2-n)); } }
static double wantF(int c,int n,double x){ switch(c){ case 8: return (double)n; case 9: return -x; case 10: return (double)n; case 11: return (double)(n+1); case 12: return (double)(-(n+1)); case 13: return x; default: return -x; } }
static std::string wantS(int c,int n,const std::string&s){ switch(c){ case 18: return "a"+num(n); case 19: return num(n)+"b"; case 20: return s; case 21: return s+"c"; case 22: return s; default: return s+num(n); } }
extern "C" void vf_main(){
  int c=vf_choose("deck",0,NC-1); bool str=CS[c].out==2; static const int NN[]={3,-4,12,0}; static const char*SS[]={"u","","vw"};
  VariableStorage vs("root","root"); FunctionRegistry fr; fr.registerFunction("half",half); fr.registerFunction("sel",sel); fr.registerFunction("tag",tag); BlockClasses bc(false);
  N_=1; M_=2; X_=1; S_="z"; WI_=0; WF_=0; WS_="";
  BlockParameters bp; bp.setContext(vs.getRootBlock()); pParameter pn=bp.addParameter("n",&N_,BlockParameters::readonly), pm=bp.addParameter("m",&M_,BlockParameters::readonly), px=bp.addParameter("x",&X_,BlockParameters::readonly), ps=bp.addParameter("s",&S_,BlockParameters::readonly);
  pParameter w[3]={bp.addParameter("wi",&WI_,0),bp.addParameter("wf",&WF_,0.0),bp.addParameter("ws",&WS_,std::string("none"))};
  { Parser p(vs,fr,bc); std::string text=CS[c].t; DeckStream ds(text); p.parse(ds.get()); }
  pDependencyMap dm(new DependencyMap(vs.getRootBlock())); if(vf_choose("updateAll first",0,1)) dm->updateAll();
  DependencyUpdater up(dm); up.addIndependent(pn); up.addIndependent(pm); up.addIndependent(px); up.addIndependent(ps); up.addDependent(w[CS[c].out]);
  for(int round=0;round<2;++round){
    if(str){ N_=NN[vf_choose("n",0,3)]; S_=SS[vf_choose("s",0,2)]; } else { N_=vf_int("n",-1000,1000); M_=vf_int("m",-1000,1000); X_=vf_double("x"); vf_assume(X_==X_); }
    up.update();
    if(CS[c].out==0) VF_EQ(WI_,wantI(c,N_,M_),"an int parameter follows what it depends on"); else if(CS[c].out==1) VF_EQD(WF_,wantF(c,N_,X_),"a float parameter follows what it depends on"); else VF_ASSERT(WS_==wantS(c,N_,S_),"a string parameter follows what it depends on");
  }
  vf_reach(CS[c].out==0?"int":CS[c].out==1?"float":"string");
}
