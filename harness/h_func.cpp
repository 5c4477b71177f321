// C23: function calls in decks.  MODE 0: the functions of the library, 1: user functions of every argument type and count
#include "deck.h"
#include <cmath>
#ifndef MODE
#define MODE 0
#endif
static int I_,J_; static double F_,G_,H_; static std::string S_;
static void params(VariableStorage&vs){ BlockParameters bp; bp.setContext(vs.getRootBlock()); bp.addParameter("i",&I_,BlockParameters::readonly); bp.addParameter("j",&J_,BlockParameters::readonly); bp.addParameter("f",&F_,BlockParameters::readonly); bp.addParameter("g",&G_,BlockParameters::readonly); bp.addParameter("h",&H_,BlockParameters::readonly); bp.addParameter("s",&S_,BlockParameters::readonly); }
#if MODE==0
struct Fn { const char*name; int n; };
static const Fn FN[]={{"cos",1},{"sin",1},{"tan",1},{"acos",1},{"asin",1},{"atan",1},{"atan2",2},{"cosh",1},{"sinh",1},{"tanh",1},{"exp",1},{"log",1},{"log10",1},{"pow",2},{"sqrt",1},{"ceil",1},{"fabs",1},{"floor",1},{"fmod",2},{"ldexp",4},{"min",2},{"max",2},{"minI",3},{"maxI",3},{"normal",5}};
static double ref(int k,double a,double b,double c,int i,int j){ switch(k){ case 0: return cos(a); case 1: return sin(a); case 2: return tan(a); case 3: return acos(a); case 4: return asin(a); case 5: return atan(a); case 6: return atan2(a,b); case 7: return cosh(a); case 8: return sinh(a); case 9: return tanh(a); case 10: return exp(a); case 11: return log(a); case 12: return log10(a); case 13: return pow(a,b); case 14: return sqrt(a); case 15: return ceil(a); case 16: return fabs(a); case 17: return floor(a); case 18: return fmod(a,b);
  case 19: return ldexp(a,i); case 20: return b<a?b:a; case 21: return a<b?b:a; case 22: return i<j?i:j; case 23: return i>j?i:j; default: { double y=(a-c)/b; return exp(-y*y/2.0); } } }
extern "C" void vf_main(){
  int k=vf_choose("function",LO,HI); int form=vf_choose("arguments",0,2); I_=vf_int("i",-1000,1000); J_=vf_int("j",-1000,1000); F_=vf_double("f"); G_=vf_double("g"); H_=vf_double("h");
  if(k>=20&&k<=21) vf_assume(F_==F_&&G_==G_&&!(F_==0&&G_==0));
  VariableStorage vs("root","root"); FunctionRegistry fr; registerCMath(fr); registerUtilityFunctions(fr); if(k==24) registerAllFunctions(fr); BlockClasses bc(false); params(vs);
  // form 0: float arguments, 1: int arguments where floats are expected (and the reverse), 2: wrong number of arguments
  int n=FN[k].n; std::string args; double a=F_,b=G_,c=H_; int i=I_,j=J_;
  if(form==1){ if(n==3||n==4) return; a=(double)I_; b=(double)J_; if(n==5) b=2; }
  switch(n){ case 1: args=form==1?"i":"f"; break; case 2: args=form==1?"i, j":"f, g"; break; case 3: args="i,j"; break; case 4: args="f , i"; break; case 5: args=form==1?"i,2,h":"f,g,h"; break; }
  if(form==2){ if(vf_choose("more",0,1)) args+=", f"; else if(n==1) args=""; else args="f"; }
  std::string text=std::string("float x = ")+FN[k].name+"("+args+");"; bool wrong=false; { Parser p(vs,fr,bc); DeckStream ds(text); try { p.parse(ds.get()); } catch(WrongNumberOfArgsException&){ wrong=true; } }
  VF_ASSERT(wrong==(form==2),"a call with the wrong number of arguments is an error"); if(wrong){ vf_reach("count"); return; }
  VF_EQD(boost::get<double>(vs.getRootBlock()->getVariable("x")->getValue()),ref(k,a,b,c,i,j),"the value of the function for the arguments in order"); vf_reach("value");
}
#else
static int calls; static int last_i[3]; static double last_d[3]; static std::string last_s[3];
static int fi0(){ ++calls; return 5; } static int fi1(int a){ ++calls; last_i[0]=a; return a-3; } static double fd2(int a,double b){ ++calls; last_i[0]=a; last_d[1]=b; return b; } static double fdi(double a,int b){ ++calls; last_d[0]=a; last_i[1]=b; return a; }
static std::string fs2(std::string a,int b){ ++calls; last_s[0]=a; last_i[1]=b; return a+"!"; } static int fi3(int a,int b,int c){ ++calls; last_i[0]=a; last_i[1]=b; last_i[2]=c; return a*2+b; }
static const int NP[6]={0,1,2,2,2,3}; static const char PT[6][4]={"","i","id","di","si","iii"}; static const int RT[6]={0,0,1,1,2,0}; static const char*TN[3]={"int","float","string"};
struct A { const char*t; char ty; bool cst; }; static const A AR[]={{"i",'i',false},{"f",'d',false},{"'12'",'s',true},{"-2.5",'d',true},{"7",'i',true},{"s",'s',false}};
static int ai(int k){ return k==0?I_:k==1?(int)F_:k==2?12:k==3?-2:k==4?7:34; } static double ad(int k){ return k==0?(double)I_:k==1?F_:k==2?12.0:k==3?-2.5:k==4?7.0:34.0; } static std::string as(int k){ return k==0?boost::lexical_cast<std::string>(I_):k==1?boost::lexical_cast<std::string>(F_):k==2?"12":k==3?"-2.5":k==4?"7":"34"; }
static void checkArgs(int fn,const int*arg){ for(int k=0;k<NP[fn];++k){ char t=PT[fn][k]; if(t=='i') VF_EQ(last_i[k],ai(arg[k]),"integer argument"); else if(t=='d') VF_EQD(last_d[k],ad(arg[k]),"float argument"); else VF_ASSERT(last_s[k]==as(arg[k]),"string argument"); } }
extern "C" void vf_main(){
  int fn=vf_choose("function",0,6), na=vf_choose("number of arguments",0,4); int arg[4]; bool str=fn==4; if(str){ I_=-3; F_=0.25; } else { I_=vf_int("i",-1000,1000); F_=vf_double("f"); vf_assume(F_>-1e6&&F_<1e6); } J_=0; G_=H_=0; S_="34"; bool always=fn<6&&vf_choose("always re-evaluate",0,1);
  VariableStorage vs("root","root"); FunctionRegistry fr; params(vs); fr.registerFunction("fn",fi0); // replaced below
  switch(fn){ case 0: fr.registerFunction("fn",fi0,always); break; case 1: fr.registerFunction("fn",fi1,always); break; case 2: fr.registerFunction("fn",fd2,always); break; case 3: fr.registerFunction("fn",fdi,always); break; case 4: fr.registerFunction("fn",fs2,always); break; case 5: fr.registerFunction("fn",fi3,always); break; }
  fr.registerFunction("fnn",fi1); std::string text; bool cst=!always; for(int k=0;k<na;++k){ arg[k]=k<2?vf_choose("argument",0,5):k==2?4:0; if(!AR[arg[k]].cst) cst=false; text+=(k?",":"")+std::string(AR[arg[k]].t); }
  int rt=fn<6?RT[fn]:0; text=std::string(TN[rt])+" x = "+(fn==6?"unknown":"fn")+"("+text+"); int k = 1;";
  calls=0; bool nf=false,wn=false; { BlockClasses bc(false); Parser p(vs,fr,bc); DeckStream ds(text); try { p.parse(ds.get()); } catch(WrongNumberOfArgsException&){ wn=true; } catch(FunctionNotFoundException&){ nf=true; } }
  VF_ASSERT(nf==(fn==6)&&wn==(fn<6&&na!=NP[fn]),"unknown functions and wrong numbers of arguments are reported, nothing else is"); if(nf||wn){ VF_ASSERT(calls==0,"the function is not called"); vf_reach(nf?"unknown":"count"); return; }
  VF_ASSERT(calls>0,"the function has been evaluated after reading the deck"); checkArgs(fn,arg);
  pVariable x=vs.getRootBlock()->getVariable("x"); VF_ASSERT(x->isConstant()==cst,"a function of constants is a constant unless it must always be re-evaluated");
  ValueVariant v=x->getValue(); if(fn==1) VF_EQ(boost::get<int>(v),ai(arg[0])-3,"result"); else if(fn==5) VF_EQ(boost::get<int>(v),2*ai(arg[0])+ai(arg[1]),"result"); else if(fn==2) VF_EQD(boost::get<double>(v),ad(arg[1]),"result"); else if(fn==3) VF_EQD(boost::get<double>(v),ad(arg[0]),"result"); else if(fn==4) VF_ASSERT(boost::get<std::string>(v)==as(arg[0])+"!","result"); else VF_ASSERT(boost::get<int>(v)==5,"result");
  // re-evaluation with other parameter values
  calls=0; if(!str){ I_=vf_int("i'",-1000,1000); F_=vf_double("f'"); vf_assume(F_>-1e6&&F_<1e6); } else I_=44; { DependencyMap dm(vs.getRootBlock()); dm.updateAll(); } VF_ASSERT((calls>0)==!cst,"only calls that can change are evaluated again"); if(calls) checkArgs(fn,arg);
  vf_reach("value");
}
#endif
