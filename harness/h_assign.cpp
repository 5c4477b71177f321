// C18: types.  Declarations need a value of the declared type; assignments convert to the type of the variable.
#include "deck.h"
static int P_; static double F_; static std::string S_;
struct Ex { const char*text; int type; bool cst; };   // 0 int 1 float 2 string
static const Ex EX[]={ {"p",0,false},{"f",1,false},{"s",2,false},{"7",0,true},{"-2.75",1,true},{"'41'",2,true},{"'2.5'",2,true},{"'abc'",2,true},{"''",2,true},{"p*f",1,false},{"'12'+'3'",2,true},{"-p",0,false} };
static const int NE=sizeof(EX)/sizeof(EX[0]);
static int ival(int e){ return e==0?P_:e==3?7:-P_; }
static double dval(int e){ return e==1?F_:e==4?-2.75:(double)P_*F_; }
static std::string sval(int e){ return e==2?S_:e==5?"41":e==6?"2.5":e==7?"abc":e==8?"":"123"; }
static bool isInt(const std::string&s,int&v){ size_t i=0; bool ng=false; if(i<s.size()&&(s[i]=='-'||s[i]=='+')) ng=s[i++]=='-'; if(i==s.size()) return false; v=0; for(;i<s.size();++i){ if(s[i]<'0'||s[i]>'9') return false; v=v*10+(s[i]-'0'); } if(ng) v=-v; return true; }
static bool isNum(const std::string&s,double&v){ int k; if(isInt(s,k)){ v=k; return true; } if(s=="2.5"){ v=2.5; return true; } return false; }
static const char*TN[3]={"int","float","string"};
static void check(const ValueVariant&g,int ty,int e){ int se=EX[e].type;
  VF_ASSERT(g.which()==ty,"a variable keeps its type");
  if(ty==0){ int w=0; if(se==0) w=ival(e); else if(se==1) w=(int)dval(e); else isInt(sval(e),w); VF_EQ(boost::get<int>(g),w,"integer after conversion"); }
  else if(ty==1){ double w=0; if(se==0) w=(double)ival(e); else if(se==1) w=dval(e); else isNum(sval(e),w); VF_EQD(boost::get<double>(g),w,"float after conversion"); }
  else { std::string w=se==0?boost::lexical_cast<std::string>(ival(e)):se==1?boost::lexical_cast<std::string>(dval(e)):sval(e); VF_ASSERT(boost::get<std::string>(g)==w,"text after conversion"); }
}
extern "C" void vf_main(){
  int ty=vf_choose("type",0,2), e1=vf_choose("first",0,NE-1), e2=vf_choose("second",0,NE);
  if(ty==2||0){ P_=-17; F_=2.5; } else { P_=vf_int("p",-1000000,1000000); F_=vf_double("f"); vf_assume(F_>=-1e3&&F_<=1e3); } S_=vf_choose("text",0,1)?"-5":"5x";
  VariableStorage vs("root","root"); FunctionRegistry fr; BlockClasses bc(false); BlockParameters bp; bp.setContext(vs.getRootBlock());
  bp.addParameter("p",&P_,BlockParameters::readonly); bp.addParameter("f",&F_,BlockParameters::readonly); bp.addParameter("s",&S_,BlockParameters::readonly);
  std::string text=std::string(TN[ty])+" x = "+EX[e1].text+"; "; if(e2<NE){ text+="x = "; text+=EX[e2].text; text+=";"; }
  bool perr=false,everr=false; { Parser p(vs,fr,bc); DeckStream ds(text); try { p.parse(ds.get()); } catch(ParserError&){ perr=true; } catch(TypeCastException&){ everr=true; } }
  bool bad=EX[e1].type!=ty; VF_ASSERT(perr==bad,"a declaration is an error exactly if the value does not have the declared type"); if(perr){ vf_reach("mismatch"); return; }
  int e=e2<NE?e2:e1; bool nocast=false; if(EX[e].type==2&&ty!=2){ int w; double d; nocast=ty==0?!isInt(sval(e),w):!isNum(sval(e),d); }
  if(nocast&&!EX[e].cst&&!everr){ try { vs.getRootBlock()->getVariable("x")->evaluate(); } catch(TypeCastException&){ everr=true; } }   // not a constant: reported when it is evaluated
  VF_ASSERT(everr==nocast,"text that is not a number can not be assigned to a number"); if(everr){ vf_reach("nocast"); return; }
  pVariable x=vs.getRootBlock()->getVariable("x"); check(x->getValue(),ty,e); VF_ASSERT(x->isConstant()==EX[e].cst||EX[e].cst,"a variable that follows parameters is not a constant");
  if(ty!=2){ P_=vf_int("p'",-1000000,1000000); F_=vf_double("f'"); vf_assume(F_>=-1e3&&F_<=1e3); } else { P_=99; F_=-0.5; }
  { DependencyMap dm(vs.getRootBlock()); dm.updateAll(); } check(x->getValue(),ty,e);
  // parameters of a block read the converted value
  vf_reach(TN[ty]);
}
