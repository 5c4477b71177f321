// C16: value of a deck expression for every value of the run-time parameters a,b (int) and f,g (float).
#include "deck.h"
#include <cmath>
#ifndef TEMPLATE
#define TEMPLATE "oxoxo"
#endif
#ifndef KINDS
#define KINDS "abfg"     // operands: a,b int parameters; f,g float parameters; i,j int literals; k float literal; s string literal; t string parameter
#endif
#ifndef OPS
#define OPS "+-*/^"
#endif
static int A,B; static double F,G; static std::string T;
struct Val { int type; int i; double d; std::string s; bool err; };   // 0 int 1 float 2 string
static Val mk(int i){ Val v; v.type=0; v.i=i; v.d=0; v.err=false; return v; }
static Val mk(double d){ Val v; v.type=1; v.i=0; v.d=d; v.err=false; return v; }
static Val mk(const std::string&s){ Val v; v.type=2; v.i=0; v.d=0; v.s=s; v.err=false; return v; }
static std::string str(const Val&v){ return v.type==0?boost::lexical_cast<std::string>(v.i):v.type==1?boost::lexical_cast<std::string>(v.d):v.s; }
static Val apply(char op,const Val&l,const Val&r){
  Val v;
  if(l.type==2||r.type==2) v=mk(str(l)+str(r));          // only + is generated with strings
  else if(l.type==1||r.type==1){ double x=l.type?l.d:(double)l.i, y=r.type?r.d:(double)r.i; v=mk(op=='+'?x+y:op=='-'?x-y:op=='*'?x*y:op=='/'?x/y:pow(x,y)); }
  else { int x=l.i,y=r.i; if(op=='/'){ if(y==0){ v=mk(0); v.err=true; } else v=mk(x/y); } else v=mk(op=='+'?x+y:op=='-'?x-y:op=='*'?x*y:(int)pow(x,y)); }
  v.err=v.err||l.err||r.err; return v;
}
static Val neg(const Val&l){ Val v=l; if(l.type==0) v.i=-l.i; else v.d=-l.d; return v; }
// reference evaluator: conventional precedence, left to right, exponent binds tighter than a leading sign
static std::string tk; static size_t at; static bool syn;
static Val expr();
static Val atom(){ if(at>=tk.size()){ syn=true; return mk(0); } char c=tk[at++];
  switch(c){ case '(': { Val v=expr(); if(at<tk.size()&&tk[at]==')') ++at; else syn=true; return v; }
    case 'a': return mk(A); case 'b': return mk(B); case 'f': return mk(F); case 'g': return mk(G); case 'i': return mk(2); case 'j': return mk(7); case 'k': return mk(2.5); case 's': return mk(std::string("s_")); case 't': return mk(T); }
  syn=true; return mk(0); }
static Val expo(){ Val v=atom(); if(!syn&&at<tk.size()&&tk[at]=='^'){ ++at; char sg='+'; if(at<tk.size()&&(tk[at]=='+'||tk[at]=='-')) sg=tk[at++]; Val w=atom(); if(sg=='-') w=neg(w); v=apply('^',v,w); if(at<tk.size()&&tk[at]=='^') syn=true; } return v; }
static Val term(){ Val v=expo(); while(!syn&&at<tk.size()&&(tk[at]=='*'||tk[at]=='/')){ char o=tk[at++]; v=apply(o,v,expo()); } return v; }
static Val expr(){ char sg='+'; if(at<tk.size()&&(tk[at]=='+'||tk[at]=='-')) sg=tk[at++]; Val v=term(); if(sg=='-') v=neg(v); while(!syn&&at<tk.size()&&(tk[at]=='+'||tk[at]=='-')){ char o=tk[at++]; v=apply(o,v,term()); } return v; }
static uint64_t bits(double d){ uint64_t u; __builtin_memcpy(&u,&d,8); return u; }
static void check(const pVariable&x,const Val&want,int ty){
  bool threw=false; ValueVariant got; try { got=x->evaluate(); } catch(EvaluationException&){ threw=true; }
  VF_ASSERT(threw==want.err,"an integer division by zero is reported, nothing else is"); if(threw){ vf_reach("zero"); return; }
  VF_ASSERT(got.which()==ty,"the value has the declared type");
  if(ty==0){ VF_EQ(boost::get<int>(got),want.i,"integer value of the expression"); }
  else if(ty==1){ double g=boost::get<double>(got); VF_EQD(g,want.d,"float value of the expression"); }
  else VF_ASSERT(boost::get<std::string>(got)==want.s,"string value of the expression");
}
extern "C" void vf_main(){
  const char*kinds=KINDS; const char*ops=OPS; int nk=0,no=0; while(kinds[nk]) ++nk; while(ops[no]) ++no;
  tk.clear(); std::string text;
  for(const char*t=TEMPLATE;*t;++t){
    if(*t=='o'){ char k=kinds[vf_choose("operand",0,nk-1)]; tk.push_back(k); switch(k){ case 'i': text+="2"; break; case 'j': text+="7"; break; case 'k': text+="2.5"; break; case 's': text+="'s_'"; break; default: text.push_back(k); } }
    else if(*t=='x'){ char o=ops[vf_choose("operator",0,no-1)]; tk.push_back(o); if(o=='^'&&0) text.push_back(' '); text.push_back(o); }
    else if(*t=='S'){ int s=vf_choose("sign",0,2); if(s){ char c=s==1?'-':'+'; tk.push_back(c); text.push_back(c); } }
    else { tk.push_back(*t); text.push_back(*t); }
    if(vf_is_symbolic_run()>=0 && (*t=='x')) text.push_back(' ');
  }
#ifdef STRPAR
  A=STRPAR; B=-41; F=0.5; G=-2.0;
#else
  A=vf_int("a",-100,100); B=vf_int("b",-100,100); F=vf_double("f"); G=vf_double("g");
#endif
  T="t t"; at=0; syn=false; Val want=expr(); if(at!=tk.size()) syn=true;
  VariableStorage vs("root","root"); FunctionRegistry fr; BlockClasses bc(false); BlockParameters bp; bp.setContext(vs.getRootBlock());
  bp.addParameter("a",&A,BlockParameters::readonly); bp.addParameter("b",&B,BlockParameters::readonly);
  bp.addParameter("f",&F,BlockParameters::readonly); bp.addParameter("g",&G,BlockParameters::readonly); bp.addParameter("t",&T,BlockParameters::readonly);
  Parser p(vs,fr,bc); bool constant=true; for(char c:tk) if(c=='a'||c=='b'||c=='f'||c=='g'||c=='t') constant=false;
  std::string deck=std::string(want.type==0?"int":want.type==1?"float":"string")+" x = "+text+";"; DeckStream ds(deck);
  bool perr=false,everr=false; try { p.parse(ds.get()); } catch(ParserError&){ perr=true; } catch(EvaluationException&){ everr=true; }
  VF_ASSERT(perr==syn,"exactly the ill-formed expressions are syntax errors"); if(syn){ vf_reach("syntax"); return; }
  VF_ASSERT(everr==(want.err&&constant),"a constant division by zero is reported while parsing"); if(everr) return;
  pVariable x=vs.getRootBlock()->getVariable("x");
  check(x,want,want.type); vf_reach(want.type==0?"int":want.type==1?"float":"string");
#ifndef STRPAR
  // a second set of parameter values: the expression follows the parameters
  A=vf_int("a2",-100,100); F=vf_double("f2"); { DependencyMap dm(vs.getRootBlock()); dm.updateAll(); } at=0; syn=false; Val w2=expr(); check(x,constant?want:w2,want.type);
#endif
}
