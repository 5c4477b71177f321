// C31: decks that break the grammar or refer to something that is not there are rejected at the place of the mistake.
// Every token of a deck stands on a line of its own, so the reported line identifies the token.
#include "deck.h"
#include "util/exceptions.hpp"
static int A_=1,P_=2; static int fa(int x){ return x+1; }
struct Outcome { int kind; int line; bool file; };   // 0 accepted, 1 syntax error, 2 end of file, 3 other error with a place, 4 other error
static Outcome run(const std::string&text,bool restrict_=false){ VariableStorage vs("root","root"); FunctionRegistry fr; fr.registerFunction("a",fa); BlockClasses bc(restrict_); if(restrict_){ bc.registerBlock("root"); bc("root").addChildren("K"); bc.registerBlock("K"); }
  BlockParameters bp; bp.setContext(vs.getRootBlock()); bp.addParameter("a",&A_); bp.addParameter("p",&P_,BlockParameters::readonly); Parser p(vs,fr,bc); DeckStream ds(text); Outcome o={0,0,true};
  try { p.parse(ds.get(),"some.deck"); } catch(ParserError&e){ o.kind=e.message=="Syntax Error"?1:e.message=="Unexpected end of file"?2:3; o.line=e.getLine(); o.file=e.getFilename()=="some.deck"; } catch(SchnekException&){ o.kind=4; } catch(std::exception&){ o.kind=4; }
  return o; }
#if WHAT==0
// the grammar as an automaton with a stack of brackets
enum { EQ,LB,RB,LP,RP,SC,CM,PL,MI,TI,DI,EX,DINT,DFLT,DSTR,ID,LI,LF,LS,NK };
static const char*LEX[NK]={"=","{","}","(",")",";",",","+","-","*","/","^","int","float","string","a","1","1.5","'s'"};
enum { S,I1,I2,D1,D2,E0,T0,X0,X1,V1,F0,O };
struct Rec { int st; bool decl,expo; int n; bool call[16],saved[16]; bool any; Rec():st(S),decl(false),expo(false),n(0),any(false){}
  bool operand(int k){ switch(k){ case LP: call[n]=false; saved[n++]=expo; st=E0; return true; case ID: st=V1; return true; case LI: case LF: case LS: st=O; return true; } return false; }
  bool close(){ if(!n) return false; expo=saved[--n]; st=O; return true; }
  bool after(int k){ switch(k){ case PL: case MI: case TI: case DI: st=T0; expo=false; return true; case EX: if(expo) return false; st=X0; expo=true; return true; case RP: return close(); case CM: if(n&&call[n-1]){ st=E0; expo=false; return true; } if(!n&&decl){ st=D1; return true; } return false; case SC: if(n) return false; st=S; return true; } return false; }
  bool step(int k){ any=true; switch(st){
    case S: if(k==DINT||k==DFLT||k==DSTR){ st=D1; decl=true; return true; } if(k==ID){ st=I1; decl=false; return true; } return k==RB;
    case I1: if(k==EQ){ st=E0; expo=false; return true; } if(k==ID){ st=I2; return true; } if(k==LB){ st=S; return true; } return false;
    case I2: if(k==LB){ st=S; return true; } return false;
    case D1: if(k==ID){ st=D2; return true; } return false;
    case D2: if(k==EQ){ st=E0; expo=false; return true; } if(k==CM){ st=D1; return true; } if(k==SC){ st=S; return true; } return false;
    case E0: expo=false; if(k==PL||k==MI){ st=T0; return true; } return operand(k);
    case T0: return operand(k);
    case X0: if(k==PL||k==MI){ st=X1; return true; } return operand(k);
    case X1: return operand(k);
    case V1: if(k==LP){ call[n]=true; saved[n++]=expo; st=F0; return true; } return after(k);
    case F0: if(k==RP) return close(); expo=false; if(k==PL||k==MI){ st=T0; return true; } return operand(k);
    case O: return after(k); } return false; }
};
static const int PRE[][10]={ {NK},{ID,EQ,NK},{ID,EQ,LI,NK},{ID,EQ,ID,NK},{ID,EQ,LP,LI,NK},{ID,EQ,ID,LP,NK},{ID,EQ,ID,LP,LI,NK},{ID,EQ,LI,EX,NK},{ID,EQ,LI,EX,LI,NK},{ID,EQ,LI,EX,MI,LI,NK},
  {DINT,ID,EQ,LI,NK},{DFLT,ID,EQ,LF,CM,NK},{DSTR,ID,NK},{ID,ID,NK},{ID,LB,NK},{ID,EQ,LI,SC,NK},{ID,ID,LB,ID,EQ,LI,SC,RB,NK},{ID,EQ,LP,LI,EX,LI,RP,NK},{ID,EQ,MI,LI,TI,NK},{ID,EQ,LI,EX,ID,LP,LI,RP,NK},{ID,EQ,ID,LP,LI,CM,NK},{ID,EQ,LP,LP,NK} };
extern "C" void vf_main(){
  int pre=vf_choose("start",LO_,HI_); Rec r; std::string text; int n=0; bool bad=false; int fresh=0;
  auto put=[&](int k){ if(k==ID&&(r.st==D1||r.st==I2)){ text+="v"; text.push_back(char('0'+fresh++)); } else text+=LEX[k]; text+="\n"; ++n; bad=!r.step(k); };
  auto one=[&](char c){ vf_assume((c>='0'&&c<='9')||c=='a'||c=='='||c=='{'||c=='}'||c=='('||c==')'||c==';'||c==','||c=='+'||c=='-'||c=='*'||c=='/'||c=='^'); if(c=='a'){ put(ID); return; } text.push_back(c); text+="\n"; ++n;
    int k=LI; for(int i=0;i<=EX;++i) if(c==LEX[i][0]) k=i; bad=!r.step(k); };
  for(const int*q=PRE[pre];*q!=NK;++q) put(*q);
  VF_ASSERT(!bad,"the starting tokens are well formed");
  for(int f=0;f<FREE;++f){ if(vf_choose("more",0,1)==0) break; int w=vf_choose("token",0,5); if(w<5){ static const int W[5]={DINT,DFLT,DSTR,LF,LS}; put(W[w]); } else one((char)vf_int("character",33,126)); if(bad) break; }
  if(bad&&vf_choose("tail",0,1)) { text+=LEX[SC]; text+="\n"; }
  Outcome o=run(text); VF_ASSERT(o.file,"an error names the file");
  if(bad){ VF_ASSERT(o.kind!=0&&o.kind!=2,"a deck that breaks the grammar is rejected"); if(o.kind==1){ vf_reach("syntax"); VF_ASSERT(o.line==n,"a syntax error names the line of the first token that breaks the grammar"); } else if(o.kind==3) VF_ASSERT(o.line>=1&&o.line<=n,"an error before the syntax error names its line"); return; }
  bool complete=r.st==S&&r.any; VF_ASSERT(o.kind!=1,"a deck that follows the grammar has no syntax error");
  if(!complete){ VF_ASSERT(o.kind!=0,"an incomplete deck is rejected"); if(o.kind==2){ vf_reach("incomplete"); VF_ASSERT(o.line==(n?n:1),"an incomplete deck is reported at its last line"); } return; }
  VF_ASSERT(o.kind!=2,"a complete deck is not incomplete"); if(o.kind==3) VF_ASSERT(o.line>=1&&o.line<=n,"an error names its line"); if(o.kind==0) vf_reach("accepted");
}
#else
// mistakes other than syntax errors, in a deck of otherwise good statements
struct Deck { std::string t; int line; Deck():line(1){} void raw(const char*s){ for(;*s;++s){ t.push_back(*s); if(*s=='\n') ++line; } } void tok(const std::string&s){ t+=s; t+="\n"; ++line; } };
extern "C" void vf_main(){
  static const char*FILL[]={"","// nothing here\n","/* two\nlines */ ","string NAME = 'text';\n","\n\n   \n","int NAME =\n #\n;"}; char dig=(char)vf_int("digit",'0','9'), let=(char)vf_int("letter",'a','z'); std::string zz("z"); zz.push_back(let);
  Deck d; int cas=vf_choose("mistake",0,10); bool restrict_=cas==7;
  auto fill=[&](const char*nm){ int f=vf_choose("filler",0,5); for(const char*s=FILL[f];*s;){ if(s[0]=='N'&&s[1]=='A'&&s[2]=='M'&&s[3]=='E'){ d.t+=nm; s+=4; } else if(*s=='#'){ d.t.push_back(dig); ++s; } else { char c[2]={*s++,0}; d.raw(c); } } };
  fill("g1"); bool in=!restrict_&&vf_choose("inside a block",0,1); if(in){ d.raw("K k {\n"); } fill("g2");
  int first=d.line,at=0;
  switch(cas){
    case 0: d.tok("a"); d.tok("="); d.tok(std::string(1,dig)); d.tok("+"); at=d.line; d.tok(zz); d.tok(";"); break;
    case 1: at=d.line; d.tok(zz); d.tok("="); d.tok(std::string(1,dig)); d.tok(";"); break;
    case 2: d.tok("int"); d.tok("q"); d.tok("="); d.tok(std::string(1,dig)); d.tok(";"); first=d.line; d.tok("int"); at=d.line; d.tok("q"); d.tok("="); d.tok("2"); d.tok(";"); break;
    case 3: at=d.line; d.tok("p"); d.tok("="); d.tok(std::string(1,dig)); d.tok(";"); break;
    case 4: d.tok("int"); d.tok("q"); d.tok("="); d.tok("1.5"); d.tok(";"); break;
    case 5: d.tok("M"); d.tok("m"); d.tok("{"); d.tok("}"); first=d.line; d.tok("N"); at=d.line; d.tok("m"); d.tok("{"); d.tok("}"); break;
    case 6: if(in){ d.tok("}"); } first=at=d.line; d.tok("}"); break;
    case 7: d.tok("M"); d.tok("m"); d.tok("{"); d.tok("}"); break;
    case 8: d.tok("a"); d.tok("="); at=d.line; d.tok("99999999999"); d.tok(";"); break;
    case 9: d.tok("int"); d.tok("q"); d.tok("="); d.tok(std::string(1,dig)); d.tok(","); d.tok("q"); d.tok("="); d.tok("2"); d.tok(";"); break;
    case 10: d.tok("int"); d.tok("q"); d.tok(","); d.tok("w"); d.tok(";"); break;
  }
  int last=d.line-1; d.raw("a = 3;\n"); if(in&&cas!=6) d.raw("}\n");
  Outcome o=run(d.t,restrict_); VF_ASSERT(o.kind==3,"a deck that refers to something that is not there, or defines it twice, is rejected"); VF_ASSERT(o.file,"an error names the file");
  VF_ASSERT(o.line>=first&&o.line<=last,"an error is reported in the statement that causes it"); if(at) VF_ASSERT(o.line==at,"an error is reported where the name is that causes it"); vf_reach("reported");
}
#endif
