// C18: every deck made from a template of block structure and statement slots, against a reference interpreter.
//   '?' statement slot   'N' block (name chosen)   '}' end of block
#include "deck.h"
#ifndef TEMPLATE
#define TEMPLATE "?N?}?"
#endif
#ifndef SLOTS
#define SLOTS "0123456789"
#endif
static int P_;
struct Def { bool isConst; int k; int refScope,refVar; int coef; };   // value = k + coef*(p | other variable | nothing)
struct Scope { const char*name; int parent; bool has[2]; Def def[2]; };
static Scope sc[8]; static int nsc;
static const char*VN[2]={"x","y"}; static const char*BN[3]={"b","c","x"};
static int child(int s,char n){ for(int i=1;i<nsc;++i) if(sc[i].parent==s&&sc[i].name[0]==n) return i; return -1; }
// resolves "v" or "b:v" seen from scope s; -1 if there is none
static bool resolve(int s,char blk,int v,int&rs){ for(;s>=0;s=sc[s].parent){ if(blk){ int c=child(s,blk); if(c>=0){ if(sc[c].has[v]){ rs=c; return true; } return false; } } else if(sc[s].has[v]){ rs=s; return true; } } return false; }
static bool constant(int s,int v){ return sc[s].def[v].isConst; }
static int onPath[8][2]; static bool cyc;
static int value(int s,int v,int p){ Def&d=sc[s].def[v]; if(d.isConst) return d.k; if(d.refScope<0) return d.k+d.coef*p; if(onPath[s][v]){ cyc=true; return 0; } onPath[s][v]=1; int r=d.k+d.coef*value(d.refScope,d.refVar,p); onPath[s][v]=0; return r; }
static Def useP(int k){ Def d; d.isConst=false; d.k=k; d.refScope=-1; d.refVar=0; d.coef=2; return d; }
static Def useK(int k){ Def d; d.isConst=true; d.k=k; d.refScope=-1; d.refVar=0; d.coef=0; return d; }
static Def useV(int k,int s,int v){ if(constant(s,v)) return useK(k+3*sc[s].def[v].k); Def d; d.isConst=false; d.k=k; d.refScope=s; d.refVar=v; d.coef=3; return d; }
extern "C" void vf_main(){
  P_=vf_int("p",-1000,1000); std::string text; int cur=0,n=0; bool err=false; nsc=1; sc[0].name="root"; sc[0].parent=-1; sc[0].has[0]=sc[0].has[1]=false;
  const char*slots=SLOTS; int ns=0; while(slots[ns]) ++ns;
  for(const char*t=TEMPLATE;*t;++t){ ++n; std::string num; num.push_back(char('0'+n));
    if(*t=='N'){ int w=vf_choose("block",0,1); const char*nm=BN[w]; if(n&1) text+="K "; text+=nm; text+=" {\n"; if(err) continue; if(child(cur,nm[0])>=0){ err=true; continue; } Scope&s=sc[nsc]; s.name=nm; s.parent=cur; s.has[0]=s.has[1]=false; cur=nsc++; }
    else if(*t=='}'){ text+="}\n"; if(err) continue; if(cur==0){ err=true; continue; } cur=sc[cur].parent; }
    else { int rs=0,ts=0; char what=slots[vf_choose("statement",0,ns-1)]; 
      switch(what){
        case '0': break;
        case '1': text+="int x = p*2+"+num+";\n"; if(err) break; if(sc[cur].has[0]) err=true; else { sc[cur].has[0]=true; sc[cur].def[0]=useP(n); } break;
        case '2': text+="x = p*2+"+num+";\n"; if(err) break; if(!resolve(cur,0,0,ts)) err=true; else sc[ts].def[0]=useP(n); break;
        case '3': text+="int y = "+num+" + x*3;\n"; if(err) break; if(!resolve(cur,0,0,rs)||sc[cur].has[1]) err=true; else { sc[cur].has[1]=true; sc[cur].def[1]=useV(n,rs,0); } break;
        case '4': text+="y = 3*x+"+num+";\n"; if(err) break; if(!resolve(cur,0,0,rs)||!resolve(cur,0,1,ts)) err=true; else sc[ts].def[1]=useV(n,rs,0); break;
        case '5': text+="int y = b:x*3+"+num+";\n"; if(err) break; if(!resolve(cur,'b',0,rs)||sc[cur].has[1]) err=true; else { sc[cur].has[1]=true; sc[cur].def[1]=useV(n,rs,0); } break;
        case '6': text+="b:x = "+num+";\n"; if(err) break; if(!resolve(cur,'b',0,ts)) err=true; else sc[ts].def[0]=useK(n); break;
        case '7': text+="int x = "+num+"; // constant\n"; if(err) break; if(sc[cur].has[0]) err=true; else { sc[cur].has[0]=true; sc[cur].def[0]=useK(n); } break;
        case '8': text+="x = 3*y + "+num+";\n"; if(err) break; if(!resolve(cur,0,1,rs)||!resolve(cur,0,0,ts)) err=true; else sc[ts].def[0]=useV(n,rs,1); break;
        case '9': text+="int x = p*2+"+num+", y = "+num+";\n"; if(err) break; if(sc[cur].has[0]||sc[cur].has[1]) err=true; else { sc[cur].has[0]=sc[cur].has[1]=true; sc[cur].def[0]=useP(n); sc[cur].def[1]=useK(n); } break;
        case 'c': text+="int y = c:b:x*3+"+num+";\n"; if(err) break; { int s=cur,f=-1; for(;s>=0;s=sc[s].parent){ f=child(s,'c'); if(f>=0) break; } if(f>=0) f=child(f,'b'); if(f<0||!sc[f].has[0]||sc[cur].has[1]) err=true; else { sc[cur].has[1]=true; sc[cur].def[1]=useV(n,f,0); } } break;
        case 'r': text+="p = 1;\n"; err=true; break;
        case 'u': text+="int y = q + x;\n"; err=true; break;
        case 'd': text+="int x = 1, x = p;\n"; err=true; break;
        case 'i': text+="int y = 1, x = y;\n"; if(err) break; err=sc[cur].has[0]||sc[cur].has[1]||!resolve(cur,0,1,rs); if(!err){ Def d=sc[rs].def[1]; sc[cur].has[1]=true; sc[cur].has[0]=true; if(d.isConst) sc[cur].def[0]=useK(d.k); else { sc[cur].def[0].isConst=false; sc[cur].def[0].k=0; sc[cur].def[0].coef=1; sc[cur].def[0].refScope=rs; sc[cur].def[0].refVar=1; } sc[cur].def[1]=useK(1); } break;
      } }
  }
  if(!err) for(int s=0;s<nsc;++s) for(int v=0;v<2;++v) if(sc[s].has[v]){ cyc=false; value(s,v,0); if(cyc) break; } if(err) cyc=false;
  if(text.empty()) return;
  VariableStorage vs("root","root"); FunctionRegistry fr; BlockClasses bc(false); BlockParameters bp; bp.setContext(vs.getRootBlock()); bp.addParameter("p",&P_,BlockParameters::readonly);
  Parser p(vs,fr,bc); DeckStream ds(text); bool perr=false,everr=false; try { p.parse(ds.get()); } catch(ParserError&){ perr=true; } catch(EvaluationException&){ everr=true; }
  VF_ASSERT(perr==err,"redeclarations, undeclared or read-only names, duplicate blocks and unbalanced braces are errors, nothing else is"); if(perr){ vf_reach("error"); return; }
  VF_ASSERT(everr==cyc,"circular definitions are reported"); if(everr){ vf_reach("circular"); return; }
  for(int round=0;round<2;++round){
    if(round){ P_=vf_int("p'",-1000,1000); DependencyMap dm(vs.getRootBlock()); dm.updateAll(); }
    for(int s=0;s<nsc;++s){
      std::string path; for(int k=s;k>0;k=sc[k].parent) path=std::string(sc[k].name)+":"+path;
      pBlockVariables here=vs.getRootBlock(); { int chain[8],m=0; for(int k=s;k>0;k=sc[k].parent) chain[m++]=k; while(m--){ pBlockVariables nx; for(pBlockVariables q:here->getChildren()) if(q->getBlockName()==sc[chain[m]].name) nx=q; VF_ASSERT((bool)nx,"the block exists"); here=nx; } }
      int cnt=0; for(int v=0;v<2;++v){
        VF_ASSERT((here->getVariables().count(VN[v])>0)==sc[s].has[v],"exactly the declared variables exist");
        if(round==0){ int rs=0; bool f=resolve(s,0,v,rs); VF_ASSERT(here->exists(VN[v])==f,"a name is visible in its block and the blocks inside it");
          bool f2=resolve(s,'b',v,rs); VF_ASSERT(here->exists(std::string("b:")+VN[v])==f2,"a path is visible where its block is"); bool th=false; try { here->getVariable(std::string("b:")+VN[v]); } catch(VariableNotFoundException&){ th=true; } VF_ASSERT(th!=f2,"looking up a path that is not visible fails"); }
        if(!sc[s].has[v]) continue; ++cnt;
        pVariable var=vs.getRootBlock()->getVariable(path+VN[v]); VF_ASSERT(var==here->getVariables().find(VN[v])->second,"a path from the root denotes the variable of that block");
        VF_EQ(boost::get<int>(var->getValue()),value(s,v,P_),"the variable has the value of its last assignment");
      }
      int kids=0; for(int k=1;k<nsc;++k) if(sc[k].parent==s) ++kids; VF_ASSERT((int)here->getChildren().size()==kids&&(int)here->getVariables().size()==cnt+(s==0),"nothing else exists");
    } }
  vf_reach("ok");
}
