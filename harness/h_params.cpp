// C21: block parameters.  KIND 0 scalars through a deck, 1 arrays, 2 groups.
#include "deck.h"
#ifndef KIND
#define KIND 0
#endif
#if KIND==0
// Parameters a (int), b (float), c (string): each required, with default, read-only, read-only with default or constant; assigned in the deck or not
static int a_; static double b_; static std::string c_; static int q_;
extern "C" void vf_main(){
  q_=vf_int("q",-1000,1000); int ia=vf_int("a before",-1000,1000), da=vf_int("a default",-1000,1000); double fb=vf_double("b before"),db=vf_double("b default"); a_=ia; b_=fb; c_="before";
  int ka=vf_choose("a kind",0,4), kb=vf_choose("b kind",0,4), kc=vf_choose("c kind",0,4); int aa=vf_choose("a assigned",0,2), ab=vf_choose("b assigned",0,2), ac=vf_choose("c assigned",0,1);
  VariableStorage vs("root","root"); FunctionRegistry fr; BlockClasses bc(false); BlockParameters bp; bp.setContext(vs.getRootBlock());
  { BlockParameters ext; ext.setContext(vs.getRootBlock()); ext.addParameter("q",&q_,BlockParameters::readonly); }
  pParameter pa,pb,pc;
  switch(ka){ case 0: pa=bp.addParameter("a",&a_); break; case 1: pa=bp.addParameter("a",&a_,da); break; case 2: pa=bp.addParameter("a",&a_,BlockParameters::readonly); break; case 3: pa=bp.addParameter("a",&a_,da,BlockParameters::readonly); break; default: pa=bp.addConstant("a",da); }
  switch(kb){ case 0: pb=bp.addParameter("b",&b_); break; case 1: pb=bp.addParameter("b",&b_,db); break; case 2: pb=bp.addParameter("b",&b_,BlockParameters::readonly); break; case 3: pb=bp.addParameter("b",&b_,db,BlockParameters::readonly); break; default: pb=bp.addConstant("b",db); }
  std::string dc("def"); switch(kc){ case 0: pc=bp.addParameter("c",&c_); break; case 1: pc=bp.addParameter("c",&c_,dc); break; case 2: pc=bp.addParameter("c",&c_,BlockParameters::readonly); break; case 3: pc=bp.addParameter("c",&c_,dc,BlockParameters::readonly); break; default: pc=bp.addConstant("c",dc); }
  VF_ASSERT(a_==(ka==3?da:ia),"registering a parameter only writes the variable of a read-only parameter with default"); VF_EQD(b_,kb==3?db:fb,"registering a parameter only writes the variable of a read-only parameter with default");
  bool ini=ka!=0; VF_ASSERT(pa->canEvaluate()==ini&&pb->canEvaluate()==(kb!=0)&&pc->canEvaluate()==(kc!=0),"only required parameters lack a value before the deck is read");
  std::string text="int k = 1; "; if(aa) text+=aa==1?"a = 12;":"a = q*2+1;"; if(ab) text+=ab==1?"b = 0.5;":"b = q;"; if(ac) text+="c = 'text';";
  bool err=(aa&&ka>=2)||(ab&&kb>=2)||(ac&&kc>=2), perr=false; { Parser p(vs,fr,bc); DeckStream ds(text); try { p.parse(ds.get()); } catch(ParserError&){ perr=true; } }
  VF_ASSERT(perr==err,"exactly the assignments to read-only parameters and constants are errors"); if(perr){ vf_reach("readonly"); return; }
  bool miss=(ka==0&&!aa)||(kb==0&&!ab)||(kc==0&&!ac), th=false; std::string nm; try { bp.evaluate(); } catch(VariableNotInitialisedException&e){ th=true; nm=e.getVarName(); }
  if(th) VF_ASSERT((nm=="a"&&ka==0&&!aa)||(nm=="b"&&kb==0&&!ab)||(nm=="c"&&kc==0&&!ac),"a missing parameter is reported by its name");
  VF_ASSERT(th==miss,"required parameters that were not given are reported, nothing else is"); if(th){ vf_reach("missing"); return; }
  int wa=aa==1?12:aa==2?2*q_+1:ka==1||ka==3?da:ia; double wb=ab==1?0.5:ab==2?(double)q_:kb==1||kb==3?db:fb; std::string wc=ac?"text":kc==1||kc==3?"def":"before";
  VF_EQ(a_,wa,"int parameter: assigned value, default, or unchanged"); VF_EQD(b_,wb,"float parameter: assigned value, default, or unchanged"); VF_ASSERT(c_==wc,"string parameter: assigned value, default, or unchanged");
  // the variables seen by the deck
  pVariable va=vs.getRootBlock()->getVariable("a"); VF_ASSERT(va==pa->getVariable()&&va->isReadOnly()==(ka>=2)&&va->isInitialised(),"the variable of the parameter"); VF_EQ(boost::get<int>(va->evaluate()),ka==4?da:wa,"deck expressions see the value of the parameter");
  // read-only parameters follow the program variable, others are re-read on update
  int na=vf_int("a later",-1000,1000); a_=na; if(ka==2||ka==3) VF_EQ(boost::get<int>(va->evaluate()),na,"a read-only parameter follows the program"); 
  q_=vf_int("q later",-1000,1000); { DependencyMap dm(vs.getRootBlock()); dm.updateAll(); } pa->update(); pb->update();
  VF_EQ(a_,ka>=2?na:aa==1?12:aa==2?2*q_+1:da,"update re-reads the expression"); VF_EQD(b_,kb>=2?wb:ab==1?0.5:ab==2?(double)q_:db,"update re-reads the expression");
  vf_reach("ok");
}
#elif KIND==1
#ifndef RANK
#define RANK 3
#endif
extern "C" void vf_main(){
  int form=vf_choose("form",0,5); Array<int,RANK> v,dv; Array<double,RANK> w; for(int i=0;i<RANK;++i){ v[i]=vf_int("v",-1000,1000); dv[i]=vf_int("default",-1000,1000); w[i]=vf_double("w"); } Array<int,RANK> before(v); Array<double,RANK> wbefore(w); int d1=vf_int("single",-1000,1000); double f1=vf_double("fsingle");
  VariableStorage vs("root","root"); BlockParameters bp; bp.setContext(vs.getRootBlock()); Array<pParameter,RANK> pv,pw; BlockParameters::Permissions perm=form%2?BlockParameters::readonly:BlockParameters::readwrite; std::string ext=vf_choose("extension",0,1)?"xyzuvw":"0123456789"; bool std_=ext[0]=='x';
  switch(form/2){ case 0: pv=std_?bp.addArrayParameter("v",v,perm):bp.addArrayParameter("v",v,perm,ext); pw=std_?bp.addArrayParameter("w",w,perm):bp.addArrayParameter("w",w,perm,ext); break; case 1: pv=std_?bp.addArrayParameter("v",v,dv,perm):bp.addArrayParameter("v",v,dv,perm,ext); pw=bp.addArrayParameter("w",w,f1,perm,ext); break; default: pv=std_?bp.addArrayParameter("v",v,d1,perm):bp.addArrayParameter("v",v,d1,perm,ext); pw=bp.addArrayParameter("w",w,wbefore,perm,ext); }
  bool ro=form%2; for(int i=0;i<RANK;++i){ VF_EQ(v[i],ro&&form/2==1?dv[i]:ro&&form/2==2?d1:before[i],"only read-only defaults are written at once"); std::string n="v"; n.push_back(ext[i]); VF_ASSERT(vs.getRootBlock()->exists(n)&&vs.getRootBlock()->getVariable(n)==pv[i]->getVariable(),"each element has a variable named after its extension"); VF_ASSERT(pv[i]->getVariable()->isReadOnly()==ro,"permissions apply to each element"); }
  VF_ASSERT((int)vs.getRootBlock()->getVariables().size()==2*RANK,"one variable per element");
  int set=vf_choose("set",-1,RANK-1), val=vf_int("value",-1000,1000); if(set>=0&&!ro) *pv[set]->getVariable()=Variable(val);
  bool th=false; try { bp.evaluate(); } catch(VariableNotInitialisedException&){ th=true; } bool miss=form==0; VF_ASSERT(th==miss,"missing elements are reported"); if(th){ if(RANK==1&&0) vf_reach("x"); vf_reach("missing"); return; }
  for(int i=0;i<RANK;++i){ int e=!ro&&i==set?val:form/2==1?dv[i]:form/2==2?d1:before[i]; VF_EQ(v[i],e,"each element has its own value"); VF_EQD(w[i],form/2==1?f1:wbefore[i],"each element has its own value"); if(ro) VF_EQ(boost::get<int>(pv[i]->getVariable()->evaluate()),v[i],"variable follows the element"); }
  ParametersGroup g; g.addArray(pv); for(int i=0;i<RANK;++i) VF_ASSERT(g.isElement(pv[i])&&!g.isElement(pw[i]),"array parameters are added to a group"); vf_reach("ok");
}
#else
extern "C" void vf_main(){
  int x[4]; VariableStorage vs("root","root"); BlockParameters bp; bp.setContext(vs.getRootBlock()); pParameter p[4]; for(int i=0;i<4;++i){ std::string n="x"; n.push_back(char('0'+i)); p[i]=bp.addParameter(n,&x[i],i); }
  ParametersGroup g; int in=vf_choose("members",0,15), ask=vf_choose("asked",0,15); bool byVar=vf_choose("by variable",0,1);
  for(int i=0;i<4;++i) if(in>>i&1){ if(byVar) g.add(p[i]->getVariable()); else g.add(p[i]); if(vf_choose("twice",0,1)) g.add(p[i]); }
  for(int i=0;i<4;++i) VF_ASSERT(g.isElement(p[i])==(in>>i&1)&&g.isElement(p[i]->getVariable())==(in>>i&1),"the group contains exactly what was added");
  std::set<long> ids; for(int i=0;i<4;++i) if(ask>>i&1) ids.insert(p[i]->getVariable()->getId());
  bool all=g.hasElements(ids); VF_ASSERT(all==((ask&~in)==0),"all ids are elements of the group"); for(int i=0;i<4;++i) VF_ASSERT((ids.count(p[i]->getVariable()->getId())>0)==((ask&~in)>>i&1),"the ids that are not elements remain");
  vf_reach("ok");
}
#endif
