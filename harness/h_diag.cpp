// C25: diagnostics are written when they are due, to the right file, by the right process
#include "vf.h"
#include "diagnostic/diagnostic.hpp"
#include "variables/block.hpp"
#include "variables/blockparameters.hpp"
#include <string>
using namespace schnek;
#ifndef NAMES
#define NAMES 0
#endif
#ifndef STEPS
#define STEPS 4
#endif
struct Log { int opens=0,closes=0,writes=0; std::string name; bool isopen=false; };
// a diagnostic that records what it is asked to do
template<class Base> struct Rec : public Base {
  Log log; bool single=false;
  void setup(VariableStorage&vs,BlockParameters&bp){ bp.setContext(vs.getRootBlock()); this->initParameters(bp); }
  bool singleOut() override { return single; }
  std::string nameAt(int rank,double t){ return this->parsedFileName(rank,t); }
  void open(const std::string&n) override { VF_ASSERT(!log.isopen,"a file is not opened while it is open"); log.isopen=true; log.opens++; log.name=n; }
  void write() override { VF_ASSERT(log.isopen,"output is only written to an open file"); log.writes++; }
  void close() override { VF_ASSERT(log.isopen,"only open files are closed"); log.isopen=false; log.closes++; }
};
static std::string num(int v){ std::string r; if(v<0){ r.push_back('-'); v=-v; } if(v>=100) r.push_back((char)('0'+v/100)); if(v>=10) r.push_back((char)('0'+v/10%10)); r.push_back((char)('0'+v%10)); return r; }
template<class D> struct Setup { VariableStorage vs; BlockParameters bp; Setup():vs("d","d"){} void str(const char*n,const std::string&v){ *vs.getRootBlock()->getVariable(n)=Variable(v); } void i(const char*n,int v){ *vs.getRootBlock()->getVariable(n)=Variable(v); } void f(const char*n,double v){ *vs.getRootBlock()->getVariable(n)=Variable(v); } };
static const char*FN[]={"out_#p_#t.h5","#t","plain","x#py#t"}; static std::string fileName(int k,int rank,const std::string&t){ switch(k){ case 0: return "out_"+num(rank)+"_"+t+".h5"; case 1: return t; case 2: return "plain"; default: return "x"+num(rank)+"y"+t; } }
struct Master { bool master; int rank; };
static Master who(){ Master m; m.rank=NAMES?vf_choose("rank",0,1)*12:3; m.master=!NAMES||vf_choose("master",0,1)!=0; DiagnosticManager::instance().setMaster(m.master); DiagnosticManager::instance().setRank(m.rank); return m; }
#if MODE==0
// two interval diagnostics, one of them appending
extern "C" void vf_main(){
  Master w=who(); int fn=NAMES?vf_choose("file",0,3):0; int interval[2]; bool app[2]; typedef Rec<IntervalDiagnostic> D; D a,b; D*d[2]={&a,&b}; Setup<D> s[2];
  int t=vf_choose("first",0,2); if(t==2) t=97; DiagnosticManager::instance().setTimeCounter(&t);
  for(int i=0;i<2;++i){ interval[i]=vf_int("interval",1,7); d[i]->setup(s[i].vs,s[i].bp); s[i].str("file",FN[fn]); app[i]=i==1; if(i||vf_choose("append given",0,1)) s[i].i("append",app[i]); s[i].i("interval",interval[i]); s[i].bp.evaluate(); d[i]->single=NAMES&&vf_choose("single",0,1)!=0; VF_EQ(d[i]->getInterval(),interval[i],"the interval given in the deck"); }
  for(int k=0;k<STEPS;++k){
    if(k==STEPS-1&&vf_choose("final",0,1)) t=-1;
    int ow[2]; for(int i=0;i<2;++i) ow[i]=d[i]->log.writes;
    DiagnosticManager::instance().execute();
    for(int i=0;i<2;++i){ bool active=!d[i]->single||w.master; bool due=active&&(t<0||t%interval[i]==0); Log&l=d[i]->log;
      VF_EQ(l.writes-ow[i],due?1:0,"an interval diagnostic writes when the time step is a multiple of its interval, and at the end");
      if(app[i]){ VF_EQ(l.opens,active?1:0,"an appending diagnostic opens its file once"); VF_EQ(l.closes,0,"an appending diagnostic keeps its file open"); if(active) VF_ASSERT(l.name==FN[fn],"name of the appended file"); }
      else { VF_ASSERT(l.opens==l.writes&&l.closes==l.writes,"every output has a file of its own"); if(due) VF_ASSERT(l.name==fileName(fn,w.rank,t<0?"final":num(t)),"file name of the output"); } }
    t+=1+vf_choose("skip",0,1);
  }
  vf_reach("interval");
}
#elif MODE==1
// a delta time diagnostic, appending or not; times are multiples of 1/8
extern "C" void vf_main(){
  Master w=who(); int fn=NAMES?vf_choose("file",0,3):0; typedef Rec<DeltaTimeDiagnostic> D; D d; Setup<D> s; bool app=vf_choose("append",0,1)!=0; int count=0;
  double t=vf_int("first",0,16)/8.0, dt=vf_int("deltaTime",1,32)/8.0, next=vf_int("delay",0,16)/8.0; DiagnosticManager::instance().setPhysicalTime(&t);
  d.setup(s.vs,s.bp); s.str("file",FN[fn]); s.i("append",app); if(NAMES||vf_choose("deltaTime given",0,1)) s.f("deltaTime",dt); else dt=1; if(NAMES||vf_choose("delay given",0,1)) s.f("delay",next); else next=0; s.bp.evaluate(); d.single=NAMES&&vf_choose("single",0,1)!=0; bool active=!d.single||w.master; Log&l=d.log;
  if(NAMES){ static const double T[]={0.5,12,-1.25}; static const char*TN[]={"0.5","12","-1.25"}; int tk=vf_choose("time",0,2); VF_ASSERT(d.nameAt(w.rank,T[tk])==fileName(fn,w.rank,TN[tk]),"file name with a physical time"); }
  for(int k=0;k<STEPS;++k){
    VF_ASSERT(d.getNextOutput()==next&&d.getDeltaTime()==dt,"time of the next output"); int ow=l.writes;
    DiagnosticManager::instance().execute();
    int due=active&&t>=next; VF_EQ(l.writes-ow,due?1:0,"a delta time diagnostic writes when the physical time has reached the next output");
    if(app){ VF_EQ(l.opens,active?1:0,"an appending diagnostic opens its file once"); VF_EQ(l.closes,0,"an appending diagnostic keeps its file open"); if(active) VF_ASSERT(l.name==FN[fn],"name of the appended file"); }
    else { VF_ASSERT(l.opens==l.writes&&l.closes==l.writes,"every output has a file of its own"); if(due) VF_ASSERT(l.name==fileName(fn,w.rank,num(count)),"outputs are numbered consecutively"); }
    if(due){ next=next+dt; count++; }
    t=t+vf_int("step",1,32)/8.0;
  }
  vf_reach("delta");
}
#elif MODE==3
// adjusting the time step
extern "C" void vf_main(){
  double dt[2],next[2]; typedef Rec<DeltaTimeDiagnostic> D; D a,b; D*d[2]={&a,&b}; Setup<D> s[2]; double t=vf_int("first",0,16)/8.0; DiagnosticManager::instance().setPhysicalTime(&t);
  for(int i=0;i<2;++i){ dt[i]=vf_int("deltaTime",1,16)/8.0; next[i]=vf_int("delay",0,16)/8.0; d[i]->setup(s[i].vs,s[i].bp); s[i].str("file","f"); s[i].f("deltaTime",dt[i]); s[i].f("delay",next[i]); s[i].bp.evaluate(); }
  for(int k=0;k<2;++k){
    DiagnosticManager::instance().execute(); for(int i=0;i<2;++i) if(t>=next[i]) next[i]=next[i]+dt[i];
    double base=vf_int("step",1,16)/8.0, adj=DiagnosticManager::instance().adjustDeltaT(base);
    VF_ASSERT(adj<=base&&adj>0,"the time step is never increased and stays positive");
    for(int i=0;i<2;++i) if(next[i]>t) VF_ASSERT(t+adj<=next[i],"no output is stepped over");
    bool hit=adj==base; for(int i=0;i<2;++i) if(next[i]>t&&adj==next[i]-t) hit=true; VF_ASSERT(hit,"the time step is only shortened to reach an output");
    t=t+(k==0?base:adj);
  }
  vf_reach("adjust");
}
#else
// the manager: which times are needed, diagnostics that come and go
extern "C" void vf_main(){
  DiagnosticManager&m=DiagnosticManager::instance(); int t=vf_int("t",0,3)*100; double pt=vf_int("pt",0,8)/8.0; bool setT=vf_choose("time counter",0,1), setP=vf_choose("physical time",0,1), order=vf_choose("order",0,1);
  if(order&&setP) m.setPhysicalTime(&pt); if(setT) m.setTimeCounter(&t); if(!order&&setP) m.setPhysicalTime(&pt);
  typedef Rec<IntervalDiagnostic> I; typedef Rec<DeltaTimeDiagnostic> D; int ni=vf_choose("interval diagnostics",0,2), nd=vf_choose("delta diagnostics",0,2);
  I*ii[2]={0,0}; D*dd[2]={0,0}; for(int k=0;k<ni;++k) ii[k]=new I; for(int k=0;k<nd;++k) dd[k]=new D;
  bool th=false; try { m.execute(); } catch(VariableNotInitialisedException&){ th=true; }
  bool bad=(!setT&&!setP)||(!setT&&ni)||(!setP&&nd); VF_ASSERT(th==bad,"execute reports missing times, and only those");
  bool th2=false; double a=0; try { a=m.adjustDeltaT(0.25); } catch(VariableNotInitialisedException&){ th2=true; } VF_ASSERT(th2==(!setP&&nd>0),"adjusting the time step needs the physical time if there are delta time diagnostics");
  if(!nd) VF_ASSERT(a==0.25,"without delta time diagnostics the time step is not changed");
  int gi=ni?vf_choose("interval diagnostic destroyed",-1,ni-1):-1, gd=nd?vf_choose("delta diagnostic destroyed",-1,nd-1):-1;
  if(gi>=0){ delete ii[gi]; ii[gi]=0; } if(gd>=0){ delete dd[gd]; dd[gd]=0; }
  m.setTimeCounter(&t); m.setPhysicalTime(&pt); int first=bad?0:1;
  for(int k=0;k<ni;++k) if(ii[k]) VF_EQ(ii[k]->log.writes,first,"every diagnostic is executed once");
  t=200; pt=3; m.execute();
  for(int k=0;k<ni;++k) if(ii[k]) VF_EQ(ii[k]->log.writes,first+1,"the remaining diagnostics are executed");
  for(int k=0;k<nd;++k) if(dd[k]) VF_EQ(dd[k]->log.writes,first+1,"the remaining diagnostics are executed");
  for(int k=0;k<ni;++k) delete ii[k]; for(int k=0;k<nd;++k) delete dd[k]; m.execute();
  vf_reach(th?"missing":"executed");
}
#endif
