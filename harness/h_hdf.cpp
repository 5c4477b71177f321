// C26: grids written to HDF5 files and read back, over an in-memory model of HDF5 (shim/hdf)
#include "vf.h"
#include "diagnostic/hdfdiagnostic.hpp"
#include "grid/field.hpp"
#include "variables/block.hpp"
#include <string>
VfHdf vfh;
#ifdef SCHNEK_USE_HDF_PARALLEL
VfMpi vfmpi;
static void start(int np){ vfmpi_start(np,0); }
static void run(void(*f)(int)){ vfmpi_run(f); }
#else
static void start(int){} static void run(void(*f)(int)){ f(0); }
#endif
using namespace schnek;
#ifndef ELEM
#define ELEM int
#endif
#ifndef RANK
#define RANK 1
#endif
#ifndef MAXP
#define MAXP 1
#endif
#ifndef MAXN
#define MAXN 3
#endif
#ifndef LEAN
#define LEAN 0
#endif
#ifndef MINN
#define MINN 1
#endif
#ifndef STORAGE
#define STORAGE SingleArrayGridStorage
#endif
typedef ELEM T; typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G; typedef G::IndexType Idx;
static hid_t htype(int*){ return H5T_NATIVE_INT; } static hid_t htype(float*){ return H5T_NATIVE_FLOAT; } static hid_t htype(double*){ return H5T_NATIVE_DOUBLE; }
// same value, bit by bit
static long bits(int v){ return v; } static long bits(float v){ int u; memcpy(&u,&v,4); return u; } static long bits(double v){ return vf_bits(v); }
#define SAME(a,b,msg) VF_EQ(bits((T)(a)),bits((T)(b)),msg)
static std::string num(int v){ std::string r; if(v>=10) r.push_back((char)('0'+v/10)); r.push_back((char)('0'+v%10)); return r; }
static T fresh(const char*n){ return (T)vf_int(n,-30000,30000); }
template<class F> static void each(const int*m,F f){ int o[RANK]; for(int d=0;d<RANK;++d){ o[d]=0; if(m[d]<=0) return; } for(;;){ f(o); int d=RANK-1; while(d>=0&&++o[d]==m[d]){ o[d]=0; --d; } if(d<0) break; } }
// a global grid distributed over processes along one dimension
static int np; static Idx gmin; static int n[RANK]; static long total; static T*val[3];
static long gpos(const int*o){ long p=0; for(int d=0;d<RANK;++d) p=p*n[d]+o[d]; return p; }
struct Part { int dim,cut[9],gl,gu; void choose(){ dim=RANK>1&&np>1?vf_choose("dim",0,RANK-1):0; cut[0]=0; for(int q=1;q<np;++q) cut[q]=vf_choose("cut",cut[q-1]+1,MAXN); vf_assume(np==1||cut[np-1]<n[dim]); cut[np]=n[dim]; gl=vf_choose("ghost",0,1); gu=LEAN?1-gl:vf_choose("ghost",0,1); }
  int lo(int q,int d)const{ return d==dim?cut[q]:0; } int ext(int q,int d)const{ return d==dim?cut[q+1]-cut[q]:n[d]; } };
static void global(){ total=1; for(int d=0;d<RANK;++d){ gmin[d]=RANK==1?vf_int("gmin",-100,100):(LEAN&&d?gmin[0]!=0:vf_choose("gmin",0,1))*(d==1?-23:17); n[d]=vf_choose("n",MINN,MAXN); total*=n[d]; } for(int k=0;k<3;++k){ val[k]=new T[total]; for(long i=0;i<total;++i) val[k][i]=fresh("v"); } }
static void makeGrid(GridContainer<G>&c,const Part&p,int q){ Idx lo,hi; for(int d=0;d<RANK;++d){ c.global_min[d]=gmin[d]; c.global_max[d]=gmin[d]+n[d]-1; c.local_min[d]=gmin[d]+p.lo(q,d); c.local_max[d]=gmin[d]+p.lo(q,d)+p.ext(q,d)-1; lo[d]=c.local_min[d]-p.gl; hi[d]=c.local_max[d]+p.gu; } c.grid.resize(lo,hi); }
// calls f(index, is inner, global offset)
template<class F> static void cells(const GridContainer<G>&c,const Part&p,int q,F f){ int m[RANK]; for(int d=0;d<RANK;++d) m[d]=p.ext(q,d)+p.gl+p.gu; each(m,[&](const int*o){ Idx i; bool inner=true; int g[RANK]; for(int d=0;d<RANK;++d){ i[d]=gmin[d]+(p.lo(q,d)-p.gl+o[d]); g[d]=p.lo(q,d)-p.gl+o[d]; if(o[d]<p.gl||o[d]>=p.gl+p.ext(q,d)) inner=false; } f(i,inner,inner?gpos(g):-1L); }); }
static void fill(GridContainer<G>&c,const Part&p,int q,const T*v){ cells(c,p,q,[&](Idx i,bool inner,long k){ c.grid[i]=inner?v[k]:(T)4711; }); }
static VfhFile*checkFile(const char*name,int opens){ VfhFile*f=vfh_find(name); VF_ASSERT(f!=0,"the file is created"); VF_EQ(f->opened,opens,"every process opens the file once"); VF_EQ(f->closed,f->opened,"every file is closed again"); return f; }
static void checkDims(VfhDset*d){ VF_EQ(d->rank,RANK,"rank of the data set"); for(int k=0;k<RANK;++k) VF_EQ(d->dims[k],n[k],"a data set has the extents of the global grid"); VF_ASSERT(d->type==htype((T*)0),"element type of the data set"); }
static void released(){ for(int i=0;i<vfh.no;++i) if(vfh.o[i]->kind!=VFH_PLIST||vfh.o[i]->mask) VF_ASSERT(vfh.o[i]->ref==0,"handles of files, data sets, spaces and attributes, and communicators, are released"); }
// names that a stream gives to its data sets
struct Names { std::string base="data"; int count=0; void name(const std::string&b){ base=b; count=-1; } std::string next(){ if(count<0){ count=1; return base; } return base+num(count++); } };
#if MODE==0||MODE==1
// written by processes that divide the global grid in any way, read by processes that divide it in any other way
static Part wp,rp; static int naming,nattr; static int ai[2]; static double ad;
static void nameOf(HdfStream&s,int k,Names*e){ if(k==0&&(naming&1)){ s.setBlockName("u"); if(e) e->name("u"); } if(k==2&&(naming&2)){ s.setBlockName("w"); if(e) e->name("w"); } }
static void attributes(HdfOStream&s,int k){ if(k==0) return; pHdfAttributes a=std::make_shared<HdfAttributes>(); if(nattr>=1) a->set("i",ai[0]+(k-1)); if(nattr>=2){ a->set("d",(const double*)&ad); a->set("pair",(const int*)ai,2); } s.setAttributes(a); }
static void writer(int q){ GridContainer<G> c; makeGrid(c,wp,q); HdfOStream s; VF_ASSERT(!s.good(),"a new stream is not open"); s.open("f"); VF_ASSERT(s.good(),"an open stream is good"); for(int k=0;k<3;++k){ fill(c,wp,q,val[k]); nameOf(s,k,0); attributes(s,k); s.writeGrid(c); } if(q&1) s.close(); }
static void reader(int q){ GridContainer<G> c; makeGrid(c,rp,q); HdfIStream s("f"); for(int k=0;k<3;++k){ cells(c,rp,q,[&](Idx i,bool,long){ c.grid[i]=(T)815; }); nameOf(s,k,0); s.readGrid(c);
#ifdef SCHNEK_USE_HDF_PARALLEL
  cells(c,rp,q,[&](Idx i,bool inner,long g){ if(inner) SAME(c.grid[i],val[k][g],"every cell is read back with its value"); else SAME(c.grid[i],(T)815,"reading leaves the ghost cells alone"); });
#else
  cells(c,rp,q,[&](Idx i,bool inner,long g){ SAME(c.grid[i],(inner?val[k][g]:(T)4711),"every cell is read back with its value"); });
#endif
  } s.close(); VF_ASSERT(!s.good(),"a closed stream is not open"); }
extern "C" void vf_main(){
  np=MODE==1?1:vf_choose("processes",1,MAXP); start(np); global(); wp.choose(); naming=LEAN?vf_choose("naming",0,1)*3:vf_choose("naming",0,3); nattr=LEAN?(naming?2:0):MODE==1||np<=2?vf_choose("attributes",0,2):0; ai[0]=vf_int("attribute",-100,100); ai[1]=vf_int("attribute",-100,100); ad=vf_int("attribute",-100,100)/8.0;
  run(writer); VfhFile*f=checkFile("f",np); VF_EQ(f->nd,3,"one data set per grid"); Names e; GridContainer<G> cc; 
  for(int k=0;k<3;++k){ if(k==0&&(naming&1)) e.name("u"); if(k==2&&(naming&2)) e.name("w"); std::string nm=e.next(); VfhDset*d=vfh_findd(f,nm.c_str()); VF_ASSERT(d!=0,"name of the data set");
#ifdef SCHNEK_USE_HDF_PARALLEL
    checkDims(d); for(long i=0;i<total;++i){ T x; memcpy(&x,d->data+i*sizeof(T),sizeof(T)); SAME(x,val[k][i],"the file holds every cell of the global grid once"); }
#endif
    int na=k==0?0:nattr==0?0:nattr==1?1:3; VF_EQ(d->nattr,na,"attributes of the data set"); if(na){ VfhAttr*a=vfh_finda(d,"i"); VF_ASSERT(a&&a->written&&a->n==1&&a->type==H5T_NATIVE_INT,"attribute"); int x; memcpy(&x,a->data,4); VF_EQ(x,ai[0]+(k-1),"value of an attribute"); }
    if(na==3){ VfhAttr*a=vfh_finda(d,"d"); VF_ASSERT(a&&a->written&&a->n==1&&a->type==H5T_NATIVE_DOUBLE,"attribute"); double x; memcpy(&x,a->data,8); VF_ASSERT(x==ad,"value of an attribute"); a=vfh_finda(d,"pair"); VF_ASSERT(a&&a->written&&a->n==2&&a->type==H5T_NATIVE_INT,"attribute"); int y[2]; memcpy(y,a->data,8); VF_ASSERT(y[0]==ai[0]&&y[1]==ai[1],"values of an attribute"); } }
  int wn=np;
#ifdef SCHNEK_USE_HDF_PARALLEL
  np=vf_choose("reading processes",1,MAXP); start(np); rp.choose();
#else
  rp=wp;
#endif
  run(reader); checkFile("f",wn+np); released(); vf_reach("round trip");
}
#elif MODE==2
// any sequence of opening, closing, copying, assigning and destroying streams
#ifdef INPUT
typedef HdfIStream S; static void prepare(){ HdfOStream o; o.open("a"); o.close(); o.open("b"); o.close(); }
#else
typedef HdfOStream S; static void prepare(){}
#endif
extern "C" void vf_main(){ start(1); prepare(); int base[2]; for(int k=0;k<2;++k){ VfhFile*f=vfh_find(k?"b":"a"); base[k]=f?f->opened:0; }
  S*s[2]={new S,0}; int ref[2]={-1,-1}; bool act[2]={true,false}; int file[16],nrefs=0,open_[2]={0,0};
  for(int k=0;k<STEPS;++k){ int a=vf_choose("stream",0,1), b=1-a; int op=vf_choose("operation",0,5); vf_assume(s[a]!=0||op==4);
    // does another stream still use what a refers to?
    auto live=[&](int r,int except){ for(int i=0;i<2;++i) if(i!=except&&s[i]&&ref[i]==r) return true; return false; };
    if(op==0){ int fi=vf_choose("file",0,1);
#ifndef INPUT
      if(live(ref[b],a)&&s[b]&&ref[b]>=0&&file[ref[b]]==fi) vf_assume(0); // a file that another stream is writing is not created again
#endif
      s[a]->open(fi?"b":"a"); if(act[a]){ ref[a]=nrefs; file[nrefs++]=fi; open_[fi]++; } else ref[a]=-1; }
    else if(op==1){ s[a]->close(); ref[a]=-1; }
    else if(op==2){ vf_assume(s[b]!=0); *s[a]=*s[b]; ref[a]=ref[b]; act[a]=act[b]; }
    else if(op==3){ delete s[a]; s[a]=0; ref[a]=-1; }
    else if(op==4){ vf_assume(s[a]==0); if(s[b]){ s[a]=new S(*s[b]); ref[a]=ref[b]; act[a]=act[b]; } else { s[a]=new S; ref[a]=-1; act[a]=true; } }
    else { bool on=vf_choose("active",0,1)!=0; s[a]->setActive(on); act[a]=on; }
    int exp[2]={0,0}; bool seen[16]={}; for(int i=0;i<2;++i) if(s[i]){ VF_ASSERT(s[i]->good()==(ref[i]>=0),"a stream is good while it is open"); if(ref[i]>=0&&!seen[ref[i]]){ seen[ref[i]]=true; exp[file[ref[i]]]++; } }
    for(int k=0;k<2;++k){ VfhFile*f=vfh_find(k?"b":"a"); VF_EQ(f?f->opened:0,base[k]+open_[k],"files are opened by open, by active streams only"); VF_EQ(f?f->opened-f->closed:0,exp[k],"a file is open exactly while a stream uses it"); } }
  delete s[0]; delete s[1]; for(int k=0;k<2;++k){ VfhFile*f=vfh_find(k?"b":"a"); if(f) VF_EQ(f->opened,f->closed,"every file is closed once"); }
  released(); vf_reach("streams");
}
#elif MODE==3
// processes that are active in some outputs and not in others
static Part wp; static int mask[3]; static bool set_[3];
static void body(int q){ GridContainer<G> c,r; makeGrid(c,wp,q); makeGrid(r,wp,q); HdfOStream o; HdfIStream in; int cur=(1<<np)-1;
  for(int k=0;k<ROUNDS;++k){ if(set_[k]){ cur=mask[k]; o.setActive((cur>>q)&1); in.setActive((cur>>q)&1); } const char*nm=k==0?"a":k==1?"b":"c"; o.open(nm); VF_ASSERT(o.good()==(((cur>>q)&1)!=0),"the file is open in the active processes"); fill(c,wp,q,val[k]); pHdfAttributes a=std::make_shared<HdfAttributes>(); a->set("i",k+5); o.setAttributes(a); o.writeGrid(c); o.close();
    MPI_Barrier(MPI_COMM_WORLD); if(READ&&cur){ cells(r,wp,q,[&](Idx i,bool,long){ r.grid[i]=(T)815; }); in.open(nm); in.readGrid(r); in.close(); cells(r,wp,q,[&](Idx i,bool inner,long g){ SAME(r.grid[i],(inner&&((cur>>q)&1)?val[k][g]:(T)815),"active processes read their cells, the others nothing"); }); } } }
extern "C" void vf_main(){ np=vf_choose("processes",2,MAXP); start(np); global(); wp.choose(); int cur=(1<<np)-1,m[3]; for(int k=0;k<ROUNDS;++k){ set_[k]=vf_choose("active set",0,1)!=0; mask[k]=set_[k]?vf_choose("active",0,(1<<np)-1):0; if(set_[k]) cur=mask[k]; m[k]=cur; }
  run(body);
  for(int k=0;k<ROUNDS;++k){ int cnt=0; for(int q=0;q<np;++q) cnt+=(m[k]>>q)&1; VfhFile*f=vfh_find(k==0?"a":k==1?"b":"c"); if(!cnt){ VF_ASSERT(!f,"without active processes there is no file"); continue; } checkFile(k==0?"a":k==1?"b":"c",cnt*(READ?2:1)); VF_EQ(f->nd,1,"one data set"); VfhDset*d=vfh_findd(f,"data0"); VF_ASSERT(d!=0,"name of the data set"); checkDims(d);
    for(int q=0;q<np;++q){ int e[RANK]; for(int x=0;x<RANK;++x) e[x]=wp.ext(q,x); each(e,[&](const int*o){ int g[RANK]; for(int x=0;x<RANK;++x) g[x]=wp.lo(q,x)+o[x]; T x; memcpy(&x,d->data+gpos(g)*sizeof(T),sizeof(T)); SAME(x,(((m[k]>>q)&1)?val[k][gpos(g)]:(T)0),"the file holds the cells of the active processes"); }); }
    VfhAttr*a=vfh_finda(d,"i"); VF_ASSERT(a&&a->written,"attributes are written"); int x; memcpy(&x,a->data,4); VF_EQ(x,k+5,"value of an attribute"); }
  released(); vf_reach("active");
}
#else
// a diagnostic and a reader in a tree of blocks
#ifdef FIELD
typedef Field<T,RANK,GridNoArgCheck,STORAGE> F;
#else
typedef G F;
#endif
static int gl;
struct Diag : public HDFGridDiagnostic<F> { pHdfAttributes at; std::string ds; bool der=false; void setup(VariableStorage&vs,BlockParameters&bp){ bp.setContext(vs.getRootBlock()); this->initParameters(bp); } void doInit(){ this->init(); } bool isDerived() override { return der; } void setField(F&f){ this->field=f; this->container.grid=f; }
  Idx getGlobalMin() override { return gmin; } Idx getGlobalMax() override { Idx h; for(int d=0;d<RANK;++d) h[d]=gmin[d]+n[d]-1; return h; } pHdfAttributes getAttributes() override { if(!at) return HDFGridDiagnostic<F>::getAttributes(); return at; } std::string getDatasetName() override { return ds.empty()?HDFGridDiagnostic<F>::getDatasetName():ds; } };
struct Reader : public HDFGridReader<F> { std::string ds; void setup(VariableStorage&vs,BlockParameters&bp){ bp.setContext(vs.getRootBlock()); this->initParameters(bp); } void doInit(){ this->init(); } void go(){ this->execute(); }
  Idx getGlobalMin() override { return gmin; } Idx getGlobalMax() override { Idx h; for(int d=0;d<RANK;++d) h[d]=gmin[d]+n[d]-1; return h; } std::string getDatasetName() override { return ds.empty()?HDFGridReader<F>::getDatasetName():ds; } };
struct Root : public Block {};
static void setv(VariableStorage&vs,const char*n,const Variable&v){ *vs.getRootBlock()->getVariable(n)=v; }
static void make(F&f){ Idx lo,hi; for(int d=0;d<RANK;++d){ lo[d]=gmin[d]; hi[d]=gmin[d]+n[d]-1; }
#ifdef FIELD
  Range<double,RANK> dom; for(int d=0;d<RANK;++d){ dom.getLo()[d]=0; dom.getHi()[d]=1; } f.resize(lo,hi,dom,Array<bool,RANK>(false),gl);
#else
  f.resize(lo,hi);
#endif
}
template<class Fn> static void cellsOf(Fn f){ int m[RANK]; for(int d=0;d<RANK;++d) m[d]=n[d]+2*gl; each(m,[&](const int*o){ Idx i; bool inner=true; int g[RANK]; for(int d=0;d<RANK;++d){ i[d]=gmin[d]+(o[d]-gl); g[d]=o[d]-gl; if(g[d]<0||g[d]>=n[d]) inner=false; } f(i,inner,inner?gpos(g):-1L); }); }
static void body(int){
  F a,b; make(a); make(b); BlockTree tree; pBlock root(new Root); Diag*d=new Diag; Reader*r=new Reader; pBlock pd(d),pr(r); tree.addChild(root); tree.addChild(pd); tree.moveUp(); tree.addChild(pr); root->addData("a",a); root->addData("b",b); bool other=vf_choose("other field",0,1)!=0; F&w=other?b:a;
  VariableStorage vd("d","d"),vr("r","r"); BlockParameters bd,br; d->setup(vd,bd); r->setup(vr,br); setv(vd,"file",Variable(std::string("o#t"))); setv(vd,"field",Variable(std::string(other?"b":"a"))); setv(vd,"interval",Variable(2)); if(vf_choose("data set name",0,1)) d->ds=r->ds="rho"; bool withAttr=vf_choose("attributes",0,1)!=0; if(withAttr){ d->at=std::make_shared<HdfAttributes>(); d->at->set("t",17); }
  bd.evaluate(); int t=0; DiagnosticManager::instance().setTimeCounter(&t); d->doInit();
  for(int k=0;k<3;++k){ t=k; cellsOf([&](Idx i,bool inner,long g){ w[i]=inner?val[k][g]:(T)4711; }); DiagnosticManager::instance().execute(); }
  VF_ASSERT(vfh.nf==2&&vfh_find("o0")&&vfh_find("o2"),"a file for every output that is due");
  setv(vr,"field",Variable(std::string(other?"a":"b"))); int back=vf_choose("file read",0,1)*2; setv(vr,"file",Variable(std::string(back?"o2":"o0"))); br.evaluate(); r->doInit(); F&v=other?a:b; cellsOf([&](Idx i,bool,long){ v[i]=(T)815; }); 
  for(int k=0;k<3;k+=2){ VfhFile*f=checkFile(k?"o2":"o0",1); VF_EQ(f->nd,1,"one data set per file"); VfhDset*x=vfh_findd(f,d->ds.empty()?"data":"rho"); VF_ASSERT(x!=0,"name of the data set"); VF_EQ(x->nattr,withAttr?1:0,"attributes");
#ifdef SCHNEK_USE_HDF_PARALLEL
    checkDims(x); for(long i=0;i<total;++i){ T y; memcpy(&y,x->data+i*sizeof(T),sizeof(T)); SAME(y,val[k][i],"the file holds the values that the field has when the output is due"); }
#endif
  }
  r->go(); cellsOf([&](Idx i,bool inner,long g){
#ifdef SCHNEK_USE_HDF_PARALLEL
    SAME(v[i],(inner?val[back][g]:(T)815),"the reader fills the field from the file");
#else
    SAME(v[i],(inner?val[back][g]:(T)4711),"the reader fills the field from the file");
#endif
  }); VF_EQ(checkFile(back?"o2":"o0",2)->handles,0,"the reader closes its file");
}
extern "C" void vf_main(){ np=1; start(1); gl=0;
#ifdef FIELD
  gl=vf_choose("ghost",0,2);
#endif
  global(); run(body); released(); vf_reach("diagnostic"); }
#endif
