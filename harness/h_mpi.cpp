// C11-C13: domain decomposition over simulated processes
#include "gridcommon.h"
#include "mpi.h"
VfMpi vfmpi;
#include "grid/mpisubdivision.hpp"
#ifndef ELEM
#define ELEM unsigned short
#endif
typedef ELEM T; typedef Grid<T,RANK,GridNoArgCheck,STORAGE> G; typedef MPICartSubdivision<G> Sub;
static Idx glo,ghi; static int n[RANK],delta,np; static Sub*sub[16]; static G*g[16];
static int wrapg(int x,int d){ int o=x-glo[d]; o=((o%n[d])+n[d])%n[d]; return o; }
static int mode,dim0; static T*val; static T*cont[16]; static int m_[16][RANK];
template<class F> static void each(const int*m,F f){ int o[RANK]; for(int d=0;d<RANK;++d) o[d]=0; for(;;){ f(o); int d=RANK-1; while(d>=0&&++o[d]==m[d]){ o[d]=0; --d; } if(d<0) break; } }
static long gtag(const int*o){ long p=0; for(int d=0;d<RANK;++d) p=p*n[d]+o[d]; return p; }
static long ltag(const int*o,const int*m){ long p=0; for(int d=0;d<RANK;++d) p=p*m[d]+o[d]; return p; }
static Idx lat(int q,const int*o){ Idx p; for(int d=0;d<RANK;++d) p[d]=sub[q]->getLo()[d]+o[d]; return p; }
static int redI[16],outI[16][4]; static double redD[16],outD[16][4];
static unsigned char inb[16][8]; static int insz[16]; static int outsz[16]; static unsigned char outb[16][8];
// the diagnostic manager is one per process: record what each process tells its own
static bool dmMaster; static int dmRank;
schnek::DiagnosticManager::DiagnosticManager(){} void schnek::DiagnosticManager::setMaster(bool m){ dmMaster=m; } void schnek::DiagnosticManager::setRank(int r){ dmRank=r; }
static void initOne(int q){
  sub[q]=new Sub; DomainSubdivision<G>*b=sub[q];
#if INITHOW==1
  b->init(Rng(glo,ghi),delta);
#else
  b->init(glo,ghi,delta);
#endif
  VF_ASSERT(sub[q]->procCount()==np&&sub[q]->master()==(sub[q]->procnum()==0)&&sub[q]->procnum()>=0&&sub[q]->procnum()<np,"process numbers"); VF_ASSERT(dmMaster==sub[q]->master()&&dmRank==sub[q]->procnum(),"the diagnostics of a process know its rank");
}
static void body(int q){
  initOne(q);
  if(mode==0) return;
  if(mode==3){ // reductions
    outI[q][0]=sub[q]->sumReduce(redI[q]); outI[q][1]=sub[q]->maxReduce(redI[q]); outI[q][2]=sub[q]->minReduce(redI[q]); outI[q][3]=sub[q]->avgReduce(redI[q]);
    outD[q][0]=sub[q]->sumReduce(redD[q]); outD[q][1]=sub[q]->maxReduce(redD[q]); outD[q][2]=sub[q]->minReduce(redD[q]); outD[q][3]=sub[q]->avgReduce(redD[q]);
    return; }
  if(mode==4){ typedef DomainSubdivision<G>::BufferType Buf; Buf out; for(int rep=0;rep<3;++rep){ Buf in; int sz=rep==0?4-(q&1):insz[q]; in.resize(Buf::IndexType(sz)); for(int i=0;i<sz;++i) in(i)=rep==0?7:inb[q][i]; /* the same receive buffer is used for larger and smaller messages */ sub[q]->exchangeData(dim0>>1,(dim0&1)?1:-1,in,out); outsz[q]=out.getDims(0); VF_ASSERT(outsz[q]<=4,"received size"); for(int i=0;i<outsz[q];++i) outb[q][i]=out(i); VF_ASSERT(in.getDims(0)==sz,"the sent buffer is unchanged"); } return; }
  int*m=m_[q]; long tot=1; for(int d=0;d<RANK;++d){ m[d]=sub[q]->getHi()[d]-sub[q]->getLo()[d]+1; m[d]=(int)vf_concretize(m[d]); tot*=m[d]; }
  g[q]=new G(sub[q]->getLo(),sub[q]->getHi()); G&gg=*g[q]; cont[q]=new T[tot];
  each(m,[&](const int*o){ Idx p=lat(q,o); bool inner=true; int w[RANK]; for(int d=0;d<RANK;++d){ inner=inner&&o[d]>=delta&&o[d]<m[d]-delta; w[d]=wrapg(p[d],d); }
    T v= mode==1? (inner?val[gtag(w)]:(T)vf_bits64("ghost")) : (T)vf_bits64("c"); cont[q][ltag(o,m)]=v; gg[p]=v; });
  DomainSubdivision<G>*b=sub[q];
  if(mode==1){ if(dim0<0) b->exchange(gg); else b->exchange(gg,dim0); if(REPEAT) { if(dim0<0) b->exchange(gg); else b->exchange(gg,dim0); } }
  else { if(dim0<0) b->accumulate(gg); else b->accumulate(gg,dim0); }
}
extern "C" void vf_main(){
  np=vf_choose("np",MINP,MAXP); int perm=vf_choose("renumbering",0,MAXPERM); vfmpi_start(np,perm);
  mode=MODE; delta=vf_choose("delta",MODE==0?0:1,MAXDELTA); dim0=MODE==4?vf_choose("dim-dir",0,2*RANK-1):vf_choose("dim",-1,(MODE==1||MODE==2)?RANK-1:-1);
  int need=MODE==2?2*delta:delta; if(need<1) need=1;
  for(int d=0;d<RANK;++d){ glo[d]=vf_int("lo",-1000,1000);
#ifdef SYMN
    delta=0; n[d]=vf_int("n",1,SYMN);
#elif defined(NLIST)
    { static const int nl[]=NLIST; n[d]=nl[d]; }
#else
    n[d]=vf_choose("n",need,MAXN);
#endif
    ghi[d]=glo[d]+n[d]-1; }
  { std::vector<int> w(RANK),f; for(int d=0;d<RANK;++d) w[d]=n[d]; equalFactors(np,RANK,f,w); for(int d=0;d<RANK;++d) vf_assume(n[d]>=f[d]*need); }  // enough cells for the process grid
  long gt=1; for(int d=0;d<RANK;++d) gt*=n[d];
#ifndef SYMN
  val=new T[gt]; for(long i=0;i<gt;++i) val[i]=(T)vf_bits64("v");
#endif
  for(int q=0;q<np;++q){ redI[q]=vf_int("ri",-1000000,1000000); redD[q]=vf_double("rd"); vf_assume(redD[q]==redD[q]); if(MODE==4){ insz[q]=vf_choose("size",0,2+(q<2)); for(int i=0;i<insz[q];++i) inb[q][i]=(unsigned char)vf_bits64("b"); } }
  vfmpi_run(body);
  // ---- decomposition (every mode)
  Idx p; for(int d=0;d<RANK;++d) p[d]=glo[d]+vf_int("p",-100,5000);
  bool in=true; for(int d=0;d<RANK;++d) in=in&(p[d]>=glo[d])&(p[d]<=ghi[d]);
  int cnt=0; int ids=0; bool every=true;
  for(int q=0;q<np;++q){ bool c=true; 
    for(int d=0;d<RANK;++d){ VF_ASSERT(sub[q]->getGlobalDomain().getLo()[d]==glo[d]&&sub[q]->getGlobalDomain().getHi()[d]==ghi[d],"every process knows the global domain"); VF_ASSERT(sub[q]->getLo()[d]==sub[q]->getInnerLo()[d]-delta&&sub[q]->getHi()[d]==sub[q]->getInnerHi()[d]+delta,"the local domain is the inner domain plus the ghost cells"); }
    for(int d=0;d<RANK;++d) c=c&(p[d]>=sub[q]->getInnerLo()[d])&(p[d]<=sub[q]->getInnerHi()[d]); cnt+=c; for(int d=0;d<RANK;++d) every=every&(sub[q]->getInnerHi()[d]>=sub[q]->getInnerLo()[d]); int u=sub[q]->getUniqueId(); VF_ASSERT(u>=0&&u<np,"unique id in range"); VF_ASSERT(!(ids>>u&1),"unique ids are distinct"); ids|=1<<u;
    for(int d=0;d<RANK;++d) VF_ASSERT(sub[q]->isBoundLo(d)==(sub[q]->getInnerLo()[d]==glo[d])||!every,"the lower boundary is owned by the processes that say so"); 
    for(int d=0;d<RANK;++d) VF_ASSERT(sub[q]->isBoundHi(d)==(sub[q]->getInnerHi()[d]==ghi[d])||!every,"the upper boundary is owned by the processes that say so"); }
  VF_ASSERT(cnt==(in?1:0),"every cell of the global domain is an inner cell of exactly one process, and no other cell is");
  // balanced pieces
  for(int d=0;d<RANK;++d){ int mn=n[d],mx=0; for(int q=0;q<np;++q){ int s=sub[q]->getInnerHi()[d]-sub[q]->getInnerLo()[d]+1; mn=s<mn?s:mn; mx=s>mx?s:mx; } VF_ASSERT(mx-mn<=1,"the pieces differ by at most one cell in each direction"); }
  if(MODE==0){ // physical extents of the pieces abut
#ifndef SYMN
    Range<double,RANK> ext; for(int d=0;d<RANK;++d){ ext.getLo()[d]=vf_double("elo"); ext.getHi()[d]=vf_double("ehi"); }
    for(int q=0;q<np;++q) for(int r=0;r<np;++r) for(int d=0;d<RANK;++d){ int a=(int)vf_concretize(sub[q]->getInnerHi()[d]-glo[d]+1),b=(int)vf_concretize(sub[r]->getInnerLo()[d]-glo[d]); if(a==b) VF_ASSERT(bitsOf(sub[q]->getInnerExtent(ext).getHi()[d])==bitsOf(sub[r]->getInnerExtent(ext).getLo()[d]),"physical extents of adjacent pieces abut"); }
    { static const double LO[]={0.0,-3.0}, DX[]={0.5,2.0}; int w=vf_choose("extent",0,1); Range<double,RANK> x; Array<double,RANK> len; for(int d=0;d<RANK;++d){ double dx=DX[(w+d)%2]; x.getLo()[d]=LO[w]; x.getHi()[d]=LO[w]+n[d]*dx; len[d]=n[d]*dx; }
      for(int q=0;q<np;++q){ Range<double,RANK> e=sub[q]->getInnerExtent(x), f=sub[q]->getInnerExtent(len); for(int d=0;d<RANK;++d){ double dx=DX[(w+d)%2]; int a=(int)vf_concretize(sub[q]->getInnerLo()[d]-glo[d]),b=(int)vf_concretize(sub[q]->getInnerHi()[d]-glo[d]+1); VF_ASSERT(e.getLo()[d]==LO[w]+a*dx&&e.getHi()[d]==LO[w]+b*dx,"the physical extent of a piece is that of its cells"); VF_ASSERT(f.getLo()[d]==a*dx&&f.getHi()[d]==b*dx,"the physical extent of a piece is that of its cells"); } } }
    vf_reach("extent");
#endif
    vf_reach("partition"); return; }
  if(MODE==3){ int s=0,mx=redI[0],mn=redI[0]; double ds=0,dx,dn; for(int q=0;q<np;++q){ s+=redI[q]; mx=redI[q]>mx?redI[q]:mx; mn=redI[q]<mn?redI[q]:mn; }
    double byrank[16]; for(int q=0;q<np;++q) byrank[sub[q]->procnum()]=redD[q]; ds=byrank[0]; dx=dn=byrank[0]; for(int q=1;q<np;++q){ ds=ds+byrank[q]; dx=dx<byrank[q]?byrank[q]:dx; dn=byrank[q]<dn?byrank[q]:dn; }
    for(int q=0;q<np;++q){ VF_ASSERT(outI[q][0]==s&&outI[q][1]==mx&&outI[q][2]==mn,"integer reductions combine the values of all processes on every process"); VF_ASSERT(outI[q][3]==s/np,"integer average over all processes");
      VF_ASSERT(bitsOf(outD[q][0])==bitsOf(ds),"sum over all processes");
      VF_ASSERT(bitsOf(outD[q][1])==bitsOf(dx),"maximum over all processes"); 
      VF_ASSERT(bitsOf(outD[q][2])==bitsOf(dn),"minimum over all processes"); 
      VF_ASSERT(bitsOf(outD[q][3])==bitsOf(ds/np),"average over all processes"); }
    vf_reach("reduce"); return; }
  if(MODE==4){ int d=dim0>>1, dir=(dim0&1)?1:-1;
    for(int q=0;q<np;++q){ // the neighbour in direction -dir: periodic predecessor
      int src=-1; int cnt2=0; for(int r=0;r<np;++r){ bool nb=true; for(int e=0;e<RANK;++e){ if(e==d){ int a=dir>0?sub[r]->getInnerHi()[e]-glo[e]+1:sub[r]->getInnerLo()[e]-glo[e], b=dir>0?sub[q]->getInnerLo()[e]-glo[e]:sub[q]->getInnerHi()[e]-glo[e]+1; a=(int)vf_concretize(a); b=(int)vf_concretize(b); if(a==n[e]&&b==0) a=0; if(a==0&&b==n[e]) b=0; nb=nb&&a==b; } else nb=nb&&vf_concretize(sub[r]->getInnerLo()[e]-sub[q]->getInnerLo()[e])==0; } if(nb){ src=r; ++cnt2; } }
      VF_ASSERT(cnt2==1,"one neighbour per direction"); if(src<0) continue;
      VF_ASSERT(outsz[q]==insz[src],"the received buffer has the size the neighbour sent"); int i=vf_int("bi",0,3); vf_assume(i<insz[src]||insz[src]==0); if(insz[src]>0) VF_ASSERT(outb[q][i]==inb[src][i],"the received buffer holds what the neighbour sent"); }
    vf_reach("buffer"); return; }
  int q=vf_choose("q",0,np-1); int*m=m_[q]; int o[RANK],w[RANK]; 
  for(int d=0;d<RANK;++d) o[d]=MODE==1?vf_int("o",0,m[d]-1):vf_choose("o",0,m[d]-1);
  bool skip=false; if(dim0>=0&&MODE==1) for(int d=0;d<RANK;++d) if(d!=dim0) vf_assume(o[d]>=delta&&o[d]<m[d]-delta);
  Idx at; for(int d=0;d<RANK;++d){ at[d]=sub[q]->getLo()[d]+o[d]; }
  if(MODE==1){ for(int d=0;d<RANK;++d){ int x=(int)vf_concretize(sub[q]->getLo()[d]-glo[d])+o[d]; w[d]=x+n[d]*((x<0)-(x>=n[d])); } VF_ASSERT((*g[q])[at]==val[gtag(w)],"after an exchange every ghost cell holds the value of the cell it mirrors, inner cells are unchanged"); vf_reach("exchange"); }
  else { T sum=0; 
    for(int r=0;r<np;++r) each(m_[r],[&](const int*u){ bool same=true; for(int d=0;d<RANK;++d){ int x=(int)vf_concretize(sub[r]->getLo()[d]-glo[d])+u[d], y=(int)vf_concretize(sub[q]->getLo()[d]-glo[d])+o[d]; if(dim0<0||d==dim0) same=same&&((x%n[d])+n[d])%n[d]==((y%n[d])+n[d])%n[d]; else same=same&&x==y&&sub[r]->getLo()[d]-sub[q]->getLo()[d]==0; } if(same) sum=(T)(sum+cont[r][ltag(u,m_[r])]); });
    VF_ASSERT((*g[q])[at]==sum,"after accumulating every cell holds the sum over all its images on all processes"); vf_reach("accumulate"); }
}
