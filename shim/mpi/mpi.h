// Message-passing model: the processes of one run are co-operative threads of the analysed program (vf_spawn), messages
// are copied through mailboxes in order per (receiver, sender, tag); a Cartesian communicator may renumber the processes.
#pragma once
#include <cstring>
#include <cstdlib>
#include "vf.h"
struct VfComm; typedef VfComm* MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE,MPI_TAG,MPI_ERROR,vfbytes; }; typedef int MPI_Info; struct VfReq; typedef VfReq* MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_TAG (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL (-3)
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
enum { MPI_CHAR=0x101,MPI_SHORT=0x202,MPI_INT=0x304,MPI_LONG=0x408,MPI_UNSIGNED_CHAR=0x501,MPI_UNSIGNED_SHORT=0x602,MPI_UNSIGNED=0x704,MPI_UNSIGNED_LONG=0x808,MPI_FLOAT=0x904,MPI_DOUBLE=0xa08,MPI_LONG_DOUBLE=0xb10,MPI_BYTE=0xc01,MPI_SIGNED_CHAR=0xd01 };
enum { MPI_SUM=1,MPI_MAX=2,MPI_MIN=3 };
struct VfComm { int n; int ndims; int dims[8]; bool world; int mask; };   // mask: members of a sub-communicator, 0 = all processes
#define MPI_COMM_NULL ((MPI_Comm)0)
typedef int MPI_Group;                                                       // set of world processes
struct VfMsg { int src,tag,type,count; unsigned char*data; VfMsg*next; bool own; bool*taken; };
struct VfMpi { int np; int self; int perm; VfComm world; VfMsg*box[16]; long progress; long spins; int collPhase; int collIn,collOut; unsigned char collBuf[16][64]; int collOp,collType; int cartdims[8]; };
extern VfMpi vfmpi;
#define MPI_COMM_WORLD (&vfmpi.world)
static inline int vfmpi_size(int t){ return t&0xff; }
static inline void vfmpi_wait(){ int me=vfmpi.self; long p=vfmpi.progress; vf_yield(); vfmpi.self=me; if(p==vfmpi.progress){ VF_ASSERT(++vfmpi.spins<8*vfmpi.np+8,"communication deadlock: a process waits for a message that is never sent"); } }
static inline void vfmpi_step(){ vfmpi.progress++; vfmpi.spins=0; }
// rank of world process w in a (possibly renumbered) Cartesian communicator
static inline int vfmpi_cartrank(int w){ return vfmpi.perm==0?w:vfmpi.perm==1?vfmpi.np-1-w:(w+vfmpi.perm-1)%vfmpi.np; }
static inline int vfmpi_rank(MPI_Comm c){ if(c->mask){ int r=0; for(int i=0;i<vfmpi.self;++i) r+=(c->mask>>i)&1; return r; } return c->world?vfmpi.self:vfmpi_cartrank(vfmpi.self); }
static inline int MPI_Init(int*,char***){ return 0; } static inline int MPI_Finalize(){ return 0; }
static inline int MPI_Comm_size(MPI_Comm c,int*n){ *n=c->n; return 0; }
static inline int MPI_Comm_rank(MPI_Comm c,int*r){ *r=vfmpi_rank(c); return 0; }
static inline int MPI_Comm_free(MPI_Comm*c){ delete *c; *c=0; return 0; }
static inline int MPI_Cart_create(MPI_Comm old,int nd,const int*dims,const int*periodic,int reorder,MPI_Comm*out){
  long p=1; for(int i=0;i<nd;++i){ VF_ASSERT(dims[i]>=1,"process grid dimensions are positive"); p*=dims[i]; } VF_ASSERT(p==old->n,"the process grid uses every process");
  VfComm*c=new VfComm; c->mask=0; c->n=old->n; c->ndims=nd; c->world=!reorder; for(int i=0;i<nd;++i){ c->dims[i]=dims[i]; VF_ASSERT(periodic[i],"the process grid is periodic"); } *out=c; return 0; }
static inline int MPI_Cart_coords(MPI_Comm c,int r,int nd,int*co){ for(int i=nd-1;i>=0;--i){ co[i]=r%c->dims[i]; r/=c->dims[i]; } return 0; }
static inline int MPI_Cart_rank(MPI_Comm c,const int*co,int*r){ int x=0; for(int i=0;i<c->ndims;++i){ int d=c->dims[i]; x=x*d+((co[i]%d)+d)%d; } *r=x; return 0; }
static inline int MPI_Cart_shift(MPI_Comm c,int dir,int disp,int*src,int*dst){ int co[8]; MPI_Cart_coords(c,vfmpi_rank(c),c->ndims,co); int x=co[dir]; co[dir]=x-disp; MPI_Cart_rank(c,co,src); co[dir]=x+disp; MPI_Cart_rank(c,co,dst); return 0; }
static inline int MPI_Barrier(MPI_Comm);
static inline VfMsg*vfmpi_post(const void*b,int count,int type,int dst,int tag,MPI_Comm c,bool*taken=0){ if(dst==MPI_PROC_NULL){ if(taken) *taken=true; return 0; } VF_ASSERT(dst>=0&&dst<c->n&&count>=0,"messages go to an existing process"); VfMsg*m=new VfMsg; m->src=vfmpi_rank(c); m->tag=tag; m->type=type; m->count=count; m->own=!taken; m->taken=taken; size_t sz=(size_t)count*vfmpi_size(type); if(m->own){ m->data=new unsigned char[sz+1]; if(sz) memcpy(m->data,b,sz); } else m->data=(unsigned char*)b; m->next=0; VfMsg**q=&vfmpi.box[dst]; while(*q) q=&(*q)->next; *q=m; vfmpi_step(); return m; }
static inline bool vfmpi_try(void*b,int count,int type,int src,int tag,MPI_Comm c,MPI_Status*st){ if(src==MPI_PROC_NULL) return true; int me=vfmpi_rank(c); for(VfMsg**q=&vfmpi.box[me];*q;q=&(*q)->next){ VfMsg*m=*q; if((src==MPI_ANY_SOURCE||m->src==src)&&(tag==MPI_ANY_TAG||m->tag==tag)){ *q=m->next; VF_ASSERT(m->count<=count,"a message fits the receive buffer"); VF_ASSERT(m->type==type,"a message is received with the type it was sent with"); size_t sz=(size_t)m->count*vfmpi_size(type); if(sz) memcpy(b,m->data,sz); if(m->own) delete[] m->data; else *m->taken=true; if(st){ st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->vfbytes=(int)sz; } delete m; vfmpi_step(); return true; } } return false; }
// receives that were posted and are not completed, in the order they were posted
struct VfReq { bool recv,done; void*b; int count,type,src,tag,self; MPI_Comm c; MPI_Status st; VfReq*next; };
static inline VfReq*&vfmpi_pending(){ static VfReq*l=0; return l; }
static inline void vfmpi_poll(){ for(VfReq**q=&vfmpi_pending();*q;){ VfReq*r=*q; if(r->self==vfmpi.self&&vfmpi_try(r->b,r->count,r->type,r->src,r->tag,r->c,&r->st)){ r->done=true; *q=r->next; } else q=&r->next; } }
static inline void vfmpi_take(void*b,int count,int type,int src,int tag,MPI_Comm c,MPI_Status*st){ for(;;){ vfmpi_poll(); if(vfmpi_try(b,count,type,src,tag,c,st)) return; vfmpi_wait(); } }
static inline int MPI_Sendrecv(const void*sb,int sc,MPI_Datatype stp,int dst,int stag,void*rb,int rc,MPI_Datatype rt,int src,int rtag,MPI_Comm c,MPI_Status*st){ vfmpi_post(sb,sc,stp,dst,stag,c); vfmpi_take(rb,rc,rt,src,rtag,c,st); return 0; }
static inline int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype t,int dst,int stag,int src,int rtag,MPI_Comm c,MPI_Status*st){ return MPI_Sendrecv(b,n,t,dst,stag,b,n,t,src,rtag,c,st); }
// a blocking send may wait for its receiver, so it does
static inline int MPI_Send(const void*sb,int sc,MPI_Datatype stp,int dst,int tag,MPI_Comm c){ bool done=false; vfmpi_post(sb,sc,stp,dst,tag,c,&done); while(!done){ vfmpi_poll(); if(!done) vfmpi_wait(); } return 0; }
static inline int MPI_Ssend(const void*sb,int sc,MPI_Datatype stp,int dst,int tag,MPI_Comm c){ return MPI_Send(sb,sc,stp,dst,tag,c); }
static inline int MPI_Recv(void*rb,int rc,MPI_Datatype rt,int src,int tag,MPI_Comm c,MPI_Status*st){ vfmpi_take(rb,rc,rt,src,tag,c,st); return 0; }
static inline int MPI_Isend(const void*sb,int sc,MPI_Datatype stp,int dst,int tag,MPI_Comm c,MPI_Request*r){ VfReq*q=new VfReq; q->recv=false; q->done=false; q->next=0; q->self=vfmpi.self; *r=q; vfmpi_post(sb,sc,stp,dst,tag,c,&q->done); return 0; }
static inline int MPI_Irecv(void*rb,int rc,MPI_Datatype rt,int src,int tag,MPI_Comm c,MPI_Request*r){ VfReq*q=new VfReq; q->recv=true; q->done=false; q->b=rb; q->count=rc; q->type=rt; q->src=src; q->tag=tag; q->self=vfmpi.self; q->c=c; q->next=0; VfReq**l=&vfmpi_pending(); while(*l) l=&(*l)->next; *l=q; *r=q; return 0; }
static inline int MPI_Wait(MPI_Request*r,MPI_Status*st){ if(!*r) return 0; while(!(*r)->done){ vfmpi_poll(); if(!(*r)->done) vfmpi_wait(); } if(st&&(*r)->recv) *st=(*r)->st; delete *r; *r=MPI_REQUEST_NULL; return 0; }
static inline int MPI_Waitall(int n,MPI_Request*r,MPI_Status*st){ for(int i=0;i<n;++i) MPI_Wait(r+i,st?st+i:0); return 0; }
static inline int MPI_Test(MPI_Request*r,int*flag,MPI_Status*st){ if(!*r){ *flag=1; return 0; } vfmpi_poll(); *flag=(*r)->done; if(*flag) MPI_Wait(r,st); else vfmpi_wait(); return 0; }
static inline int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status*st){ int me=vfmpi_rank(c); for(;;){ for(VfMsg*m=vfmpi.box[me];m;m=m->next) if((src==MPI_ANY_SOURCE||m->src==src)&&(tag==MPI_ANY_TAG||m->tag==tag)){ if(st){ st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->vfbytes=m->count*vfmpi_size(m->type); } return 0; } vfmpi_wait(); } }
static inline int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n){ *n=st->vfbytes/vfmpi_size(t); return 0; }
static inline int MPI_Type_size(MPI_Datatype t,int*n){ *n=vfmpi_size(t); return 0; }
static inline int MPI_Comm_dup(MPI_Comm c,MPI_Comm*out){ *out=new VfComm(*c); return 0; }
static inline int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ int me=vfmpi_rank(c); if(me==root){ for(int i=0;i<c->n;++i) if(i!=root) vfmpi_post(b,n,t,i,0x7ffffff0,c); } else vfmpi_take(b,n,t,root,0x7ffffff0,c,0); return 0; }
template<class T> static inline void vfmpi_fold(void*out,int op,int k){ T r=((T*)vfmpi.collBuf[0])[k]; for(int i=1;i<vfmpi.np;++i){ T x=((T*)vfmpi.collBuf[i])[k]; r=op==MPI_SUM?(T)(r+x):op==MPI_MAX?(r<x?x:r):(x<r?x:r); } ((T*)out)[k]=r; }
static inline int MPI_Allreduce(const void*in,void*out,int count,MPI_Datatype t,MPI_Op op,MPI_Comm c){
  if(in==(const void*)1) in=out; VF_ASSERT(count>=0&&count*vfmpi_size(t)<=64&&!c->mask,"reductions of the model"); while(vfmpi.collOut>0) vfmpi_wait();
  if(vfmpi.collIn==0){ vfmpi.collOp=op; vfmpi.collType=t; } VF_ASSERT(vfmpi.collOp==op&&vfmpi.collType==t,"all processes take part in the same reduction");
  memcpy(vfmpi.collBuf[vfmpi_rank(c)],in,(size_t)count*vfmpi_size(t)); if(++vfmpi.collIn==vfmpi.np) vfmpi.collOut=vfmpi.np; vfmpi_step(); while(vfmpi.collOut==0) vfmpi_wait();
  for(int k=0;k<count;++k) if(t==MPI_INT) vfmpi_fold<int>(out,op,k); else if(t==MPI_DOUBLE) vfmpi_fold<double>(out,op,k); else VF_ASSERT(false,"reduction type");
  if(--vfmpi.collOut==0) vfmpi.collIn=0; vfmpi_step(); return 0; }
#define MPI_IN_PLACE ((void*)1)
static inline int MPI_Reduce(const void*in,void*out,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ unsigned char r[64]; MPI_Allreduce(in==MPI_IN_PLACE?out:in,r,n,t,op,c); if(vfmpi_rank(c)==root) memcpy(out,r,(size_t)n*vfmpi_size(t)); return 0; }
static inline int vfmpi_mask(MPI_Comm c){ return c->mask?c->mask:(1<<vfmpi.np)-1; }
static inline int MPI_Comm_group(MPI_Comm c,MPI_Group*g){ *g=vfmpi_mask(c); return 0; }
static inline int MPI_Group_incl(MPI_Group g,int n,const int*ranks,MPI_Group*out){ int m=0; for(int i=0;i<n;++i){ int k=0,p=0; for(;p<vfmpi.np;++p) if((g>>p)&1){ if(k==ranks[i]) break; ++k; } VF_ASSERT(p<vfmpi.np,"ranks of a group"); m|=1<<p; } *out=m; return 0; }
static inline int MPI_Group_free(MPI_Group*g){ *g=0; return 0; }
static inline int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
static inline int MPI_Comm_create(MPI_Comm c,MPI_Group g,MPI_Comm*out){ int lo,hi; MPI_Allreduce(&g,&lo,1,MPI_INT,MPI_MIN,c); MPI_Allreduce(&g,&hi,1,MPI_INT,MPI_MAX,c); VF_ASSERT(lo==hi,"all processes create the same communicator"); if(!((g>>vfmpi.self)&1)){ *out=MPI_COMM_NULL; return 0; } VfComm*n=new VfComm(); n->mask=g; n->world=true; for(int i=0;i<vfmpi.np;++i) n->n+=(g>>i)&1; *out=n; return 0; }
static inline int MPI_Info_create(MPI_Info*i){ *i=1; return 0; } static inline int MPI_Info_set(MPI_Info,const char*,const char*){ return 0; } static inline int MPI_Info_free(MPI_Info*i){ *i=MPI_INFO_NULL; return 0; }
static inline int MPI_Barrier(MPI_Comm c){ int a=0,b; return MPI_Allreduce(&a,&b,1,MPI_INT,MPI_SUM,c); }
static inline void vfmpi_start(int np,int perm){ vfmpi.np=np; vfmpi.perm=perm; vfmpi.world.n=np; vfmpi.world.world=true; vfmpi.world.mask=0; vfmpi.progress=vfmpi.spins=0; vfmpi.collIn=vfmpi.collOut=0; for(int i=0;i<16;++i) vfmpi.box[i]=0; }
static void (*vfmpi_body)(int); static void vfmpi_tramp(void*p){ vfmpi.self=(int)(long)p; vfmpi_body((int)(long)p); vfmpi_step(); }
static inline void vfmpi_run(void(*f)(int)){ vfmpi_body=f; for(int i=0;i<vfmpi.np;++i) vf_spawn(vfmpi_tramp,(void*)(long)i); while(vf_alive()){ vf_yield(); } for(int i=0;i<vfmpi.np;++i) VF_ASSERT(!vfmpi.box[i],"no message is left unreceived"); }
