// In-memory model of the part of HDF5 that the library uses.  Files hold data sets (extents, element type, contents) and
// their attributes.  Handles are counted and of a kind; using a handle that is not open, or of another kind, is reported.
// In the parallel configuration a file belongs to the processes of its communicator: the calls that HDF5 requires to be
// collective have to be made by all of them, in the same order, with the same arguments, or the run is stuck.
#pragma once
#include <cstring>
#include <cstdint>
#include "vf.h"
#ifdef SCHNEK_USE_HDF_PARALLEL
#define H5_HAVE_PARALLEL 1
#include "mpi.h"
#endif
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t; typedef int htri_t; typedef bool hbool_t;
#define H5Dopen_vers 2
#define H5Dcreate_vers 2
#define H5Acreate_vers 2
#define H5P_DEFAULT ((hid_t)0)
#define H5S_ALL ((hid_t)0)
#define H5I_INVALID_HID ((hid_t)-1)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5P_FILE_ACCESS ((hid_t)501)
#define H5P_DATASET_XFER ((hid_t)502)
#define H5T_NATIVE_INT ((hid_t)0x0300000000000104)
#define H5T_NATIVE_FLOAT ((hid_t)0x0300000000000204)
#define H5T_NATIVE_DOUBLE ((hid_t)0x0300000000000308)
#define H5T_NATIVE_LONG ((hid_t)0x0300000000000408)
typedef enum { H5S_SELECT_SET=0, H5S_SELECT_OR=1 } H5S_seloper_t;
typedef enum { H5FD_MPIO_INDEPENDENT=0, H5FD_MPIO_COLLECTIVE=1 } H5FD_mpio_xfer_t;
typedef enum { H5F_SCOPE_LOCAL=0, H5F_SCOPE_GLOBAL=1 } H5F_scope_t;
enum { VFH_FILE=1, VFH_SPACE=4, VFH_DSET=5, VFH_ATTR=6, VFH_PLIST=8 };
struct VfhAttr { char name[32]; hid_t type; long n; unsigned char*data; bool written; };
struct VfhDset { char name[32]; hid_t type; int rank; long dims[10]; long n; unsigned char*data; int nattr; VfhAttr*attr[4]; };
struct VfhFile { char name[32]; int nd; VfhDset*d[8]; int handles; int opened,closed,created; };
struct VfhObj { int kind; int ref; VfhFile*f; VfhDset*d; VfhAttr*a; int rank; long dims[10],start[10],count[10]; bool hyper,writable; int mask; int cls; bool coll; };
struct VfhColl { int in,out,op; char name[32]; long arg; };
struct VfHdf { int nf; VfhFile*f[8]; int no; VfhObj*o[512]; VfhColl c[16]; };
extern VfHdf vfh;
static inline void vfh_name(char*d,const char*s){ size_t n=strlen(s); VF_ASSERT(n<32,"names in the model have less than 32 characters"); memcpy(d,s,n+1); }
static inline hid_t vfh_new(VfhObj*o,int kind){ o->kind=kind; o->ref=1; VF_ASSERT(vfh.no<512,"handles of the model"); vfh.o[vfh.no]=o; return ((hid_t)kind<<56)|(hid_t)vfh.no++; }
static inline VfhObj*vfh_get(hid_t h,int kind){ long k=(long)(h>>56),i=(long)(h&0xffffffff); bool ok=h>0&&k==kind&&i<vfh.no&&vfh.o[i]->kind==kind&&vfh.o[i]->ref>0; VF_ASSERT(ok,"HDF5 is called with open handles of the right kind"); return vfh.o[i]; }
static inline long vfh_size(hid_t t){ VF_ASSERT((t>>56)==3,"an element type"); return (long)(t&0xff); }
#ifdef SCHNEK_USE_HDF_PARALLEL
// returns true for the one process that carries the effect out
static inline bool vfh_coll(int mask,int op,const char*name,long arg){ int n=0; for(int i=0;i<vfmpi.np;++i) n+=(mask>>i)&1; if(mask==0||n==1) return true; VF_ASSERT((mask>>vfmpi.self)&1,"the process belongs to the communicator of the file");
  VfhColl&c=vfh.c[mask]; while(c.out>0) vfmpi_wait(); if(c.in==0){ c.op=op; vfh_name(c.name,name); c.arg=arg; } VF_ASSERT(c.op==op&&!strcmp(c.name,name)&&c.arg==arg,"all processes of a file make the same collective HDF5 calls");
  if(++c.in==n) c.out=n; vfmpi_step(); while(c.out==0) vfmpi_wait(); bool first=c.out==n; if(--c.out==0) c.in=0; vfmpi_step(); return first; }
#else
static inline bool vfh_coll(int,int,const char*,long){ return true; }
#endif
static inline VfhFile*vfh_find(const char*name){ for(int i=0;i<vfh.nf;++i) if(!strcmp(vfh.f[i]->name,name)) return vfh.f[i]; return 0; }
static inline hid_t H5Pcreate(hid_t cls){ VfhObj*o=new VfhObj(); o->cls=(int)cls; return vfh_new(o,VFH_PLIST); }
static inline herr_t H5Pclose(hid_t p){ vfh_get(p,VFH_PLIST)->ref--; return 0; }
static inline herr_t H5Pset_sieve_buf_size(hid_t p,size_t){ vfh_get(p,VFH_PLIST); return 0; }
static inline herr_t H5Pset_alignment(hid_t p,hsize_t,hsize_t){ vfh_get(p,VFH_PLIST); return 0; }
static inline int vfh_mask(hid_t fapl){ if(fapl==H5P_DEFAULT) return 0; VfhObj*o=vfh_get(fapl,VFH_PLIST); VF_ASSERT(o->cls==H5P_FILE_ACCESS,"a file access property list"); return o->mask; }
static inline bool vfh_collective(hid_t dxpl){ if(dxpl==H5P_DEFAULT) return false; VfhObj*o=vfh_get(dxpl,VFH_PLIST); VF_ASSERT(o->cls==H5P_DATASET_XFER,"a transfer property list"); return o->coll; }
#ifdef SCHNEK_USE_HDF_PARALLEL
static inline herr_t H5Pset_fapl_mpio(hid_t p,MPI_Comm c,MPI_Info){ VF_ASSERT(c!=MPI_COMM_NULL,"files are opened over a communicator"); vfh_get(p,VFH_PLIST)->mask=vfmpi_mask(c); return 0; }
static inline herr_t H5Pset_dxpl_mpio(hid_t p,H5FD_mpio_xfer_t m){ vfh_get(p,VFH_PLIST)->coll=m==H5FD_MPIO_COLLECTIVE; return 0; }
#endif
static inline hid_t vfh_handle(VfhFile*f,int mask,bool w){ VfhObj*o=new VfhObj(); o->f=f; o->mask=mask; o->writable=w; f->handles++; f->opened++; return vfh_new(o,VFH_FILE); }
static inline hid_t H5Fcreate(const char*name,unsigned flags,hid_t,hid_t fapl){ int mask=vfh_mask(fapl);
  if(vfh_coll(mask,1,name,flags)){ VfhFile*f=vfh_find(name); if(!f){ f=new VfhFile(); vfh_name(f->name,name); VF_ASSERT(vfh.nf<8,"files of the model"); vfh.f[vfh.nf++]=f; } else { VF_ASSERT(flags&H5F_ACC_TRUNC,"an existing file is replaced"); VF_ASSERT(f->handles==0,"a file is not created while it is still open"); } f->nd=0; f->created++; }
  return vfh_handle(vfh_find(name),mask,true); }
static inline hid_t H5Fopen(const char*name,unsigned flags,hid_t fapl){ int mask=vfh_mask(fapl); vfh_coll(mask,2,name,flags); VfhFile*f=vfh_find(name); if(!f) return -1; return vfh_handle(f,mask,(flags&H5F_ACC_RDWR)!=0); }
static inline herr_t H5Fclose(hid_t h){ VfhObj*o=vfh_get(h,VFH_FILE); if(--o->ref==0){ vfh_coll(o->mask,3,o->f->name,0); o->f->handles--; o->f->closed++; } return 0; }
static inline herr_t H5Fflush(hid_t,H5F_scope_t){ return 0; }
static inline VfhObj*vfh_any(hid_t h){ return vfh_get(h,(int)(h>>56)); }
static inline int H5Iinc_ref(hid_t h){ return ++vfh_any(h)->ref; }
static inline int H5Iget_ref(hid_t h){ return vfh_any(h)->ref; }
static inline int H5Idec_ref(hid_t h){ if((h>>56)==VFH_FILE){ int r=vfh_any(h)->ref-1; H5Fclose(h); return r; } return --vfh_any(h)->ref; }
static inline htri_t H5Iis_valid(hid_t h){ long k=(long)(h>>56),i=(long)(h&0xffffffff); return h>0&&i<vfh.no&&vfh.o[i]->kind==k&&vfh.o[i]->ref>0; }
static inline hid_t H5Screate_simple(int rank,const hsize_t*dims,const hsize_t*){ VfhObj*o=new VfhObj(); VF_ASSERT(rank>=0&&rank<=10,"rank of a data space"); o->rank=rank; for(int i=0;i<rank;++i){ long d=vf_concretize((long)dims[i]); VF_ASSERT(d>=0&&d<100000,"extent of a data space"); o->dims[i]=d; } return vfh_new(o,VFH_SPACE); }
static inline herr_t H5Sclose(hid_t s){ vfh_get(s,VFH_SPACE)->ref--; return 0; }
static inline herr_t H5Sselect_all(hid_t s){ vfh_get(s,VFH_SPACE)->hyper=false; return 0; }
static inline herr_t H5Sselect_none(hid_t s){ VfhObj*o=vfh_get(s,VFH_SPACE); o->hyper=true; for(int i=0;i<o->rank;++i) o->start[i]=o->count[i]=0; return 0; }
static inline herr_t H5Sselect_hyperslab(hid_t s,H5S_seloper_t op,const hsize_t*start,const hsize_t*stride,const hsize_t*count,const hsize_t*block){ VfhObj*o=vfh_get(s,VFH_SPACE); VF_ASSERT(op==H5S_SELECT_SET,"a new selection"); o->hyper=true;
  for(int i=0;i<o->rank;++i){ VF_ASSERT((!stride||stride[i]==1)&&(!block||block[i]==1),"contiguous selections"); o->start[i]=vf_concretize((long)start[i]); o->count[i]=vf_concretize((long)count[i]); VF_ASSERT(o->start[i]>=0&&o->count[i]>=0&&(o->count[i]==0||o->start[i]+o->count[i]<=o->dims[i]),"a selection lies within its data space"); } return 0; }
static inline int H5Sget_simple_extent_ndims(hid_t s){ return vfh_get(s,VFH_SPACE)->rank; }
static inline int H5Sget_simple_extent_dims(hid_t s,hsize_t*d,hsize_t*m){ VfhObj*o=vfh_get(s,VFH_SPACE); for(int i=0;i<o->rank;++i){ if(d) d[i]=o->dims[i]; if(m) m[i]=o->dims[i]; } return o->rank; }
static inline hid_t vfh_dset(VfhFile*f,VfhDset*d,int mask,bool w){ VfhObj*o=new VfhObj(); o->f=f; o->d=d; o->mask=mask; o->writable=w; return vfh_new(o,VFH_DSET); }
static inline VfhDset*vfh_findd(VfhFile*f,const char*name){ for(int i=0;i<f->nd;++i) if(!strcmp(f->d[i]->name,name)) return f->d[i]; return 0; }
static inline hid_t H5Dcreate2(hid_t file,const char*name,hid_t type,hid_t space,hid_t,hid_t,hid_t){ VfhObj*o=vfh_get(file,VFH_FILE),*s=vfh_get(space,VFH_SPACE); VF_ASSERT(o->writable,"data sets are created in writable files"); long key=type; for(int i=0;i<s->rank;++i) key=key*31+s->dims[i];
  if(vfh_coll(o->mask,4,name,key)){ if(vfh_findd(o->f,name)) VF_ASSERT(false,"every data set of a file has a name of its own"); VfhDset*d=new VfhDset(); vfh_name(d->name,name); d->type=type; d->rank=s->rank; d->n=1; for(int i=0;i<s->rank;++i){ d->dims[i]=s->dims[i]; d->n*=s->dims[i]; } d->data=new unsigned char[d->n*vfh_size(type)+1](); VF_ASSERT(o->f->nd<8,"data sets of the model"); o->f->d[o->f->nd++]=d; }
  return vfh_dset(o->f,vfh_findd(o->f,name),o->mask,true); }
static inline hid_t H5Dopen2(hid_t file,const char*name,hid_t){ VfhObj*o=vfh_get(file,VFH_FILE); VfhDset*d=vfh_findd(o->f,name); if(!d) return -1; return vfh_dset(o->f,d,o->mask,o->writable); }
#define H5Dcreate H5Dcreate2
#define H5Dopen H5Dopen2
#define H5Acreate H5Acreate2
static inline htri_t H5Lexists(hid_t file,const char*name,hid_t){ return vfh_findd(vfh_get(file,VFH_FILE)->f,name)!=0; }
static inline herr_t H5Dclose(hid_t d){ vfh_get(d,VFH_DSET)->ref--; return 0; }
static inline hid_t H5Dget_space(hid_t h){ VfhObj*d=vfh_get(h,VFH_DSET); VfhObj*o=new VfhObj(); o->rank=d->d->rank; for(int i=0;i<o->rank;++i) o->dims[i]=d->d->dims[i]; return vfh_new(o,VFH_SPACE); }
// the k-th selected element of a space, as offset in elements; -1 past the end
static inline long vfh_count(const VfhObj*s){ long n=1; for(int i=0;i<s->rank;++i) n*=s->hyper?s->count[i]:s->dims[i]; return n; }
static inline long vfh_elem(const VfhObj*s,long k){ long off=0,mul=1; for(int i=s->rank-1;i>=0;--i){ long c=s->hyper?s->count[i]:s->dims[i]; off+=mul*(k%c+(s->hyper?s->start[i]:0)); k/=c; mul*=s->dims[i]; } return off; }
static inline void vfh_xfer(VfhObj*d,hid_t type,hid_t mem,hid_t file,unsigned char*buf,bool write){ VF_ASSERT(type==d->d->type,"data is transferred with the element type of the data set"); VfhObj whole=VfhObj(); whole.rank=d->d->rank; for(int i=0;i<whole.rank;++i) whole.dims[i]=d->d->dims[i];
  VfhObj*f=file==H5S_ALL?&whole:vfh_get(file,VFH_SPACE),*m=mem==H5S_ALL?f:vfh_get(mem,VFH_SPACE); for(int i=0;i<f->rank;++i) VF_ASSERT(f->rank==d->d->rank&&f->dims[i]==d->d->dims[i],"the file selection is one of the data set"); long n=vfh_count(f); VF_EQ(vfh_count(m),n,"as many elements in memory as in the file"); long sz=vfh_size(type);
  for(long k=0;k<n;++k){ unsigned char*a=d->d->data+vfh_elem(f,k)*sz,*b=buf+vfh_elem(m,k)*sz; if(write) memcpy(a,b,sz); else memcpy(b,a,sz); } }
static inline herr_t H5Dwrite(hid_t h,hid_t type,hid_t mem,hid_t file,hid_t dxpl,const void*buf){ VfhObj*d=vfh_get(h,VFH_DSET); VF_ASSERT(d->writable,"written files are writable"); if(vfh_collective(dxpl)) vfh_coll(d->mask,5,d->d->name,0); vfh_xfer(d,type,mem,file,(unsigned char*)buf,true); return 0; }
static inline herr_t H5Dread(hid_t h,hid_t type,hid_t mem,hid_t file,hid_t dxpl,void*buf){ VfhObj*d=vfh_get(h,VFH_DSET); if(vfh_collective(dxpl)) vfh_coll(d->mask,6,d->d->name,0); vfh_xfer(d,type,mem,file,(unsigned char*)buf,false); return 0; }
static inline VfhAttr*vfh_finda(VfhDset*d,const char*name){ for(int i=0;i<d->nattr;++i) if(!strcmp(d->attr[i]->name,name)) return d->attr[i]; return 0; }
static inline hid_t H5Acreate2(hid_t h,const char*name,hid_t type,hid_t space,hid_t,hid_t){ VfhObj*d=vfh_get(h,VFH_DSET),*s=vfh_get(space,VFH_SPACE); long n=vfh_count(s);
  if(vfh_coll(d->mask,7,name,(long)type+n)){ if(vfh_finda(d->d,name)) VF_ASSERT(false,"every attribute of a data set has a name of its own"); VfhAttr*a=new VfhAttr(); vfh_name(a->name,name); a->type=type; a->n=n; a->data=new unsigned char[n*vfh_size(type)+1](); VF_ASSERT(d->d->nattr<4,"attributes of the model"); d->d->attr[d->d->nattr++]=a; }
  VfhObj*o=new VfhObj(); o->a=vfh_finda(d->d,name); o->mask=d->mask; return vfh_new(o,VFH_ATTR); }
static inline herr_t H5Awrite(hid_t h,hid_t type,const void*buf){ VfhObj*o=vfh_get(h,VFH_ATTR); VF_ASSERT(type==o->a->type,"attributes are written with their type"); bool first=vfh_coll(o->mask,8,o->a->name,0); if(first){ memcpy(o->a->data,buf,o->a->n*vfh_size(type)); o->a->written=true; } return 0; }
static inline herr_t H5Aclose(hid_t h){ vfh_get(h,VFH_ATTR)->ref--; return 0; }
