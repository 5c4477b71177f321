// C15: packing a container of references into a byte buffer and reading it back
#include "vf.h"
#include <cstring>
#include "grid/grid.hpp"
#include "util/databuffer.hpp"
#include <list>
#include <vector>
#include <cstring>
using namespace schnek;
#if EL==0
struct El { signed char a; int b; uint64_t c; };
static El any(){ El e; memset(&e,0,sizeof e); e.a=(signed char)vf_bits64("a"); e.b=(int)vf_bits64("b"); e.c=vf_bits64("c"); return e; }
static bool same(const El&x,const El&y){ return (x.a==y.a)&(x.b==y.b)&(x.c==y.c); }
#elif EL==1
typedef unsigned char El; static El any(){ return (El)vf_bits64("a"); } static bool same(const El&x,const El&y){ return x==y; }
#else
struct El { unsigned short v[3]; }; static El any(){ El e; for(int i=0;i<3;++i) e.v[i]=(unsigned short)vf_bits64("a"); return e; } static bool same(const El&x,const El&y){ return (x.v[0]==y.v[0])&(x.v[1]==y.v[1])&(x.v[2]==y.v[2]); }
#endif
typedef DataBuffer<El> DB;
template<class C> static void fill(C&c,El*v,int n){ for(int i=0;i<n;++i) c.push_back(&v[i]); }
extern "C" void vf_main(){
  El v[8]; DB out; int reps=vf_choose("reps",1,2);
  for(int r=0;r<reps;++r){
    int n=vf_choose("n",0,MAXN); for(int i=0;i<n;++i) v[i]=any();
    int kind=vf_choose("container",0,2);
    if(kind==0){ std::list<El*> c; fill(c,v,n); out.makeBuffer(c); }
    else if(kind==1){ std::vector<El*> c; fill(c,v,n); out.makeBuffer(c); }
    else { std::list<El> base(v,v+n); std::list<std::list<El>::iterator> c; for(auto it=base.begin();it!=base.end();++it) c.push_back(it); out.makeBuffer(c); }
    VF_ASSERT(out.getBuffer().getSize()==n*(long)sizeof(El),"the buffer is exactly as large as the packed elements");
    if(n) VF_ASSERT(vf_block_size(out.getBuffer().getRawData())>=n*sizeof(El),"the buffer's storage holds the packed elements");
    int k=0; for(auto it=out.begin();it!=out.end();++it){ VF_ASSERT(k<n,"reading back yields one element per packed element"); VF_ASSERT(same(*it,v[k]),"elements come back in order and unchanged"); ++k; }
    VF_ASSERT(k==n,"reading back yields one element per packed element");
    k=0; for(auto it=out.begin();it!=out.end();) { const El&e=*it++; VF_ASSERT(same(e,v[k]),"elements come back in order and unchanged"); ++k; } VF_ASSERT(k==n,"reading back yields one element per packed element");
    VF_ASSERT((out.begin()==out.end())==(n==0)&&out.begin()==out.begin()&&out.end()==out.end(),"iterators compare equal exactly at the same element");
    // transfer: the receiving side reads the bytes through a buffer of its own
    DB in; typedef DB::BufferType B; in.getBuffer().resize(B::IndexType(out.getBuffer().getDims(0))); for(int i=0;i<out.getBuffer().getDims(0);++i) in.getBuffer()(i)=out.getBuffer()(i);
    if(n){ int j=0, pick=vf_int("pick",0,n-1); bool ok=true; for(auto it=in.begin();it!=in.end();++it,++j) ok=ok&(!(j==pick)||same(*it,v[j])); VF_ASSERT(ok&&j==n,"a received buffer yields the elements that were packed"); vf_reach("data"); } else vf_reach("empty");
  }
}
