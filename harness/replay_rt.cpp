// Native runtime for the vf_* interface: replays a solver model (values in call order) against the code
// compiled by the project's own compiler.  Exit codes: 0 run completed, 77 assertion failed, 78 an assumption
// does not hold for these inputs, anything else (sanitizer report, signal, uncaught exception) is a crash.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <malloc.h>
#include <ucontext.h>
#include <unistd.h>
static std::vector<unsigned long long> vals; static size_t pos=0;
static long clip(long v,long lo,long hi){ return v<lo?lo:v>hi?hi:v; }
static unsigned long long nextv(){ return pos<vals.size()?vals[pos++]:0ull; }
extern "C" {
int vf_int(const char*,int lo,int hi){ bool have=pos<vals.size(); int v=(int)nextv(); if(!have) v=(int)clip(0,lo,hi); if(v<lo||v>hi){ printf("ASSUME-FAIL range\n"); fflush(stdout); _exit(78);} return v; }
long vf_long(const char*,long lo,long hi){ bool have=pos<vals.size(); long v=(long)nextv(); if(!have) v=clip(0,lo,hi); if(v<lo||v>hi){ printf("ASSUME-FAIL range\n"); fflush(stdout); _exit(78);} return v; }
signed char vf_byte(const char*n,signed char lo,signed char hi){ bool have=pos<vals.size(); signed char v=(signed char)nextv(); if(!have) v=(signed char)clip(0,lo,hi); if(v<lo||v>hi){ printf("ASSUME-FAIL range\n"); fflush(stdout); _exit(78);} return v; }
int vf_choose(const char*n,int lo,int hi){ return vf_int(n,lo,hi); }
double vf_double(const char*){ unsigned long long b=nextv(); double d; memcpy(&d,&b,8); return d; }
uint64_t vf_bits64(const char*){ return nextv(); }
void vf_assume(int c){ if(!c){ printf("ASSUME-FAIL\n"); fflush(stdout); _exit(78); } }
void vf_assert_(int c,const char*m){ if(!c){ printf("ASSERT-FAIL %s\n",m); fflush(stdout); _exit(77); } }
void vf_assert_eq_(long a,long b,const char*m){ vf_assert_(a==b,m); }
void vf_assert_eqd_(long a,long b,const char*m){ double x,y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); vf_assert_(a==b||(x!=x&&y!=y),m); }
void vf_reach(const char*){}
long vf_concretize(long v){ return v; }
void vf_observe(long v){ printf("OBS %lu\n",(unsigned long)v); }
void vf_log(const char*m,long v){ printf("LOG %s %ld\n",m,v); }
int vf_is_symbolic_run(void){ return 0; }
unsigned long vf_block_size(const void*p){ return malloc_usable_size((void*)p); }
int vf_format_double(char*b,double d){ return snprintf(b,64,"%.17g",d); }
// co-operative processes
struct Co { ucontext_t c; bool done=false; void(*f)(void*); void*a; };
static std::vector<Co*> cos; static ucontext_t mainc; static int curco=0;   // 0 = main
static void tramp(int i){ Co*c=cos[i-1]; c->f(c->a); c->done=true; for(;;) vf_yield(); }
int vf_spawn(void(*f)(void*),void*a){ Co*c=new Co; c->f=f;c->a=a; getcontext(&c->c); size_t sz=1<<20; c->c.uc_stack.ss_sp=malloc(sz); c->c.uc_stack.ss_size=sz; c->c.uc_link=nullptr; cos.push_back(c); makecontext(&c->c,(void(*)())tramp,1,(int)cos.size()); return (int)cos.size(); }
void vf_yield(void){ int n=(int)cos.size()+1; int me=curco; for(int i=1;i<=n;++i){ int k=(me+i)%n; if(k==me) return; if(k!=0&&cos[k-1]->done) continue; curco=k; swapcontext(me?&cos[me-1]->c:&mainc,k?&cos[k-1]->c:&mainc); return; } }
int vf_alive(void){ int n=0; for(auto*c:cos) n+=!c->done; return n; }
}
int main(int argc,char**argv){ if(argc>1){ FILE*f=fopen(argv[1],"r"); unsigned long long v; while(f&&fscanf(f,"%llu",&v)==1) vals.push_back(v); if(f) fclose(f); } vf_main(); printf("DONE\n"); fflush(stdout); _exit(0); }
