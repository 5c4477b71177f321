// Harness interface.  Under the symbolic executor these are symbolic inputs / solver-decided assertions;
// in a native replay build they read a counterexample (values in call order) and check it concretely.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int vf_int(const char*name,int lo,int hi);           // any int in [lo,hi]
long vf_long(const char*name,long lo,long hi);
signed char vf_byte(const char*name,signed char lo,signed char hi);
int vf_choose(const char*name,int lo,int hi);        // as vf_int, but the executor splits into one path per value
double vf_double(const char*name);                   // any 64-bit pattern
uint64_t vf_bits64(const char*name);
void vf_assume(int);
void vf_assert_(int,const char*);
void vf_assert_eq_(long,long,const char*);
void vf_assert_eqd_(long,long,const char*);
void vf_reach(const char*);
long vf_concretize(long);
void vf_observe(long);
void vf_log(const char*,long);
int vf_is_symbolic_run(void);
unsigned long vf_block_size(const void*p);           // bytes from p to the end of its heap block
int vf_format_double(char*buf,double);                  // %.17g
int vf_spawn(void(*)(void*),void*); void vf_yield(void); int vf_alive(void);
}
#define VF_S2(x) #x
#define VF_S1(x) VF_S2(x)
#define VF_ASSERT(c,msg) vf_assert_((c)?1:0,msg " [" __FILE_NAME__ ":" VF_S1(__LINE__) "]")
#define VF_EQ(a,b,msg) vf_assert_eq_((long)(a),(long)(b),msg " [" __FILE_NAME__ ":" VF_S1(__LINE__) "]")
#ifndef __FILE_NAME__
#define __FILE_NAME__ __FILE__
#endif
extern "C" void vf_main();
static inline long vf_bits(double d){ long u; __builtin_memcpy(&u,&d,8); return u; }
// equality of doubles: same bit pattern, or both not a number
#define VF_EQD(a,b,msg) vf_assert_eqd_(vf_bits(a),vf_bits(b),msg " [" __FILE_NAME__ ":" VF_S1(__LINE__) "]")
