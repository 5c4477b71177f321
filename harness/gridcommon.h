#pragma once
#include "vf.h"
#include "grid/grid.hpp"
#include <cstring>
#include <utility>
using namespace schnek;
#ifndef RANK
#define RANK 2
#endif
#ifndef STORE
#define STORE 0
#endif
#if STORE==0
#define STORAGE SingleArrayGridStorage
#elif STORE==1
#define STORAGE SingleArrayGridStorageFortran
#else
#define STORAGE LazyArrayGridStorage
#endif
typedef Array<int,RANK> Idx;
typedef Range<int,RANK> Rng;
static inline uint64_t bitsOf(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
template<class G,size_t...I> auto& callRef(G&g,const Idx&p,std::index_sequence<I...>){ return g(p[I]...); }
template<class G,size_t...I> auto callVal(const G&g,const Idx&p,std::index_sequence<I...>){ return g(p[I]...); }
typedef std::make_index_sequence<RANK> Seq;
// reference layout: linear position of offset vector off in an array of extents n
static inline long layout(const long*off,const long*n){
  long p=0;
#if STORE==1
  for(int d=RANK-1;d>=0;--d) p=p*n[d]+off[d];
#else
  for(int d=0;d<RANK;++d) p=p*n[d]+off[d];
#endif
  return p;
}
