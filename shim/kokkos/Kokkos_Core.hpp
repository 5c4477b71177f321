// A model of the parts of Kokkos that Schnek uses: reference counted views in host memory and parallel loops that run their iterations in any order.
#pragma once
#include <memory>
#include <string>
#include <cstddef>
#include <cstring>
#include <type_traits>
extern "C" int vf_choose(const char*,int,int);
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
namespace Kokkos {
struct LayoutRight {}; struct LayoutLeft {}; struct HostSpace {};
struct Serial {}; typedef Serial DefaultExecutionSpace; typedef Serial DefaultHostExecutionSpace;
template<class T> struct IndexType { typedef T type; };
template<unsigned N> struct Rank { static const unsigned rank=N; };
namespace Impl {
template<class T> struct Data { typedef T value; static const int rank=0; };
template<class T> struct Data<T*> { typedef typename Data<T>::value value; static const int rank=Data<T>::rank+1; };
template<class...P> struct Left { static const bool value=false; };
template<class F,class...P> struct Left<F,P...> { static const bool value=std::is_same<F,LayoutLeft>::value||Left<P...>::value; };
template<class...P> struct Index { typedef long type; };
template<class F,class...P> struct Index<F,P...> : Index<P...> {};
template<class T,class...P> struct Index<IndexType<T>,P...> { typedef T type; };
template<class...P> struct RankOf { static const unsigned value=1; };
template<class F,class...P> struct RankOf<F,P...> : RankOf<P...> {};
template<unsigned N,class...P> struct RankOf<Rank<N>,P...> { static const unsigned value=N; };
}
template<class D,class...P> class View {
 public:
  typedef typename Impl::Data<D>::value value_type; static const int rank=Impl::Data<D>::rank;
 private:
  std::shared_ptr<value_type> data_; size_t n_[rank]; size_t s_[rank];
 public:
  View(){ for(int d=0;d<rank;++d){ n_[d]=0; s_[d]=0; } }
  template<class...N> explicit View(const std::string&,N...n){ static_assert(sizeof...(N)==rank,"one extent per dimension"); size_t x[]={(size_t)n...}; size_t t=1; for(int d=0;d<rank;++d) n_[d]=x[d]; if(Impl::Left<P...>::value){ for(int d=0;d<rank;++d){ s_[d]=t; t*=n_[d]; } } else { for(int d=rank-1;d>=0;--d){ s_[d]=t; t*=n_[d]; } } value_type*p=new value_type[t](); data_=std::shared_ptr<value_type>(p,[](value_type*q){ delete[] q; }); }
  template<class...I> value_type& operator()(I...i) const { static_assert(sizeof...(I)==rank,"one index per dimension"); size_t x[]={(size_t)i...}; size_t o=0; for(int d=0;d<rank;++d) o+=x[d]*s_[d]; return data_.get()[o]; }
  value_type*data() const { return data_.get(); } bool is_allocated() const { return (bool)data_; } size_t stride(size_t d) const { return s_[d]; } size_t extent(size_t d) const { return n_[d]; } size_t size() const { size_t t=1; for(int d=0;d<rank;++d) t*=n_[d]; return t; } long use_count() const { return data_.use_count(); }
};
template<class...P> struct RangePolicy { typedef typename Impl::Index<P...>::type I; I lo,hi; RangePolicy(I l,I h):lo(l),hi(h){} };
template<class...P> struct MDRangePolicy { static const int rank=Impl::RankOf<P...>::value; typedef typename Impl::Index<P...>::type I; I lo[rank],hi[rank]; template<class A,class B> MDRangePolicy(const A&l,const B&h){ for(int d=0;d<rank;++d){ lo[d]=l[d]; hi[d]=h[d]; } } };
template<class...P,class F> void parallel_for(const std::string&,const RangePolicy<P...>&p,const F&f){ typedef typename RangePolicy<P...>::I I; bool rev=vf_choose("order",0,1)!=0; I n=p.hi-p.lo; for(I k=0;k<n;++k) f((I)(rev?p.hi-1-k:p.lo+k)); }
namespace Impl { template<class F,class I,size_t...S> void call(const F&f,const I*x,std::index_sequence<S...>){ f(x[S]...); } }
template<class...P,class F> void parallel_for(const std::string&,const MDRangePolicy<P...>&p,const F&f){ typedef MDRangePolicy<P...> M; typedef typename M::I I; const int N=M::rank; int order=vf_choose("order",0,2); I x[N]; bool any=true; for(int d=0;d<N;++d){ x[d]=0; if(p.hi[d]<=p.lo[d]) any=false; } if(!any) return;
  for(;;){ I y[N]; for(int d=0;d<N;++d) y[d]=order==1?p.hi[d]-1-x[d]:p.lo[d]+x[d]; Impl::call(f,y,std::make_index_sequence<N>()); if(order==2){ int d=0; for(;d<N;++d){ if(++x[d]<p.hi[d]-p.lo[d]) break; x[d]=0; } if(d==N) return; } else { int d=N-1; for(;d>=0;--d){ if(++x[d]<p.hi[d]-p.lo[d]) break; x[d]=0; } if(d<0) return; } } }
template<class P,class F> void parallel_for(const P&p,const F&f){ parallel_for(std::string(),p,f); }
inline void fence(){} inline void initialize(){} inline void finalize(){}
}
