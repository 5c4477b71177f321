// boost::lexical_cast as used by Schnek: exact model for int/double/std::string when the code is executed
// symbolically (the real one goes through locale streams); the native replay uses the real header.
#ifndef VF_SYMBOLIC
#include_next <boost/lexical_cast.hpp>
#else
#ifndef VF_LEXICAL_CAST
#define VF_LEXICAL_CAST
#include <string>
#include <typeinfo>
#include <type_traits>
#include <cstdlib>
#include <cmath>
#include <vf.h>
#include <boost/type_traits.hpp>
#include <boost/function_types/result_type.hpp>
#include <boost/function_types/parameter_types.hpp>
namespace boost {
struct bad_lexical_cast : public std::bad_cast { const char*what() const noexcept override { return "bad lexical cast"; } };
namespace vf_lex {
inline std::string fromInt(long long v){ char b[24]; int n=0; bool neg=v<0; unsigned long long u=neg?0ull-(unsigned long long)v:(unsigned long long)v; do { b[n++]=char('0'+u%10); u/=10; } while(u); if(neg) b[n++]='-'; std::string r; while(n) r.push_back(b[--n]); return r; }
inline long long toInt(const std::string&s,long long lo,long long hi){ size_t i=0; bool neg=false; if(i<s.size()&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; ++i; } if(i==s.size()) throw bad_lexical_cast(); unsigned long long v=0; for(;i<s.size();++i){ if(s[i]<'0'||s[i]>'9') throw bad_lexical_cast(); v=v*10+(s[i]-'0'); if(v>(1ull<<40)) throw bad_lexical_cast(); } long long r=neg?-(long long)v:(long long)v; if(r<lo||r>hi) throw bad_lexical_cast(); return r; }
inline double toDouble(const std::string&s){ if(s.empty()||s[0]==' '||s[0]=='\t'||s[0]=='\n') throw bad_lexical_cast(); char*e; double d=strtod(s.c_str(),&e); if(*e||e!=s.c_str()+s.size()) throw bad_lexical_cast(); return d; }
inline std::string fromDouble(double d){ char b[64]; int n=vf_format_double(b,d); return std::string(b,n); }
template<class T,class S> struct conv;
template<class S> struct conv<std::string,S> { static std::string go(const S&s){ if constexpr(std::is_floating_point<S>::value) return fromDouble((double)s); else if constexpr(std::is_integral<S>::value) return fromInt((long long)s); else return std::string(s); } };
template<> struct conv<int,std::string> { static int go(const std::string&s){ return (int)toInt(s,-2147483648ll,2147483647ll); } };
template<> struct conv<double,std::string> { static double go(const std::string&s){ return toDouble(s); } };
template<class T> struct conv<T,T> { static T go(const T&t){ return t; } };
template<> struct conv<std::string,std::string> { static std::string go(const std::string&t){ return t; } };
}
template<class T,class S> inline T lexical_cast(const S&s){ return vf_lex::conv<T,S>::go(s); }
}
#endif
#endif
