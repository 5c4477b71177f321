// What a piece of code writes to a stream, compared with what it should write.  Numbers are compared as values, not digits.
#pragma once
#include "vf.h"
#include <ostream>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#ifdef VF_SYMBOLIC
struct VfText { int n; struct { int kind; long v; } t[4096]; char file[64]; int opens,closes,isopen; }; extern VfText vftext;
static char vf_streamMemory[1024]; static std::ostream&vf_stream(){ return *(std::ostream*)vf_streamMemory; }
#else
static std::ostringstream vf_stringStream; static std::ostream&vf_stream(){ return vf_stringStream; }
#endif
struct Expect { struct Tok { int kind; long v; double d; }; std::vector<Tok> t;
  void c(const std::string&s){ for(size_t i=0;i<s.size();++i){ Tok k={0,s[i],0}; t.push_back(k); } } void n(int v){ Tok k={1,v,0}; t.push_back(k); } void n(double v){ Tok k={2,vf_bits(v),v}; t.push_back(k); }
  std::string text() const { std::string r;
#ifndef VF_SYMBOLIC
    std::ostringstream o; for(const Tok&k:t){ if(k.kind==0) o<<(char)k.v; else if(k.kind==1) o<<(int)k.v; else o<<k.d; } r=o.str();
#endif
    return r; }
  void check(const char*) const {
#ifdef VF_SYMBOLIC
    check("",std::string());
#else
    check("",vf_stringStream.str());
#endif
  }
  void check(const char*,const std::string&written) const {
#ifdef VF_SYMBOLIC
    VF_EQ(vftext.n,(long)t.size(),"amount of text written"); for(size_t i=0;i<t.size();++i){ VF_EQ(vftext.t[i].kind,t[i].kind,"separators and numbers"); VF_EQ(vftext.t[i].v,t[i].v,"text written"); }
#else
    VF_ASSERT(written==text(),"text written");
#endif
  } };
// the plain characters written (no numbers); characters may be symbolic
static inline std::string vf_written(){
#ifdef VF_SYMBOLIC
  std::string r; for(int i=0;i<vftext.n;++i){ VF_EQ(vftext.t[i].kind,0,"only text"); r.push_back((char)vftext.t[i].v); } return r;
#else
  return vf_stringStream.str();
#endif
}
