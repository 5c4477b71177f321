// Feeds a deck text to the real scanner and parser.
#pragma once
#include "vf.h"
#include "parser/parser.hpp"
#include "parser/parsertoken.hpp"
#include "variables/block.hpp"
#include "variables/blockparameters.hpp"
#include "variables/dependencies.hpp"
#ifndef VF_SYMBOLIC
#include <sstream>
#endif
using namespace schnek;
#ifdef VF_SYMBOLIC
// std::istream::read/gcount over a memory text (the only stream operations the scanner uses)
static struct VfText { const char*p; size_t n,at; alignas(16) char obj[512]; } vfText;
extern "C" void*_ZNSi4readEPcl(void*self,char*p,long n){ long k=0; while(k<n&&vfText.at<vfText.n) p[k++]=vfText.p[vfText.at++]; *(long*)((char*)self+8)=k; return self; }
struct DeckStream { DeckStream(const std::string&s){ vfText.p=s.data(); vfText.n=s.size(); vfText.at=0; } std::istream&get(){ return *reinterpret_cast<std::istream*>(vfText.obj); } };
#else
struct DeckStream { std::istringstream s; DeckStream(const std::string&t):s(t){} std::istream&get(){ return s; } };
#endif
