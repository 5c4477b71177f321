// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding, linear normalisation and
// interval analysis.  Every symbolic value the engine manipulates is one of these nodes.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <stdexcept>

enum Op : uint8_t {
  O_CONST, O_VAR, O_SUM, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FUNO, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF,
  O_FEXT, O_FTRUNC, O_FFLOOR, O_FCEIL, O_FTRUNCI, O_FRINT, O_FROUND, O_FSQRT, O_UF, O_UMULOVF, O_SMULOVF
};
typedef __int128 i128;
struct Expr {
  Op op; uint8_t w; bool hasFP=false, hasUF=false;
  uint32_t id=0; uint64_t c=0;                 // const value | extract offset | var index | uf id
  std::vector<Expr*> k;
  std::vector<uint64_t> co;                    // O_SUM coefficients (constant term in c)
  int64_t lo=0, hi=0;                          // signed interval of the value
  std::vector<uint32_t> vars;                  // sorted variable indices
  size_t h=0;
};
struct VarInfo { std::string name; uint8_t w; bool undef; };

inline uint64_t mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }
inline double asD(uint64_t b){ double d; memcpy(&d,&b,8); return d; }
inline uint64_t fromD(double d){ uint64_t b; memcpy(&b,&d,8); return b; }
inline float asF(uint64_t b){ uint32_t x=(uint32_t)b; float d; memcpy(&d,&x,4); return d; }
inline uint64_t fromF(float d){ uint32_t b; memcpy(&b,&d,4); return b; }

struct EHash{ size_t operator()(const Expr*e)const{return e->h;} };
struct EEq{ bool operator()(const Expr*a,const Expr*b)const{ return a->op==b->op&&a->w==b->w&&a->c==b->c&&a->k==b->k&&a->co==b->co; } };

struct ExprPool {
  std::unordered_set<Expr*,EHash,EEq> tab;
  std::vector<Expr*> all; std::vector<VarInfo> vars; std::vector<std::string> ufs;
  std::vector<std::pair<int64_t,int64_t>> varRange;

  Expr* intern(Expr&t){
    size_t h=(size_t)t.op*1000003u+t.w; h=h*1000003u^(size_t)t.c*0x9E3779B97F4A7C15ull;
    for(auto*x:t.k) h=h*1000003u^(x->id*2654435761u+1);
    for(auto x:t.co) h=h*1000003u^(size_t)x;
    t.h=h;
    auto it=tab.find(&t); if(it!=tab.end()) return *it;
    Expr*e=new Expr(std::move(t)); e->id=all.size(); all.push_back(e);
    for(auto*x:e->k){ e->hasFP|=x->hasFP; e->hasUF|=x->hasUF; }
    if(e->op>=O_FADD && e->op<=O_FSQRT) e->hasFP=true;
    if(e->op==O_UF) e->hasUF=true;
    if(e->op==O_VAR) e->vars={ (uint32_t)e->c };
    else if(e->k.size()==1) e->vars=e->k[0]->vars;
    else for(auto*x:e->k){ if(x->vars.empty()) continue; if(e->vars.empty()){e->vars=x->vars;continue;}
        if(e->vars==x->vars) continue; std::vector<uint32_t> r; std::set_union(e->vars.begin(),e->vars.end(),x->vars.begin(),x->vars.end(),std::back_inserter(r)); e->vars.swap(r);}    
    range(e); tab.insert(e); return e;
  }
  static int64_t smin(unsigned w){ return w>=64?INT64_MIN:-(1ll<<(w-1)); }
  static int64_t smax(unsigned w){ return w>=64?INT64_MAX:(1ll<<(w-1))-1; }
  void range(Expr*e){
    unsigned w=e->w; e->lo=smin(w); e->hi=smax(w); if(w==1){e->lo=-1;e->hi=0;}
    auto set=[&](i128 a,i128 b){ if(a>=smin(w)&&b<=smax(w)){ e->lo=(int64_t)a; e->hi=(int64_t)b; } };
    switch(e->op){
      case O_CONST: e->lo=e->hi=sx(e->c,w); break;
      case O_VAR: if(e->c<varRange.size()){ e->lo=varRange[e->c].first; e->hi=varRange[e->c].second; } break;
      case O_SUM: { i128 a=sx(e->c,w),b=a; for(size_t i=0;i<e->k.size();++i){ i128 q=sx(e->co[i],w); i128 x=q*e->k[i]->lo,y=q*e->k[i]->hi; if(x>y)std::swap(x,y); a+=x;b+=y; } set(a,b); break; }
      case O_MUL: { i128 v[4]={(i128)e->k[0]->lo*e->k[1]->lo,(i128)e->k[0]->lo*e->k[1]->hi,(i128)e->k[0]->hi*e->k[1]->lo,(i128)e->k[0]->hi*e->k[1]->hi}; set(*std::min_element(v,v+4),*std::max_element(v,v+4)); break; }
      case O_ZEXT: if(e->k[0]->lo>=0) set(e->k[0]->lo,e->k[0]->hi); else set(0,(i128)mask(e->k[0]->w)); break;
      case O_SEXT: set(e->k[0]->lo,e->k[0]->hi); break;
      case O_EXTRACT: if(e->c==0 && e->k[0]->lo>=smin(w) && e->k[0]->hi<=smax(w)) set(e->k[0]->lo,e->k[0]->hi); else if(e->c>0&&(e->c+w==e->k[0]->w||e->k[0]->lo>=0)) set(e->k[0]->lo>>e->c,e->k[0]->hi>>e->c); break;
      case O_ITE: set(std::min(e->k[1]->lo,e->k[2]->lo),std::max(e->k[1]->hi,e->k[2]->hi)); break;
      case O_AND: for(int i=0;i<2;++i) if(e->k[i]->lo>=0){ if(e->lo<0){e->lo=0;e->hi=e->k[i]->hi;} else e->hi=std::min(e->hi,e->k[i]->hi);} break;
      case O_SDIV: if(e->k[1]->lo>0||e->k[1]->hi<-1){ i128 v[4]={e->k[0]->lo/e->k[1]->lo,e->k[0]->lo/e->k[1]->hi,e->k[0]->hi/e->k[1]->lo,e->k[0]->hi/e->k[1]->hi}; set(*std::min_element(v,v+4),*std::max_element(v,v+4)); } break;
      case O_UDIV: if(e->k[0]->lo>=0&&e->k[1]->lo>0) set(e->k[0]->lo/e->k[1]->hi,e->k[0]->hi/e->k[1]->lo); break;
      case O_UREM: if(e->k[1]->lo>0) set(0,e->k[1]->hi-1); break;
      case O_SREM: if(e->k[1]->lo>0) set(e->k[0]->lo>=0?0:-(e->k[1]->hi-1),e->k[1]->hi-1); break;
      case O_LSHR: if(e->k[1]->op==O_CONST && e->k[1]->c<w){ if(e->k[0]->lo>=0) set(e->k[0]->lo>>e->k[1]->c,e->k[0]->hi>>e->k[1]->c); else if(e->k[1]->c>0) set(0,(i128)(mask(w)>>e->k[1]->c)); } break;
      case O_ASHR: if(e->k[1]->op==O_CONST && e->k[1]->c<w) set(e->k[0]->lo>>e->k[1]->c,e->k[0]->hi>>e->k[1]->c); break;
      case O_CONCAT: if(e->k[0]->op==O_CONST && e->k[0]->c==0){ if(e->k[1]->lo>=0) set(e->k[1]->lo,e->k[1]->hi); else set(0,(i128)mask(e->k[1]->w)); } break;
      case O_FTOSI: break;
      default: break;
    }
  }
  Expr* K(uint64_t v,unsigned w){ Expr t; t.op=O_CONST; t.w=w; t.c=v&mask(w); return intern(t); }
  Expr* T(){ return K(1,1);} Expr* F(){return K(0,1);} Expr* B(bool b){return K(b,1);}
  Expr* var(const std::string&n,unsigned w,bool undef,int64_t lo,int64_t hi){ vars.push_back({n,(uint8_t)w,undef}); varRange.push_back({lo,hi}); Expr t; t.op=O_VAR;t.w=w;t.c=vars.size()-1; return intern(t);}  
  Expr* var(const std::string&n,unsigned w,bool undef=false){ return var(n,w,undef,w==1?-1:smin(w),w==1?0:smax(w)); }
  static bool isc(Expr*e){return e->op==O_CONST;}
  Expr* mk(Op op,unsigned w,std::vector<Expr*> k,uint64_t c=0){ Expr t; t.op=op;t.w=w;t.k=std::move(k);t.c=c; return intern(t);}  

  // ---- linear sums
  typedef std::vector<std::pair<Expr*,uint64_t>> Lin;
  static void addLin(Lin&l,uint64_t&c,Expr*e,uint64_t q,unsigned w){
    if(e->op==O_CONST){ c+=q*e->c; return; }
    if(e->op==O_SUM){ c+=q*e->c; for(size_t i=0;i<e->k.size();++i) l.push_back({e->k[i],q*e->co[i]}); return; }
    l.push_back({e,q});
  }
  Expr* fromLin(Lin l,uint64_t c,unsigned w){
    std::sort(l.begin(),l.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
    Expr t; t.op=O_SUM;t.w=w; c&=mask(w);
    for(size_t i=0;i<l.size();){ Expr*e=l[i].first; uint64_t q=0; while(i<l.size()&&l[i].first==e){q+=l[i].second;++i;} q&=mask(w); if(q){t.k.push_back(e);t.co.push_back(q);} }
    if(t.k.empty()) return K(c,w);
    if(t.k.size()==1&&t.co[0]==1&&c==0) return t.k[0];
    t.c=c; Expr* r=intern(t);
    if(r->lo==r->hi && w>1) return K((uint64_t)r->lo,w);
    return r;
  }
  Expr* add(Expr*a,Expr*b){ if(isc(a)&&isc(b))return K(a->c+b->c,a->w); if(a->w==1) return xor_(a,b); Lin l;uint64_t c=0; addLin(l,c,a,1,a->w); addLin(l,c,b,1,a->w); return fromLin(l,c,a->w);}  
  Expr* sub(Expr*a,Expr*b){ if(isc(a)&&isc(b))return K(a->c-b->c,a->w); if(a->w==1) return xor_(a,b); Lin l;uint64_t c=0; addLin(l,c,a,1,a->w); addLin(l,c,b,~0ull,a->w); return fromLin(l,c,a->w);}  
  Expr* mulc(Expr*a,uint64_t q){ Lin l;uint64_t c=0; addLin(l,c,a,q,a->w); return fromLin(l,c,a->w);}  
  Expr* mul(Expr*a,Expr*b){
    if(isc(a)&&isc(b))return K(a->c*b->c,a->w);
    if(isc(b)) return mulc(a,b->c); if(isc(a)) return mulc(b,a->c);
    if(a->w==1) return and_(a,b);
    // distribute a product over a short sum so that equal products cancel
    if(a->op==O_SUM && a->k.size()<=4 && b->op!=O_SUM){ Lin l;uint64_t c=0; for(size_t i=0;i<a->k.size();++i) addLin(l,c,mul(a->k[i],b),a->co[i],a->w); addLin(l,c,b,a->c,a->w); return fromLin(l,c,a->w);}    
    if(b->op==O_SUM && b->k.size()<=4 && a->op!=O_SUM) return mul(b,a);
    if(a->op==O_SUM && b->op==O_SUM && a->k.size()<=3 && b->k.size()<=3){ Lin l;uint64_t c=0; for(size_t i=0;i<a->k.size();++i) addLin(l,c,mul(a->k[i],b),a->co[i],a->w); addLin(l,c,b,a->c,a->w); return fromLin(l,c,a->w);}    
    if(a->id>b->id) std::swap(a,b);
    return mk(O_MUL,a->w,{a,b});
  }
  Expr* udiv(Expr*a,Expr*b){ if(isc(b)&&b->c){ if(isc(a))return K(a->c/b->c,a->w); if(b->c==1)return a; if((b->c&(b->c-1))==0) return lshr(a,K(__builtin_ctzll(b->c),a->w)); } return mk(O_UDIV,a->w,{a,b}); }
  // exact division of a linear term: (c*x + k)/d when every coefficient is divisible and no wrap is possible
  bool exactDiv(Expr*a,int64_t d,Expr*&out){ if(a->op!=O_SUM||d<=0) return false; i128 lo=sx(a->c,a->w),hi=lo; for(size_t i=0;i<a->k.size();++i){ int64_t q=sx(a->co[i],a->w); if(q%d) return false; i128 x=(i128)q*a->k[i]->lo,y=(i128)q*a->k[i]->hi; if(x>y)std::swap(x,y); lo+=x;hi+=y;} if(lo<smin(a->w)||hi>smax(a->w)) return false; if(sx(a->c,a->w)%d) return false; Lin l; for(size_t i=0;i<a->k.size();++i) l.push_back({a->k[i],(uint64_t)(sx(a->co[i],a->w)/d)}); out=fromLin(l,(uint64_t)(sx(a->c,a->w)/d),a->w); return true; }
  Expr* sdiv(Expr*a,Expr*b){ if(isc(b)&&b->c){ if(isc(a)){ int64_t y=sx(b->c,b->w),x=sx(a->c,a->w); if(y==-1) return K(0-(uint64_t)x,a->w); return K((uint64_t)(x/y),a->w);} if(b->c==1)return a; Expr*o; if(exactDiv(a,sx(b->c,b->w),o)) return o; if(a->lo>=0&&sx(b->c,b->w)>0) return udiv(a,b);} return mk(O_SDIV,a->w,{a,b}); }
  Expr* urem(Expr*a,Expr*b){ if(isc(b)&&b->c){ if(isc(a))return K(a->c%b->c,a->w); if(b->c==1)return K(0,a->w); if(a->lo>=0&&(i128)a->hi<(i128)b->c) return a; if((b->c&(b->c-1))==0) return and_(a,K(b->c-1,a->w)); } return mk(O_UREM,a->w,{a,b}); }
  Expr* srem(Expr*a,Expr*b){ if(isc(b)&&b->c){ if(isc(a)){ int64_t y=sx(b->c,b->w),x=sx(a->c,a->w); if(y==-1||y==1) return K(0,a->w); return K((uint64_t)(x%y),a->w);} if(a->lo>=0&&sx(b->c,b->w)>0) return urem(a,b); } return mk(O_SREM,a->w,{a,b}); }
  Expr* not_(Expr*a){ return xor_(a,K(~0ull,a->w)); }
  Expr* and_(Expr*a,Expr*b){ if(isc(a))std::swap(a,b); if(isc(b)){ if(isc(a))return K(a->c&b->c,a->w); if(b->c==0)return b; if(b->c==mask(a->w))return a;
      // low mask -> zext(extract)
      uint64_t m=b->c; if((m&(m+1))==0){ unsigned n=__builtin_popcountll(m); if(a->lo>=0&&(uint64_t)a->hi<=m) return a; return zext(extract(a,0,n),a->w);} 
      if(a->op==O_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0],and_(a->k[1],b),and_(a->k[2],b)); }
    if(a==b)return a; if(a->w==1 && (a==not_(b))) return F(); if(a->id>b->id)std::swap(a,b); return mk(O_AND,a->w,{a,b}); }
  Expr* or_(Expr*a,Expr*b){ if(isc(a))std::swap(a,b); if(isc(b)){ if(isc(a))return K(a->c|b->c,a->w); if(b->c==0)return a; if(b->c==mask(a->w))return b; }
    if(a==b)return a; if(a->w==1 && (a==not_(b))) return T();
    if(a->w>1){ // disjoint zext|shl -> concat
      Expr*x=a,*y=b; for(int r=0;r<2;++r,std::swap(x,y)) if(x->op==O_ZEXT && y->op==O_CONCAT && isc(y->k[1]) && y->k[1]->c==0 && y->k[1]->w>=x->k[0]->w) return concat(y->k[0],zext(x->k[0],y->k[1]->w)); }
    if(a->id>b->id)std::swap(a,b); return mk(O_OR,a->w,{a,b}); }
  Expr* xor_(Expr*a,Expr*b){ if(isc(a))std::swap(a,b); if(isc(b)){ if(isc(a))return K(a->c^b->c,a->w); if(b->c==0)return a; if(a->op==O_XOR&&isc(a->k[1])) return xor_(a->k[0],K(a->k[1]->c^b->c,a->w));
      if(a->w==1){ if(a->op==O_SLT) return sle(a->k[1],a->k[0]); if(a->op==O_SLE) return slt(a->k[1],a->k[0]); if(a->op==O_ULT) return ule(a->k[1],a->k[0]); if(a->op==O_ULE) return ult(a->k[1],a->k[0]); if(a->op==O_ITE) return ite(a->k[0],not_(a->k[1]),not_(a->k[2])); }
      return mk(O_XOR,a->w,{a,b}); }
    if(a==b)return K(0,a->w); if(a->id>b->id)std::swap(a,b); return mk(O_XOR,a->w,{a,b}); }
  Expr* shl(Expr*a,Expr*b){ if(isc(b)){ if(b->c>=a->w) return K(0,a->w); if(isc(a)) return K(a->c<<b->c,a->w); if(b->c==0) return a; if(a->op==O_ZEXT && a->k[0]->w+b->c<=a->w){ Expr*t=concat(a->k[0],K(0,b->c)); return zext(t,a->w);} return mulc(a,1ull<<b->c);} return mk(O_SHL,a->w,{a,b}); }
  Expr* lshr(Expr*a,Expr*b){ if(isc(b)){ if(b->c>=a->w) return K(0,a->w); if(isc(a)) return K(a->c>>b->c,a->w); if(b->c==0)return a; Expr*o; if(a->lo>=0 && exactDiv(a,(int64_t)(1ull<<b->c),o)) return o; return zext(extract(a,b->c,a->w-b->c),a->w);} return mk(O_LSHR,a->w,{a,b}); }
  Expr* ashr(Expr*a,Expr*b){ if(isc(b)){ if(b->c>=a->w) return ashr(a,K(a->w-1,a->w)); if(isc(a)) return K((uint64_t)(sx(a->c,a->w)>>b->c),a->w); if(b->c==0)return a; Expr*o; if(b->c<62&&exactDiv(a,(int64_t)(1ull<<b->c),o)) return o; if(a->lo>=0) return lshr(a,b); return sext(extract(a,b->c,a->w-b->c),a->w);} return mk(O_ASHR,a->w,{a,b}); }
  Expr* extract(Expr*a,unsigned off,unsigned w){
    if(off==0&&w==a->w) return a;
    if(isc(a)) return K(a->c>>off,w);
    if(a->op==O_EXTRACT) return extract(a->k[0],a->c+off,w);
    if(a->op==O_CONCAT){ unsigned lw=a->k[1]->w; if(off+w<=lw) return extract(a->k[1],off,w); if(off>=lw) return extract(a->k[0],off-lw,w); return concat(extract(a->k[0],0,off+w-lw),extract(a->k[1],off,lw-off)); }
    if(a->op==O_ZEXT){ unsigned kw=a->k[0]->w; if(off+w<=kw) return extract(a->k[0],off,w); if(off>=kw) return K(0,w); if(off==0) return zext(a->k[0],w); return zext(extract(a->k[0],off,kw-off),w); }
    if(a->op==O_SEXT){ unsigned kw=a->k[0]->w; if(off+w<=kw) return extract(a->k[0],off,w); if(off==0) return sext(a->k[0],w); if(off<kw) return sext(extract(a->k[0],off,kw-off),w); return sext(extract(a->k[0],kw-1,1),w); }
    if(a->op==O_ITE && (isc(a->k[1])||isc(a->k[2]))) return ite(a->k[0],extract(a->k[1],off,w),extract(a->k[2],off,w));
    if(off==0 && a->op==O_SUM){ Lin l; uint64_t c=a->c; for(size_t i=0;i<a->k.size();++i) addLin(l,c,extract(a->k[i],0,w),a->co[i],w); if(w==1) return mk(O_EXTRACT,w,{a},off); return fromLin(l,c,w);}    
    if(off==0 && a->op==O_MUL && w>1) return mul(extract(a->k[0],0,w),extract(a->k[1],0,w));
    if(off==0 && (a->op==O_AND)) return and_(extract(a->k[0],0,w),extract(a->k[1],0,w));
    return mk(O_EXTRACT,w,{a},off);
  }
  Expr* concat(Expr*h,Expr*l){ unsigned w=h->w+l->w; assert(w<=64);
    if(isc(h)&&isc(l)) return K((h->c<<l->w)|l->c,w);
    if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->k[0]==l->k[0]&&h->c==l->c+l->w) return extract(h->k[0],l->c,w);
    if(l->op==O_CONCAT && h->op==O_EXTRACT && l->k[0]->op==O_EXTRACT && l->k[0]->k[0]==h->k[0] && h->c==l->k[0]->c+l->k[0]->w) return concat(concat(h,l->k[0]),l->k[1]);
    if(isc(h)&&h->c==0) return zext(l,w);
    if(h->op==O_EXTRACT && l==h->k[0] && false) return h;
    return mk(O_CONCAT,w,{h,l}); }
  Expr* zext(Expr*a,unsigned w){ if(w==a->w)return a; if(isc(a))return K(a->c,w); if(a->op==O_ZEXT) return zext(a->k[0],w);
    if(a->lo>=0 && a->w>1) return sextLin(a,w);
    return mk(O_ZEXT,w,{a}); }
  // sign extension distributed over non-wrapping linear terms
  Expr* sextLin(Expr*a,unsigned w){
    if(a->op==O_SUM){ i128 lo=sx(a->c,a->w),hi=lo; bool ok=true; for(size_t i=0;i<a->k.size();++i){ i128 q=sx(a->co[i],a->w); i128 x=q*a->k[i]->lo,y=q*a->k[i]->hi; if(x>y)std::swap(x,y); lo+=x;hi+=y;} ok=lo>=smin(a->w)&&hi<=smax(a->w);
      if(ok){ Lin l; uint64_t c=(uint64_t)sx(a->c,a->w); for(size_t i=0;i<a->k.size();++i) addLin(l,c,sextLin(a->k[i],w),(uint64_t)sx(a->co[i],a->w),w); return fromLin(l,c,w);} }
    if(a->op==O_MUL){ i128 v[4]={(i128)a->k[0]->lo*a->k[1]->lo,(i128)a->k[0]->lo*a->k[1]->hi,(i128)a->k[0]->hi*a->k[1]->lo,(i128)a->k[0]->hi*a->k[1]->hi}; i128 lo=*std::min_element(v,v+4),hi=*std::max_element(v,v+4); if(lo>=smin(a->w)&&hi<=smax(a->w)) return mul(sextLin(a->k[0],w),sextLin(a->k[1],w)); }
    if(a->op==O_SEXT) return sext(a->k[0],w);
    if(a->op==O_EXTRACT && a->c==0 && a->k[0]->w==w && a->k[0]->lo>=smin(a->w) && a->k[0]->hi<=smax(a->w)) return a->k[0];
    if(isc(a)) return K((uint64_t)sx(a->c,a->w),w);
    if(a->op==O_ZEXT) return zext(a->k[0],w);
    if(a->op==O_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0],sext(a->k[1],w),sext(a->k[2],w));
    return mk(O_SEXT,w,{a});
  }
  Expr* sext(Expr*a,unsigned w){ if(w==a->w)return a; if(isc(a))return K((uint64_t)sx(a->c,a->w),w); if(a->op==O_SEXT) return sext(a->k[0],w); if(a->op==O_ZEXT) return zext(a->k[0],w); if(a->w==1) return ite(a,K(~0ull,w),K(0,w)); return sextLin(a,w); }
  Expr* ite(Expr*c,Expr*a,Expr*b){ if(isc(c)) return c->c?a:b; if(a==b) return a; if(a->w==1){ if(isc(a)&&isc(b)) return a->c?c:not_(c); if(isc(a)) return a->c?or_(c,b):and_(not_(c),b); if(isc(b)) return b->c?or_(not_(c),a):and_(c,a); }
    if(c->op==O_XOR&&isc(c->k[1])) return ite(c->k[0],b,a);
    if(b->op==O_ITE&&b->k[0]==c) b=b->k[2]; if(a->op==O_ITE&&a->k[0]==c) a=a->k[1]; if(a==b) return a;
    return mk(O_ITE,a->w,{c,a,b}); }
  std::unordered_map<uint64_t,Expr*> eqMemo;
  Expr* eq(Expr*a,Expr*b){
    if(a==b) return T(); if(isc(a)) std::swap(a,b);
    if(a->w>1&&b->op==O_ITE&&a->op!=O_ITE&&!isc(b)) std::swap(a,b);
    if(a->w>1&&a->op==O_ITE&&b->op!=O_ITE){ // push the comparison to the leaves (memoised over the DAG)
      uint64_t key=((uint64_t)a->id<<32)|b->id; auto it=eqMemo.find(key); if(it!=eqMemo.end()) return it->second;
      Expr*x=eq(a->k[1],b),*y=eq(a->k[2],b); Expr*r=ite(a->k[0],x,y); eqMemo[key]=r; return r; }
    if(isc(a)) return B(a->c==b->c);
    if(a->lo>b->hi||b->lo>a->hi) return F();
    if(a->w==1){ if(isc(b)) return b->c?a:not_(a); return not_(xor_(a,b)); }
    if(isc(b)){
      if(a->op==O_ZEXT){ if(b->c>mask(a->k[0]->w)) return F(); return eq(a->k[0],K(b->c,a->k[0]->w)); }
      if(a->op==O_SEXT){ int64_t v=sx(b->c,b->w); if(v<smin(a->k[0]->w)||v>smax(a->k[0]->w)) return F(); return eq(a->k[0],K((uint64_t)v,a->k[0]->w)); }
      if(a->op==O_ITE){ bool c1=isc(a->k[1]),c2=isc(a->k[2]); if(c1||c2){ Expr*x=eq(a->k[1],b),*y=eq(a->k[2],b); return ite(a->k[0],x,y);} }
      if(a->op==O_SUM&&a->k.size()==1&&(a->co[0]==1||a->co[0]==mask(a->w))){ return eq(a->k[0],a->co[0]==1?K(b->c-a->c,a->w):K(a->c-b->c,a->w)); }
      if(a->op==O_CONCAT){ return and_(eq(a->k[0],extract(b,a->k[1]->w,a->k[0]->w)),eq(a->k[1],extract(b,0,a->k[1]->w))); }
    } else {
      if(a->op==O_SUM||b->op==O_SUM){ Expr*d=sub(a,b); if(isc(d)) return B(d->c==0); if(d->op==O_SUM && d->c!=0){ // canonical: nonconst == const
            uint64_t c=d->c; Lin l; for(size_t i=0;i<d->k.size();++i) l.push_back({d->k[i],d->co[i]}); Expr*nc=fromLin(l,0,d->w); if(nc->lo>sx(0-c,d->w)||nc->hi<sx(0-c,d->w)) return F(); 
            if(nc->op!=O_SUM) return eq(nc,K(0-c,d->w)); } }
      if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return eq(a->k[0],b->k[0]);
      if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return eq(a->k[0],b->k[0]);
      if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->k[1]->w==b->k[1]->w) return and_(eq(a->k[0],b->k[0]),eq(a->k[1],b->k[1]));
      if(a->id>b->id) std::swap(a,b);
    }
    return mk(O_EQ,1,{a,b}); }
  Expr* slt(Expr*a,Expr*b){ if(a==b)return F(); if(isc(a)&&isc(b)) return B(sx(a->c,a->w)<sx(b->c,b->w)); if(a->hi<b->lo) return T(); if(a->lo>=b->hi) return F();
    if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return slt(a->k[0],b->k[0]);
    if(Expr*r=linCmp(a,b,true)) return r; return mk(O_SLT,1,{a,b}); }
  Expr* sle(Expr*a,Expr*b){ if(a==b)return T(); if(isc(a)&&isc(b)) return B(sx(a->c,a->w)<=sx(b->c,b->w)); if(a->hi<=b->lo) return T(); if(a->lo>b->hi) return F();
    if(a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->w==b->k[0]->w) return sle(a->k[0],b->k[0]);
    if(Expr*r=linCmp(a,b,false)) return r; return mk(O_SLE,1,{a,b}); }
  // a<b via the sign of the non-wrapping difference (decides lo+2 < lo+5)
  bool noWrap(Expr*e){ i128 lo,hi; if(e->op==O_SUM){ lo=hi=sx(e->c,e->w); for(size_t i=0;i<e->k.size();++i){ i128 q=sx(e->co[i],e->w); i128 x=q*e->k[i]->lo,y=q*e->k[i]->hi; if(x>y)std::swap(x,y); lo+=x;hi+=y;} return lo>=smin(e->w)&&hi<=smax(e->w);} return true; }
  Expr* linCmp(Expr*a,Expr*b,bool strict){ if(a->op!=O_SUM&&b->op!=O_SUM) return nullptr; if(!noWrap(a)||!noWrap(b)) return nullptr; if((i128)a->lo-b->hi<smin(a->w)||(i128)a->hi-b->lo>smax(a->w)) return nullptr; Expr*d=sub(a,b); if(!noWrap(d)) return nullptr; if(strict){ if(d->hi<0) return T(); if(d->lo>=0) return F(); } else { if(d->hi<=0) return T(); if(d->lo>0) return F(); }
    if(d->op==O_SUM){ // normalise:  terms  <  -const
      uint64_t c=d->c; Lin l; for(size_t i=0;i<d->k.size();++i) l.push_back({d->k[i],d->co[i]}); Expr*nc=fromLin(l,0,d->w); if(noWrap(nc) && sx(c,d->w)!=smin(d->w)){ Expr*kk=K(0-c,d->w); return mk(strict?O_SLT:O_SLE,1,{nc,kk}); } }
    return nullptr; }
  Expr* ult(Expr*a,Expr*b){ if(a==b)return F(); if(isc(a)&&isc(b)) return B(a->c<b->c); if(isc(b)&&b->c==0) return F(); if(isc(b)&&b->c==1) return eq(a,K(0,a->w)); if(a->lo>=0&&b->lo>=0&&a->w>1) return slt(a,b); if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->w==b->k[0]->w) return ult(a->k[0],b->k[0]);
     return mk(O_ULT,1,{a,b}); }
  Expr* ule(Expr*a,Expr*b){ if(a==b)return T(); if(isc(a)&&isc(b)) return B(a->c<=b->c); if(isc(a)&&a->c==0) return T(); if(isc(b)&&b->c==mask(b->w)) return T(); if(a->lo>=0&&b->lo>=0&&a->w>1) return sle(a,b); return mk(O_ULE,1,{a,b}); }
  // ---- floating point (operands are bit patterns of width 32/64)
  static uint64_t fbin(Op op,unsigned w,uint64_t a,uint64_t b){ if(w==64){ double x=asD(a),y=asD(b); volatile double r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:abort();} return fromD(r);} float x=asF(a),y=asF(b); volatile float r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:abort();} return fromF(r); }
  static double fval(unsigned w,uint64_t a){ return w==64?asD(a):(double)asF(a); }
  static bool fcmp(Op op,unsigned w,uint64_t a,uint64_t b){ double x=fval(w,a),y=fval(w,b); switch(op){case O_FEQ:return x==y;case O_FLT:return x<y;case O_FLE:return x<=y;case O_FUNO:return std::isnan(x)||std::isnan(y);default:abort();} }
  static uint64_t fun(Op op,unsigned w,uint64_t a){ double x=fval(w,a),r; switch(op){case O_FFLOOR:r=std::floor(x);break;case O_FCEIL:r=std::ceil(x);break;case O_FTRUNCI:r=std::trunc(x);break;case O_FRINT:r=std::nearbyint(x);break;case O_FROUND:r=std::round(x);break;case O_FSQRT: if(w==32) return fromF(std::sqrt(asF(a))); r=std::sqrt(x);break;default:abort();} return w==64?fromD(r):fromF((float)r); }
  static uint64_t ftoi(unsigned fw,uint64_t a,unsigned w,bool sg){ double x=fval(fw,a); if(std::isnan(x)) return sg?(1ull<<(w-1)):(w==64?1ull<<63:0); if(sg){ unsigned ww=w<32?32:w; double lim=std::ldexp(1.0,ww-1); if(!(x>-lim-1&&x<lim)&&!(x==-lim)) return ww>w?0:(1ull<<(w-1)); return (uint64_t)(int64_t)x & mask(w);} if(!(x>-1&&x<std::ldexp(1.0,w))) return 0; return x<9.2e18?(uint64_t)(int64_t)x&mask(w):(uint64_t)x; }
  static uint64_t itof(unsigned iw,uint64_t a,unsigned w,bool sg){ if(w==64) return fromD(sg?(double)sx(a,iw):(double)(a&mask(iw))); return fromF(sg?(float)sx(a,iw):(float)(a&mask(iw))); }
  // exact small-integer reasoning: a double that is the exact conversion of an integer expression with |v| < 2^50
  bool asInt(Expr*e,Expr*&iv){ if(e->w!=64) return false; if(e->op==O_SITOF && e->k[0]->w<=64 && e->k[0]->lo>-(1ll<<50) && e->k[0]->hi<(1ll<<50)){ iv=sext(e->k[0],64); return true; } if(isc(e)){ double d=asD(e->c); if(d==std::floor(d)&&std::fabs(d)<(double)(1ll<<50)&&!(d==0&&std::signbit(d))){ iv=K((uint64_t)(int64_t)d,64); return true; } } return false; }
  Expr* fbinop(Op op,Expr*a,Expr*b){ if(isc(a)&&isc(b)) return K(fbin(op,a->w,a->c,b->c),a->w);
    Expr*x,*y; if((op==O_FADD||op==O_FSUB||op==O_FMUL)&&asInt(a,x)&&asInt(b,y)){
      // integer-valued operands: exact integer arithmetic. A zero result of + and - of non-negative-zero integers is +0; products may give -0, so only when that is excluded
      Expr*r=op==O_FADD?add(x,y):op==O_FSUB?sub(x,y):mul(x,y);
      bool ok=noWrapBin(op,x,y); if(ok && op==O_FMUL) ok = (x->lo>0||x->hi<0||y->lo>=0) && (y->lo>0||y->hi<0||x->lo>=0);
      if(ok && r->lo>-(1ll<<50)&&r->hi<(1ll<<50)) return sitof(r,64); }
    if(op==O_FSUB&&isc(b)&&b->c==0) return a;               // x-(+0) == x for every x
    if(op==O_FSUB){ op=O_FADD; b=xor_(b,K(1ull<<(b->w-1),b->w)); }      // x-y is x+(-y) in IEEE arithmetic
    if((op==O_FADD||op==O_FMUL)&&a->id>b->id) std::swap(a,b);
    if(op==O_FMUL){ if(isc(a)) std::swap(a,b); if(isc(b)&&fval(b->w,b->c)==1.0) return a; }
    if(op==O_FDIV&&isc(b)&&fval(b->w,b->c)==1.0) return a;
    return mk(op,a->w,{a,b}); }
  bool noWrapBin(Op op,Expr*x,Expr*y){ i128 l,h; if(op==O_FADD){l=(i128)x->lo+y->lo;h=(i128)x->hi+y->hi;} else if(op==O_FSUB){l=(i128)x->lo-y->hi;h=(i128)x->hi-y->lo;} else { i128 v[4]={(i128)x->lo*y->lo,(i128)x->lo*y->hi,(i128)x->hi*y->lo,(i128)x->hi*y->hi}; l=*std::min_element(v,v+4);h=*std::max_element(v,v+4);} i128 L=((i128)1)<<50; return l>-L&&h<L; }
  // Dyadic view: a double whose value is provably the exact a*2^e (a: 64-bit integer expression, |a|<=2^53). IEEE
  // operations whose exact result is again of that form do not round, so comparisons and conversions of such values
  // are decided over integers. (The sign of a zero is not tracked: comparisons and conversions do not depend on it.)
  struct Dy{ Expr*a=nullptr; int e=0; bool ok()const{return a!=nullptr;} };
  std::unordered_map<uint32_t,Dy> dyMemo;
  static bool in53(i128 l,i128 h){ i128 L=((i128)1)<<53; return l>=-L&&h<=L; }
  Dy dyShift(Dy x,int e){ // same value with the smaller exponent e
    if(!x.ok()||e>x.e) return Dy(); int d=x.e-e; if(d==0) return x; if(d>52) return Dy(); i128 q=(i128)1<<d; if(!in53(q*x.a->lo,q*x.a->hi)) return Dy(); Dy r; r.a=mulc(x.a,(uint64_t)q); r.e=e; return r; }
  Dy dy(Expr*x){ if(x->w!=64||x->hasUF) return Dy(); auto it=dyMemo.find(x->id); if(it!=dyMemo.end()) return it->second; Dy r=dy0(x); if(r.ok()&&(r.e<-900||r.e>900||!in53(r.a->lo,r.a->hi))) r=Dy(); dyMemo[x->id]=r; return r; }
  Dy dy0(Expr*x){ Dy r;
    switch(x->op){
      case O_CONST: { double d=asD(x->c); if(!std::isfinite(d)) return r; if(d==0){ r.a=K(0,64); return r; } int ex; double m=std::frexp(d,&ex); int64_t i=(int64_t)std::ldexp(m,53); ex-=53; while(!(i&1)){ i/=2; ex++; } if(ex>0&&ex<=10&&std::llabs(i)<(1ll<<40)){ i*=1ll<<ex; ex=0; } r.a=K((uint64_t)i,64); r.e=ex; return r; }
      case O_SITOF: if(in53(x->k[0]->lo,x->k[0]->hi)){ r.a=sext(x->k[0],64); r.e=0; } return r;
      case O_XOR: if(isc(x->k[1])&&x->k[1]->c==(1ull<<63)){ Dy y=dy(x->k[0]); if(y.ok()){ r.a=mulc(y.a,~0ull); r.e=y.e; } } return r;
      case O_ZEXT: if(x->k[0]->w==63&&x->k[0]->op==O_EXTRACT&&x->k[0]->c==0&&x->k[0]->k[0]->w==64){ Dy y=dy(x->k[0]->k[0]); if(y.ok()){ r.a=y.a->lo>=0?y.a:ite(slt(y.a,K(0,64)),mulc(y.a,~0ull),y.a); r.e=y.e; } } return r;
      case O_ITE: { Dy p=dy(x->k[1]); if(!p.ok()) return r; Dy q=dy(x->k[2]); if(!q.ok()) return r; int e=std::min(p.e,q.e); p=dyShift(p,e); q=dyShift(q,e); if(p.ok()&&q.ok()){ r.a=ite(x->k[0],p.a,q.a); r.e=e; } return r; }
      case O_FADD: case O_FSUB: { Dy p=dy(x->k[0]); if(!p.ok()) return r; Dy q=dy(x->k[1]); if(!q.ok()) return r; int e=std::min(p.e,q.e); p=dyShift(p,e); q=dyShift(q,e); if(!p.ok()||!q.ok()) return r; i128 pl=p.a->lo,ph=p.a->hi,ql=q.a->lo,qh=q.a->hi; if(x->op==O_FSUB){ i128 t=ql; ql=-qh; qh=-t; }
        // both operands are below 2^53, so the 64-bit sum cannot wrap; exactness is judged on the normalised sum
        Expr*s=x->op==O_FADD?add(p.a,q.a):sub(p.a,q.a); if(in53(pl+ql,ph+qh)||in53(s->lo,s->hi)){ r.a=s; r.e=e; } return r; }
      case O_FMUL: { Dy p=dy(x->k[0]); if(!p.ok()) return r; Dy q=dy(x->k[1]); if(!q.ok()) return r; i128 v[4]={(i128)p.a->lo*q.a->lo,(i128)p.a->lo*q.a->hi,(i128)p.a->hi*q.a->lo,(i128)p.a->hi*q.a->hi}; if(in53(*std::min_element(v,v+4),*std::max_element(v,v+4))){ r.a=mul(p.a,q.a); r.e=p.e+q.e; } return r; }
      case O_FDIV: { Dy p=dy(x->k[0]); if(!p.ok()) return r; Dy q=dy(x->k[1]); if(!q.ok()||!isc(q.a)||q.a->c==0) return r; int64_t d=(int64_t)q.a->c; int e=q.e; while(d!=0&&d%2==0){ d/=2; e++; } Expr*n=p.a; if(d<0){ n=mulc(n,~0ull); d=-d; } Expr*o=nullptr; if(d==1) o=n; else if(isc(n)&&(int64_t)n->c%d==0) o=K((uint64_t)((int64_t)n->c/d),64); else if(!exactDiv(n,d,o)) return r; r.a=o; r.e=p.e-e; return r; }
      case O_FFLOOR: { Dy p=dy(x->k[0]); if(!p.ok()) return r; if(p.e>=0) return p; if(p.e<-60) return r; r.a=ashr(p.a,K((uint64_t)-p.e,64)); r.e=0; return r; }
      case O_FCEIL: { Dy p=dy(x->k[0]); if(!p.ok()) return r; if(p.e>=0) return p; if(p.e<-60) return r; r.a=mulc(ashr(mulc(p.a,~0ull),K((uint64_t)-p.e,64)),~0ull); r.e=0; return r; }
      case O_FTRUNCI: { Dy p=dy(x->k[0]); if(!p.ok()) return r; if(p.e>=0) return p; if(p.e<-60) return r; r.a=sdiv(p.a,K(1ull<<-p.e,64)); r.e=0; return r; }
      default: return r; } }
  static std::string show(Expr*e,int d=12){ static const char*n[]={"const","var","sum","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","ftosi","ftoui","sitof","uitof","fext","ftrunc","ffloor","fceil","ftrunci","frint","fround","fsqrt","uf","umulovf","smulovf"};
    if(e->op==O_CONST){ std::string r=std::to_string(sx(e->c,e->w)); if(e->w==64&&std::llabs((int64_t)e->c)>(1ll<<52)) r+="{"+std::to_string(asD(e->c))+"}"; return r; } if(e->op==O_VAR) return "v"+std::to_string(e->c); if(d==0) return "..."; std::string r=std::string("(")+n[e->op]+std::to_string(e->w); if(e->op==O_SUM||e->op==O_EXTRACT) r+=":"+std::to_string((int64_t)e->c); for(size_t i=0;i<e->k.size();++i){ r+=" "; if(e->op==O_SUM) r+=std::to_string((int64_t)e->co[i])+"*"; r+=show(e->k[i],d-1); } return r+")"; }
  Expr* dyTrunc(Dy p){ if(!p.ok()) return nullptr; if(p.e>0){ p=dyShift(p,0); if(!p.ok()) return nullptr; } if(p.e<0){ if(p.e<-60) return nullptr; return sdiv(p.a,K(1ull<<-p.e,64)); } return p.a; }
  // Exact tabulation: a floating-point comparison or conversion whose support is a few small-range integer variables
  // is replaced by a decision tree over those variables (every leaf computed with IEEE arithmetic).
  uint64_t (*evalHook)(ExprPool&,Expr*,const std::unordered_map<uint32_t,uint64_t>&)=nullptr; uint64_t tabLimit=4096;
  bool tabulable(Expr*e){ if(!evalHook||!e->hasFP||e->hasUF||e->vars.empty()||e->vars.size()>4) return false; double n=1; for(auto v:e->vars){ auto&r=varRange[v]; n*=(double)r.second-(double)r.first+1; if(n>tabLimit) return false; } return true; }
  Expr* varNode(uint32_t v){ Expr t; t.op=O_VAR; t.w=vars[v].w; t.c=v; return intern(t); }
  Expr* tabRec(Expr*e,size_t i,std::unordered_map<uint32_t,uint64_t>&m){
    if(i==e->vars.size()) return K(evalHook(*this,e,m),e->w);
    uint32_t v=e->vars[i]; auto r=varRange[v]; unsigned w=vars[v].w; std::vector<std::pair<int64_t,Expr*>> runs;
    for(int64_t x=r.first;x<=r.second;++x){ m[v]=(uint64_t)x&mask(w); Expr*t=tabRec(e,i+1,m); if(!runs.empty()&&runs.back().second==t) runs.back().first=x; else runs.push_back({x,t}); }
    Expr*out=runs.back().second; Expr*x=varNode(v); for(size_t j=runs.size()-1;j-->0;) out=ite(w==1?eq(x,K((uint64_t)runs[j].first,1)):sle(x,K((uint64_t)runs[j].first,w)),runs[j].second,out); return out; }
  Expr* tabulate(Expr*e){ if(!tabulable(e)) return e; std::unordered_map<uint32_t,uint64_t> m; return tabRec(e,0,m); }
  Expr* fcmpop(Op op,Expr*a,Expr*b){ return tabulate(fcmpop0(op,a,b)); }
  // trunc(fl(x/c)) == x/c (integer division) for integers |x| < 2^50 and constant c: a non-integral quotient is at least
  // 1/|c| away from the next integer, more than the rounding error
  Expr* ftosi(Expr*a,unsigned w){ Expr*x,*y; if(a->op==O_FDIV&&isc(a->k[1])&&asInt(a->k[0],x)&&asInt(a->k[1],y)&&isc(y)&&y->c!=0){ Expr*q=sdiv(x,y); if(q->lo>=smin(w)&&q->hi<=smax(w)) return w<64?extract(q,0,w):q; }
    if(!isc(a)){ Expr*q=dyTrunc(dy(a)); if(q&&q->lo>=smin(w)&&q->hi<=smax(w)) return w<64?extract(q,0,w):q; }
    return tabulate(ftosi0(a,w)); }
  Expr* ftoui(Expr*a,unsigned w){ return tabulate(ftoui0(a,w)); }
  Expr* fcmpop0(Op op,Expr*a,Expr*b){ if(isc(a)&&isc(b)) return B(fcmp(op,a->w,a->c,b->c));
     { Dy p=dy(a); if(p.ok()){ Dy q=dy(b); if(q.ok()){ if(op==O_FUNO) return F(); int e=std::min(p.e,q.e); p=dyShift(p,e); q=dyShift(q,e); if(p.ok()&&q.ok()) switch(op){case O_FEQ:return eq(p.a,q.a);case O_FLT:return slt(p.a,q.a);case O_FLE:return sle(p.a,q.a);default:return F();} } } }
     Expr*x,*y; if(asInt(a,x)&&asInt(b,y)){ switch(op){case O_FEQ:return eq(x,y);case O_FLT:return slt(x,y);case O_FLE:return sle(x,y);default:return F();} }
     if(op==O_FUNO){ auto nn=[&](Expr*e){return e->op==O_SITOF||e->op==O_UITOF||(isc(e)&&!std::isnan(fval(e->w,e->c)));}; if(nn(a)&&nn(b)) return F(); }
     if((op==O_FEQ||op==O_FUNO)&&a->id>b->id) std::swap(a,b); return mk(op,1,{a,b}); }
  Expr* funop(Op op,Expr*a){ if(isc(a)) return K(fun(op,a->w,a->c),a->w); Expr*x; if(op!=O_FSQRT&&asInt(a,x)) return a; return mk(op,a->w,{a}); }
  Expr* ftosi0(Expr*a,unsigned w){ if(isc(a)) return K(ftoi(a->w,a->c,w,true),w); if(a->op==O_SITOF && a->k[0]->lo>-(1ll<<50)&&a->k[0]->hi<(1ll<<50) && a->w==64 && a->k[0]->lo>=smin(w)&&a->k[0]->hi<=smax(w)) return a->k[0]->w>w?extract(a->k[0],0,w):sext(a->k[0],w); return mk(O_FTOSI,w,{a}); }
  Expr* ftoui0(Expr*a,unsigned w){ if(isc(a)) return K(ftoi(a->w,a->c,w,false),w); if(a->op==O_SITOF && a->k[0]->lo>=0&&a->k[0]->hi<(1ll<<50)&&a->w==64&&(w==64||a->k[0]->hi<=(int64_t)mask(w))) return a->k[0]->w>w?extract(a->k[0],0,w):zext(a->k[0],w); return mk(O_FTOUI,w,{a}); }
  Expr* sitof(Expr*a,unsigned w){ if(isc(a)) return K(itof(a->w,a->c,w,true),w); if(w==64&&a->w<64) a=sext(a,64); return mk(O_SITOF,w,{a}); }
  Expr* uitof(Expr*a,unsigned w){ if(isc(a)) return K(itof(a->w,a->c,w,false),w); if(a->lo>=0&&a->w>1) return sitof(a,w); if(w==64&&a->w<64) return sitof(zext(a,64),64); return mk(O_UITOF,w,{a}); }
  Expr* fext(Expr*a){ if(isc(a)) return K(fromD((double)asF(a->c)),64); return mk(O_FEXT,64,{a}); }
  Expr* ftrunc(Expr*a){ if(isc(a)) return K(fromF((float)asD(a->c)),32); return mk(O_FTRUNC,32,{a}); }
  Expr* uf(const std::string&n,unsigned w,std::vector<Expr*> k){ size_t i=0; for(;i<ufs.size();++i) if(ufs[i]==n) break; if(i==ufs.size()) ufs.push_back(n); return mk(O_UF,w,k,i); }

  // rebuild a node from new children (used by substitution)
  Expr* rebuild(Expr*e,const std::vector<Expr*>&k){
    switch(e->op){
      case O_CONST: case O_VAR: return e;
      case O_SUM: { Lin l; uint64_t c=e->c; for(size_t i=0;i<k.size();++i) addLin(l,c,k[i],e->co[i],e->w); return fromLin(l,c,e->w);}      
      case O_MUL:return mul(k[0],k[1]); case O_UDIV:return udiv(k[0],k[1]); case O_SDIV:return sdiv(k[0],k[1]); case O_UREM:return urem(k[0],k[1]); case O_SREM:return srem(k[0],k[1]);
      case O_AND:return and_(k[0],k[1]); case O_OR:return or_(k[0],k[1]); case O_XOR:return xor_(k[0],k[1]); case O_SHL:return shl(k[0],k[1]); case O_LSHR:return lshr(k[0],k[1]); case O_ASHR:return ashr(k[0],k[1]);
      case O_EQ:return eq(k[0],k[1]); case O_ULT:return ult(k[0],k[1]); case O_ULE:return ule(k[0],k[1]); case O_SLT:return slt(k[0],k[1]); case O_SLE:return sle(k[0],k[1]);
      case O_CONCAT:return concat(k[0],k[1]); case O_EXTRACT:return extract(k[0],e->c,e->w); case O_ZEXT:return zext(k[0],e->w); case O_SEXT:return sext(k[0],e->w); case O_ITE:return ite(k[0],k[1],k[2]);
      case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:return fbinop(e->op,k[0],k[1]); case O_FEQ:case O_FLT:case O_FLE:case O_FUNO:return fcmpop(e->op,k[0],k[1]);
      case O_FTOSI:return ftosi(k[0],e->w); case O_FTOUI:return ftoui(k[0],e->w); case O_SITOF:return sitof(k[0],e->w); case O_UITOF:return uitof(k[0],e->w); case O_FEXT:return fext(k[0]); case O_FTRUNC:return ftrunc(k[0]);
      case O_FFLOOR:case O_FCEIL:case O_FTRUNCI:case O_FRINT:case O_FROUND:case O_FSQRT:return funop(e->op,k[0]);
      case O_UF:return mk(O_UF,e->w,k,e->c); case O_UMULOVF:case O_SMULOVF: return mulovf(e->op,k[0],k[1]);
    } return e; }
  Expr* mulovf(Op op,Expr*a,Expr*b){ if(isc(a)&&isc(b)){ if(op==O_UMULOVF){ unsigned __int128 p=(unsigned __int128)a->c*b->c; return B(p>mask(a->w)); } i128 p=(i128)sx(a->c,a->w)*sx(b->c,b->w); return B(p<smin(a->w)||p>smax(a->w)); }
     i128 v[4]={(i128)a->lo*b->lo,(i128)a->lo*b->hi,(i128)a->hi*b->lo,(i128)a->hi*b->hi}; i128 mx=*std::max_element(v,v+4),mn=*std::min_element(v,v+4);
     if(op==O_UMULOVF && a->lo>=0&&b->lo>=0&&mx<=(i128)mask(a->w)) return F(); if(op==O_SMULOVF && mn>=smin(a->w)&&mx<=smax(a->w)) return F(); return mk(op,1,{a,b}); }
};
