// Models of the libstdc++/libc functions that live in shared libraries (linked into the analysed module).
#include <cstddef>
#include <cstdint>
#include <new>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <functional>
#include <typeinfo>
extern "C" {
size_t strlen(const char*s){ size_t n=0; while(s[n]) ++n; return n; }
int memcmp(const void*a,const void*b,size_t n){ auto x=(const unsigned char*)a; auto y=(const unsigned char*)b; for(size_t i=0;i<n;++i) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){++a;++b;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ for(;n;--n,++a,++b){ if(*a!=*b) return (int)(unsigned char)*a-(int)(unsigned char)*b; if(!*a) return 0; } return 0; }
void* memchr(const void*s,int c,size_t n){ auto p=(const unsigned char*)s; for(size_t i=0;i<n;++i) if(p[i]==(unsigned char)c) return (void*)(p+i); return nullptr; }
}
namespace std {
  namespace __detail {
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
  void _List_node_base::_M_unhook() noexcept { _List_node_base*n=this->_M_next,*p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
  void _List_node_base::_M_transfer(_List_node_base* const f,_List_node_base* const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
  void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ auto t=x._M_next;x._M_next=y._M_next;y._M_next=t; t=x._M_prev;x._M_prev=y._M_prev;y._M_prev=t; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next;y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next;x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
  void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do { auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=t->_M_prev; } while(t!=this); }
  }
  typedef _Rb_tree_node_base RB;
  static RB* inc(RB*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { RB*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
  static RB* dec(RB*x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ RB*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { RB*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
  RB* _Rb_tree_increment(RB*x) throw(){ return inc(x); } const RB* _Rb_tree_increment(const RB*x) throw(){ return inc(const_cast<RB*>(x)); }
  RB* _Rb_tree_decrement(RB*x) throw(){ return dec(x); } const RB* _Rb_tree_decrement(const RB*x) throw(){ return dec(const_cast<RB*>(x)); }
  // unbalanced insertion/removal: ordering semantics are those of the library, balancing is not observable
  void _Rb_tree_insert_and_rebalance(const bool left,RB*x,RB*p,RB&h) throw(){ x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
  RB* _Rb_tree_rebalance_for_erase(RB* const z,RB&h) throw(){ RB*&root=h._M_parent; RB*&leftm=h._M_left; RB*&rightm=h._M_right; RB*y=z; RB*x=0; RB*xp=0; if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
    if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; }
    else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(leftm==z){ if(!z->_M_right) leftm=z->_M_parent; else { RB*m=x; while(m->_M_left) m=m->_M_left; leftm=m; } } if(rightm==z){ if(!z->_M_left) rightm=z->_M_parent; else { RB*m=x; while(m->_M_right) m=m->_M_right; rightm=m; } } }
    return y; }
  void __throw_out_of_range(const char*){ throw std::out_of_range(""); } void __throw_out_of_range_fmt(const char*,...){ throw std::out_of_range(""); }
  void __throw_length_error(const char*){ throw std::length_error(""); } void __throw_logic_error(const char*){ throw std::logic_error(""); }
  void __throw_bad_alloc(){ throw std::bad_alloc(); } void __throw_bad_array_new_length(){ throw std::bad_array_new_length(); } void __throw_bad_function_call(){ throw std::bad_function_call(); }
  void __throw_bad_cast(){ throw std::bad_cast(); } void __throw_invalid_argument(const char*){ throw std::invalid_argument(""); } void __throw_runtime_error(const char*){ throw std::runtime_error(""); }
}
template class std::basic_string<char>;
extern "C" { char __libc_single_threaded=1; }
// unordered containers (the bucket counts are not observable beyond iteration order), conversions of text
#include <unordered_map>
namespace std { namespace __detail {
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[]={2,5,11,13,29,59,127,257,541,1109,2357,5087,10273}; for(size_t q:p) if(q>=n){ _M_next_resize=q; return q; } _M_next_resize=n; return n; }
  pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize||ne+ni>nb){ size_t w=ne+ni; if(w<11) w=11; if(w<2*nb) w=2*nb; return make_pair(true,_M_next_bkt(w)); } return make_pair(false,(size_t)0); }
  } size_t _Hash_bytes(const void*p,size_t n,size_t seed){ size_t h=seed; for(size_t i=0;i<n;++i) h=(h^((const unsigned char*)p)[i])*0x100000001b3ull; return h; } }
extern "C" { static int vf_errno; int*__errno_location() noexcept { return &vf_errno; }
static bool vf_sp(char c){ return c==' '||(c>=9&&c<=13); }
static unsigned long long vf_strto(const char*s,char**e,int base,bool sgn,unsigned long long pos,unsigned long long negl){ const char*q=s; while(vf_sp(*q)) ++q; bool neg=false; if(*q=='-'||*q=='+') neg=*q++=='-'; if((base==0||base==16)&&q[0]=='0'&&(q[1]=='x'||q[1]=='X')){ q+=2; base=16; } else if(base==0) base=*q=='0'?8:10;
  bool any=false,over=false; unsigned long long u=0,lim=neg&&sgn?negl:pos; for(;;++q){ int d=*q>='0'&&*q<='9'?*q-'0':*q>='a'&&*q<='z'?*q-'a'+10:*q>='A'&&*q<='Z'?*q-'A'+10:99; if(d>=base) break; any=true; if(u>lim/base||u*base+d<u||u*base+d>lim) over=true; else u=u*base+d; }
  if(e) *e=(char*)(any?q:s); if(over){ vf_errno=34; return sgn?(neg?0-negl:pos):pos; } return neg?0-u:u; }
long strtol(const char*s,char**e,int b) noexcept { return (long)vf_strto(s,e,b,true,0x7fffffffffffffffull,0x8000000000000000ull); } long long strtoll(const char*s,char**e,int b) noexcept { return strtol(s,e,b); }
unsigned long strtoul(const char*s,char**e,int b) noexcept { return vf_strto(s,e,b,false,~0ull,0); } unsigned long long strtoull(const char*s,char**e,int b) noexcept { return strtoul(s,e,b); }
double strtod(const char*,char**) noexcept; float strtof(const char*s,char**e) noexcept { return (float)strtod(s,e); }
long lround(double d) noexcept { return (long)__builtin_round(d); } long long llround(double d) noexcept { return (long long)__builtin_round(d); } long lrint(double d) noexcept { return (long)__builtin_rint(d); }
char*strcpy(char*d,const char*s) noexcept { char*r=d; while((*d++=*s++)); return r; } char*strcat(char*d,const char*s) noexcept { strcpy(d+strlen(d),s); return d; }
char*strchr(const char*s,int c) noexcept { for(;;++s){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
int isdigit(int c) noexcept { return c>='0'&&c<='9'; } int isspace(int c) noexcept { return c==' '||(c>=9&&c<=13); } int isupper(int c) noexcept { return c>='A'&&c<='Z'; } int islower(int c) noexcept { return c>='a'&&c<='z'; } int isalpha(int c) noexcept { return isupper(c)||islower(c); } int isalnum(int c) noexcept { return isalpha(c)||isdigit(c); } int tolower(int c) noexcept { return isupper(c)?c+32:c; } int toupper(int c) noexcept { return islower(c)?c-32:c; } }
extern "C" { int pthread_mutex_lock(void*) noexcept { return 0; } int pthread_mutex_unlock(void*) noexcept { return 0; } int pthread_mutex_trylock(void*) noexcept { return 0; } int pthread_mutex_init(void*,void*) noexcept { return 0; } int pthread_mutex_destroy(void*) noexcept { return 0; }
double modf(double x,double*i) noexcept { *i=__builtin_trunc(x); return __builtin_copysign(x-*i,x); } }
