// Output streams under the symbolic executor: the functions of libstdc++ that put text into a stream record what they are given.
// (Native builds use the real streams.)
#ifdef VF_SYMBOLIC
struct VfText { int n; struct { int kind; long v; } t[4096]; char file[64]; int opens,closes,isopen; };
VfText vftext;
#define S void*
static S put(S s,int kind,long v){ if(vftext.n<4096){ vftext.t[vftext.n].kind=kind; vftext.t[vftext.n].v=v; } vftext.n++; return s; }
static S str(S s,const char*p,long n){ for(long i=0;i<n;++i) put(s,0,p[i]); return s; }
static long len(const char*p){ long n=0; while(p[n]) ++n; return n; }
#define F(name,label,...) S name(__VA_ARGS__) __asm__(label); S name(__VA_ARGS__)
F(o_i,"_ZNSolsEi",S s,int v){ return put(s,1,v); }
F(o_s,"_ZNSolsEs",S s,short v){ return put(s,1,v); }
F(o_j,"_ZNSolsEj",S s,unsigned v){ return put(s,1,v); }
F(o_l,"_ZNSolsEl",S s,long v){ return put(s,1,v); }
F(o_m,"_ZNSolsEm",S s,unsigned long v){ return put(s,1,(long)v); }
F(o_ml,"_ZNSo9_M_insertIlEERSoT_",S s,long v){ return put(s,1,v); }
F(o_mm,"_ZNSo9_M_insertImEERSoT_",S s,unsigned long v){ return put(s,1,(long)v); }
F(o_d,"_ZNSolsEd",S s,double v){ long u; __builtin_memcpy(&u,&v,8); return put(s,2,u); }
F(o_f,"_ZNSolsEf",S s,float w){ double v=w; long u; __builtin_memcpy(&u,&v,8); return put(s,2,u); }
F(o_md,"_ZNSo9_M_insertIdEERSoT_",S s,double v){ long u; __builtin_memcpy(&u,&v,8); return put(s,2,u); }
F(o_ins,"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",S s,const char*p,long n){ return str(s,p,n); }
F(o_pc,"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",S s,const char*p){ return str(s,p,len(p)); }
F(o_c,"_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c",S s,char c){ return put(s,0,c); }
F(o_put,"_ZNSo3putEc",S s,char c){ return put(s,0,c); }
F(o_write,"_ZNSo5writeEPKcl",S s,const char*p,long n){ return str(s,p,n); }
F(o_endl,"_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",S s){ return put(s,0,'\n'); }
F(o_flush,"_ZNSo5flushEv",S s){ return s; }
F(o_flush2,"_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",S s){ return s; }
F(o_man,"_ZNSolsEPFRSoS_E",S s,S(*f)(S)){ return f(s); }
struct Str { const char*p; unsigned long n; };
F(o_str,"_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE",S s,const Str*x){ return str(s,x->p,(long)x->n); }
static void fopen_(const char*name,int mode){ long n=len(name); if(n>63) n=63; for(long i=0;i<n;++i) vftext.file[i]=name[i]; vftext.file[n]=0; vftext.opens++; vftext.isopen++; vftext.n=0; if(!(mode&32)&&(mode&9)) put(0,3,0); /* the earlier contents of the file are kept */ }
void f_ctor(S) __asm__("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev"); void f_ctor(S){}
void f_dtor(S) __asm__("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev"); void f_dtor(S){ if(vftext.isopen){ vftext.isopen=0; vftext.closes++; } }
void f_open(S,const char*,int) __asm__("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode"); void f_open(S,const char*n,int m){ fopen_(n,m); }
void f_opens(S,const Str*,int) __asm__("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"); void f_opens(S,const Str*n,int m){ fopen_(n->p,m); }
void f_close(S) __asm__("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv"); void f_close(S){ if(vftext.isopen){ vftext.isopen=0; vftext.closes++; } }
#endif
