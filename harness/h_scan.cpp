// C22: the tokens of every text PREFIX + N symbolic characters + SUFFIX (after PAD characters of white space), against a reference tokenizer.
#include "deck.h"
#include "parser/deckscanner.hpp"
#include "parser/deckgrammar.hpp"
#ifndef NSYM
#define NSYM 2
#endif
#ifndef PREFIX
#define PREFIX {""}
#endif
#ifndef SUFFIX
#define SUFFIX ""
#endif
#ifndef START
#define START ""
#endif
#ifndef PADLO
#define PADLO 0
#endif
#ifndef PADHI
#define PADHI 0
#endif
#ifndef FILL
#define FILL ' '
#endif
struct Tok { int kind; int from,len; int line; };
static char txt[700]; static int n; static Tok tk[300]; static int nt; static bool bad;
static inline bool al(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'; } static inline bool dg(char c){ return c>='0'&&c<='9'; }
static bool kw(int f,int l,const char*w){ int i=0; for(;w[i];++i) if(i>=l||txt[f+i]!=w[i]) return false; return i==l; }
static void put(int k,int f,int l,int line){ tk[nt].kind=k; tk[nt].from=f; tk[nt].len=l; tk[nt].line=line; ++nt; }
static void tokenize(){ int i=0,line=1; nt=0; bad=false;
  while(i<n){ char c=txt[i];
    if(al(c)){ int j=i+1; bool path=false; while(j<n&&(al(txt[j])||dg(txt[j])||txt[j]==':')){ ++j; } int l=j-i; (void)path;
      if(kw(i,l,"int")||kw(i,l,"integer")) put(INT_DECL,0,0,line); else if(kw(i,l,"float")||kw(i,l,"double")||kw(i,l,"real")) put(FLOAT_DECL,0,0,line); else if(kw(i,l,"string")) put(STRING_DECL,0,0,line); else put(IDENTIFIER,i,l,line); i=j; continue; }
    if(dg(c)||c=='.'){ int j=i; while(j<n&&dg(txt[j])) ++j; bool fl=false; if(j<n&&txt[j]=='.'){ fl=true; ++j; while(j<n&&dg(txt[j])) ++j; }
      if(j<n&&(txt[j]=='e'||txt[j]=='E')){ int k=j+1; if(k<n&&(txt[k]=='+'||txt[k]=='-')) ++k; if(k<n&&dg(txt[k])){ while(k<n&&dg(txt[k])) ++k; j=k; fl=true; } } put(fl?FLOAT:INTEGER,i,j-i,line); i=j; continue; }
    switch(c){
      case '=': put(EQUAL,0,0,line); ++i; break; case '{': put(LBRACE,0,0,line); ++i; break; case '}': put(RBRACE,0,0,line); ++i; break; case '(': put(LBRACKET,0,0,line); ++i; break; case ')': put(RBRACKET,0,0,line); ++i; break;
      case ';': put(SEMICOLON,0,0,line); ++i; break; case ',': put(COMMA,0,0,line); ++i; break; case '+': put(PLUS,0,0,line); ++i; break; case '-': put(MINUS,0,0,line); ++i; break; case '*': put(TIMES,0,0,line); ++i; break; case '^': put(EXPONENT,0,0,line); ++i; break;
      case '/': if(i+1<n&&txt[i+1]=='/'){ while(i<n&&txt[i]!='\n') ++i; } else if(i+1<n&&txt[i+1]=='*'){ i+=2; for(;;){ if(i>=n){ bad=true; return; } if(txt[i]=='*'&&i+1<n&&txt[i+1]=='/'){ i+=2; break; } if(txt[i]=='\n') ++line; ++i; } } else { put(DIVIDE,0,0,line); ++i; } break;
      case '\'': case '"': { int f=i+1,j=f; for(;;){ if(j>=n){ bad=true; return; } if(txt[j]==c) break; if(txt[j]=='\\'){ ++j; if(j>=n){ bad=true; return; } } if(txt[j]=='\n') ++line; ++j; } put(STRING,f,j-f,line); i=j+1; break; }
      case '\n': ++line; ++i; break;
      default: if(c>=0x21&&c<=0x7e){ bad=true; return; } ++i;
    } } }
extern "C" void vf_main(){
  static const char*pre[]=PREFIX; int np=sizeof(pre)/sizeof(pre[0]); int w=np>1?vf_choose("context",0,np-1):0; int pad=PADHI?vf_choose("padding",PADLO,PADHI):0; n=0;
  for(const char*p=START;*p;++p) txt[n++]=*p; for(int i=0;i<pad;++i) txt[n++]=FILL; for(const char*p=pre[w];*p;++p) txt[n++]=*p; for(int i=0;i<NSYM;++i) txt[n++]=(char)vf_byte("character",-128,127); for(const char*p=SUFFIX;*p;++p) txt[n++]=*p;
  tokenize();
  std::string s(txt,n); DeckStream ds(s); DeckScanner sc("deckname"); bool err=false; try { sc.scan(&ds.get()); } catch(ParserError&e){ err=true; VF_ASSERT(e.getFilename()=="deckname","the error names the file"); }
  VF_ASSERT(err==bad,"exactly the texts with characters that start no token, or that end inside a string or comment, are errors"); if(err){ vf_reach("error"); return; }
  const TokenList&l=sc.getTokens(); int k=0; for(TokenList::const_iterator it=l.begin();it!=l.end();++it,++k){
    VF_ASSERT(k<nt,"no extra token"); const Tok&t=tk[k]; VF_ASSERT(it->getToken()==t.kind,"kind of the token"); VF_ASSERT(it->getLine()==t.line,"line of the token"); VF_ASSERT(it->getFilename()=="deckname","file of the token");
    const std::string g=it->getString(); VF_ASSERT((int)g.size()==t.len,"length of the text of the token"); for(int i=0;i<t.len;++i) VF_EQ((unsigned char)g[i],(unsigned char)txt[t.from+i],"text of the token"); }
  VF_ASSERT(k==nt,"no token is missing"); vf_reach("tokens");
}
