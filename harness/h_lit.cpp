// C28: bibliography: constructors store every argument in its field, BibTeX output has exactly the non-empty fields, the manager merges per key
#include "textout.h"
#include "tools/literature.hpp"
using namespace schnek;
typedef LiteratureReference L;
enum F { address,annote,author,booktitle,chapter,crossref,edition,editor,eprint,howpublished,institution,journal,key,month,note,number,organization,pages,publisher,school,series,title,type,url,doi,volume,year,NF };
static const char*const NAME[NF]={"address","annote","author","booktitle","chapter","crossref","edition","editor","eprint","howpublished","institution","journal","key","month","note","number","organization","pages","publisher","school","series","title","type","url","doi","volume","year"};
static const char*const TYPES[13]={"article","book","booklet","inbook","incollection","inproceedings","manual","mastersthesis","misc","phdthesis","proceedings","techreport","unpublished"};
static std::string get(const L&r,int f){ switch(f){
 case address: return r.getAddress(); case annote: return r.getAnnote(); case author: return r.getAuthor(); case booktitle: return r.getBooktitle(); case chapter: return r.getChapter(); case crossref: return r.getCrossref(); case edition: return r.getEdition(); case editor: return r.getEditor(); case eprint: return r.getEprint(); case howpublished: return r.getHowpublished(); case institution: return r.getInstitution(); case journal: return r.getJournal(); case key: return r.getKey(); case month: return r.getMonth(); case note: return r.getNote(); case number: return r.getNumber(); case organization: return r.getOrganization(); case pages: return r.getPages(); case publisher: return r.getPublisher(); case school: return r.getSchool(); case series: return r.getSeries(); case title: return r.getTitle(); case type: return r.getType(); case url: return r.getUrl(); case doi: return r.getDoi(); case volume: return r.getVolume(); default: return r.getYear(); } }
static void set(L&r,int f,const std::string&v){ switch(f){
 case address: r.setAddress(v); break; case annote: r.setAnnote(v); break; case author: r.setAuthor(v); break; case booktitle: r.setBooktitle(v); break; case chapter: r.setChapter(v); break; case crossref: r.setCrossref(v); break; case edition: r.setEdition(v); break; case editor: r.setEditor(v); break; case eprint: r.setEprint(v); break; case howpublished: r.setHowpublished(v); break; case institution: r.setInstitution(v); break; case journal: r.setJournal(v); break; case key: r.setKey(v); break; case month: r.setMonth(v); break; case note: r.setNote(v); break; case number: r.setNumber(v); break; case organization: r.setOrganization(v); break; case pages: r.setPages(v); break; case publisher: r.setPublisher(v); break; case school: r.setSchool(v); break; case series: r.setSeries(v); break; case title: r.setTitle(v); break; case type: r.setType(v); break; case url: r.setUrl(v); break; case doi: r.setDoi(v); break; case volume: r.setVolume(v); break; default: r.setYear(v); } }
static std::string word(int n){ std::string s; for(int i=0;i<n;++i) s.push_back((char)vf_int("char",'A','Z')); return s; }
static void same(const std::string&a,const std::string&b,const char*what){ VF_EQ((long)a.size(),(long)b.size(),"length of a field"); for(size_t i=0;i<a.size();++i) VF_EQ(a[i],b[i],"characters of a field"); (void)what; }
// the expected values of the fields of a reference
struct Rec { std::string bibKey; int publ; std::string v[NF]; };
struct Entry { std::string type,key; std::vector<std::pair<std::string,std::string>> fields; };
static bool blank(char c){ return c==' '||c=='\n'||c=='\t'; }
// a BibTeX entry starting at i
static Entry entry(const std::string&s,size_t&i){ Entry e; VF_ASSERT(i<s.size()&&s[i]=='@',"an entry starts with @"); ++i; while(i<s.size()&&s[i]!='{') e.type+=s[i++]; ++i; while(i<s.size()&&s[i]!=','&&s[i]!='}'&&!blank(s[i])) e.key+=s[i++];
  for(;;){ while(i<s.size()&&blank(s[i])) ++i; VF_ASSERT(i<s.size(),"an entry ends with a closing brace"); if(s[i]=='}'){ ++i; return e; } VF_ASSERT(s[i]==',',"fields are separated by commas"); ++i; while(i<s.size()&&blank(s[i])) ++i; if(i<s.size()&&s[i]=='}') continue; std::string n,v; while(i<s.size()&&s[i]!='='&&!blank(s[i])) n+=s[i++]; while(i<s.size()&&blank(s[i])) ++i; VF_ASSERT(i+1<s.size()&&s[i]=='=',"a field has a value"); ++i; while(i<s.size()&&blank(s[i])) ++i; VF_ASSERT(i<s.size()&&s[i]=='{',"the value is in braces"); ++i; int depth=1; for(;;){ VF_ASSERT(i<s.size(),"the value ends"); if(s[i]=='{') ++depth; if(s[i]=='}'&&--depth==0) break; v+=s[i++]; } ++i; e.fields.push_back(std::make_pair(n,v)); } }
static void matches(const Entry&e,const Rec&r){ VF_ASSERT(e.type==TYPES[r.publ],"type of the entry"); same(e.key,r.bibKey,"key"); size_t n=0; for(int f=0;f<NF;++f) if(!r.v[f].empty()){ ++n; int found=0; for(const auto&x:e.fields) if(x.first==NAME[f]){ ++found; same(x.second,r.v[f],NAME[f]); } VF_EQ(found,1,"every field that is set appears once"); } VF_EQ((long)e.fields.size(),(long)n,"no field appears that is not set"); }
static void holds(const L&l,const Rec&r){ VF_EQ((int)l.getPublicationType(),r.publ,"publication type"); VF_ASSERT(l.getPublicationTypeString()==TYPES[r.publ],"name of the publication type"); same(l.getBibKey(),r.bibKey,"key"); for(int f=0;f<NF;++f) same(get(l,f),r.v[f],NAME[f]); }
#if MODE==0
// any reference is printed with exactly the fields that are set, and copies are equal
extern "C" void vf_main(){ Rec r; r.bibKey=word(2); int p=vf_choose("type",-1,12); r.publ=p<0?8:p; int what=vf_choose("what",0,2), f=vf_choose("field",0,NF-1); L l(r.bibKey); if(p>=0) l.setPublicationType((L::PublicationType)p); for(int k=0;k<NF;++k) if((what==0)==(k!=f)||what==2){ int n=what==2?(k==f?2:1):1; r.v[k]=word(n); set(l,k,r.v[k]); }
  holds(l,r); L c(l), d; d=l; if(what==1) set(l,f,"changed"); holds(c,r); holds(d,r); vf_stream()<<c; std::string s=vf_written(); size_t i=0; matches(entry(s,i),r); for(;i<s.size();++i) VF_ASSERT(blank(s[i]),"one entry is written"); vf_reach("entry"); }
#elif MODE==1
// constructors
static Rec r; static std::string a(int f,bool given=true){ if(given) r.v[f]=word(1); return r.v[f]; }
static void go(const L&l){ holds(l,r); L c(l); vf_stream()<<c; std::string s=vf_written(); size_t i=0; matches(entry(s,i),r); vf_reach("constructor"); }
#define A(f) std::string f##_=a(f);
#define O(f) std::string f##_=a(f,(int)n++<opt);
extern "C" void vf_main(){ r.bibKey=word(1); int n=0,opt=vf_choose("optional",0,1)?99:vf_choose("given",0,3); r.publ=vf_choose("type",0,12); std::string k=r.bibKey;
  switch(r.publ){
  case 0: { A(author) A(title) A(journal) A(year) O(volume) O(pages) O(number) O(month) O(note) O(key) if(opt==0) go(LiteratureArticle(k,author_,title_,journal_,year_)); else go(LiteratureArticle(k,author_,title_,journal_,year_,volume_,pages_,number_,month_,note_,key_)); break; }
  case 1: { A(author) A(editor) A(title) A(publisher) A(year) O(volume) O(number) O(series) O(address) O(edition) O(month) O(note) O(key) if(opt==0) go(LiteratureBook(k,author_,editor_,title_,publisher_,year_)); else go(LiteratureBook(k,author_,editor_,title_,publisher_,year_,volume_,number_,series_,address_,edition_,month_,note_,key_)); break; }
  case 2: { A(title) O(author) O(howpublished) O(address) O(month) O(year) O(note) O(key) if(opt==0) go(LiteratureBooklet(k,title_)); else go(LiteratureBooklet(k,title_,author_,howpublished_,address_,month_,year_,note_,key_)); break; }
  case 3: { A(author) A(editor) A(title) A(chapter) A(pages) A(publisher) A(year) O(volume) O(number) O(series) O(type) O(address) O(edition) O(month) O(note) O(key) if(opt==0) go(LiteratureInBook(k,author_,editor_,title_,chapter_,pages_,publisher_,year_)); else go(LiteratureInBook(k,author_,editor_,title_,chapter_,pages_,publisher_,year_,volume_,number_,series_,type_,address_,edition_,month_,note_,key_)); break; }
  case 4: { A(author) A(title) A(booktitle) A(publisher) A(year) O(editor) O(volume) O(number) O(series) O(type) O(chapter) O(pages) O(address) O(edition) O(month) O(note) O(key) if(opt==0) go(LiteratureInCollection(k,author_,title_,booktitle_,publisher_,year_)); else go(LiteratureInCollection(k,author_,title_,booktitle_,publisher_,year_,editor_,volume_,number_,series_,type_,chapter_,pages_,address_,edition_,month_,note_,key_)); break; }
  case 5: { A(author) A(title) A(booktitle) A(year) O(editor) O(volume) O(number) O(series) O(pages) O(address) O(month) O(organization) O(publisher) O(note) O(key) if(opt==0) go(LiteratureInProceedings(k,author_,title_,booktitle_,year_)); else go(LiteratureInProceedings(k,author_,title_,booktitle_,year_,editor_,volume_,number_,series_,pages_,address_,month_,organization_,publisher_,note_,key_)); break; }
  case 6: { A(title) O(author) O(organization) O(address) O(edition) O(year) O(publisher) O(note) O(key) if(opt==0) go(LiteratureManual(k,title_)); else go(LiteratureManual(k,title_,author_,organization_,address_,edition_,year_,publisher_,note_,key_)); break; }
  case 7: { A(author) A(title) A(school) A(year) O(type) O(address) O(month) O(note) O(key) if(opt==0) go(LiteratureMastersThesis(k,author_,title_,school_,year_)); else go(LiteratureMastersThesis(k,author_,title_,school_,year_,type_,address_,month_,note_,key_)); break; }
  case 8: { A(author) A(title) O(howpublished) O(month) O(year) O(note) O(key) if(opt==0) go(LiteratureMisc(k,author_,title_)); else go(LiteratureMisc(k,author_,title_,howpublished_,month_,year_,note_,key_)); break; }
  case 9: { A(author) A(title) A(school) A(year) O(type) O(address) O(month) O(note) O(key) if(opt==0) go(LiteraturePhdThesis(k,author_,title_,school_,year_)); else go(LiteraturePhdThesis(k,author_,title_,school_,year_,type_,address_,month_,note_,key_)); break; }
  case 10: { A(title) A(year) O(editor) O(volume) O(number) O(series) O(address) O(month) O(organization) O(publisher) O(note) O(key) if(opt==0) go(LiteratureProceedings(k,title_,year_)); else go(LiteratureProceedings(k,title_,year_,editor_,volume_,number_,series_,address_,month_,organization_,publisher_,note_,key_)); break; }
  case 11: { A(author) A(title) A(institution) A(year) O(type) O(number) O(address) O(month) O(note) O(key) if(opt==0) go(LiteratureTechReport(k,author_,title_,institution_,year_)); else go(LiteratureTechReport(k,author_,title_,institution_,year_,type_,number_,address_,month_,note_,key_)); break; }
  default: { A(author) A(title) A(note) A(year) O(month) O(key) if(opt==0) go(LiteratureUnpublished(k,author_,title_,note_,year_)); else go(LiteratureUnpublished(k,author_,title_,note_,year_,month_,key_)); } } }
#else
// the manager: any history of additions
struct Item { std::string key,desc[4]; int nd; Rec rec; };
static bool eq(const std::string&a,const std::string&b){ return a==b; }
extern "C" void vf_main(){ LiteratureManager&m=LiteratureManager::instance(); std::vector<Item> items; int nc=vf_choose("additions",0,ADDS);
  for(int c=0;c<nc;++c){ std::string k="K"+word(1), d=word(2); Rec r; r.bibKey=k; r.publ=vf_choose("type",0,1)?1:9; r.v[title]=word(2); L l(k); l.setPublicationType((L::PublicationType)r.publ); l.setTitle(r.v[title]); m.addReference(d,l);
    bool known=false; for(Item&it:items) if(!known&&eq(it.key,k)){ known=true; bool dup=false; for(int q=0;q<it.nd;++q) if(eq(it.desc[q],d)) dup=true; if(!dup) it.desc[it.nd++]=d; } if(!known){ Item it; it.key=k; it.nd=1; it.desc[0]=d; it.rec=r; items.push_back(it); } }
  std::string t=word(2),st=word(2),bib=word(2); m.setTitle(t); m.setSubtitle(st); VF_ASSERT(m.getTitle()==t&&m.getSubtitle()==st,"title and subtitle");
#if MODE==2
  m.writeBibTex(vf_stream()); std::string s=vf_written(); size_t i=0; std::vector<Entry> es; for(;;){ while(i<s.size()&&blank(s[i])) ++i; if(i>=s.size()) break; es.push_back(entry(s,i)); }
  VF_EQ((long)es.size(),(long)items.size()+1,"one entry per key"); int own=0; for(const Entry&e:es) if(e.key=="Schmitz2018"){ ++own; VF_ASSERT(e.type=="article","the entry of the library"); } VF_EQ(own,1,"the library itself is cited");
  for(const Item&it:items){ int found=0; for(const Entry&e:es) if(eq(e.key,it.key)){ ++found; matches(e,it.rec); } VF_EQ(found,1,"every key has an entry"); } vf_reach("bibtex");
#else
  m.writeInformation(vf_stream(),bib); std::string s=vf_written(); const std::string IT="\\item ",CI="\\cite{",B="\\begin{itemize}",E="\\end{itemize}";
  size_t b=s.find(B),e=s.find(E); VF_ASSERT(b!=std::string::npos&&e!=std::string::npos&&b<e,"a list of items"); std::string head=s.substr(0,b), tail=s.substr(e), body=s.substr(b+B.size(),e-b-B.size());
  VF_ASSERT(head.find("{"+t+"}")!=std::string::npos,"the title is written"); VF_ASSERT(head.find(st,head.find(t)+t.size())!=std::string::npos,"the subtitle is written"); VF_ASSERT(tail.find("\\bibliography{"+bib+"}")!=std::string::npos,"the bibliography file is named"); VF_ASSERT(head.find("\\begin{document}")!=std::string::npos&&tail.find("\\end{document}")!=std::string::npos,"the document is complete");
  std::vector<Item> got; size_t i=body.find(IT); while(i!=std::string::npos){ size_t nx=body.find(IT,i+1); std::string x=body.substr(i+IT.size(),(nx==std::string::npos?body.size():nx)-i-IT.size()); size_t c=x.find(CI); VF_ASSERT(c!=std::string::npos,"an item cites its reference"); Item it; it.nd=0; it.key=x.substr(c+CI.size(),x.find('}',c)-c-CI.size()); std::string l; for(size_t q=0;q<c;++q){ if(x[q]=='\n'){ if(it.nd<4) it.desc[it.nd]=l; it.nd++; l=""; } else l+=x[q]; } got.push_back(it); i=nx; }
  VF_EQ((long)got.size(),(long)items.size()+1,"one item per key"); int own=0; for(const Item&g:got) if(g.key=="Schmitz2018"){ ++own; VF_EQ(g.nd,1,"the library has one description"); } VF_EQ(own,1,"the library itself is listed");
  for(const Item&it:items){ int found=0; for(const Item&g:got) if(eq(g.key,it.key)){ ++found; VF_EQ(g.nd,it.nd,"every description is listed once"); for(int q=0;q<it.nd;++q){ int f=0; for(int w=0;w<g.nd&&w<4;++w) if(eq(g.desc[w],it.desc[q])) ++f; VF_EQ(f,1,"every description is listed"); } } VF_EQ(found,1,"every key is listed"); } vf_reach("information");
#endif
}
#endif
