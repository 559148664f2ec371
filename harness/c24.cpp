// C24: embedded templates, dumped templates and -templates-path are interchangeable
#include "tpl.h"
static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c","cxx.hpp","cxx.cpp","minimal.h","minimal_cxxeh.hpp","plugin.h","plugin.c"};
#ifdef FULL
#define PICK(n,name,x) sym_choice(n,name)
#else
#define PICK(n,name,x) ((x)%n)
#endif
#if MODE==0
extern "C" void harness_main(){
  static const char *const F[]={"minimal","minimal-c++","plugin","c","c++"}; unsigned f=sym_choice(5,"format"); bool body=f>=2,cxx=f==1||f==4; 
  TIn in; unsigned which=sym_choice(3,"input"); bool sep=sym_choice(2,"separate"),line=sym_choice(2,"line"),skip=PICK(2,"skip",which+sep); h_file("in.txt",t_input(which,skip,in));
  const char *dir=PICK(2,"dir",f+which)?"t":"t/u/"; std::string D=dir; if(D.back()!='/') D+='/'; if(PICK(2,"exists",which+line)) { h_dir("t"); if(D.size()>2) h_dir("t/u"); h_file((D+"c.h").c_str(),"old"); }
  std::vector<std::string> a={"in.txt",std::string("-format=")+F[f],"-no-date"}; if(skip) a.push_back("-param=skip"); if(line) a.push_back("-line"); if(sep){ a.push_back("-separate"); a.push_back("-force"); a.push_back("-out=o.h"); }
  std::string hn=sep&&body&&cxx?"o.hpp":"o.h",bn=cxx?"o.cpp":"o.c"; auto get=[&](Run &r){ h_observe("err",r.err); h_assert(r.status==0,"refused"); std::string o=r.out; if(sep){ o+=h_read(hn.c_str()); if(body) o+=h_read(bn.c_str()); } return o; };
  Run r1=h_run(a,"",4000000000ul); std::string w=t_rep(get(r1),"\"<built-in>/","\"");
  Run dr=h_run({std::string("-dump-templates=")+dir}); h_assert(dr.status==0,"templates cannot be dumped"); for(auto n:T) h_assert(h_kind((D+n).c_str())==1,"a template is not dumped");
  a.push_back(std::string("-templates-path=")+dir); Run r2=h_run(a,"",4000000000ul); h_assert_eq(get(r2),w,"dumped templates give another output"); sym_cover("same");
  // an edit of any template shows wherever it is used
  unsigned e=sym_choice(12,"edit"); std::string mark="edit"+h_symset(1,"az09","c")+"_x"; bool front=PICK(2,"front",e+which); std::string old=h_read((D+T[e]).c_str()); h_file((D+T[e]).c_str(),front?mark+"\n"+old:old+mark+"\n");
  Run r3=h_run(a,"",4000000000ul); std::string g=get(r3); unsigned x=f==0?8:f==1?9:f==2?10:f==3?4:6; unsigned want=e==0?(sep&&body?2:1):e==1?1:e==2||e==3?(body?1:0):e==x||(body&&e==x+1)?1:0; 
  unsigned n=0; for(size_t p=0;(p=g.find(mark,p))!=std::string::npos;p++) n++; h_assert(n==want,"an edit of a template does not take effect as it should"); if(n) sym_cover("edited"); else sym_cover("unused");
  if(!line){ std::string c=t_rep(g,mark+"\n",""); h_assert_eq(c,w,"an edit changed something else"); } }
#elif MODE==1  // the embedding step
struct E { std::string data; bool kw; long n; };
static size_t lit(const std::string &o,size_t p,std::string &v){ // one string literal
  h_assert(o[p]=='"',"no string literal"); p++; while(o[p]!='"'){ h_assert(p<o.size()&&(unsigned char)o[p]>=32&&(unsigned char)o[p]<127,"character that does not belong into a literal"); if(o[p]!='\\'){ v+=o[p++]; continue; } p++; char c=o[p++];
    if(c>='0'&&c<='7'){ int k=c-'0'; for(int i=0;i<2&&o[p]>='0'&&o[p]<='7';i++) k=k*8+(o[p++]-'0'); h_assert(k<256,"octal sequence out of range"); v+=(char)k; }
    else { static const char from[]="ntrvfab\\\"'?",to[]="\n\t\r\v\f\a\b\\\"'?"; const char *q=strchr(from,c); h_assert(q!=nullptr,"unknown escape sequence"); v+=to[q-from]; } }
  return p+1; }
static std::vector<E> entries(const std::string &o,size_t p){ std::vector<E> v;
  for(;;){ auto ws=[&]{ for(;;){ if(o[p]==' '||o[p]=='\n') p++; else if(o.compare(p,2,"/*")==0) p=o.find("*/",p)+2; else return; } }; ws(); if(o.compare(p,1,"}")==0) return v; h_assert(o[p]=='{',"no entry"); p++; ws(); E e; if(o.compare(p,2,"{}")==0) p+=2; else while(o[p]=='"'){ p=lit(o,p,e.data); ws(); }
    h_assert(o[p]==',',"no comma"); p++; ws(); size_t q=p; while(r_id(o[p])) p++; std::string k=o.substr(q,p-q); h_assert(k=="true"||k=="false"||k=="0","no flag"); e.kw=k=="true"; ws(); h_assert(o[p]==',',"no comma"); p++; ws(); e.n=0; while(o[p]>='0'&&o[p]<='9') e.n=e.n*10+(o[p++]-'0'); ws(); h_assert(o[p]=='}',"entry is not closed"); p++; ws(); if(o[p]==',') p++; v.push_back(e); } }
static std::string nocr(const std::string &s){ std::string r; for(size_t i=0;i<s.size();i++){ size_t j=i; while(j<s.size()&&s[j]=='\r') j++; if(j>i&&(j==s.size()||s[j]=='\n')) i=j; if(i<s.size()) r+=s[i]; } return r; } // without carriage returns at line ends
extern "C" void harness_main(){
  std::string t; unsigned form=sym_choice(5,"form"); 
  switch(form){ case 0: t=h_symbytes(N,"bytes"); break; case 1: t="a\n"+h_symbytes(N,"bytes")+"\nb\n"; break; case 2: t="x"+h_symbytes(1,"byte")+"0@\n%b"+h_symbytes(1,"byte")+"@\r\n c@\n"; break; default: { unsigned n=form==3?NS:NS-1; static const char *const S[]={"@","\n","\r","%","x","\\","\"","\t","\r\n"}; for(unsigned i=0;i<n;i++) t+=S[sym_choice(9,"piece")]; if(form==4) t="q"+t; } }
  h_dir("t"); unsigned at=sym_choice(2,"file"); for(int i=0;i<12;i++) h_file((std::string("t/")+T[i]).c_str(),i==(int)at*5?t:"other\n"); h_observe("template",t);
  Run r=h_run({"t","out.cpp"}); h_assert(r.status==0,"embedding fails"); std::string o=h_read("out.cpp"); h_observe("o",o); size_t p=0;
  for(int i=0;i<12;i++){ std::string c=i==(int)at*5?t:"other\n"; p=o.find("static const template_t ",p); h_assert(p!=std::string::npos,"a template is missing"); size_t b=o.find('{',p); auto v=entries(o,b+1); p=b; auto w=t_entries(c); h_assert(!v.empty()&&v.back().n==0&&v.back().data.empty(),"no terminating entry"); v.pop_back();
    size_t k=0; if(i){ h_assert(!v.empty(),"no line directive"); h_assert_eq(v[0].data,std::string("#line 1 \"<built-in>/")+T[i]+"\"","line directive differs"); h_assert(v[0].n==1&&!v[0].kw,"line directive entry differs"); k=1; }
    h_assert(v.size()-k==w.size(),"number of entries differs"); for(size_t j=0;j<w.size();j++){ E &e=v[k+j]; h_assert_eq(nocr(e.data),nocr(w[j].data),"text of an entry differs"); h_assert(e.kw==(w[j].data.find('%')!=std::string::npos),"keyword flag differs"); h_assert(e.n==w[j].count,"number of lines differs"); } }
  sym_cover("embedded"); }
#endif
