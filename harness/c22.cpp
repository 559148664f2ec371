// C22: with -line every output line maps back to its true source line
#include "tpl.h"
struct L { std::string text,file; int line; };
static std::string num(long n){ return std::to_string(n); }
// lines of one template with their origin; placeholders false: copied as they are
static bool prov(const std::string &t,const std::string &f,const TIn &in,bool &off,bool placeholders,std::vector<L> &o){
  for(auto &e:t_entries(t)){ std::vector<std::string> c; 
    if(!placeholders) c.push_back(e.data);
    else { int m=t_mark(e.data); if(m){ off=m==1?in.skip:m==2?!in.skip:false; continue; } if(off) continue; int k=t_kind(e.data); if(k==0) c.push_back(e.data); else { if(k!=1&&k!=2&&k!=4) return false; c=t_copies(e.data,k,in); } }
    for(auto &s:c){ size_t b=0; for(int i=0;;i++){ size_t n=s.find('\n',b); o.push_back({s.substr(b,n==std::string::npos?n:n-b),f,e.line+i}); if(n==std::string::npos) break; b=n+1; } } }
  return true; }
// what a C compiler does with the line directives
static std::vector<L> compile(const std::string &o,const std::string &name){
  std::vector<L> v; std::string f=name; int line=1; size_t b=0;
  while(b<o.size()){ size_t n=o.find('\n',b); h_assert(n!=std::string::npos,"last line is not terminated"); const char *p=o.c_str()+b; size_t len=n-b; b=n+1;
    if(len>=6&&!memcmp(p,"#line ",6)){ size_t i=6; int k=0; h_assert(i<len&&p[i]>='0'&&p[i]<='9',"line directive without a number"); while(i<len&&p[i]>='0'&&p[i]<='9') k=k*10+(p[i++]-'0'); 
      if(i<len){ h_assert(len>=i+3&&p[i]==' '&&p[i+1]=='"'&&p[len-1]=='"',"malformed line directive"); f=std::string(p+i+2,len-i-3); } line=k; continue; }
    v.push_back({std::string(p,len),f,line}); line++; }
  return v; }
static bool lineish(const std::string &t){ return t.compare(0,5,"#line")==0||h_has(t,"\n#line"); }
static std::string seg(unsigned k,int i){ std::string n="L"+num(i);
  switch(k){ case 0: return n+h_symset(1," x%@","c")+"\n"; case 1: return "\n"; case 2: return n+" @\n b\n"; case 3: return n+" %%func_symbol%%\n"; case 4: return n+" @\n %%type%% @\n c\n"; case 5: return n+" %%obj_symbol%%\n"; case 6: return n+" %%symbol%% @\n z\n";
    case 7: return "%PARAM_SKIP_REMOVE_BEGIN%\n"; case 8: return "%PARAM_SKIP_USE_BEGIN%\n"; case 9: return "%PARAM_SKIP_END%\n"; case 10: return "@\n"; case 11: return n+" %%obj_type%% @\r\n  %%obj_symbol_pad%%\r\n"; case 12: return n+" 100%% %\n"; default: return n+" %%args%%"; } }
static bool same(const std::vector<L> &g,const std::vector<L> &w){
  for(size_t i=0;i<g.size()&&i<w.size();i++){ h_assert_eq(g[i].text,w[i].text,"text of a line differs"); if(g[i].file!=w[i].file||g[i].line!=w[i].line){ h_observe("line",g[i].text); h_observe("maps to",g[i].file+":"+num(g[i].line)); h_observe("comes from",w[i].file+":"+num(w[i].line)); return false; } }
  return g.size()==w.size(); }
extern "C" void harness_main(){
  TIn in; unsigned which=sym_choice(3,"input"); bool skip=sym_choice(2,"skip"); std::string src=t_input(which,skip,in);
#if MODE==0
  std::string t; for(int i=0;i<N;i++) t+=seg(sym_choice(i==N-1?14:13,"seg"),i);
  h_file("in.txt",src); h_file("t.tpl",t); h_observe("tpl",t); unsigned to=sym_choice(3,"to");
  std::vector<std::string> a={"in.txt","-line",to==2?"-template=-":"-template=t.tpl"}; if(to==1) a.push_back("-out=o.x"); if(skip) a.push_back("-param=skip");
  Run r=h_run(a,to==2?t:""); std::vector<L> w; bool off=false; if(!prov(t,to==2?"<STDIN>":"t.tpl",in,off,true,w)){ h_assert(r.status==1,"mixed placeholders are no error"); return; }
  h_assert(r.status==0,"a valid template is refused"); std::string o=to==1?h_read("o.x"):r.out; h_observe("o",o);
  h_assert(same(compile(o,"?"),w),"a line of a custom template does not map to its source line"); sym_cover("mapped");
#else
  static const char *const F[]={"minimal","minimal-c++","plugin","c","c++"}; unsigned f=sym_choice(5,"format"); bool body=f>=2,cxx=f==1||f==4; 
  static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c","cxx.hpp","cxx.cpp","minimal.h","minimal_cxxeh.hpp","plugin.h","plugin.c"};
  std::vector<std::string> a={"in.txt","-line","-no-date",std::string("-format=")+F[f]}; if(skip) a.push_back("-param=skip"); bool sep=sym_choice(2,"separate"),file=sep||sym_choice(2,"file"); if(sep) a.push_back("-separate"); if(file) a.push_back(sep&&body?(cxx?"-out=o.hpp":"-out=o.h"):"-out=o.h");
  std::string name=file?(sep&&body&&cxx?"o.hpp":"o.h"):cxx?"gdo.hpp":"gdo.h";
#if MODE==1  // small templates of our own
  a.push_back("-templates-path=t"); std::string t; for(int i=0;i<N;i++) t+=seg(sym_choice(13,"seg"),i); t+="\n%PARAM_SKIP_END%\n"; if(
#ifndef OFF
    sym_choice(2,"last")
#else
    skip
#endif
    ) t+="last\n"; else t+="last";
  h_dir("t"); for(auto n:T) h_file((std::string("t/")+n).c_str(),t); h_observe("tpl",t); if(
#ifndef OFF
    sym_choice(2,"options")
#else
    which==1
#endif
    ){ a.push_back("-D"); a.push_back("A=b"); a.push_back("-include=x.h"); a.push_back("-library=ext:l"); a.push_back("-no-pragma-once"); } std::string pre="";
#else       // the embedded templates
  if(sym_choice(2,"options")){ a.push_back("-no-pragma-once"); } 
  Run dr=h_run({"-dump-templates=t"}); h_assert(dr.status==0,"templates cannot be dumped"); std::string pre="<built-in>/";
#endif
  h_file("in.txt",src); 
#ifdef OFF // without -line: no line directives but the one that is in the templates
  a.erase(a.begin()+1); std::string own="";
#if MODE==1
  { unsigned p=sym_choice(3,"own"); if(p){ own="#line 77 \"q\""; t=p==1?own+"\n"+t:"A\n"+own+"\n"+t; for(auto n:T) h_file((std::string("t/")+n).c_str(),t); } }
#endif
  Run r=h_run(a,"",4000000000ul); h_observe("err",r.err); if(r.status!=0){ h_assert(MODE==1&&r.status==1,"valid templates are refused"); return; } 
  for(int u=0;u<(sep&&body?2:1);u++){ std::string o=!file?r.out:h_read(u?(cxx?"o.cpp":"o.c"):name.c_str()); h_observe("o",o); unsigned n=0; for(auto &l:r_lines(o)) if(!l.compare(0,5,"#line")){ h_assert_eq(l,own,"a line directive without -line"); n++; }
    unsigned w=own.empty()?0:(u==0?1:0)+1+(f<2?1:sep?2:4); h_assert_eq(num(n),num(w),"line directives of the templates are lost or added"); }
  sym_cover("off"); return;
#else
  Run r=h_run(a,"",4000000000ul); h_observe("err",r.err); 
#endif
#ifndef OFF
  std::vector<std::vector<int>> use; switch(f){ case 0: use={{8}}; break; case 1: use={{9}}; break; default: { int x=f==2?10:f==3?4:6; if(sep) use={{2,x},{3,x+1}}; else use={{2,3,x,x+1}}; } }
  for(size_t u=0;u<use.size();u++){ std::vector<L> w; bool off=false,ok=true; 
    if(u==0){ bool z=false; prov(h_read("t/filename_macros.h"),pre+"filename_macros.h",in,z,false,w); } for(int x:use[u]) ok=ok&&prov(h_read((std::string("t/")+T[x]).c_str()),pre+T[x],in,off,true,w);
    if(!ok){ h_assert(r.status==1,"mixed placeholders are no error"); return; } h_assert(r.status==0,"valid templates are refused");
    std::string nm=u?(cxx?"o.cpp":"o.c"):name; std::string o=file?h_read(nm.c_str()):r.out; h_observe("o",o); auto g=compile(o,nm); std::vector<L> s; auto lines=r_lines(o);
    for(auto &x:g){ if(x.file!=nm){ s.push_back(x); continue; } h_assert(x.line>=1&&(size_t)x.line<=lines.size()&&lines[x.line-1]==x.text,"a generated line does not map to itself"); }
    if(!same(s,w)){ h_observe("counts",num(s.size())+" "+num(w.size())); sym_fail("a line of a template does not map to its source line"); } }
  sym_cover("mapped");
#endif
#endif
}
