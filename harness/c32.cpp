// C32: incomplete output or input is never reported as success
#include "ref.h"
#include <map>
typedef std::map<std::string,std::string> Out;
static Out outs(const Run &r){ Out o; for(auto &p:h_list()) if(h_kind(p.c_str())==1) o[p]=h_read(p.c_str()); o["<stdout>"]=r.out; return o; }
#if MODE<5
static std::string tpl(){ std::string t; unsigned n=sym_choice(N+1,"lines"); static const char *const L[]={"plain text\n","%%symbol%%\n","<param:skip_begin>\n","%%param_names%% @\nx\n","#line 7 \"x\"\n"}; for(unsigned i=0;i<n;i++) t+=L[sym_choice(5,"line")]; return t; }
static void setup(const std::string &t){ h_reset(); h_file("in.txt",MODE==3?"int f(int a);\n":"int foo(int a);\nchar *bar(void);\nextern int obj;\n"); if(MODE==0) h_file("t.tpl",t); if(MODE==2) h_dir("d"); }
#endif
#if MODE==6 // the embedding tool
extern "C" void harness_main(){
  static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c","cxx.hpp","cxx.cpp","plugin.h","plugin.c","minimal.h","minimal_cxxeh.hpp"};
  h_dir("t"); for(auto *t:T) h_file((std::string("t/")+t).c_str(),std::string(t[0]=='c'?"%@\nx\n":"")); Run r0=h_run({"t","out.cpp"}); h_assert(r0.status==0,"embedding fails"); std::string want=h_read("out.cpp"); bool bad; Run r;
  if(sym_choice(2,"reads")){ std::string f=std::string("t/")+T[sym_choice(12,"file")],x=h_read(f.c_str()); unsigned limit=sym_range(0,x.size()+3,"limit"); h_read_limit(f.c_str(),limit); r=h_run({"t","out.cpp"}); h_read_limit(f.c_str(),-1); bad=limit<=x.size(); }
  else { unsigned char b[2]; sym_bytes(b,2,"limit"); unsigned limit=b[0]|b[1]<<8; h_write_limit(limit); r=h_run({"t","out.cpp"}); h_write_limit(-1); bad=limit<want.size(); }
  h_observe("status",std::to_string(r.status)); if(bad){ h_assert(r.status==1,"success although a file could not be read or written completely"); h_assert(!r.err.empty(),"no error message"); sym_cover("refused"); } else { h_assert(r.status==0,"failure although everything could be read and written"); h_assert_eq(h_read("out.cpp"),want,"the output differs"); sym_cover("complete"); } }
#elif MODE==5 // reads that fail
extern "C" void harness_main(){
  unsigned what=sym_choice(3,"what"); std::vector<std::string> a={"in.txt","-no-date"}; std::string f="in.txt",in="int f(int a);\n\n\nint g(void);\n",x;
  if(what==1){ f="t.tpl"; a.push_back("-template=t.tpl"); unsigned n=sym_choice(N+1,"lines"); static const char *const L[]={"plain\n","%%symbol%%\n","a@\nb\n","<param:skip_begin>\n","last"}; for(unsigned i=0;i<n;i++) x+=L[sym_choice(5,"line")]; h_file("t.tpl",x); }
  if(what==2){ a.push_back("-templates-path=d"); unsigned k=sym_choice(5,"format"); static const char *const F[]={"C","C++","plugin","minimal","minimal-C++"}; a.push_back(std::string("-format=")+F[k]);
    static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c","cxx.hpp","cxx.cpp","plugin.h","plugin.c","minimal.h","minimal_cxxeh.hpp"}; h_dir("d"); for(auto *t:T) h_file((std::string("d/")+t).c_str(),std::string("/* ")+t+" */\n");
    static const unsigned char U[5][6]={{0,1,2,3,4,5},{0,1,2,3,6,7},{0,1,2,3,8,9},{0,1,10,10,10,10},{0,1,11,11,11,11}}; unsigned i=sym_choice(k<3?6:3,"file"); f=std::string("d/")+T[U[k][i]]; x=std::string("/* ")+T[U[k][i]]+" */\n"; }
  h_file("in.txt",in); if(what==0){ x=in; if(sym_choice(2,"symbols")) a.push_back("-print-symbols"); } bool out=sym_choice(2,"file-out"); if(out) a.push_back("-out=o.h");
  unsigned limit=sym_range(0,x.size()+3,"limit"); h_read_limit(f.c_str(),limit); Run r=h_run(a,"",4000000000ul); h_read_limit(f.c_str(),-1); h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  if(limit<=x.size()){ h_assert(r.status!=0,"success although a file could not be read completely"); h_assert(r.status<3,"neither success nor failure"); h_assert(!r.err.empty(),"no error message"); if(what!=1) h_assert(h_kind("o.h")==0,"an output file was created although a file could not be read"); sym_cover("refused"); } else { h_assert(r.status==0,"failure although everything could be read"); sym_cover("complete"); } }
#else
extern "C" void harness_main(){
  std::vector<std::string> a={"in.txt"}; std::string t; unsigned char b[4]; bool out=false;
#if MODE==0   // custom templates
  a.push_back("-template=t.tpl"); t=tpl(); out=sym_choice(2,"stdout"); if(!out) a.push_back("-out=o.h"); if(sym_choice(2,"line")) a.push_back("-line");
#elif MODE==1 // formats
  static const char *const F[]={"C","C++","plugin","minimal","minimal-C++"}; a.push_back(std::string("-format=")+F[sym_choice(5,"format")]); a.push_back("-no-date"); out=sym_choice(2,"stdout"); if(!out){ a.push_back("-out=o.h"); if(sym_choice(2,"separate")) a.push_back("-separate"); }
#elif MODE==2 // saved templates
  a={"-dump-templates=d"};
#elif MODE==4 // help texts and version
  static const char *const I[]={"-help","-?","-full-help","-version"}; a={I[sym_choice(4,"info")]};
#else         // symbol list
  a.push_back("-print-symbols"); out=true; (void)tpl;
#endif
  setup(t); Run r0=h_run(a,"",4000000000ul); h_assert(r0.status==0,"rejected"); Out want=outs(r0); size_t longest=0; for(auto &x:want) if(x.second.size()>longest) longest=x.second.size();
  sym_bytes(b,3,"limit"); unsigned limit=b[0]|b[1]<<8|b[2]<<16;
  setup(t); h_write_limit(limit); Run r=h_run(a,"",4000000000ul); h_write_limit(-1); Out got=outs(r); h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
#if MODE==2
  want.erase("<stdout>"); got.erase("<stdout>"); // the list of saved files is no output of its own
#endif
  if(r.status==0){ h_assert(got.size()==want.size(),"success without all of the output files"); for(auto &x:want){ auto g=got.find(x.first); h_assert(g!=got.end(),"success without an output file"); h_assert(g->second.size()==x.second.size(),"success although some output could not be written"); h_assert_eq(g->second,x.second,"the output differs"); } sym_cover("complete"); }
  else { h_assert(r.status==1,"neither success nor failure"); h_assert(!r.err.empty(),"no error message"); h_assert(limit<longest,"failure although everything could be written"); sym_cover("refused"); } (void)out;
}
#endif
