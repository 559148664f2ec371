// C27: generated files are assembled completely and consistently
#include "tpl.h"
static const char NOTE1[]="// Do not edit this file!\n// It was automatically generated by gendlopen", NOTE2[]=".\n// All changes made will be lost.\n\n";
static std::string up(const std::string &s){ std::string r; for(char c:s){ if(c>='a'&&c<='z') c-=32; else if(!((c>='A'&&c<='Z')||(c>='0'&&c<='9'))) c='_'; r+=c; } return r; }
static std::string base(const std::string &o){ size_t s=o.rfind('/'); std::string d=s==std::string::npos?"":o.substr(0,s+1),f=o.substr(d.size()); size_t q=f.rfind('.'); if(q!=std::string::npos&&q>0) f=f.substr(0,q); return d+f; }
// the date is replaced by @ after its form was checked
static std::string undate(std::string o,bool date){ size_t n=strlen(NOTE1); h_assert(o.compare(0,n,NOTE1)==0,"note is missing or differs"); if(!date) return o;
  size_t e=o.find('\n',n); std::string d=o.substr(n,e-n); static const char F[]=" on Aaa 9999-99-99 99:99:99 +9999."; h_assert(d.size()==strlen(F),"date has an unexpected form"); for(size_t i=0;i<d.size();i++){ char c=d[i],f=F[i]; h_assert(f=='9'?c>='0'&&c<='9':f=='A'?c>='A'&&c<='Z':f=='a'?c>='a'&&c<='z':f=='+'?c=='+'||c=='-':c==f,"date has an unexpected form"); }
  return o.substr(0,n)+o.substr(e-1); }
static std::string tp(const char *n){ return h_read((std::string("t/")+n).c_str()); }
extern "C" void harness_main(){
  static const char *const F[]={"minimal","minimal-c++","plugin","c","c++"}; unsigned f=FMT<0?sym_choice(5,"format"):FMT; bool body=f>=2,cxx=f==1||f==4; 
  TIn in; unsigned which=sym_choice(3,"input"); bool skip=sym_choice(2,"skip"); std::string src=t_input(which,skip,in);
  std::vector<std::string> a={"in.txt",std::string("-format=")+F[f]}; if(skip) a.push_back("-param=skip");
  bool sep=sym_choice(2,"separate"),file=sym_choice(2,"file"),once=!sym_choice(2,"guard"),date=sym_choice(2,"date"); bool more=sym_choice(2,"more");
  if(!date) a.push_back("-no-date"); if(!once) a.push_back("-no-pragma-once"); if(sep) a.push_back("-separate"); std::string pfx="GDO",D,I,o; 
  if(file){ static const char *const O[]={"o.h","n-a.me.x","d/q","z.hpp",".dot"}; o=O[sym_choice(NOUT,"name")]; h_dir("d"); a.push_back("-out="+o); }
  if(more){ a.push_back("-D"); a.push_back("A=b c"); a.push_back("-include=<x.h>"); a.push_back("-library=ext:l"); D="#ifndef A\n# define A b c\n#endif\n"; I="#include <x.h>\n"; }
  h_dir("t");
#if TINY
  static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c","cxx.hpp","cxx.cpp","minimal.h","minimal_cxxeh.hpp","plugin.h","plugin.c"}; int k=0; std::string c=h_symset(1,"a@","c"); for(auto n:T){ h_file((std::string("t/")+n).c_str(),std::string(n)+c+"\n"+(k++&1?"%%symbol%% x\n":"%%func_symbol%%\n%%obj_symbol%%\n")+"%PARAM_SKIP_USE_BEGIN%\nu\n%PARAM_SKIP_END%\nend"+c+"\n"); } a.push_back("-templates-path=t");
  if(which==2&&!skip&&sym_choice(2,"prefix")){ std::string p="p"+h_symset(1,"a-","p"); a.push_back("-prefix="+p); pfx=up(p); for(auto &x:in.o) if(x.type.compare(0,3,"gdo")==0){ std::string l; for(char c:pfx) l+=c>='A'&&c<='Z'?char(c+32):c; x.type=l+x.type.substr(3); } if(!file) o=p; } else if(!file) o="gdo";
#else
  Run dr=h_run({"-dump-templates=t"}); h_assert(dr.status==0,"templates cannot be dumped"); if(!file) o="gdo";
#endif
  h_file("in.txt",src); auto before=h_list(); Run r=h_run(a,"",4000000000ul); h_observe("err",r.err); h_assert(r.status==0,"refused"); if(!file||!body) sep=false; 
  std::string hn=sep?base(o)+(cxx?".hpp":".h"):file?o:o+(cxx?".hpp":".h"),bn=base(o)+(cxx?".cpp":".c"); size_t sl=hn.rfind('/'); std::string hname=sl==std::string::npos?hn:hn.substr(sl+1);
  std::string G="_"+pfx+"_"+up(hname)+"_",w=std::string(NOTE1)+NOTE2,lic,x; { TIn none=in; for(auto &e:t_entries(tp("license.h"))) lic+=e.data+"\n"; } w+=lic;
  w+=once?"\n#pragma once\n\n":"\n#ifndef "+G+"\n#define "+G+"\n\n"; if(!cxx) w+="#ifdef __cplusplus\nextern \"C\" {\n#endif\n\n"; for(auto &e:t_entries(tp("filename_macros.h"))) w+=e.data+"\n";
  if(sep) D+="#define "+pfx+"_SEPARATE\n"; if(more) D+="#define "+pfx+"_HARDCODED_DEFAULT_LIBA \"l\" "+pfx+"_LIBEXTA\n#define "+pfx+"_HARDCODED_DEFAULT_LIBW L\"l\" "+pfx+"_LIBEXTW\n"; D+="#define "+pfx+"_COMMON_PREFIX \"\"\n"; if(which!=1) D+="#define "+pfx+"_HAS_VA_ARGS_quux 1\n";
  w+="/* extra defines */\n"+D+"\n/* extra headers */\n"+(cxx?"#include <cstddef>\n#include <cstring>\n":"#include <stddef.h>\n#include <string.h>\n")+I+"\n"; if(which!=0){ std::string l; for(char c:pfx) l+=c>='A'&&c<='Z'?char(c+32):c; w+="/* typedefs */\ntypedef std_x "+l+"_arr__t[2];\n\n"; }
  static const char *const H[]={"minimal.h","minimal_cxxeh.hpp","plugin.h","c.h","cxx.hpp"}; static const char *const B[]={"","","plugin.c","c.c","cxx.cpp"};
  auto add=[&](std::string &to,const char *n){ h_assert(t_expand(tp(n),in,x),"template mixes placeholders"); to+=x; };
  if(body) add(w,"common.h"); if(body&&!sep) add(w,"common.c"); add(w,H[f]); if(body&&!sep) add(w,B[f]);
  if(!cxx) w+="#ifdef __cplusplus\n} /* extern \"C\" */\n#endif\n"; if(!once) w+="\n#endif //"+G+"\n";
  std::string g=undate(file?h_read(hn.c_str()):r.out,date); if(!date) h_observe("o",g); h_assert_eq(g,w,"the output is not assembled as expected"); if(file) h_assert(r.out.empty(),"output on stdout");
  if(sep){ std::string b=std::string(NOTE1)+NOTE2+lic+"\n#define "+pfx+"_INCLUDED_IN_BODY\n#include \""+hname+"\"\n\n"; add(b,"common.c"); add(b,B[f]); h_assert_eq(undate(h_read(bn.c_str()),date),b,"the body is not assembled as expected"); sym_cover("separate"); }
  h_assert(h_list().size()==before.size()+(sep?2:file?1:0),"number of files differs"); sym_cover("assembled");
}
