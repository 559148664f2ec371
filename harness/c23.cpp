// C23: output never overwrites existing files or follows symlinks
#include "ref.h"
#include <map>
typedef std::map<std::string,std::string> Tree;   // path -> kind and contents
static Tree tree(){ Tree t; for(auto &p:h_list()){ int k=h_kind(p.c_str()); t[p]=k==1?"F"+h_read(p.c_str()):k==2?"D":"L"; } return t; }
static void put(const std::string &p,unsigned k){ const char *c=p.c_str();
  switch(k){ case 1: h_file(c,"old contents\n"); break; case 2: h_dir(c); break; case 3: h_link(c,"victim"); break; case 4: h_link(c,"missing"); break; case 5: h_link(c,"vdir"); break; case 6: h_dir(c); h_file((p+"/inner").c_str(),"inner\n"); break; case 7: h_link(c,c); break; } }
static std::string ext(const std::string &p,const std::string &e){ size_t s=p.rfind('/'); std::string d=s==std::string::npos?"":p.substr(0,s+1),f=p.substr(d.size()); if(f!="."&&f!=".."){ size_t q=f.rfind('.'); if(q!=std::string::npos&&q>0) f=f.substr(0,q); } return d+f+e; }
static std::vector<std::string> A; static bool force,sep,custom;
// run and compare with what may happen to the tree
static void judge(const std::vector<std::string> &target,bool refuse,const std::string &in=""){
  Tree b=tree(); Run r=h_run(A,in,4000000000ul); Tree a=tree(); h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  h_assert(r.status==0||r.status==1,"neither success nor failure");
  if(refuse){ h_assert(r.status==1,"an existing or unusable path is no error"); h_assert(!r.err.empty(),"no error message"); sym_cover("refused"); } else { h_assert(r.status==0,"a usable output path is refused"); sym_cover("written"); h_assert(target.empty()||r.out.empty(),"output on stdout instead of the file"); }
  for(auto &x:a){ bool isT=false; for(auto &t:target) isT|=t==x.first; auto o=b.find(x.first); 
    if(!isT||(refuse&&!force&&o!=b.end())){ h_assert(o!=b.end(),"a path other than the output was created"); h_assert(o->second==x.second,"something else than the output was changed"); continue; }
    if(refuse) continue; h_assert(x.second[0]=='F',"the output is not a regular file"); h_assert(x.second.size()>1&&!h_has(x.second,"old contents"),"the output was not replaced"); }
  for(auto &x:b) if(!a.count(x.first)){ bool isT=false; for(auto &t:target) isT|=t==x.first; h_assert(isT&&force,"a path was removed"); }
  if(!refuse) for(auto &t:target) h_assert(a.count(t),"the output was not created"); }
extern "C" void harness_main(){
  h_file("victim","do not touch\n"); h_dir("vdir"); h_file("in.txt","int foo(int a);\n"); h_file("t.tpl","%%symbol%%\n"); h_dir("sub");
  A={"in.txt"}; custom=sym_choice(2,"custom"); A.push_back(custom?"-template=t.tpl":"-format=plugin"); force=sym_choice(2,"force"); if(force) A.push_back("-force");
#if MODE==0   // what already exists at the output path(s)
  sep=!custom&&sym_choice(2,"separate"); if(sep) A.push_back("-separate"); std::string o=sym_choice(2,"sub")?"sub/o":"o"; A.push_back("-out="+o+".h"); std::vector<std::string> t={o+".h"}; if(sep) t.push_back(o+".c");
  bool refuse=false; for(auto &x:t){ unsigned k=sym_choice(8,"exists"); put(x,k); if(k&&(!force||k==6)) refuse=true; }
  judge(t,refuse);
#elif MODE==1 // spelling of the output path
  sep=!custom&&sym_choice(2,"separate"); if(sep) A.push_back("-separate"); std::string o=h_symset(N,"ox./-h","out"); A.push_back("-out="+o);
  std::string last=o.substr(o.rfind('/')==std::string::npos?0:o.rfind('/')+1); h_observe("out",o); bool dots=last.empty()||last=="."||last==".."; if(o=="-"){ judge({},false); return; }
  if(o[0]=='/'||h_has(o,"//")||h_has("/"+o,"/..")) sym_prune(); // absolute paths and the parent directory are out of bounds
  { std::string d; for(size_t i=0;i<o.size();i++) if(o[i]=='/'){ std::string p=o.substr(0,i); bool skip=true; for(char c:p) if(c!='.'&&c!='/') skip=false; if(!skip){ std::string q; size_t b=0; while(b<p.size()){ size_t e=p.find('/',b); if(e==std::string::npos) e=p.size(); std::string c=p.substr(b,e-b); if(c!="."&&!c.empty()) q+=(q.empty()?"":"/")+c; b=e+1; } if(!q.empty()&&h_kind(q.c_str())==0) h_dir(q.c_str()); } } }
  auto norm=[](const std::string &p){ std::string q; size_t b=0; while(b<=p.size()){ size_t e=p.find('/',b); if(e==std::string::npos) e=p.size(); std::string c=p.substr(b,e-b); if(c!="."&&!c.empty()) q+=(q.empty()?"":"/")+c; b=e+1; } return q; };
  if(dots){ sym_assume(!force); if(sep) sym_prune(); judge({},true); return; }
  std::vector<std::string> t; if(sep){ t={norm(ext(o,".h")),norm(ext(o,".c"))}; } else t={norm(o)};
  judge(t,false);
#elif MODE==2 // directories that are missing, files in their place, unusable inputs
  unsigned k=sym_choice(10,"what"); std::vector<std::string> t; bool refuse=true; std::string in;
  switch(k){ case 0: A.push_back("-out=no/o.h"); break; case 1: A.push_back("-out=victim/o.h"); break; case 2: h_link("ld","missing"); A.push_back("-out=ld/o.h"); break; case 3: h_dir("o.h"); h_file("o.h/x","y"); A.push_back("-out=o.h"); break;
    case 4: A[0]="nothing.txt"; A.push_back("-out=o.h"); break; case 5: A[0]="sub"; A.push_back("-out=o.h"); break; case 6: A[0]="-"; in="int foo(int a);\n"; A.push_back("-out=-"); refuse=false; break; case 7: A[0]="-"; in="int ;"; A.push_back("-out=o.h"); break;
    case 8: { if(custom) sym_prune(); A[1]="-format=C"; A.push_back("-templates-path=td"); A.push_back("-out=o.h"); static const char *const T[]={"license.h","filename_macros.h","common.h","common.c","c.h","c.c"}; unsigned m=sym_choice(6,"missing"); h_dir("td"); for(unsigned i=0;i<6;i++) if(i!=m) h_file((std::string("td/")+T[i]).c_str(),"/**/\n"); break; }
    default: if(custom){ A[1]=sym_choice(2,"tdir")?"-template=sub":"-template=missing"; } else A.push_back(sym_choice(2,"tdir")?"-templates-path=sub":"-templates-path=nowhere"); A.push_back("-out=o.h"); t={"o.h"}; break; }
  // what cannot be read is noticed before an existing output file is touched
  bool was=false; if(k==4||k==5||k>=7){ was=sym_choice(2,"was"); if(was){ h_file("o.h","old contents\n"); t.clear(); } }
  judge(t,refuse,in);
#endif
}
