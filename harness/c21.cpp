// C21: prefix replacement renames exactly the GDO/gdo identifiers
#include "ref.h"
static bool alnum(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9'); }
static std::string cas(const std::string &p,bool up){ std::string r; for(char c:p){ if(!alnum(c)) c='_'; else if(up&&c>='a'&&c<='z') c-=32; else if(!up&&c>='A'&&c<='Z') c+=32; r+=c; } return r; }
static std::string repl(const std::string &t,const std::string &p){ std::string U=cas(p,true),L=cas(p,false),o; if(U=="GDO") return t;
  for(size_t i=0;i<t.size();){ if(!r_id(t[i])){ o+=t[i++]; continue; } size_t e=i; while(e<t.size()&&r_id(t[e]))e++; std::string w=t.substr(i,e-i); i=e; std::string u=w[0]=='_'?"_":"",v=w.substr(u.size());
    if(v.compare(0,4,"GDO_")==0) o+=u+U+"_"+v.substr(4); else if(v.compare(0,4,"gdo_")==0) o+=u+L+"_"+v.substr(4); else if(w=="gdo") o+=L; else o+=w; }
  return o; }
static void judge(const std::string &t,const std::string &p,bool viaopt=false){ h_file("in.txt","int foo(int a);\n"); h_file("t.tpl",t); h_observe("tpl",t);
  Run r=h_run({"in.txt","-template=t.tpl","-prefix="+p},"",800000000ul); h_observe("out",r.out); h_observe("err",r.err); h_assert(r.status==0,"prefix or template refused"); h_assert_eq(r.out,repl(t,p),"output differs from the text with the identifiers renamed"); sym_cover("renamed"); }
static const char *const P[]={"my","GDO","gDo","a-b.c","9x","gdo_x","_","Z$1"};
extern "C" void harness_main(){
#if MODE==0
  static const char *const S[]={"GDO_","gdo_","gdo","_GDO_","_gdo_","Gdo_","GDO","::gdo::dl"}; std::string a=h_symset(N,"a_ G9:","x"); std::string t=h_symset(1,"a_ (0","b")+S[sym_choice(8,"s")]+a; t+=S[sym_choice(8,"s2")]; t+=h_symset(1,"x_ ;","e"); judge(t+"\n",P[sym_choice(PX,"p")]);
#elif MODE==1
  std::string p=h_symbytes(N,"prefix"); for(char c:p) sym_assume(c!=0); judge("GDO_x gdo_y(gdo)_GDO_z _gdo_ XGDO_ __GDO_ gdo\n",p);
#elif MODE==2
  std::string t="#if "+h_symbytes(1,"b0")+"gdo"+h_symbytes(1,"b1")+"GDO_"+h_symbytes(1,"b2"); for(char c:t) sym_assume((c!='%')&(c!='@')&(c!='\n')); judge(t+"\n","My");
#elif MODE==3
  static const char *const F[]={"minimal","minimal-c++","plugin","c","c++"}; std::string p="q"+h_symset(1,"aZ-","p"); h_file("in.txt","int foo(int a);\nextern int obj[2];\nvoid va(const char *f, ...);\n"); 
  std::vector<std::string> a={"in.txt","-no-date",std::string("-format=")+F[sym_choice(NF,"format")],"-prefix="+p,"-D","X","-library=ext:foo"}; bool sep=sym_choice(2,"sep"); if(sep){ a.push_back("-separate"); a.push_back("-out=o.h"); } else a.push_back("-no-pragma-once");
  Run r=h_run(a,"",8000000000ul); h_assert(r.status==0,"refused"); std::string o=r.out; if(sep){ for(auto &f:h_list()) if(f!="in.txt") o+=h_read(f.c_str()); }
  size_t n=0; for(size_t i=0;i<o.size();){ if(!r_id(o[i])){ i++; continue; } size_t e=i; while(e<o.size()&&r_id(o[e]))e++; const char *w=o.c_str()+i; size_t l=e-i; if(*w=='_'){ w++; l--; } bool g=l>=3&&((w[0]=='g'&&w[1]=='d'&&w[2]=='o')||(w[0]=='G'&&w[1]=='D'&&w[2]=='O')); if(g&&(l==3||w[3]=='_')){ sym_observe("identifier",w,l); sym_fail("an identifier of the default prefix is left over"); } n++; i=e; }
  h_assert(n>100,"output is too short"); sym_cover("renamed");
#endif
}
