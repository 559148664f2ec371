// C26: library, include and define options are rendered exactly
#include "ref.h"
static bool pre(const std::string &s,const char *p){ size_t n=strlen(p); if(s.size()<=n) return false; for(size_t i=0;i<n;i++){ char c=s[i]; if(c>='A'&&c<='Z') c+=32; if(c!=p[i]) return false; } return true; }
static bool quoted(const std::string &s){ return s.size()>1&&s[0]=='"'&&s.back()=='"'; }
static std::string q(const std::string &s){ return quoted(s)?s:'"'+s+'"'; }
static std::string lib(const std::string &s){
  std::string a,w; 
  if(pre(s,"nq:")) a=w=s.substr(3); else if(pre(s,"ext:")){ a=q(s.substr(4)); w="L"+a+" GDO_LIBEXTW"; a+=" GDO_LIBEXTA"; }
  else { size_t c=pre(s,"api:")?s.find(':',4):std::string::npos; if(c!=std::string::npos){ std::string t='('+s.substr(c+1)+','+s.substr(4,c-4)+')'; a="GDO_LIBNAMEA"+t; w="GDO_LIBNAMEW"+t; } else { a=q(s); w="L"+a; } }
  return "#define GDO_HARDCODED_DEFAULT_LIBA "+a+"\n#define GDO_HARDCODED_DEFAULT_LIBW "+w+"\n"; }
static std::string inc(const std::string &s){ if(pre(s,"nq:")) return "#include "+s.substr(3)+"\n"; if(quoted(s)||(s.size()>1&&s[0]=='<'&&s.back()=='>')) return "#include "+s+"\n"; return "#include \""+s+"\"\n"; }
static std::string def(const std::string &s){ size_t e=s.find('='); std::string n=s.substr(0,e),v=e==std::string::npos?"":" "+s.substr(e+1); auto sp=[](char c){ return c==' '||(c>=9&&c<=13); }; while(!n.empty()&&sp(n[0])) n.erase(0,1); while(!n.empty()&&sp(n.back())) n.pop_back(); return n.empty()?"":"#ifndef "+n+"\n# define "+n+v+"\n#endif\n"; }
static void judge(const std::vector<std::string> &D,const std::vector<std::string> &I,const std::string &l,bool opt,bool cxx=false){
  std::string d,i,in; std::vector<std::string> a={"in.txt","-no-date",cxx?"-format=minimal-c++":"-format=minimal"}; 
  for(auto &x:D){ d+=def(x); if(opt) in+="%option D="+x+"\n"; else { a.push_back("-D"); a.push_back(x); } h_observe("D",x); }
  for(auto &x:I){ i+=inc(x); if(opt) in+="%option include="+x+"\n"; else { a.push_back("-include"); a.push_back(x); } h_observe("include",x); }
  if(!l.empty()){ d+=lib(l); if(opt) in+="%option library="+l+"\n"; else { a.push_back("-library"); a.push_back(l); } h_observe("library",l); }
  d+="#define GDO_COMMON_PREFIX \"\"\n"; h_file("in.txt",in+"int foo(int a);\n"); Run r=h_run(a,"",4000000000ul); h_observe("err",r.err); h_assert(r.status==0,"rejected");
  std::string want="\n/* extra defines */\n"+d+"\n/* extra headers */\n"+(cxx?"#include <cstddef>\n#include <cstring>\n":"#include <stddef.h>\n#include <string.h>\n")+i+"\n";
  size_t p=r.out.find("\n/* extra defines */\n"); h_assert(p!=std::string::npos,"no defines"); h_observe("out",r.out.substr(p,want.size()+20)); h_assert_eq(r.out.substr(p,want.size()),want,"defines or includes differ"); sym_cover("rendered"); }
static bool wideq(const std::string &s){ return s.compare(0,2,"L\"")==0||(s.size()>4&&s.compare(4,2,"L\"")==0); } // wide literals as library names are not documented
static void nonul(const std::string &s){ for(char c:s) sym_assume(c!=0); }
extern "C" void harness_main(){
#if MODE==0 // arbitrary library names
  unsigned k=sym_choice(11,"form"); std::string b=h_symbytes(sym_choice(N+1,"length"),"name"); nonul(b); if(b.empty()&&k<2) sym_prune(); if(k>1&&k<10&&!b.empty()) sym_assume(b[0]!='\n'); 
  static const char *const P[]={"","a","nq:","ext:","api:","api:1","n","e","api:2:","NQ:","\""}; std::string s=P[k]+b+(k==10?"\"":""); if(k==4||k==5||k==8) for(char c:b) sym_assume((c!='\n')&(c!='\r')); if(wideq(s)) sym_prune();
  judge({},{},s,false);
#elif MODE==1 // prefixes with one character changed
  static const char *const P[]={"nq:foo","ext:foo","api:3:foo","ext:\"foo\"","\"foo\"","api:1:a:b","aext:n","Ext:nq:x","nQ:ext:x"}; std::string s=P[sym_choice(9,"form")]; unsigned e=sym_choice(3,"edit"); size_t at=sym_choice(s.size(),"at"); char c=h_symset(1,"nNeEaAqxtTpPiI:\"1 oL","char")[0]; if(e==0) s[at]=c; else if(e==1) s.insert(at,1,c); else s.erase(at,1); if(wideq(s)) sym_prune(); h_assert(!s.empty(),""); judge({},{},s,false);
#elif MODE==2 // includes and defines with arbitrary bytes
  unsigned k=sym_choice(8,"form"),n=sym_choice(N+1,"length"); std::string b=h_symbytes(n,"value"); nonul(b); if(!n&&(k==0||k==4)) sym_prune(); switch(k){ case 0: judge({},{b},"",false); break; case 1: judge({},{"nq:"+b},"",false); break; case 2: judge({},{"<"+b},"",false); break; case 3: judge({},{b+">"},"",false); break; case 4: judge({b},{},"",false); break; case 5: judge({"A"+b+"=1"},{},"",false); break; case 6: judge({"A="+b},{},"",false); break; default: judge({},{"Nq"+b},"",false); }
#else       // several of each, in order, from the command line or %option lines
  static const char *const D[]={"A","B=1","C=x=y","A=2","D=","E(x)=(x)","=z"}; static const char *const I[]={"a.h","<b.h>","\"c.h\"","nq:D_H","nq:<e.h>","<f","NQ:\"g.h\""}; static const char *const L[]={"","foo","ext:foo","api:0:foo","nq:FOO","\"bar\""};
  std::vector<std::string> d,i; unsigned n=sym_choice(ND+1,"defines"),m=sym_choice(ND+1,"includes"); for(unsigned k=0;k<n;k++) d.push_back(D[sym_choice(7,"D")]); for(unsigned k=0;k<m;k++) i.push_back(I[sym_choice(7,"I")]); judge(d,i,L[sym_choice(6,"L")],sym_choice(2,"opt"),sym_choice(2,"c++"));
#endif
}
