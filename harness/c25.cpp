// C25: the common symbol prefix is exact
#include "ref.h"
extern "C" void harness_main(){
  static const char W[]="ab_"; std::string in; std::vector<std::string> sy,fl; std::vector<std::string> args={"in.txt","-format=minimal","-no-date"};
#if MODE==0 // symbolic names
  unsigned m=1+sym_choice(M,"symbols"); for(unsigned i=0;i<m;i++){ unsigned l=1+sym_choice(LEN,"len"); sy.push_back(h_symset(l,W,"sym")); }
#else       // long names which differ in one arbitrary byte, or of which one ends early
  unsigned m=2+sym_choice(2,"symbols"); for(unsigned i=0;i<m;i++) sy.push_back("averylongPrefix_0123456789"); unsigned w=sym_choice(m,"which"); size_t at=1+sym_choice(25,"at"); if(sym_choice(2,"cut")) sy[w]=sy[w].substr(0,at); else { sy[w][at]=h_symset(1,"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_","byte")[0]; }
  for(unsigned i=0;i<m;i++) if(i!=w) sy[i]+=char('0'+i);
#endif
  static const char *const F[]={"int %(int x);","int %;","int (*%)(int);","char %[2];"}; for(unsigned i=0;i<m;i++) for(unsigned j=i+1;j<m;j++) sym_assume(sy[i].size()!=sy[j].size()||sy[i]!=sy[j]);
  for(unsigned i=0;i<m;i++){ unsigned k=sym_choice(i<2?3:2,"kind"); std::string f=F[k]; size_t p=f.find('%'); in+=f.substr(0,p)+sy[i]+f.substr(p+1)+"\n"; }
  std::vector<std::string> use=sy; if(m>1&&sym_choice(2,"filter")){ unsigned d=sym_choice(m,"without"); use.clear(); for(unsigned i=0;i<m;i++) if(i!=d){ use.push_back(sy[i]); args.push_back("-S"); args.push_back(sy[i]); } }
  std::string p; if(use.size()>1){ for(size_t i=0;;i++){ bool all=true; for(auto &s:use) if(i>=s.size()||s[i]!=use[0][i]) all=false; if(!all) break; p+=use[0][i]; } }
  h_file("in.txt",in); Run r=h_run(args); h_observe("in",in); h_observe("err",r.err); h_assert(r.status==0,"rejected");
  size_t n=0,at2=0; for(size_t q=0;(q=r.out.find("_COMMON_PREFIX",q))!=std::string::npos;q++){ if(q>=12&&r.out.compare(q-11,11,"#define GDO")==0){ n++; at2=q; } }
  h_assert(n==1,"common prefix is not defined exactly once"); size_t e=r.out.find('\n',at2); h_assert_eq(r.out.substr(at2+14,e-at2-14)," \""+p+"\"","common prefix differs"); sym_cover(p.empty()?"none":"common");
}
