// C18: symbol filters select exactly the requested symbols; duplicates are errors
#include "ref.h"
static bool pre(const std::string &s,const std::string &p){ return s.size()>=p.size()&&s.compare(0,p.size(),p)==0; }
extern "C" void harness_main(){
  static const char W[]="ab_"; std::string in; std::vector<std::string> sy; 
  for(unsigned i=0;i<M;i++){ unsigned l=1+sym_choice(LEN,"len"); std::string n=h_symset(l,W,"sym"); sy.push_back(n); }
  static const char *const F[]={"int %(int x);","int %;","int (*%)(int);","void %(void);"}; std::vector<bool> isfn;
  for(unsigned i=0;i<M;i++){ unsigned k=(i+sym_choice(2,"kind"))%4; isfn.push_back(k==0||k==3); std::string f=F[k]; size_t p=f.find('%'); in+=f.substr(0,p)+sy[i]+f.substr(p+1)+"\n"; }
  std::vector<std::string> args={"in.txt","-template=t.tpl","-out=o.h"}, P, S; unsigned nf=sym_choice(NF+1,"filters");
  for(unsigned i=0;i<nf;i++){ bool p=sym_choice(2,"P"); std::string v=h_symset(1+sym_choice(LEN,"flen"),W,"filter"); (p?P:S).push_back(v); bool sep=SEPARG&&sym_choice(2,"sep"); if(sep){ args.push_back(p?"-P":"-S"); args.push_back(v); } else args.push_back((p?"-P":"-S")+v); }
  h_file("t.tpl",R_TPL); h_file("in.txt",in); Run r=h_run(args);
  h_observe("in",in); h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  bool ok=r_clean(r,"o.h");
  // duplicates
  for(unsigned i=0;i<M;i++) for(unsigned j=i+1;j<M;j++) if(sy[i]==sy[j]){ sym_cover("duplicate"); h_assert(!ok,"a symbol declared twice is accepted"); bool named=false; for(unsigned k=0;k<M;k++) for(unsigned l=k+1;l<M;l++) if(sy[k]==sy[l]&&h_has(r.err,("`"+sy[k]+"'").c_str())) named=true; h_assert(named,"the error does not name the symbol declared twice"); return; }
  // missing
  std::vector<std::string> miss; for(auto &x:S){ bool f=false; for(auto &y:sy) f|=x==y; if(!f) miss.push_back(x); }
  if(!miss.empty()){ sym_cover("missing"); h_assert(!ok,"a listed symbol that is not declared is not reported"); size_t p=r.err.find("not found:"); h_assert(p!=std::string::npos,"the error does not list the missing symbols"); auto ts=r_toks(r.err.substr(p+10));
    for(auto &x:miss){ bool f=false; for(auto &t:ts) f|=t==x; h_assert(f,"a missing symbol is not in the list"); } for(auto &t:ts){ bool f=false; for(auto &x:miss) f|=t==x; h_assert(f,"a declared symbol is reported as missing"); } return; }
  std::vector<unsigned> want; for(unsigned i=0;i<M;i++){ bool w=!nf; for(auto &x:P) w|=pre(sy[i],x); for(auto &x:S) w|=sy[i]==x; if(w) want.push_back(i); }
  if(want.empty()){ sym_cover("empty"); h_assert(!ok,"an empty selection is accepted"); return; }
  h_assert(ok,"a non-empty selection is rejected"); sym_cover("selected");
  auto s=r_syms(h_read("o.h")); h_assert(s.size()==want.size(),"number of selected symbols differs");
  for(unsigned i:want){ unsigned c=0; for(auto &y:s) if(y.sym==sy[i]&&y.fn==isfn[i]) c++; h_assert(c==1,"a selected symbol is not there exactly once"); }
}
