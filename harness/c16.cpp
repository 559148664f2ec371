// C16: any input ends in output or a clean error
#include "ref.h"
static void judge(const std::string &in,bool plain,const char *mode){
  h_file("t.tpl",R_TPL); h_file("in.txt",in);
  Run r=h_run({"in.txt","-template=t.tpl","-out=o.h",mode});
  h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  if(!r_clean(r,"o.h")){ sym_cover("rejected"); return; }
  std::string o=h_read("o.h"); h_observe("o",o);
  auto s=r_syms(o); h_assert(!s.empty(),"succeeded without any declaration"); sym_cover("accepted");
  if(!plain) return;
  auto d=r_input(in);
  h_assert(d.size()==s.size(),"number of declarations differs from the input");
  for(auto &x:d) h_assert(x.kind!=0,"text that is no declaration was accepted");
  size_t k=0;
  for(int fn=1;fn>=0;fn--) for(auto &x:d) {
    if(x.kind==9) { if(d.size()>1) return; }
    else if((x.kind==4)!=(fn==1)) continue;
    if(k>=s.size()) return;   // only with undecided kinds
    Sym &y=s[k++];
    if(x.kind==9){ if(y.fn) h_assert_eq(r_flat(y.type+" "+y.sym+" "+y.args),r_flat(x.all),"tokens of the declaration changed"); continue; }
    h_assert(y.fn==(fn==1),"kind of a declaration changed"); h_assert_eq(y.sym,x.sym,"name of a declaration changed");
    if(x.kind==4){ h_assert_eq(r_norm(y.type),x.type,"return type changed"); h_assert_eq(r_flat(y.args),r_flat(x.args),"parameters changed"); }
    if(x.kind==1) h_assert_eq(r_norm(y.type),x.type,"object type changed");
  }
}
extern "C" void harness_main(){
#if MODE==0      // the whole file is arbitrary bytes
  judge(h_symbytes(N,"bytes"),false,"-param=skip");
#elif MODE==1    // arbitrary bytes inside a declaration
  std::string b=h_symbytes(N,"bytes"); judge("int foo"+b+"(char *a);\n",false,"-param=skip");
#elif MODE==2    // plain tokens only, within different surroundings
  static const char *const pre[]={"","int foo(","int *foo","int (*foo","int foo(int a,","int foo[","int (foo","a b * c d e f ","a b c d e ("}; static const char *const post[]={";","(char *a);",")(int a);","","; int bar(void);"};
  unsigned a=sym_choice(9,"before"),z=sym_choice(5,"after"); std::string b=h_symset(N," a1_;(*,)[].","tokens");
  judge(pre[a]+b+post[z],true,"-param=skip");
#elif MODE==3
  static const char *const md[]={"-param=read","-param=create"};
  std::string b=h_symset(N," a;(*,)[].","tokens"); judge("int foo(int b"+b+"(char *a) c);\n",true,md[sym_choice(2,"mode")]);
#elif MODE==4    // stray braces and type blocks
  std::string b=h_symset(N,"{};=a (","tokens"); std::string pre=sym_choice(2,"before")?"int foo":"struct foo "; 
  std::string in=pre+b+"; int bar(void);\n"; judge(in,false,"-param=skip");
#elif MODE==5    // comments, literals and preprocessor lines
  std::string b=h_symset(N,"/*\\\n#\"' a;","tokens"); judge("int foo(int a); "+b+" int bar(void);\n",false,"-param=skip");
#elif MODE==6    // %option lines
  std::string b=h_symset(N,"%= \n\\\tDx","tokens"); judge(std::string(sym_choice(2,"before")?"%option":"%option D=y param=")+b+"\nint foo(int a);\n",false,"-param=skip");
#endif
}
