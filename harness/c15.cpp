// C15: every accepted declaration is reproduced faithfully
#include "ref.h"
static const char W[]="abvoidexternZ_09";
// a type (tokens), possibly with symbolic characters
static std::string type(unsigned k,const char *nm){
  switch(k){ case 0: return "void"; case 1: return "x"+h_symset(2,W,nm); case 2: return "const unsigned int *"; case 3: return "const struct t_"+h_symset(1,W,nm)+" * const *"; case 4: return "long"; default: return "const char *"; } }
static const char *const ARGS[]={"void","","int a","const char *fmt, ...","int (*f)(int x, char *), void *p","char b[10][N]","unsigned long const * const c, struct q *d","int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int a9, int a10, int a11","void (*cb)(void)","int *(*g)(int (*)(void)), int z","x *void_","int *externs"};
static const char *const SEP[]={""," ","\n","\t","  "};
static const char *sp(){ static unsigned k; return SEP[k++%2]; }
struct Want { bool fn; std::string type,sym,args,td; };
extern "C" void harness_main(){
  std::string in; std::vector<Want> fs,os; 
  for(unsigned i=0;i<D;i++){
    char nm[8]={'d',(char)('0'+i),0}; std::string sym="s"+std::to_string(i)+h_symset(SY,W,nm);
    nm[0]='t'; std::string ty=type(sym_choice(i?TY2:TY,nm),nm);
    nm[0]='k'; unsigned k=sym_choice(10,nm); nm[0]='a'; std::string a; if(k>=3&&k<=7) a=ARGS[sym_choice(i?AR2:AR,nm)];
    std::string tdn="gdo_"+sym+"__t"; Want w; w.sym=sym; w.fn=false; w.type=ty;
    nm[0]='e'; std::string dcl=sym_choice(2,nm)?"extern ":""; nm[0]='p'; const char *s1=SEP[sym_choice(SP,nm)];
    bool star=ty.back()=='*'; std::string g=std::string(star?s1:(*s1?s1:" "));
    switch(k){
      case 0: dcl+=ty+g+sym+s1; break;
      case 1: dcl+=ty+g+sym+s1+"["+s1+"4"+s1+"]"+s1; w.td=ty+" "+tdn+"[4]"; break;
      case 2: dcl+=ty+g+sym+"[]"+s1+"[ N ]"; w.td=ty+" "+tdn+"[][N]"; break;
      case 3: dcl+=ty+g+"("+s1+"*"+s1+sym+s1+")"+s1+"("+a+s1+")"; w.td=ty+" (*"+tdn+")("+a+")"; break;
      case 4: dcl+=ty+g+sym+s1+"("+s1+a+s1+")"+s1; w.fn=true; break;
      case 5: dcl+=ty+s1+"("+s1+sym+s1+")"+s1+"("+a+")"; w.fn=true; break;
      case 6: dcl+=ty+s1+"(*"+s1+sym+"("+s1+a+")"+s1+")"; w.fn=true; w.type=ty+" *"; break;
      case 7: dcl+=ty+s1+"(**"+sym+s1+"("+a+s1+")"+s1+")"; w.fn=true; w.type=ty+" **"; break;
      case 8: dcl+=ty+g+sym+"(("+s1+"void"+s1+"))"; w.fn=true; a="void"; break;
      case 9: dcl+=ty+g+sym+"(int"+s1+"("+s1+"("+s1+"*cb"+s1+")"+s1+")(int), char"+" "+s1+"z)"; w.fn=true; a="int (*cb)(int), char z"; break; }
    if(w.fn){ w.args=a.empty()?"void":a; fs.push_back(w); } else { os.push_back(w); }
    in+=dcl+";"+(i+1<D?SEP[sym_choice(3,"sep")]:"\n");
  }
  h_observe("in",in);
  h_file("t.tpl",R_TPL); h_file("in.txt",in);
  Run r=h_run({"in.txt","-template=t.tpl","-out=o.h","-param=skip"});
  h_observe("status",std::to_string(r.status)); h_observe("err",r.err);
  h_assert(r_clean(r,"o.h"),"a supported declaration is rejected");
  std::string o=h_read("o.h"); h_observe("o",o); auto s=r_syms(o);
  h_assert(s.size()==fs.size()+os.size(),"number of declarations differs");
  size_t k=0;
  for(auto &w:fs){ Sym &y=s[k++]; h_assert(y.fn,"a function is missing"); h_assert_eq(y.sym,w.sym,"function name differs"); h_assert_eq(r_norm(y.type),r_norm(w.type),"return type differs"); std::string g=r_norm(y.args); if(g.empty()) g="void "; h_assert_eq(g,r_norm(w.args),"parameters differ"); sym_cover("function"); }
  bool td=false;
  for(auto &w:os){ Sym &y=s[k++]; h_assert(!y.fn,"an object is missing"); h_assert_eq(y.sym,w.sym,"object name differs"); if(w.td.empty()) h_assert_eq(r_norm(y.type),r_norm(w.type),"object type differs"); else { td=true; h_assert_eq(y.type,"gdo_"+w.sym+"__t","typedef name differs"); } sym_cover("object"); }
  if(!td) return;
  // the typedefs themselves
  r=h_run({"in.txt","-print-symbols","-param=skip"}); h_observe("print",r.out);
  h_assert(r.status==0,"-print-symbols fails"); std::vector<std::string> t; for(auto &l:r_lines(r.out)) if(l.compare(0,8,"typedef ")==0){ h_assert(l.back()==';',"typedef without end"); t.push_back(l.substr(8,l.size()-9)); }
  k=0; for(auto &w:os) if(!w.td.empty()){ h_assert(k<t.size(),"typedef missing"); h_assert_eq(r_norm(t[k]),r_norm(w.td),"typedef differs from the declared type"); k++; }
  h_assert(k==t.size(),"number of typedefs differs"); sym_cover("typedef");
}
